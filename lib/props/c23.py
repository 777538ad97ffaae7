import core, corpus
from common import *

# codec, the stream is determined, its length is, the decoded image is
CODECS = [("hufman", 0, 1, 1), ("delta", 0, 1, 1), ("zip(dict)", 1, 1, 1), ("zip(back)", 1, 1, 1), ("hilbert(rle)", 1, 1, 1),
          ("hilbert(zip)", 1, 1, 1), ("hilbert(rle(10))", 1, 1, 1), ("cluster-colors(1)", 1, 1, 1), ("cluster-colors(5000)", 0, 1, 1),
          ("cluster-colors(4)", 0, 0, 0), ("voronoi(1)", 1, 1, 1), ("voronoi(5000)", 0, 1, 1), ("voronoi(3)", 0, 1, 0)]


# those whose results are determined, and quick, whatever the image
CHEAP = [0, 1, 2, 3, 4, 5, 6, 7, 10]


def is_large(g):
    return any(int(i.split(":")[1]) * int(i.split(":")[2]) > 1000 for i in g)


def groups(ctx):
    """Images that are easily mistaken for one another, or leave a lot behind"""
    rng = ctx.rng
    g = [[corpus.few(rng, 9, 7, 3), corpus.few(rng, 7, 9, 3), corpus.few(rng, 9, 7, 3)],
         [corpus.constant(5, 5), corpus.noise(rng, 5, 5), corpus.constant(5, 5, (7, 8, 10))],
         [corpus.runs([255, 3]), corpus.runs([3, 255]), corpus.runs([1])],
         [corpus.noise(rng, 20, 20), corpus.gradient(20, 20), corpus.constant(1, 1)],
         [corpus.freqs(corpus.fib(9), rng), corpus.freqs([1] * 9, rng), corpus.freqs([9, 1, 1], rng)]]
    # large ones, with the same number of pixels
    g += [[corpus.noise(rng, 40, 30), corpus.noise(rng, 30, 40), corpus.noise(rng, 60, 20)],
          [corpus.few(rng, 128, 70, 5), corpus.few(rng, 70, 128, 5), corpus.noise(rng, 64, 140)]]
    if ctx.thorough:
        for _ in range(10):
            g.append([corpus.few(rng, rng.randrange(1, 20), rng.randrange(1, 20), rng.randrange(1, 12)) for _ in range(3)])
    return g


def fresh_results(ctx, gs):
    """Each codec on each image, in a process of its own"""
    jobs, meta = [], []
    for gi, g in enumerate(gs):
        for ci, c in enumerate(CODECS):
            if is_large(g) and ci not in CHEAP:
                continue
            for ii, img in enumerate(g):
                jobs.append(("hist", dict(codecs=core.h(c[0]), imgs=img, threads="e0.0,d0.0")))
                meta.append((gi, ci, ii))
    res = []
    for part in batch(jobs, 48):
        rr = ctx.drv.run(part, shards=len(part))
        res += rr
    table = {}
    for (gi, ci, ii), r in zip(meta, res):
        if died(r) or len(r["log"]) != 2 or r["log"][0]["out"] != "ok" or r["log"][1]["dec"] != "some":
            raise Violation("%s: no round trip in a fresh process" % CODECS[ci][0], dict(image=gs[gi][ii][:3000], result=r))
        e, d = r["log"]
        c = CODECS[ci]
        table[(gi, ci, ii)] = dict(len=e["len"] if c[2] else 0, dig=e["dig"] if c[1] else "", img=d["ddig"] if c[3] else "",
                                   w=d["dw"], h=d["dh"])
    ctx.note("fresh_processes", len(jobs))
    return table


def run(ctx):
    core.model_check(ctx, "MCHistory", defs=dict(MaxCalls=ctx.pick(3, 4)))
    for bad in ("Shared", "Leaky"):
        if core.tlc("MCHistory", defs={bad: "TRUE"}).ok:
            raise core.ToolError("MCHistory accepts calls that share their scratch area: " + bad)
    rng = ctx.rng
    gs = groups(ctx)
    table = fresh_results(ctx, gs)
    jobs, meta = [], []

    def add(gi, cs, scripts):
        if is_large(gs[gi]):
            cs = [c if c in CHEAP else CHEAP[c % len(CHEAP)] for c in cs]

        def step(o, c, i):
            # those that must fail get fewer bytes than there are (at least the dimensions)
            n = table[(gi, cs[c - 1], i - 1)]["len"] or 8
            n = rng.choice((n - 1, rng.randrange(n), rng.randrange(n), max(0, n - 5)))
            return "%s%d.%d" % (o, c - 1, i - 1) + (".%d" % n if o in "xt" else "")
        th = ";".join(",".join(step(o, c, i) for o, c, i in s) for s in scripts)
        jobs.append(("hist", dict(codecs=";".join(core.h(CODECS[c][0]) for c in cs), imgs=";".join(gs[gi]), threads=th)))
        meta.append((gi, cs))
    # all the sequences of three calls on one object
    one = core.generate(ctx, "HistoryGen", defs=dict(NCodecs=1, NImages=3, Calls=3))
    for ci in range(len(CODECS)):
        for n, b in enumerate(one):
            add((ci + n) % len(gs), [ci], b)
    # longer ones on several objects, two of them of the same kind
    many = core.generate(ctx, "HistoryGen", defs=dict(NCodecs=3, NImages=3, Calls=12), simulate=ctx.pick(150, 1500), depth=60, seed=ctx.seed)
    for n, b in enumerate(many):
        cs = [rng.randrange(len(CODECS)) for _ in range(3)]
        if n % 2:
            cs[1] = cs[0]
        add(n % len(gs), cs, b)
    # several threads
    par = core.generate(ctx, "HistoryGen", defs=dict(NThreads=4, NCodecs=2, NImages=3, Calls=8), simulate=ctx.pick(150, 2000), depth=100, seed=ctx.seed)
    for n, b in enumerate(par):
        a = n % len(CODECS)
        add(n % len(gs), [a, a if n % 3 else rng.randrange(len(CODECS))], b)
    # with calls that fail
    for kw in (dict(NThreads=1, NCodecs=1, NImages=2, Calls=3, Faults="TRUE"), ):
        broken = core.generate(ctx, "HistoryGen", defs=kw)
        for ci in range(len(CODECS)):
            for n, b in enumerate(broken):
                if ci in CHEAP or n % 3 == 0:
                    add((ci + n) % len(gs), [ci], b)
    for kw in (dict(NThreads=1, NCodecs=2, NImages=3, Calls=10), dict(NThreads=3, NCodecs=2, NImages=3, Calls=8)):
        mixed = core.generate(ctx, "HistoryGen", defs=dict(kw, Faults="TRUE"), simulate=ctx.pick(150, 1500), depth=60, seed=ctx.seed)
        for n, b in enumerate(mixed):
            a = n % len(CODECS)
            add(n % len(gs), [a, a if n % 2 else rng.randrange(len(CODECS))], b)
    res = ctx.drv.run(jobs)
    traces = []
    for (gi, cs), (op, kv), r in zip(meta, jobs, res):
        names = [CODECS[c][0] for c in cs]
        j = dict(op="hist", codecs=names, imgs=kv["imgs"][:3000], threads=kv["threads"])
        if died(r):
            raise Violation("a history of calls " + died(r), dict(job=j, result=r))
        if "log" not in r:
            raise Violation("a codec is not available", dict(job=j, result=r))
        ev = []
        for e in r["log"]:
            if e["op"] == "enc":
                if e["out"] != "ok":
                    raise Violation("%s: encoding gave %s after other calls: %s" % (names[e["c"]], e["out"], e.get("msg")), dict(job=j, log=r["log"]))
                ev.append(dict(op="enc", c=e["c"] + 1, i=e["i"] + 1, len=e["len"], dig=e["dig"]))
            elif e["op"] == "encx":
                ev.append(dict(op="encx", c=e["c"] + 1, i=e["i"] + 1, out=e["out"]))
            elif e["op"] == "dect":
                ev.append(dict(op="dect", c=e["c"] + 1, i=e["i"] + 1, out=e["dec"]))
            else:
                if e["dec"] != "some":
                    raise Violation("%s: decoding gave %s after other calls" % (names[e["c"]], e["dec"]), dict(job=j, log=r["log"]))
                ev.append(dict(op="dec", c=e["c"] + 1, i=e["i"] + 1, w=e["dw"], h=e["dh"], img=e["ddig"]))
        fresh = [[table[(gi, c, i)] for i in range(3)] for c in cs]
        traces.append(dict(fresh=fresh, ev=ev, _job=j))
        ctx.note("calls", len(ev))
        ctx.sample(dict(codecs=names, threads=kv["threads"][:200], calls=len(ev)))
    core.validate(ctx, "HistoryTrace", traces, "histories of calls", chunk=3000)
