import core, corpus
from common import *

CODECS = ALL_CODECS + ["voronoi(1)", "voronoi(5000)", "cluster-colors(1)", "cluster-colors(5000)", "hilbert(rle(0.5))"]


def images(ctx):
    rng = ctx.rng
    imgs = generated_images(ctx, maxpx=ctx.pick(4, 6))
    for w, h in [(1, 1), (2, 2), (5, 4), (12, 9), (33, 1), (1, 30), (20, 21)]:
        imgs.append(("const", corpus.constant(w, h), False))
        imgs.append(("noise", corpus.noise(rng, w, h), False))
        imgs.append(("few", corpus.few(rng, w, h, 4), False))
        imgs.append(("blocks", corpus.blocks(rng, w, h), False))
    for l in ([255], [256], [254, 1], [510], [511, 3]):
        imgs.append(("runs", corpus.runs(l), False))
    for n in range(1, 12):
        imgs.append(("codes", corpus.freqs([1] * n, rng), False))       # every number of bits in the last byte
        imgs.append(("codes", corpus.freqs(corpus.fib(n), rng), False))
    for _ in range(ctx.pick(20, 200)):
        w, h = rng.randrange(1, 14), rng.randrange(1, 14)
        imgs.append(("random", corpus.few(rng, w, h, rng.randrange(1, 9)), False))
    return imgs


def run(ctx):
    core.model_check(ctx, "MCSession")
    core.model_check(ctx, "MCSessionBytes")
    imgs = images(ctx)
    back_to_back(ctx, imgs)
    with_tails(ctx, imgs)


def area(img):
    w, h = map(int, img.split(":")[1:3])
    return w * h


def back_to_back(ctx, imgs):
    rng = ctx.rng
    jobs, meta = [], []
    small = [i[1] for i in imgs]
    tails = ["", "00", "ff" * 40, "03000000000000000102030405", bytes(rng.randrange(256) for _ in range(100)).hex()]
    seqs = []
    for a in CODECS:
        for b in CODECS:
            seqs.append([(a, rng.choice(small)), (b, rng.choice(small))])
    for a in CODECS:
        for _ in range(ctx.pick(8, 60)):
            seqs.append([(a, rng.choice(small)) for _ in range(rng.randrange(2, 6))])
    for _ in range(ctx.pick(150, 2000)):
        seqs.append([(rng.choice(CODECS), rng.choice(small)) for _ in range(rng.randrange(2, 8))])
    big = [corpus.noise(rng, 90, 80), corpus.few(rng, 120, 130, 30), corpus.constant(300, 200), corpus.blocks(rng, 200, 150)]
    exact = [c for c in CODECS if is_lossless(c)]
    for _ in range(ctx.pick(6, 40)):
        seqs.append([(rng.choice(exact), rng.choice(big)) for _ in range(3)])
    vast = [i for _, i, _ in corpus.vast(ctx)]
    for c in exact:
        seqs.append([(c, rng.choice(vast[:2])), (rng.choice(exact), rng.choice(small)), (c, rng.choice(big))])
    for s in seqs:
        jobs.append(("concat", dict(items=";".join("%s|%s" % (core.h(c), i) for c, i in s), tail=rng.choice(tails))))
        meta.append([c for c, i in s])
    res = run_codec_jobs(ctx, jobs)
    traces = []
    for m, (op, kv), r in zip(meta, jobs, res):
        j = dict(op="concat", codecs=m, items=kv["items"][:5000], tail=kv["tail"])
        if died(r):
            raise Violation("decoding streams written back to back " + died(r), dict(job=j, result=r))
        if r["enc"] != "ok":
            raise Violation("encoding several images into one output gave %s" % r["enc"], dict(job=j, result=r))
        t = Trace()
        prev = 0
        for c, o in zip(m, r["items"]):
            t.add(op="enc", c=t.codec(c, is_lossless(c)), i=t.img(o["ow"], o["oh"], o["odig"]), n=o["end"] - prev)
            prev = o["end"]
        prev = 0
        for c, o in zip(m, r["items"]):
            if o["dec"] == "panic":
                raise Violation("%s panicked on a stream in the middle of others: %s" % (c, o.get("decmsg")), dict(job=j, result=r))
            t.add(op="dec", out=t.img(o["dw"], o["dh"], o["ddig"]) if o["dec"] == "some" else 0, used=o["used"] - prev)
            prev = o["used"]
        ctx.note("streams_back_to_back", len(m))
        ctx.sample(dict(codecs=m, bytes=prev))
        traces.append(t.get(_job=j))
    core.validate(ctx, "SessionTrace", traces, "streams back to back")


def with_tails(ctx, imgs):
    """What follows a stream doesn't matter, be it the most misleading bytes"""
    rng = ctx.rng
    sel = imgs if ctx.thorough else imgs[::3] + imgs[-60:]
    jobs = rt_jobs(CODECS, [i for i in sel if area(i[1]) < 500], nostream=False)
    res = run_codec_jobs(ctx, [j[2] for j in jobs])
    second, meta = [], []
    for (codec, tag, job), r in zip(jobs, res):
        j = dict(codec=codec, img=job[1]["img"][:3000])
        if died(r) or r["enc"] != "ok" or r["dec"] == "panic":
            raise Violation("%s: no round trip" % codec, dict(job=j, result=r))
        st = r["stream"]
        for tail in ("00", "01", "ff" * 16, st, "0a0300000000000000ffffff" * 2, "ffff0000", "0500" + "aa" * 5, "06800600"):
            second.append(("decode", dict(codec=core.h(codec), stream=st + tail)))
            meta.append((codec, r, j, tail))
    res2 = ctx.drv.run(second)
    traces = {}
    for (codec, r, j, tail), d in zip(meta, res2):
        if died(d) or d["dec"] == "panic":
            raise Violation("%s fails on a stream followed by other bytes" % codec, dict(job=j, tail=tail, result=d))
        k = id(r)
        if k not in traces:
            t = traces[k] = Trace()
            t.job = j
            t.add(op="enc", c=t.codec(codec, is_lossless(codec)), i=t.img(r["ow"], r["oh"], r["opix"]), n=r["len"])
            t.ref = t.img(r["dw"], r["dh"], r["dpix"]) if r["dec"] == "some" else 0
            t.add(op="dec", out=t.ref, used=r["used"])
        t = traces[k]
        t.add(op="rewind")
        t.add(op="dec", out=t.img(d["dw"], d["dh"], d["dpix"]) if d["dec"] == "some" else 0, used=d["used"], ref=t.ref)
        ctx.note("streams_with_a_tail")
    core.validate(ctx, "SessionTrace", [t.get(_job=t.job) for t in traces.values()], "streams followed by other bytes")
