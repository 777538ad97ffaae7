"""Benchmark runs, scripted and real, as traces of Bench."""
import csv, io, os, decimal
import core, corpus, cli
from common import *

HEADER = ["name", "compressed_size", "compression_ratio", "error"]
TWIDTH, EWIDTH = 12, 16


def digits(text, width):
    """(digits, how many before the point): of a plain or scientific decimal"""
    try:
        d = decimal.Decimal(text)
    except decimal.InvalidOperation:
        return [], -1
    if not d.is_finite() or d.is_signed() and d != 0:
        return [], -1
    s = "{:f}".format(abs(d))
    a, _, b = s.partition(".")
    a = a.lstrip("0")
    if len(a) > width:
        return [], -1
    return [int(c) for c in a.rjust(width, "0") + b][:width + 60], width


def read_report(data, names):
    """head, rows, junk of a report; names: {name: task}"""
    if data is None:
        return 0, [], 1
    try:
        lines = list(csv.reader(io.StringIO(data.decode(), newline="")))
    except (UnicodeDecodeError, csv.Error):
        return 0, [], 1
    junk = 0
    if data and not data.endswith(b"\n"):
        junk += 1
    head = int(bool(lines) and lines[0] == HEADER)
    rows = []
    for l in lines[head:]:
        if len(l) != 4 or l == HEADER:
            junk += 1
            continue
        size = int(l[1]) if l[1].isdigit() and len(l[1]) < 10 else -1
        ratio, rw = digits(l[2], TWIDTH)
        error, ew = digits(l[3], EWIDTH)
        rows.append(dict(t=names.get(l[0], 0), size=size, ratio=ratio, error=error, rw=rw, ew=ew))
    return head, rows, junk


def scripted_image(rng, who, large):
    w, h = (rng.randrange(100, 130), rng.randrange(90, 110)) if large else (rng.randrange(1, 7), rng.randrange(1, 7))
    px = [(who, 0, rng.choice((0, 255, rng.randrange(256))))] + [tuple(rng.choice((0, 255, rng.randrange(256))) for _ in range(3)) for _ in range(w * h - 1)]
    return w, h, px


def pack(px):
    return [c[0] << 16 | c[1] << 8 | c[2] for c in px]


def off_by_one(px):
    c = list(px[-1])
    c[2] = 1 if c[2] == 0 else c[2] - 1
    return px[:-1] + [tuple(c)]


class Scripted:
    """A job for the scripted codec"""
    def __init__(self, ctx, s, behaviour, gates=True, reps=1, rally=0, tiny=False):
        rng = ctx.rng
        self.b = behaviour
        self.scratch = s
        self.plan, self.names, plans, paths = [], {}, [], []
        for n, o in enumerate(behaviour["plan"]):
            who = n + 1
            w, h, px = scripted_image(rng, who, o != "open" and rng.random() < 0.015)
            if tiny and o != "open":
                w, h, px = 1, 1, px[:1]
            size = rng.choice((2, 3, 17, 1000, 70000, rng.randrange(2, 3000)))
            # "names" of the pictures must differ in their stem
            name = rng.choice(("i%d.ppm", "sub/i%d.ppm", "./i%d.ppm", "a b%d.ppm", "x\"%d.ppm", "x.y%d.ppm", "\u00e9%d.ppm")) % who
            if o != "open":
                s.ppm(name, corpus.spec(w, h, px))
            elif rng.random() < 0.5:
                s.write(name, rng.choice((b"", b"P6\n2 2\n255\n12", b"garbage")))
            if o == "save":
                os.makedirs(s.path("output/" + os.path.splitext(os.path.basename(name))[0] + ".png"))
            bad = off_by_one(px)
            self.names[name] = who
            self.plan.append(dict(o=o, w=w, h=h, size=size, px=pack(px), dpx=pack(bad) if o in ("diff", "save") else pack(px)))
            plans.append("%d:%s%s%d" % (who, "e" if o == "enc" else "o", "n" if o == "dec" else "d" if o in ("diff", "save") else "s", size))
            paths.append(name)
        self.stems = {os.path.splitext(os.path.basename(n))[0] + ".png": t for n, t in self.names.items()}
        if rng.random() < 0.3:
            # what an earlier run left
            s.write("output/scripted.csv", b"name,compressed_size,compression_ratio,error\n" + b"old.ppm,1,1.0,1.0\n" * 50)
        self.job = ("bench", dict(dir=s.dir, name="scripted", lossless=behaviour["lossless"], plans=",".join(plans), paths=",".join(paths),
                                  gates=",".join("%d%s" % (t, k) for t, k in behaviour["ev"]) if gates else "", reps=reps, rally=rally))

    def traces(self, r):
        j = dict(self.job[1], op="bench", names=self.names)
        if died(r):
            raise Violation("the benchmark " + died(r), dict(job=j, result=r))
        for o in r["reps"]:
            if o["out"] != "ok":
                raise Violation("the benchmark run doesn't complete: %s %s" % (o["out"], o.get("msg")), dict(job=j, result=o))
            head, rows, junk = read_report(bytes.fromhex(o["csv"]), self.names)
            pics = []
            for n, data in o["pngs"]:
                p = cli.read_png(bytes.fromhex(data))
                t = self.stems.get(n, 0)
                if p is None or not t:
                    junk += 1
                    continue
                w, h, ch, d = p
                pics.append(dict(t=t, w=w, h=h, px=pack([d[k:k + 3] for k in range(0, len(d), ch)])))
            yield dict(lossless=self.b["lossless"], out=o["out"], plan=self.plan, head=head, rows=rows, junk=junk, errors=-1, pics=pics,
                       _gated=o["gated"], _job=dict(j, report=bytes.fromhex(o["csv"]).decode(errors="replace")[:3000], log=o["log"]))


def scripted(ctx, behaviours, threads, what, gates=True, reps=1, rally=0, jobtime=60.0, tiny=False):
    """Replay behaviours of Bench into the code"""
    drv = core.Driver(ctx.binary, jobtime=jobtime, env=dict(RAYON_NUM_THREADS=str(threads)))
    scratch = cli.Scratch("scripted", output=False)
    subs = []
    for k, b in enumerate(behaviours):
        s = cli.Scratch("b%d" % k)
        subs.append(Scripted(ctx, s, b, gates, reps, rally, tiny))
    res = drv.run([s.job for s in subs], **(dict(shards=1) if tiny else {}))
    ctx.drv.count += drv.count
    traces, gated = [], 0
    for s, r in zip(subs, res):
        for t in s.traces(r):
            gated += t["_gated"]
            traces.append(t)
        s.scratch.__exit__()
        ctx.sample(dict(plan=s.b["plan"], schedule=["%d%s" % (t, k) for t, k in s.b["ev"]] if gates else "free", threads=threads))
    if gates:
        ctx.note("schedules_replayed", len(traces))
        ctx.note("schedules_followed_to_the_end", gated)
    else:
        ctx.note("free_runs", len(traces))
    scratch.__exit__()
    core.validate(ctx, "BenchTrace", traces, what, chunk=3000)


# ---------------------------------------------------------------- the real command line

DETERMINISTIC = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(10))", "hilbert(rle(0.5))",
                 "voronoi(6)", "voronoi(1)", "voronoi(100000)"]
CLUSTER = ["cluster-colors(5)", "ccol(1)", "c-col(5000)"]


STALE = cli.png(corpus.spec(40, 30, [(k % 256, k % 7, k % 91) for k in range(1200)]))


class Tasks:
    """Which image a row is about: the first row of a name is about the first image
    of this name, and so on. How a name that isn't valid Unicode is shown is open."""
    def __init__(self, files):
        self.names = {}
        for k, f in enumerate(files):
            name = "" if any("\udc80" <= c <= "\udcff" for c in f[0]) else f[0]
            if f[2] is not None:
                self.names.setdefault(name, []).append(k + 1)

    def get(self, name, default):
        return next((x for x in (self.names.get(n, []) for n in (name, "")) if x), [default]).pop(0)


def real_run(ctx, codec, files, threads=None, stale=0.0):
    """One run of the command line over (name, bytes, image or None, kind); kind:
    "" an image, "open" not readable, "save" its picture can't be written.
    Returns the trace, with what the driver says of each image on its own."""
    good = [f for f in files if f[2] is not None]
    rts = dict(zip([f[0] for f in good], run_codec_jobs(ctx, [("rt", dict(codec=core.h(codec), img=f[2], nostream=1)) for f in good])))
    lossless = 0
    plan, names, stems = [], Tasks(files), {}
    with cli.Scratch("real") as s:
        for k, (name, data, img, kind) in enumerate(files):
            stem = os.path.splitext(os.path.basename(name))[0]
            stems.setdefault(stem + ".png", []).append(k + 1)
            if data is not None:
                s.write(name, data)
            if img is None:
                plan.append(dict(o="open", w=1, h=1, size=-1, px=[], dpx=[]))
                continue
            r = rts[name]
            j = dict(codec=codec, img=img[:3000])
            if died(r) or r["enc"] != "ok" or r.get("dec") != "some":
                raise Violation("%s doesn't get through the image: %s" % (codec, died(r) or r.get("encmsg") or r.get("decmsg")), dict(job=j, result=short(r, 2000)))
            lossless = r["lossless"]
            a, b = packed(r["opix"]), packed(r["dpix"])
            # equally good clusters may be chosen anew in each run
            n = int(codec[codec.index("(") + 1:-1]) if codec in CLUSTER or codec.startswith("voronoi") else 0
            sure = codec in DETERMINISTIC and (n <= 1 or n >= len(a))
            if sure:
                differs = a != b
            elif codec in CLUSTER:
                differs = n < len(set(a))
            else:
                differs = None
            if ctx.rng.random() < stale and kind != "save":
                s.write("output/" + stem + ".png", STALE)   # of an earlier run
            if kind == "save" and differs:
                if ctx.rng.random() < 0.5:
                    os.makedirs(s.path("output/" + stem + ".png"))
                else:   # a full disk
                    os.symlink("/dev/full", s.path("output/" + stem + ".png"))
            plan.append(dict(o="?" if differs is None else "ok" if not differs else kind or "diff", w=r["ow"], h=r["oh"],
                             size=r["len"] if codec in DETERMINISTIC or not differs else -1, px=a,
                             dpx=b if sure else []))
        r = s.run(ctx, ["--codec=" + codec] + [f[0] for f in files], threads=threads)
        j = dict(codec=codec, files=[(f[0], (f[2] or "unreadable")[:400]) for f in files], threads=threads, status=r.code, stderr=r.err[-2000:])
        csvs = [f for f in s.files() if f.endswith(".csv")]
        known = [x["name"] for x in rts.values()] or csvs[:1] and [csvs[0][:-4]]
        expected = (known[0] if known else "") + ".csv"
        data = s.read("output/" + expected)
        head, rows, junk = read_report(data, names)
        if csvs != [expected]:
            junk += 1
            j["reports"] = [csvs, expected]
        pics = []
        for f in s.files():
            if not f.endswith(".png") or os.path.isdir(s.path("output/" + f)) or os.path.islink(s.path("output/" + f)):
                continue
            if stale and s.read("output/" + f) == STALE:
                continue   # left alone
            p = cli.read_png(s.read("output/" + f))
            if p is None or f not in stems:
                junk += 1
                j["picture"] = [f, s.read("output/" + f).hex()[:4000]]
                continue
            w, h, ch, d = p
            for t in stems[f]:
                pics.append(dict(t=t, w=w, h=h, px=pack([d[k:k + 3] for k in range(0, len(d), ch)])))
        for k, p in enumerate(plan):
            if p["o"] == "?":
                p["o"] = "diff" if any(c["t"] == k + 1 for c in pics) else "ok"
        errors = len([l for l in r.err.splitlines() if l.strip() and not l.startswith("Saved to ")])
        j["report"] = (data or b"<none>").decode(errors="replace")[:3000]
        return dict(lossless=lossless, out="ok" if r.code == 0 else "status %d" % r.code, plan=plan, head=head, rows=rows, junk=junk, errors=errors,
                    pics=pics, _job=j)


def behaviours(ctx, num, tasks, threads, some=False, seed=None):
    return core.generate(ctx, "BenchGen", defs=dict(Tasks=tasks, Threads=threads), simulate=num, seed=seed or ctx.rng.randrange(1 << 30),
                         depth=40 * tasks)
