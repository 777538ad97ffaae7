import os
import core, corpus, cli, bench
from common import *

ASSUMPTIONS = ["an image counts as reported when the error output has at least one line for it"]


def bad_files(rng):
    return rng.choice([b"", b"P6\n", b"P6\n3 3\n255\nabc", b"\x89PNG\r\n\x1a\n", b"not an image at all", b"P6\n0 0\n255\n", b"P6\n0 3\n255\n", b"P6\n3 0\n255\n", b"P6\n4294967295 4294967295\n255\n", None,
                       cli.png(corpus.constant(3, 3))[:-30], b"\xff\xd8\xff\xe0garbage"])


def real(ctx):
    """Runs of the command line over good and bad files"""
    rng = ctx.rng
    traces = []
    codecs = bench.DETERMINISTIC + bench.CLUSTER
    for n in range(ctx.pick(50, 400)):
        codec = codecs[n % len(codecs)]
        files = []
        strange = rng.choice((None, 0, 1, 2))
        # now and then very many, most of them good
        many = (300, 130, 700)[n // 17 % 3] if n % 17 == 5 else 0
        for k in range(many or rng.choice((1, 2, 3, 6, 12, 30))):
            w, h = rng.randrange(1, 9), rng.randrange(1, 9)
            img = rng.choice((corpus.constant(w, h), corpus.noise(rng, w, h), corpus.few(rng, w, h, 3)))
            what = rng.choice(("", "", "open", "save", "odd") if not many or k % 20 == 3 else ("", "odd"))
            name = "i%d.ppm" % k if k != strange else "\udc80i\udcff%d.ppm" % k
            if what == "open":
                # (a "picture" that isn't one may have any extension)
                files.append((rng.choice(("i%d.ppm", "i%d.png", "i%d.jpg", "i%d.xyz", "i%d", "missing/i%d.ppm", "i\udcff%d.ppm")) % k, bad_files(rng), None, "open"))
            elif what == "odd":
                fmt, img = rng.choice(corpus.formats(rng, w, h))
                files.append(("i%d.png" % k, cli.png(img), img, ""))
            else:
                files.append((name, cli.ppm(img), img, what))
        t = bench.real_run(ctx, codec, files, threads=rng.choice((1, 2, 8)))
        traces.append(t)
        ctx.sample(dict(codec=codec, files=len(files), rows=len(t["rows"]), errors=t["errors"]))
    core.validate(ctx, "BenchTrace", traces, "run with bad images")
    ctx.note("bad_images", sum(p["o"] in ("open", "save") for t in traces for p in t["plan"]))


def alone(ctx):
    """Each image of a run on its own gives the same row"""
    rng = ctx.rng
    traces = []
    for codec in ["hufman", "zip(back)", "hilbert(rle(10))", "voronoi(1)"] + ctx.pick([], ["delta", "zip(dict)", "hilbert(zip)", "hilbert(rle)"]):
        files = []
        for k in range(5):
            w, h = rng.randrange(1, 9), rng.randrange(1, 9)
            img = corpus.few(rng, w, h, 4)
            files.append(("i%d.ppm" % k, cli.ppm(img), img, ""))
        files.insert(2, ("bad.ppm", b"garbage", None, "open"))
        both = bench.real_run(ctx, codec, files)
        traces.append(both)
        for f in files:
            one = bench.real_run(ctx, codec, [f])
            traces.append(one)
            if f[2] is not None:
                r1 = [r for r in both["rows"] if both["plan"][r["t"] - 1] == one["plan"][0]]
                if not any({k: v for k, v in r.items() if k != "t"} == {k: v for k, v in one["rows"][0].items() if k != "t"} for r in r1 if one["rows"]):
                    raise Violation("%s: the row of an image depends on the others of the run" % codec, dict(image=f[2], alone=one["rows"], together=both["rows"]))
    core.validate(ctx, "BenchTrace", traces, "image alone or with others")


def run(ctx):
    core.model_check(ctx, "MCBench")
    if ctx.thorough:
        core.model_check(ctx, "MCBench", defs=dict(Tasks=4, Threads=2, Outcomes='{"ok", "save", "enc"}'))
    core.model_refute(ctx, "MCBench", cfg="MCBenchEarly", kind="invariant GoodReport")
    if ctx.has("bench"):
        for tasks, threads, num in ((1, 1, 30), (2, 2, 150), (3, 3, 300), (5, 5, 300), (8, 8, 60)):
            bench.scripted(ctx, bench.behaviours(ctx, num * ctx.pick(1, 10), tasks, threads), 8, "run with failures")
        for threads in (1, 2):
            bench.scripted(ctx, bench.behaviours(ctx, ctx.pick(100, 1000), 6, 2), threads, "run with failures, free", gates=False)
    real(ctx)
    alone(ctx)
