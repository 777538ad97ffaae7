import os
import core, corpus, cli, bench, metrics
from common import *

ASSUMPTIONS = ["a picture with the bytes that an earlier run left counts as not written"]


def images(ctx):
    rng = ctx.rng
    res = []
    for w, h in [(1, 1), (1, 2), (2, 1), (1, 9), (9, 1), (4, 4), (13, 7), (7, 13), (100, 100), (257, 3), (3, 257), (333, 1)] * ctx.pick(3, 12):
        n = w * h
        res.append((w, h, rng.choice((rng.randbytes(3 * n), bytes(3 * n), b"\xff" * (3 * n), bytes(rng.choice((0, 1, 254, 255)) for _ in range(3 * n))))))
    for w, h in ctx.pick([(1000, 600)], [(1000, 600), (600, 1000), (2000, 1500)]):
        res += [(w, h, bytes(3 * w * h)), (w, h, b"\x80" * (3 * w * h))]
    rng.shuffle(res)
    return res


def large(ctx):
    """Single pixels off in large images, with the real codecs"""
    rng = ctx.rng
    traces = []
    for codec, w, h, k in [("hilbert(rle(1.0))", 2000, 1500, 1), ("hilbert(rle(1))", 300, 1000, 0), ("hilbert(rle(2))", 800, 600, 7), ("voronoi(1)", 100, 90, 1),
                           ("zip(back)", 200, 300, 9)] + ctx.pick([], [("hilbert(rle(1.0))", 2500, 2000, 1), ("delta", 1000, 1000, 7)]):
        n = w * h
        a = bytearray(bytes((90, 91, 92)) * n)
        for _ in range(k):
            a[3 * rng.randrange(n) + rng.randrange(3)] += 1
        a = bytes(a)
        row, has, pic, j = metrics.large(ctx, codec, w, h, a)
        r = run_codec_jobs(ctx, [("rt", dict(codec=core.h(codec), img="rgb:%d:%d:%s" % (w, h, a.hex()), nostream=1))])[0]
        if died(r) or r["enc"] != "ok" or r.get("dec") != "some":
            raise Violation("%s doesn't get through a large image" % codec, j)
        traces.append(metrics.report_trace(w, h, a, bytes.fromhex(r["dpix"]), pic if has else "none", row, r["lossless"], _job=j))
    core.validate(ctx, "ReportTrace", traces, "picture of a large image")


NAMES = ["i%d.ppm", "sub/i%d.ppm", "./i%d.ppm", "a b%d.ppm", "x.y%d.ppm", "i%d.min.ppm", "\u00e9%d.ppm", "%d.png.ppm", "csv%d.csv.ppm", "UP%d.PPM"]


def run(ctx):
    core.model_check(ctx, "MCMetrics")
    core.model_check(ctx, "MCBench")
    rng = ctx.rng
    if ctx.has("bench"):
        for tasks, num in ((2, 100), (4, 150)):
            bench.scripted(ctx, bench.behaviours(ctx, num * ctx.pick(1, 10), tasks, tasks), 4, "pictures of a scheduled run")
        core.validate(ctx, "ReportTrace", metrics.distorted(ctx, images(ctx), pictures=True), "picture")
        core.validate(ctx, "ReportTrace", metrics.distorted(ctx, images(ctx)[:ctx.pick(16, 60)], pictures=True, lossless=1), "picture of a lossless codec")
    traces = []
    codecs = bench.DETERMINISTIC + bench.CLUSTER + ["voronoi(2)", "hilbert(rle(1))", "hilbert(rle(0))", "hilbert(rle(1000))"]
    for n in range(ctx.pick(60, 600)):
        codec = codecs[n % len(codecs)]
        files = []
        for k in range(rng.randrange(1, 6)):
            w, h = rng.choice(((1, 1), (1, rng.randrange(2, 30)), (rng.randrange(2, 30), 1), (rng.randrange(1, 14), rng.randrange(1, 14)), (rng.randrange(8, 30), rng.randrange(8, 30))))
            if rng.random() < 0.3:
                _, img = rng.choice(corpus.formats(rng, min(w, 12), min(h, 12)))
                files.append(("i%d.png" % k, cli.png(img), img, ""))
            else:
                img = rng.choice((corpus.noise(rng, w, h), corpus.few(rng, w, h, 4), corpus.gradient(w, h), corpus.constant(w, h)))
                files.append((rng.choice(NAMES) % k, cli.ppm(img), img, ""))
        t = bench.real_run(ctx, codec, files, stale=rng.choice((0.0, 0.5)))
        traces.append(t)
        ctx.sample(dict(codec=codec, images=len(files), pictures=len(t["pics"])))
    core.validate(ctx, "BenchTrace", traces, "pictures of a real run")
    ctx.note("pictures", sum(len(t["pics"]) for t in traces))
    large(ctx)
