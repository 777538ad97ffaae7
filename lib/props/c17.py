import threading
import core, corpus, cli, bench, metrics
from common import *

ASSUMPTIONS = ["printed numbers are compared on 9 significant digits",
               "the pixels decoded are those of the picture that the run saved, or those that the driver decodes"]


def images(ctx):
    rng = ctx.rng
    res = []
    sizes = [(1, 1), (1, 2), (2, 1), (3, 1), (1, 7), (5, 3), (3, 5), (16, 16), (17, 31), (100, 1), (1, 333), (64, 3), (255, 256), (300, 41), (640, 10)]
    sizes += ctx.pick([(1000, 700), (1111, 900)], [(1000, 700), (2000, 1500), (5000, 3), (3, 5000), (4096, 1025)])
    for w, h in sizes:
        n = w * h
        for kind in ctx.pick(2 if n < 10000 else 1, 7) * [0] if n < 300000 else [0]:
            res.append((w, h, rng.choice((lambda: rng.randbytes(3 * n) if n < 300000 else bytes(rng.randrange(256) & 0xc0 for _ in range(3 * n)), lambda: bytes([rng.choice((0, 255)) for _ in range(3)]) * n,
                                          lambda: bytes(rng.choice((0, 255)) for _ in range(3 * n)),
                                          lambda: bytes(3 * n)))()))
    rng.shuffle(res)
    return res


def large(ctx):
    """Tiny errors in large images, and large ones: of the real codecs"""
    rng = ctx.rng
    traces = []
    for codec, w, h, what in [("hilbert(rle(1.0))", 1000, 1000, "one"), ("hilbert(rle(1))", 777, 333, "sparse"), ("hilbert(rle(100))", 300, 500, "noise")] + \
            ctx.pick([], [("hilbert(rle(1))", 2500, 1600, "one"), ("voronoi(1)", 1000, 1000, "bw"), ("hilbert(rle(500))", 1000, 1000, "bw")]):
        n = w * h
        a = bytearray(bytes((90, 91, 92)) * n)
        if what == "one":
            a[3 * rng.randrange(2 * n // 5, 3 * n // 5) + rng.randrange(3)] += 1
        elif what == "sparse":
            for _ in range(9):
                a[3 * rng.randrange(n) + rng.randrange(3)] += 1
        elif what == "noise":
            a = bytearray(rng.randbytes(3 * n))
        else:
            a = bytearray(b"".join(rng.choice((b"\0\0\0", b"\xff\xff\xff")) for _ in range(n)))
        a = bytes(a)
        row, has, pic, j = metrics.large(ctx, codec, w, h, a)
        r = run_codec_jobs(ctx, [("rt", dict(codec=core.h(codec), img="rgb:%d:%d:%s" % (w, h, a.hex()), nostream=1))])[0]
        if died(r) or r["enc"] != "ok" or r.get("dec") != "some":
            raise Violation("%s doesn't get through a large image" % codec, j)
        traces.append(metrics.trace(w, h, a, bytes.fromhex(r["dpix"]), row, r["len"], _job=j))
    core.validate(ctx, "MetricsTrace", traces, "row of a large image")


class Huge(threading.Thread):
    """An image of more than 2^32 bits (24 per pixel), meanwhile"""
    def __init__(self, ctx, codec, gray, size):
        super().__init__(daemon=True)
        self.ctx, self.codec, self.gray, self.size, self.res, self.exc = ctx, codec, gray, size, None, None

    def run(self):
        n = 13400
        try:
            self.res = metrics.large(self.ctx, self.codec, n, n, bytes([self.gray]) * (n * n), b"P5")
        except BaseException as e:
            self.exc = e

    def trace(self):
        self.join()
        if self.exc:
            raise self.exc
        row, has, pic, j = self.res
        c = [self.gray] * 3
        return dict(w=13400, h=13400, cells=[dict(a=c, b=c, n=13400 * 13400)], lossless=1, written=self.size, size=row["size"], ratio=row["ratio"],
                    error=row["error"], rw=row["rw"], ew=row["ew"], _job=j)


def run(ctx):
    huge = [Huge(ctx, "hufman", 16, -1)]
    if ctx.thorough:
        huge.append(Huge(ctx, "delta", 3, -1))
    for t in huge:
        t.start()
    core.model_check(ctx, "MCDecimal")
    core.model_check(ctx, "MCMetrics")
    rng = ctx.rng
    if ctx.has("bench"):
        core.validate(ctx, "MetricsTrace", metrics.distorted(ctx, images(ctx)), "row of a report")
        b = bench.behaviours(ctx, ctx.pick(100, 1000), 4, 2)
        bench.scripted(ctx, b, 4, "rows of a run", gates=False)
    traces = []
    codecs = bench.DETERMINISTIC + bench.CLUSTER
    for n in range(ctx.pick(42, 420)):
        codec = codecs[n % len(codecs)]
        files = []
        for k in range(rng.randrange(1, 6)):
            w, h = rng.choice(((1, 1), (1, rng.randrange(2, 60)), (rng.randrange(2, 60), 1), (rng.randrange(1, 14), rng.randrange(1, 14)), (rng.randrange(8, 40), rng.randrange(8, 40))))
            if rng.random() < 0.2:
                _, img = rng.choice(corpus.formats(rng, min(w, 12), min(h, 12)))
                files.append(("i%d.png" % k, cli.png(img), img, ""))
            else:
                img = rng.choice((corpus.noise(rng, w, h), corpus.few(rng, w, h, 4), corpus.gradient(w, h), corpus.blocks(rng, w, h), corpus.few(rng, w, h, 30)))
                files.append(("i%d.ppm" % k, cli.ppm(img), img, ""))
        t = bench.real_run(ctx, codec, files)
        traces.append(t)
        ctx.sample(dict(codec=codec, rows=[[r["size"], "".join(map(str, r["ratio"])), "".join(map(str, r["error"]))] for r in t["rows"]]))
    core.validate(ctx, "BenchTrace", traces, "rows of a real run")
    large(ctx)
    core.validate(ctx, "MetricsTrace", [t.trace() for t in huge], "row of an image of 2^32 bits")
