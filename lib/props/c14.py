import os, subprocess
import core, corpus, cli
from common import *


def dims(ctx):
    rng = ctx.rng
    m = ctx.pick(36, 90)
    d = {(w, h) for w in range(1, m + 1) for h in range(1, m + 1)}
    d |= {(w, h) for w in (1, 2, 3, 4) for h in range(1, 130)} | {(h, w) for w in (1, 2, 3, 4) for h in range(1, 130)}
    for k in (63, 64, 65, 127, 128, 129, 255, 256, 257):
        d |= {(k, k), (k, k + 1), (k, 2 * k), (2 * k + 1, k), (k, rng.randrange(1, 200)), (rng.randrange(1, 200), k)}
    d |= {(rng.randrange(1, 200), rng.randrange(1, 200)) for _ in range(ctx.pick(60, 600))}
    d |= {(70000, 1), (1, 70000), (3, 5000), (5000, 3), (2, 33000), (33000, 2), (511, 513), (1000, 37), (37, 1000), (700, 501), (610, 1030)}
    if ctx.thorough:
        d |= {(1024, 1025), (1500, 700), (700, 1501), (300000, 1), (65537, 3), (3, 65537)}
    return sorted(d)


def inverse(path, area):
    inv = [0] * area
    for k, i in enumerate(path):
        if 1 <= i <= area:
            inv[i - 1] = k + 1
    return inv


def pow2_inside(w, h):
    s = 1
    while 2 * s <= min(w, h):
        s *= 2
    return s


def pow2_around(w, h):
    s = 1
    while s < max(w, h):
        s *= 2
    return s


def trace(kind, w, h, path, around=None):
    if kind == "small":
        s = pow2_inside(w, h)
        # places inside of the square
        sub = [((i - 1) // w) * s + (i - 1) % w + 1 if (i - 1) % w < s and (i - 1) // w < s else 0 for i in path]
        inv = inverse(sub, s * s)
    else:
        inv = inverse(path, w * h)
    pos = []
    if around:
        s = pow2_around(w, h)
        where = [0] * (s * s + 1)
        for k, i in enumerate(around):
            if 1 <= i <= s * s:
                where[i] = k + 1
        pos = [where[((i - 1) // w) * s + (i - 1) % w + 1] if 1 <= i <= w * h else 0 for i in path]
    return dict(w=w, h=h, kind=kind, path=path, inv=inv, around=around or [], pos=pos, _job=dict(kind=kind, w=w, h=h))


def walks(ctx, ds):
    """{(w, h): path} of the default traversal"""
    res = {}
    if ctx.has("hilb"):
        jobs = [("hilb", dict(dims=",".join("%dx%d" % d for d in b))) for b in batch(ds, 20)]
        for r in ctx.drv.run(jobs):
            if died(r):
                raise Violation("traversal " + died(r), r)
            for o in r["res"]:
                if o["out"] != "ok":
                    raise Violation("the traversal of %dx%d panics: %s" % (o["w"], o["h"], o.get("msg")), dict(w=o["w"], h=o["h"]))
                p = o["path"]
                if any(not (0 <= p[k] < o["w"] and 0 <= p[k + 1] < o["h"]) for k in range(0, len(p), 2)):
                    raise Violation("the traversal of %dx%d leaves the image" % (o["w"], o["h"]), dict(w=o["w"], h=o["h"], path=p[:2000]))
                res[(o["w"], o["h"])] = [p[k + 1] * o["w"] + p[k] + 1 for k in range(0, len(p), 2)]
    return res


def coded(ctx, ds):
    """The traversal as the run-length codec goes: an image of distinct colours has one run per pixel"""
    ds = [d for d in ds if d[0] * d[1] <= 1100000]
    rs = ctx.drv.run([("rt", dict(codec=core.h("hilbert(rle)"), img=corpus.distinct(w, h))) for w, h in ds])
    res = {}
    for (w, h), r in zip(ds, rs):
        if died(r) or r["enc"] != "ok":
            raise Violation("hilbert(rle) doesn't encode an image of %dx%d: %s" % (w, h, died(r) or r.get("encmsg")), dict(w=w, h=h))
        s = bytes.fromhex(r["stream"])[8:]
        res[(w, h)] = [1 + (s[k + 9] | s[k + 10] << 8 | s[k + 11] << 16) for k in range(0, len(s) - 11, 12)]
    return res


def lins(ctx, ds):
    """small and large, from the driver or from the files that --special=hilbert writes"""
    if ctx.has("hilb"):
        jobs = [("lin", dict(dims=",".join("%dx%d" % d for d in b))) for b in batch(ds, 20)]
        for r in ctx.drv.run(jobs):
            if died(r):
                raise Violation("traversal " + died(r), r)
            for o in r["res"]:
                for v in ("rect", "small", "large"):
                    if v not in o:
                        raise Violation("the %s traversal of an image of %dx%d panics: %s" % (v, o["w"], o["h"], o.get(v + "_panic")), dict(w=o["w"], h=o["h"]))
                    yield v, o["w"], o["h"], [i + 1 for i in o[v]]
    else:
        with cli.Scratch("lin") as s:
            for w, h in ds:
                s.ppm("%dx%d.ppm" % (w, h), corpus.distinct(w, h))
            s.run(ctx, ["--special=hilbert"] + ["%dx%d.ppm" % d for d in ds])
            for w, h in ds:
                for v in ("rect", "small", "large"):
                    rows = s.read("output/%dx%d.%s.hilbert.csv" % (w, h, v)).decode().split("\n")[1:-1]
                    yield v, w, h, [1 + sum(int(x) << 8 * k for k, x in enumerate(r.split(","))) for r in rows]


def run(ctx):
    core.model_check(ctx, "MCTraversal", defs=ctx.pick({}, dict(MaxW=5, MaxH=5)))
    for k in ctx.pick([(3, 3)], [(3, 3), (4, 5), (5, 4), (5, 5)]):
        core.model_refute(ctx, "MCTraversal", cfg="MCTraversalStuck", kind="invariant Stuck", defs=dict(MaxW=k[0], MaxH=k[1]))
    ds = dims(ctx)
    paths = walks(ctx, ds)
    c = coded(ctx, ds if not paths else [d for d in ds if d[0] <= 9 or d[1] <= 9 or ctx.rng.random() < 0.05])
    traces = [trace("walk", w, h, p) for (w, h), p in sorted(paths.items())]
    traces += [trace("walk", w, h, p) for (w, h), p in sorted(c.items())]
    for t in traces:
        if t["w"] * t["h"] > 1000:
            ctx.sample(dict(kind="walk", w=t["w"], h=t["h"], steps=len(t["path"])))
    ctx.note("walks", len(traces))
    validate(ctx, traces, "traversal")
    # the variants
    m = ctx.pick(18, 40)
    ds = [d for d in ds if d[0] <= m and d[1] <= m]
    ds += [(70, 3), (3, 70), (100, 64), (64, 100), (63, 65), (127, 5), (128, 128), (129, 128), (130, 40), (1, 129), (129, 1), (100, 99), (127, 127), (120, 97),
           (200, 150), (33, 255), (256, 255)] + [(ctx.rng.randrange(19, 300), ctx.rng.randrange(19, 300)) for _ in range(ctx.pick(12, 60))]
    ds = sorted(set(ds))
    square = walks(ctx, sorted({(pow2_around(*d),) * 2 for d in ds})) or coded(ctx, sorted({(pow2_around(*d),) * 2 for d in ds}))
    traces = []
    for v, w, h, p in lins(ctx, ds):
        traces.append(trace("walk" if v == "rect" else v, w, h, p, square[(pow2_around(w, h),) * 2] if v == "large" else None))
    ctx.note("variants", len(traces))
    validate(ctx, traces, "traversal variant")


def validate(ctx, traces, what):
    part, size = [], 0
    for t in traces:
        part.append(t)
        size += len(t["path"]) + len(t["around"])
        if size > 1500000:
            core.validate(ctx, "TraversalTrace", part, what)
            part, size = [], 0
    core.validate(ctx, "TraversalTrace", part, what)
