import itertools
import core, corpus
from common import *

ASSUMPTIONS = ["the clustering is called with points of the driver's (rounded or exact means) and by the codecs"]


def model(ctx):
    core.model_check(ctx, "MCKMeans", defs=dict(MaxPoints=ctx.pick(4, 5), Side=ctx.pick(5, 6)))
    core.model_check(ctx, "MCKMeans", cfg="MCKMeansRounded", defs=dict(Side=ctx.pick(3, 2), Depth=ctx.pick(1, 2)))
    if ctx.thorough:
        core.model_check(ctx, "MCKMeans", defs=dict(MaxPoints=4, Side=3, Depth=2))
    # a run that gives up must fill the groups that are still empty
    core.model_refute(ctx, "MCKMeans", cfg="MCKMeansUnfilled", kind="invariant NoneEmpty")
    core.model_check(ctx, "MCKMeans", cfg="MCKMeansRounded", defs=dict(MaxK=3, Patience=1, Kind='"emptied"'))
    if ctx.thorough:
        core.model_check(ctx, "MCKMeans", cfg="MCKMeansRounded", defs=dict(MaxK=3, Patience=1))
    # without giving up, rounded means can make points revolve forever
    core.model_refute(ctx, "MCKMeans", cfg="MCKMeansRevolving", kind="temporal property")


def point_sets(ctx):
    rng = ctx.rng
    res = []
    # all the orders of all the small sets
    for vals, m in (([(x,) for x in range(5)], 4), ([(x, y) for x in range(3) for y in range(2)], ctx.pick(3, 4)),
                    ([(x * 50,) for x in (0, 1, 3, 4)], 4)):
        for n in range(1, m + 1):
            for pts in itertools.permutations(vals, n):
                for k in range(1, n + 2):
                    res.append((pts, k, ctx.rng.random() < 0.5))
    # images as the Voronoi codec sees them, small values favour ties and revolving
    for w, h in ((2, 3), (3, 2), (4, 2), (2, 5), (3, 3), (1, 9)):
        for _ in range(ctx.pick(150, 1500)):
            m = rng.choice((2, 2, 3, 6))
            pts = [(x, y, rng.randrange(m), rng.randrange(m), rng.randrange(m)) for y in range(h) for x in range(w)]
            res.append((pts, rng.choice((2, 2, 3, 4, 5)), rng.choice((1, 2, 2))))
    # colours
    for _ in range(ctx.pick(5000, 40000)):
        m = rng.choice((2, 3, 4, 6, 12, 100))
        d = rng.choice((1, 2, 3, 3))
        pts = sorted({tuple(rng.randrange(m) for _ in range(d)) for _ in range(rng.randrange(1, 24))})
        rng.shuffle(pts)
        res.append((pts, rng.choice((1, 2, 2, 2, 3, max(1, len(pts) // 2), max(1, len(pts) - 1), len(pts), len(pts) + 3)), rng.random() < 0.6))
    # the sets on which the clustering once failed
    res += [(K1, 8, True)] * 12
    res += [(r, 2, m) for r in REVS for m in (1, 2)]
    return res


K1 = [(5, 2, 1), (2, 1, 2), (3, 2, 1), (0, 4, 3), (4, 5, 2), (1, 1, 5), (4, 3, 1), (1, 4, 3), (3, 2, 0), (0, 2, 3)]
REV = [(0, 0, 0, 0, 1), (1, 0, 1, 1, 0), (0, 1, 1, 1, 1), (1, 1, 0, 1, 1), (0, 2, 1, 0, 0), (1, 2, 1, 1, 0)]
# points that revolve when the distances are computed as for the Voronoi cells
REVS = [REV,
        [(0, 0, 0, 2, 1), (1, 0, 1, 1, 2), (0, 1, 1, 2, 2), (1, 1, 0, 2, 2), (0, 2, 2, 1, 2), (1, 2, 0, 2, 1)],
        [(0, 0, 0, 0, 1), (1, 0, 1, 1, 0), (0, 1, 1, 1, 0), (1, 1, 1, 0, 1), (0, 2, 1, 1, 0), (1, 2, 0, 1, 1)],
        [(0, 0, 1, 0, 0), (1, 0, 0, 1, 1), (0, 1, 0, 1, 1), (1, 1, 1, 0, 1), (0, 2, 0, 1, 1), (1, 2, 0, 1, 0)],
        [(0, 0, 0, 1, 0), (1, 0, 1, 0, 1), (0, 1, 1, 0, 1), (1, 1, 0, 1, 1), (0, 2, 1, 0, 1), (1, 2, 1, 0, 0)],
        [(0, 0, 0, 1, 0), (1, 0, 1, 0, 1), (0, 1, 1, 1, 1), (1, 1, 1, 1, 0), (0, 2, 1, 0, 1), (1, 2, 0, 0, 1)]]


def larger(ctx):
    rng = ctx.rng
    res = []
    for _ in range(ctx.pick(25, 200)):
        m = rng.choice((7, 30, 256))
        n = rng.randrange(30, 400)
        pts = list({tuple(rng.randrange(m) for _ in range(3)) for _ in range(n)})
        res.append((pts, rng.choice((3, 5, 10, 40, len(pts) // 2, len(pts) - 1, len(pts), 5000)), True))
    # many groups of an image with large surfaces: some get empty, again and again
    for _ in range(ctx.pick(150, 1500)):
        w, h = rng.choice(((33, 31), (40, 30)))
        px = [(200, 180, 160)] * (w * h)
        for _ in range(rng.choice((4, 12))):
            x0, y0 = rng.randrange(w), rng.randrange(h)
            x1, y1 = rng.randrange(x0, w) + 1, rng.randrange(y0, h) + 1
            c = (rng.randrange(256), rng.randrange(256), rng.randrange(256))
            for y in range(y0, y1):
                px[y * w + x0:y * w + x1] = [c] * (x1 - x0)
        res.append(([(i % w, i // w) + c for i, c in enumerate(px)], rng.choice((200, 260, 300, 300, 300, 500)), 2))
    # very many points
    for n, k in ctx.pick(((5000, 4), (70000, 3)), ((5000, 4), (5000, 40), (70000, 3), (150000, 2), (300000, 2))):
        res.append((list({tuple(rng.randrange(256) for _ in range(3)) for _ in range(n)}), k, True))
    return res


def cluster(ctx, sets):
    jobs = [("kmeans", dict(n=k, trunc=int(rounded), reps=1, pts=";".join(",".join(map(str, p)) for p in pts))) for pts, k, rounded in sets]
    traces = []
    for (pts, k, rounded), r in zip(sets, ctx.drv.run(jobs)):
        j = dict(points=[list(p) for p in pts][:200], n=k, rounded=int(rounded))
        if died(r):
            raise Violation("the clustering " + died(r), dict(job=j, result=r))
        for run in r["runs"]:
            if run["out"] != "ok":
                raise Violation("the clustering panicked: %s" % run.get("msg"), dict(job=j, result=run))
            traces.append(dict(pts=[list(p) for p in pts], n=k, rounded=min(1, int(rounded)), groups=run["groups"], _job=j))
            ctx.sample(dict(points=len(pts), n=k, groups=len(run["groups"])))
    ctx.note("clusterings", len(traces))
    return traces


def codec_runs(ctx):
    """The same through the codecs: they must end, and not panic"""
    rng = ctx.rng
    jobs = []
    for _ in range(ctx.pick(1500, 20000)):
        w, h = rng.randrange(1, 6), rng.randrange(1, 6)
        m = rng.choice((2, 2, 3, 256))
        img = corpus.spec(w, h, [(rng.randrange(m), rng.randrange(m), rng.randrange(m)) for _ in range(w * h)])
        jobs.append(("%s(%d)" % (rng.choice(("voronoi", "voronoi", "cluster-colors")), rng.randrange(1, w * h + 2)), img))
    for _ in range(ctx.pick(600, 6000)):
        w, h = rng.choice(((33, 31), (40, 30), (64, 20)))
        jobs.append(("voronoi(%d)" % rng.choice((200, 260, 300, 300, 300, 500)), corpus.blocks(rng, w, h, 12)))
    jobs += [("voronoi(2)", corpus.spec(2, 3, [p[2:] for p in r])) for r in REVS]
    res = ctx.drv.run([("rt", dict(codec=core.h(c), img=i, nostream=1, digest=1)) for c, i in jobs])
    traces = [rt_trace(c, r, dict(op="rt", codec=c, img=i)) for (c, i), r in zip(jobs, res)]
    core.validate(ctx, "SessionTrace", traces, "clustering codecs")


def run(ctx):
    model(ctx)
    if ctx.has("kmeans"):
        core.validate(ctx, "KMeansTrace", cluster(ctx, point_sets(ctx)), "clustering", chunk=4000)
        core.validate(ctx, "KMeansTrace", cluster(ctx, larger(ctx)), "clustering of larger sets")
    codec_runs(ctx)
