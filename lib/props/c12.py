import core, corpus
from common import *


def parse(stream):
    """dims, seeds, bytes left over, or None where the stream isn't even that"""
    if len(stream) < 16:
        return None
    u32 = lambda p: int.from_bytes(stream[p:p + 4], "little")
    count = int.from_bytes(stream[8:16], "little")
    seeds, p = [], 16
    while p + 19 <= len(stream) and len(seeds) < count:
        if stream[p + 8:p + 16] != b"\3\0\0\0\0\0\0\0":
            return None
        seeds.append(dict(x=u32(p), y=u32(p + 4), c=stream[p + 16] << 16 | stream[p + 17] << 8 | stream[p + 18]))
        p += 19
    return u32(0), u32(4), count, seeds, len(stream) - p


def nearest(w, seeds, at):
    res = []
    for i in at:
        x, y = (i - 1) % w, (i - 1) // w
        d = [(s["x"] - x) ** 2 + (s["y"] - y) ** 2 for s in seeds]
        res.append(1 + d.index(min(d)) if d else 0)
    return res


def images(ctx):
    rng = ctx.rng
    imgs = generated_images(ctx, maxpx=ctx.pick(5, 6), palettes=corpus.PALETTES[:ctx.pick(1, 3)])
    imgs += [i for i in corpus.standard(ctx, big=False)]
    imgs = [(t, i) for t, i, large in imgs if int(i.split(":")[1]) * int(i.split(":")[2]) <= 1100]
    for _ in range(ctx.pick(60, 600)):
        w, h = rng.randrange(1, 12), rng.randrange(1, 12)
        m = rng.choice((2, 3, 40))
        imgs.append(("close", corpus.spec(w, h, [tuple(100 + rng.randrange(m) for _ in range(3)) for _ in range(w * h)])))
    # larger than a coordinate's byte, and than the reach of 16 bits
    imgs += [("wide", corpus.few(rng, 700, 2, 9)), ("tall", corpus.few(rng, 2, 700, 9)), ("line", corpus.few(rng, 140000, 1, 5)),
             ("column", corpus.few(rng, 1, 140000, 5)), ("line3000", corpus.noise(rng, 3000, 1)), ("noise", corpus.noise(rng, 90, 60)),
             ("blocks", corpus.blocks(rng, 200, 130, 9)), ("line5000", corpus.noise(rng, 5000, 1)), ("flat", corpus.constant(300, 300, (255, 255, 254)))]
    imgs += [("vast", i) for _, i, _ in corpus.vast(ctx)[:1]]
    if ctx.thorough:
        imgs += [("noise", corpus.noise(rng, 160, 160)), ("blocks", corpus.blocks(rng, 500, 400, 20)), ("line", corpus.noise(rng, 200000, 1)),
                 ("flat", corpus.constant(1300, 1300, (255, 255, 255)))]
    return imgs


def roundtrips(ctx):
    rng = ctx.rng
    jobs = []
    for tag, img in images(ctx):
        w, h = map(int, img.split(":", 3)[1:3])
        px = w * h
        if px <= 6:
            ns = [1, 2, 3, px, 40]
        elif px <= 130:
            ns = [1, px, rng.choice((px + 1, 5000))] + rng.sample([2, 3, 4, 5, 7, max(1, px // 3), max(1, px - 1)], 2)
        elif px <= 5000:
            ns = [1, 3, rng.choice((8, 16)), 5000] + ([rng.choice((260, 300, 700))] if px > 800 else [])
        else:
            ns = [1, 2, rng.choice((3, 5, 9))]
        for n in ns:
            jobs.append((n, tag, ("rt", dict(codec=core.h("voronoi(%d)" % n), img=img))))
    traces, large = [], []
    for part in batch(jobs, 500):
        for (n, tag, job), r in zip(part, run_codec_jobs(ctx, [j[2] for j in part])):
            j = dict(op="rt", codec="voronoi(%d)" % n, tag=tag, img=job[1]["img"][:3000])
            if died(r):
                raise Violation("voronoi " + died(r), dict(job=j, result=short(r, 3000)))
            if r["enc"] != "ok" or r["dec"] != "some":
                raise Violation("voronoi gives no image: %s %s %s" % (r["enc"], r.get("dec"), r.get("encmsg")), dict(job=j, result=short(r, 3000)))
            s = parse(bytes.fromhex(r["stream"]))
            if s is None or s[:2] != (r["ow"], r["oh"]):
                raise Violation("voronoi: the stream isn't of the format", dict(job=j, stream=r["stream"][:4000]))
            w, h, count, seeds, tail = s
            a, b = packed(r["opix"]), packed(r["dpix"])
            full = len(a) <= 1100 and len(a) * len(seeds) <= 150000
            at = [] if full else sorted(set([1, len(a)] + [1 + rng.randrange(len(a)) for _ in range(60 if len(seeds) > 500 else 400)]))
            if at and (r["dw"], r["dh"]) == (w, h) and len(b) == len(a):
                shown, opx = [b[i - 1] for i in at], [a[i - 1] for i in at]
            else:
                shown, opx = b, []
            N = len(a)
            ch = [[c >> k & 255 for c in a] for k in (16, 8, 0)]
            xs = sum(range(w)) * h
            ys = sum(range(h)) * w
            t = dict(mode="rt", n=n, w=w, h=h, dw=r["dw"], dh=r["dh"], px=a if full else [], dpx=shown, who=nearest(w, seeds, at or range(1, N + 1)), at=at, opx=opx, count=count, tail=tail,
                     seeds=seeds, mean=[xs // N, ys // N] + [sum(c) // N for c in ch], lo=[min(c) for c in ch], hi=[max(c) for c in ch], _job=j)
            (traces if full else large).append(t)
            ctx.sample(dict(n=n, image=tag, w=w, h=h, seeds=len(seeds)))
    core.validate(ctx, "VoronoiTrace", traces, "voronoi", chunk=1500)
    core.validate(ctx, "VoronoiTrace", large, "voronoi of larger images")


def stream(w, h, seeds):
    u = lambda v, n: v.to_bytes(n, "little")
    return u(w, 4) + u(h, 4) + u(len(seeds), 8) + b"".join(u(s["x"], 4) + u(s["y"], 4) + b"\3" + bytes(7) + u(s["c"], 3)[::-1] for s in seeds)


def paintings(ctx):
    """Seeds at will, decoded"""
    rng = ctx.rng
    cases = []
    for _ in range(ctx.pick(900, 12000)):
        w, h = rng.choice(((1, 1), (2, 2), (5, 1), (1, 6), (4, 4), (7, 5), (16, 9), (3, 40)))
        k = rng.choice((1, 2, 2, 3, 4, 7, 20))
        m = rng.choice((1, 1, 2))  # spread: more of them on the same place
        seeds = [dict(x=rng.randrange(w) // m * m, y=rng.randrange(h) // m * m, c=rng.randrange(1 << 24)) for _ in range(k)]
        cases.append((w, h, seeds))
    # many of them, all over the place or in a part of it
    for _ in range(ctx.pick(25, 200)):
        w, h = rng.choice(((40, 30), (20, 50), (100, 11), (9, 120), (33, 33)))
        k = rng.choice((257, 300, 300, 700, 1100))
        x0, y0 = rng.randrange(w), rng.randrange(h)
        x1, y1 = rng.choice(((w, h), (w, h), (x0 + 1, h), (w, y0 + 1), (min(w, x0 + 9), min(h, y0 + 9))))
        if (x1, y1) == (w, h):
            x0 = y0 = 0
        cases.append((w, h, [dict(x=rng.randrange(x0, x1), y=rng.randrange(y0, y1), c=rng.randrange(1 << 24)) for _ in range(k)]))
    # far apart, at both ends
    for w, h in ((140000, 1), (1, 140000), (300, 300), (900, 700)):
        for _ in range(3):
            k = rng.choice((2, 3, 5))
            cases.append((w, h, [dict(x=rng.choice((0, w - 1, rng.randrange(w))), y=rng.choice((0, h - 1, rng.randrange(h))), c=rng.randrange(1 << 24)) for _ in range(k)]))
    # very many seeds, the nearest ones last
    far = [dict(x=200, y=200, c=k) for k in range(66000)]
    for k in (300, 5000, 66000):
        cases.append((3, 2, far[:k] + [dict(x=x, y=y, c=rng.randrange(1 << 24)) for x in range(3) for y in range(2)]))
    res = ctx.drv.run([("decode", dict(codec=core.h("voronoi(%d)" % rng.choice((1, 3, 1000))), stream=stream(*c).hex())) for c in cases])
    traces = []
    for (w, h, seeds), r in zip(cases, res):
        j = dict(op="decode", codec="voronoi", w=w, h=h, seeds=seeds[-200:])
        if died(r):
            raise Violation("voronoi decoding " + died(r), dict(job=j, result=r))
        if r["dec"] != "some":
            raise Violation("voronoi: a stream of %d seeds decodes to nothing (%s)" % (len(seeds), r["dec"]), dict(job=j, result=short(r, 2000)))
        b = packed(r["dpix"])
        at = [] if w * h < 1000 else sorted(set([1, w * h] + [1 + rng.randrange(w * h) for _ in range(400)]))
        if at and len(b) == w * h:
            b = [b[i - 1] for i in at]
        traces.append(dict(mode="dec", n=0, w=w, h=h, dw=r["dw"], dh=r["dh"], px=[], dpx=b, who=nearest(w, seeds, at or range(1, w * h + 1)), at=at, opx=[], count=len(seeds), tail=0,
                           seeds=seeds, mean=[], lo=[], hi=[], _job=j))
    core.validate(ctx, "VoronoiTrace", traces, "voronoi painting", chunk=3000)


def run(ctx):
    core.model_check(ctx, "MCVoronoi", defs=ctx.pick({}, dict(MaxW=3, MaxH=2, Levels=2, MaxSeeds=3)))
    roundtrips(ctx)
    paintings(ctx)
