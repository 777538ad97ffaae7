import core, corpus
from common import *


def images(ctx):
    rng = ctx.rng
    imgs = generated_images(ctx, maxpx=ctx.pick(5, 6), palettes=corpus.PALETTES[:ctx.pick(2, 3)])
    imgs += corpus.standard(ctx, big=False)
    # close colours, whose means fall together
    for _ in range(ctx.pick(60, 600)):
        w, h = rng.randrange(1, 9), rng.randrange(1, 9)
        m = rng.choice((2, 3, 4))
        b = rng.choice((0, 100, 252))
        imgs.append(("close", corpus.spec(w, h, [tuple(b + rng.randrange(m) for _ in range(3)) for _ in range(w * h)]), False))
    imgs.append(("many", corpus.distinct(64, 40, 0, 977), True))
    imgs.append(("vast", corpus.distinct(120, 100, 3, 1399), True))
    imgs.append(("vast", corpus.distinct(300, 240, 3, 233), True))
    # sums that need more than 32 bits, and many pixels of one colour
    imgs.append(("heavy", corpus.spec(1500, 1000, [(255, 254, 253)] * 1499000 + [(0, 255, 3)] * 1000), True))
    if ctx.thorough:
        imgs.append(("many", corpus.distinct(256, 200, 5, 331), True))
        imgs.append(("noise", corpus.noise(rng, 150, 100), True))
        imgs.append(("heavy", corpus.spec(3000, 2600, [(255, 254, 253)] * 7790000 + [(0, 255, 3)] * 10000), True))
    return imgs


def run(ctx):
    core.model_check(ctx, "MCClusterColors", defs=dict(MaxCount=ctx.pick(2, 3), MaxGroups=ctx.pick(4, 5)))
    rng = ctx.rng
    jobs = []
    for tag, img, large in images(ctx):
        fmt, w, h, _ = img.split(":", 3)
        px = int(w) * int(h)
        ns = [1, 2, 3, 5, 16, 100, 5000]
        if tag in ("heavy", "vast"):
            ns = [1, 2] if tag == "heavy" or px < 20000 else [2]
        elif tag == "many":
            ns = [1, 7, 5000]
        elif px <= 6:
            ns = [1, 2, 3, px]
        else:
            ns = [1, 5000] + rng.sample([2, 3, 4, 5, 7, 16, 40, 100, max(1, px // 2), max(1, px - 1)], 2)
        for n in ns:
            jobs.append((n, tag, ("rt", dict(codec=core.h("%s(%d)" % (rng.choice(("cluster-colors", "ccol")), n)), img=img, nostream=1))))
    traces, small = [], []
    for part in batch(jobs, 2000):
        for (n, tag, job), r in zip(part, run_codec_jobs(ctx, [j[2] for j in part])):
            j = dict(op="rt", codec="cluster-colors(%d)" % n, tag=tag, img=job[1]["img"][:3000])
            if died(r):
                raise Violation("cluster-colors " + died(r), dict(job=j, result=r))
            if r["enc"] != "ok" or r["dec"] != "some":
                raise Violation("cluster-colors gives no image: %s %s %s" % (r["enc"], r.get("dec"), r.get("encmsg")), dict(job=j, result=short(r, 3000)))
            a, b = bytes.fromhex(r["opix"]), bytes.fromhex(r["dpix"])
            cells = {}
            same = (r["ow"], r["oh"]) == (r["dw"], r["dh"])
            if same:
                k3 = 3
                if a.count(a[:3]) * 3 == len(a) and len(a) == len(b) and b.count(b[:3]) * 3 == len(b):
                    cells[(a[:3], b[:3])] = len(a) // 3
                else:
                    for i in range(0, len(a), k3):
                        q = (a[i:i + 3], b[i:i + 3])
                        cells[q] = cells.get(q, 0) + 1
            v = lambda c: c[0] << 16 | c[1] << 8 | c[2]
            px = len(a) // 3
            pixels = same and px <= 100 and len(cells) < 40
            t = dict(n=n, w=r["ow"], h=r["oh"], dw=r["dw"], dh=r["dh"], px=packed(r["opix"]) if pixels else [],
                     dpx=packed(r["dpix"]) if pixels else [], cells=[dict(o=v(o), s=v(s), k=k) for (s, o), k in sorted(((s, o), k) for (o, s), k in cells.items())], _job=j)
            (small if len(cells) < 100 else traces).append(t)
            ctx.sample(dict(n=n, image=tag, colours=len({o for o, s in cells}), shown=len({s for o, s in cells})))
    core.validate(ctx, "ClusterColorsTrace", small, "cluster-colors", chunk=4000)
    core.validate(ctx, "ClusterColorsTrace", traces, "cluster-colors of many colours")
