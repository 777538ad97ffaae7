import core, corpus
from common import *
from props.c09 import check_runs, check_each


#          argument, numerator, denominator
DISTANCES = [("1", 1, 1), ("3", 3, 1), ("10", 10, 1), ("0.5", 1, 2), ("2.5", 5, 2), ("40", 40, 1), ("200", 200, 1), ("441.5", 883, 2), ("1000", 1000, 1)]


def near(rng, c, d):
    return tuple(min(255, max(0, x + rng.randrange(-d, d + 1))) for x in c)


def images(ctx):
    rng = ctx.rng
    imgs = []
    for w, h in ((1, 1), (1, 2), (3, 2), (30, 20), (300, 1), (1, 600), (40, 40)):
        imgs.append(("const", corpus.constant(w, h), True))
        imgs.append(("gradient", corpus.gradient(w, h), True))
        imgs.append(("noise", corpus.noise(rng, w, h), True))
    for _ in range(ctx.pick(40, 400)):
        w, h = rng.choice([(rng.randrange(1, 40), rng.randrange(1, 20)), (rng.randrange(1, 700), 1)])
        # wandering colours: many pixels close to the limit
        d = rng.choice([1, 2, 3, 6, 12, 30])
        c = (128, 128, 128)
        px = []
        for _ in range(w * h):
            if rng.random() < 0.03:
                c = (rng.randrange(256), rng.randrange(256), rng.randrange(256))
            c = near(rng, c, d) if rng.random() < 0.7 else c
            px.append(c)
        imgs.append(("wander", corpus.spec(w, h, px), True))
        base = (rng.randrange(256), rng.randrange(256), rng.randrange(256))
        imgs.append(("cloud", corpus.spec(w, h, [near(rng, base, d) for _ in range(w * h)]), True))
    # extremes: sums that don't fit in small integers
    for c in ((255, 255, 255), (255, 0, 255), (254, 255, 0)):
        imgs.append(("bright", corpus.constant(520, 1, c), True))
        imgs.append(("bright", corpus.constant(255, 1, c), True))
        imgs.append(("bright", corpus.constant(16, 17, c), True))
    # exact ties: one channel d away, halves when rounding
    for d in (1, 3, 10, 40, 200):
        px = [(20, 20, 20)] * 3 + [(20 + d, 20, 20), (20, 20, 20), (20, 20 + d, 20)] * 2 + [(20, 20, 21 + d)]
        imgs.append(("ties", corpus.line(px), True))
        imgs.append(("ties", corpus.line(px, True), True))
    return imgs


def digits(ctx):
    """Distances next to ones that occur: a little shorter, a little longer"""
    from fractions import Fraction
    from decimal import Decimal, getcontext
    getcontext().prec = 40
    rng = ctx.rng
    codecs, imgs = {}, []
    for k in range(ctx.pick(60, 600)):
        n = rng.choice((1, 1, 1, 2, 3, 5, 7, 10, 63, 100, 254))
        m = rng.choice((4, 12, 30))
        base = tuple(rng.randrange(40, 200) for _ in range(3))
        run = [near(rng, base, m if n < 10 else 2) for _ in range(n)]
        x = near(rng, base, 60)
        q = sum((n * x[c] - sum(p[c] for p in run)) ** 2 for c in range(3))
        if q == 0:
            continue
        d = Decimal(q).sqrt() / n
        rel = Decimal(rng.choice((1, -1))) * Decimal(10) ** -rng.choice((3, 6, 7, 8, 9, 10))
        arg = "%.17f" % float(d * (1 + rel))
        D = Fraction(float(arg))
        lims = []
        for slack in (Fraction(1) - Fraction(1, 10 ** 12), Fraction(1) + Fraction(1, 10 ** 12)):
            l = []
            for i in range(1, 256):
                f = (D * i * slack) ** 2
                f = f.numerator // f.denominator
                l.append([f >> 24, f & 0xffffff])
            lims.append(l)
        # again, and next to other pixels
        px = run + [x, x] + run + [x, near(rng, x, 30)]
        codecs["hilbert(rle(%s))" % arg] = (lims, px)
    for codec, (lims, px) in codecs.items():
        yield codec, lims[0], lims[1], [("digits", corpus.line(px), True)]


def run(ctx):
    core.model_check(ctx, "MCRle", "MCRleApprox", defs=dict(MaxLen=ctx.pick(6, 8)))
    core.model_check(ctx, "MCRle", "MCRleApprox", defs=dict(MaxLen=ctx.pick(6, 8), DistNum=3, DistDen=1, Cap=3))
    pal = [(100, 100, 100), (101, 100, 100), (103, 102, 100), (110, 100, 104), (0, 0, 0), (255, 255, 255)]
    gen = generated_images(ctx, maxpx=ctx.pick(5, 7), palettes=[pal])
    check_runs(ctx, [("hilbert(rle(%s))" % a, dn, dd) for a, dn, dd in DISTANCES[:5]], gen, True)
    check_runs(ctx, [("hilbert(rle(%s))" % a, dn, dd) for a, dn, dd in DISTANCES], images(ctx), True)
    vast = corpus.vast(ctx)
    check_runs(ctx, [("hilbert(rle(10))", 10, 1)], vast[:1], True, whole=True)
    check_runs(ctx, [("hilbert(rle(40))", 40, 1)], vast[1:2], True, whole=True)
    many = list(digits(ctx))
    check_each(ctx, many)
