import core, corpus
from common import *


def extremes(ctx):
    """Differences over the whole range in every channel"""
    rng = ctx.rng
    imgs = []
    px = []
    for d in range(-255, 256):
        a = max(0, d)
        px += [(a - d, 255 - (a - d), 0), (a, 255 - a, 255)]
    imgs.append(("all-differences", corpus.line(px), True))
    imgs.append(("all-differences", corpus.line(px, True), True))
    for ch in range(3):
        px = []
        for i in range(256):
            p = [0, 0, 0]
            p[ch] = i
            q = [255, 255, 255]
            q[ch] = 255 - i
            px += [tuple(p), tuple(q)]
        imgs.append(("channel", corpus.line(px), True))
    for _ in range(ctx.pick(60, 500)):
        w, h = rng.randrange(1, 30), rng.randrange(1, 30)
        pal = [(rng.choice([0, 255]), rng.choice([0, 255]), rng.choice([0, 1, 254, 255])) for _ in range(6)]
        imgs.append(("corners", corpus.spec(w, h, [rng.choice(pal) for _ in range(w * h)]), w * h > 100))
    return imgs


def run(ctx):
    core.model_check(ctx, "MCDelta")
    pals = corpus.PALETTES[:1] + [[(0, 0, 0), (255, 255, 255), (0, 255, 0), (255, 0, 255)]]
    imgs = generated_images(ctx, palettes=pals) + corpus.standard(ctx) + extremes(ctx)
    roundtrips(ctx, ["delta"], imgs, "delta round trip")
    # very skewed differences: their codes get long
    for n in ctx.pick((25,), (26, 30)):
        steps = [k for k, f in enumerate(corpus.fib(n)) for _ in range(f)]
        ctx.rng.shuffle(steps)
        px = []
        for k in steps:
            px += [(100, 100, 100), (100 + k, 100 - k, 100 + 2 * k)]
        roundtrips(ctx, ["delta"], [("skewed", corpus.line(px), True)], "delta round trip of very skewed differences")
