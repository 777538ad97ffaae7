import core, corpus
from common import *


def run_lengths(ctx):
    rng = ctx.rng
    imgs = []
    ls = [1, 2, 3, 4, 253, 254, 255, 256, 257, 509, 510, 511, 512, 764, 765, 766, 1019, 1020, 1021]
    for a in ls:
        for b in (1, 255, 256):
            imgs.append(("runs", corpus.runs([a, b]), True))
            imgs.append(("runs", corpus.runs([b, a, 1], True), True))
    for _ in range(ctx.pick(60, 600)):
        l = [rng.choice(ls + [rng.randrange(1, 40)]) for _ in range(rng.randrange(1, 7))]
        imgs.append(("runs", corpus.runs(l, rng.random() < 0.5, rng.choice(corpus.PALETTES)), True))
    for w, h in ((16, 16), (17, 15), (15, 17), (32, 16), (16, 32), (51, 5), (5, 51)):
        imgs.append(("const", corpus.constant(w, h), True))
    return imgs


def run(ctx):
    core.model_check(ctx, "MCRle", defs=dict(MaxLen=ctx.pick(7, 9)))
    imgs = generated_images(ctx) + corpus.standard(ctx) + run_lengths(ctx)
    roundtrips(ctx, ["hilbert(rle)"], imgs, "run-length round trip")
    roundtrips(ctx, ["hilbert(rle(0))"], imgs[:300] + run_lengths(ctx), "run-length round trip with distance zero")
