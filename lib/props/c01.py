import core, corpus
from common import *



def run(ctx):
    core.model_check(ctx, "MCSession")
    imgs = generated_images(ctx) + corpus.standard(ctx)
    roundtrips(ctx, ["hufman"], imgs, "hufman round trip")
    # very long codes: up to 27 bits (32 in the thorough tier)
    long = [("fib%d" % n, corpus.freqs(corpus.fib(n), ctx.rng), True) for n in ctx.pick((25, 28), (26, 29, 31, 33))]
    roundtrips(ctx, ["hufman"], long, "hufman round trip of very skewed images")
