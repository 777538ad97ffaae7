import core, corpus
from common import *
from props.c07 import raws



def run(ctx):
    core.model_check(ctx, "MCZipDict", defs=dict(MaxLen=ctx.pick(8, 12), LastCode=5))
    rng = ctx.rng
    imgs = generated_images(ctx) + corpus.standard(ctx)
    # enough pairs to use up the symbols
    imgs.append(("exhaust", corpus.noise(rng, 400, 420), True))
    if ctx.thorough:
        imgs.append(("exhaust", corpus.noise(rng, 900, 801), True))
        imgs.append(("exhaust", corpus.few(rng, 900, 900, 700), True))
    roundtrips(ctx, ["zip(dict)", "hilbert(zip)"], imgs, "dictionary-zip round trip")
    datas = raws(ctx) + all_strings(b"\x00\xff", ctx.pick(9, 13)) + all_strings(b"abc", ctx.pick(5, 8))
    for n in (150000, 150001, 131000, 131071, 400000):
        datas.append(bytes(rng.randrange(256) for _ in range(n)))
    if ctx.has("zip"):
        raw_roundtrips(ctx, "dict", datas, "dictionary compressor")
