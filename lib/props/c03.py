import core, corpus
from common import *
from props.c08 import small_raws, large_raws



def run(ctx):
    core.model_check(ctx, "MCZipBack", defs=dict(MaxInput=ctx.pick(8, 10)))
    rng = ctx.rng
    imgs = generated_images(ctx) + corpus.standard(ctx)
    imgs.append(("window", corpus.noise(rng, 100, 130), True))
    # a tile repeated at many distances, in pixels and so in bytes
    for p in (5957, 5958, 2978, 2979, 2980):
        pal = [(rng.randrange(256), rng.randrange(256), rng.randrange(256)) for _ in range(p)]
        imgs.append(("tile%d" % p, corpus.spec(1, 3 * p, [pal[i % p] for i in range(3 * p)]), True))
    roundtrips(ctx, ["zip(back)"], imgs, "look-back-zip round trip")
    datas = small_raws(ctx) + large_raws(ctx) + all_strings(b"\x00\xff", ctx.pick(9, 13)) + all_strings(b"abc", ctx.pick(5, 8))
    for n in (32766, 32767, 32768, 65533, 65534, 65535, 65536, 100000):
        datas.append(bytes(rng.randrange(256) for _ in range(n)))
        datas.append(b"z" * n)
    if ctx.has("zip"):
        raw_roundtrips(ctx, "back", datas, "look-back compressor")
