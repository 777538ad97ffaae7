import core, corpus, streams
from common import *
from props.c07 import texty



def run(ctx):
    core.model_check(ctx, "MCZipBack", defs=dict(MaxInput=ctx.pick(8, 11)))
    core.model_check(ctx, "MCZipBack", defs=dict(Window=6, MaxLen=5, MaxInput=ctx.pick(8, 12)))
    core.model_check(ctx, "MCZipBack", defs=dict(MinRep=3, Window=8, MaxLen=4, MaxInput=ctx.pick(8, 12)))
    beh = core.generate(ctx, "ZipBackGen", defs=dict(MaxInput=ctx.pick(11, 14)))
    gen = [bytes((c * 77) & 255 for c in b["input"]) for b in beh if any(s[0] == 1 for s in b["stream"]) or len(b["input"]) < 6]
    if ctx.has("zip"):
        check_raw(ctx, gen, "generated inputs")
        check_raw(ctx, small_raws(ctx), "byte strings")
        for ds in batch(large_raws(ctx), 6):
            check_raw(ctx, ds, "long byte strings")
        check_raw(ctx, [texty(ctx.rng, 1300000)], "very long byte strings", ctx.pick(100, 1500))
    check_images(ctx)


def rnd(rng, n, al=256):
    return bytes(rng.randrange(al) for _ in range(n))


def small_raws(ctx):
    rng = ctx.rng
    res = [b"", b"a", b"ab", b"abcdef", b"abcdefabcdef", b"abcdeabcde", b"a" * 11, b"a" * 12, b"a" * 13, b"a" * 1000,
           bytes(range(256)) * 2, b"ab" * 300, b"abcdefg" * 200, b"x" + b"abcdef" + b"y" + b"abcdef" + b"z",
           b"abcdef--abcdefg--abcdefgh--abcdefg", rnd(rng, 3000)]
    for _ in range(ctx.pick(150, 1000)):
        n = rng.randrange(1, 800)
        x = rnd(rng, n, rng.choice([1, 2, 3, 8, 256]))
        # copies of earlier stretches
        x = bytearray(x)
        for _ in range(rng.randrange(0, 12)):
            a = rng.randrange(len(x))
            l = rng.choice([3, 5, 6, 7, 8, 15, 16, 17, 31, 32, 33, 64, 200])
            x += x[a:a + l]
            if rng.random() < 0.5:
                x += rnd(rng, rng.randrange(0, 9))
        res.append(bytes(x))
    return res


def large_raws(ctx):
    rng = ctx.rng
    a = rnd(rng, 700)
    res = []
    # a repetition at the edge of the window
    for gap in (65535 - 700, 65535 - 702, 65535 - 690, 65535 - 400, 65530, 65535, 65536, 65541):
        res.append(a + rnd(rng, gap) + a + b"!")
    # phrases of anywhere in the window, starting where the compressor looks for them
    for n in ctx.pick((130000,), (100000, 130000, 220000)):
        x = bytearray(rnd(rng, 65536))
        while len(x) < n:
            p = rng.randrange(max(0, len(x) - 65535), len(x) - 300)
            x += x[p:p + rng.randrange(20, 260)] + rnd(rng, rng.choice((0, 2, 4, 8, 16)))
        res.append(bytes(x))
    # longer than a symbol can describe, inside the window
    b = rnd(rng, 32767)
    res.append(b + b)
    res.append(b + b"x" + b + b"y")
    b = rnd(rng, 32768)
    res.append(b + b)
    b = rnd(rng, 32766)
    res.append(b + b + b"zz")
    # unrepetitive and long
    res.append(rnd(rng, 32767 * 2 + 5))
    res.append(b"q" * 70000)
    res.append(b"pq" * 50000)
    if ctx.thorough:
        for d in range(-8, 9):
            res.append(a + rnd(rng, 65535 - 700 + d) + a + rnd(rng, 9) + a)
        for n in (32760, 32767, 32768, 32769, 40000, 65535, 65536):
            b = rnd(rng, n)
            res.append(b + b + b[:1000])
        res.append(rnd(rng, 300000))
        res.append(rnd(rng, 200000, 2))
        res.append(b"".join(rnd(rng, 3) + b"0123456" for _ in range(20000)))
    return res


def check_raw(ctx, datas, what, some=0):
    traces = []
    for ds in batch(datas, 500):
        r = ctx.drv.run([("zipraw", dict(kind="back", datas=",".join(d.hex() for d in ds)))])[0]
        if died(r):
            raise Violation("the look-back compressor " + died(r), r)
        for d, o in zip(ds, r["res"]):
            if o["enc"] != "ok":
                raise Violation("the look-back compressor failed", dict(data=d.hex()[:2000], result=o))
            traces.append(make(ctx, dict(mode="raw", w=0, h=0, px=[], order=[], raw=list(d)), d, bytes.fromhex(o["stream"]),
                               dict(data=d.hex()[:2000]), some))
    core.validate(ctx, "ZipBackTrace", traces, "look-back streams of " + what)


def make(ctx, t, data, stream, job, some=0):
    hints, kinds = streams.zipback_hints(data, stream, ctx.pick(250000, 5000000), (ctx.rng, some) if some else None)
    t.update(hints)
    t["_job"] = job
    ctx.note("explicit_symbols", kinds[0])
    ctx.note("references", kinds[1])
    ctx.note("streams_checked_for_maximality" if t["maximal"] else "streams_checked_for_validity_only")
    ctx.sample(dict(mode=t["mode"], data_bytes=len(data), explicit=kinds[0], references=kinds[1]))
    return t


def check_images(ctx):
    check_these(ctx, generated_images(ctx, maxpx=ctx.pick(4, 6)) + corpus.standard(ctx, big=False), 1500)
    check_these(ctx, corpus.vast(ctx)[:1], 1, ctx.pick(25, 400))


def check_these(ctx, imgs, chunk, some=0):
    jobs = rt_jobs(["zip(back)"], [(t, i, False) for t, i, _ in imgs], nostream=False)
    res = run_codec_jobs(ctx, [j[2] for j in jobs])
    traces = []
    for (codec, tag, job), r in zip(jobs, res):
        j = dict(op="rt", codec=codec, img=job[1]["img"][:2000])
        if died(r) or r["enc"] != "ok":
            raise Violation("%s wrote no stream" % codec, dict(job=j, result=r))
        px = packed(r["opix"])
        w, h = r["ow"], r["oh"]
        data = w.to_bytes(4, "little") + h.to_bytes(4, "little") + streams.serial(px)
        traces.append(make(ctx, dict(mode="img", w=w, h=h, px=px, order=[], raw=[]), data, bytes.fromhex(r["stream"]), j, some))
    core.validate(ctx, "ZipBackTrace", traces, "look-back-zip image streams", chunk=chunk)
