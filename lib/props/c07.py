import core, corpus, streams
from common import *



def run(ctx):
    core.model_check(ctx, "MCZipDict", defs=dict(MaxLen=ctx.pick(9, 13), LastCode=ctx.pick(4, 7)))
    core.model_check(ctx, "MCZipDict", defs=dict(Base=3, MaxLen=ctx.pick(5, 8), LastCode=5))
    if ctx.has("zip"):
        replay_generated(ctx)
        check_raw(ctx)
    check_images(ctx)


def expected(stream, base, letters):
    out = bytearray()
    for p in stream:
        for c in p:
            v = 65535 if c == 2000 else letters[c] if c < base else 256 + c - base
            out += bytes((v & 255, v >> 8))
    return out.hex()


def replay_generated(ctx):
    """All small inputs: the real stream is the one of the specification"""
    for base, maxlen in ((2, ctx.pick(9, 12)), (3, ctx.pick(6, 8))):
        beh = core.generate(ctx, "ZipDictGen", defs=dict(Base=base, MaxLen=maxlen))
        letters = {2: [0, 255], 3: [7, 0, 200]}[base]
        for ch in batch(beh, 400):
            r = ctx.drv.run([("zipraw", dict(kind="dict", datas=",".join(bytes(letters[c] for c in b["input"]).hex() for b in ch)))])[0]
            if died(r):
                raise Violation("the dictionary compressor " + died(r), r)
            for b, o in zip(ch, r["res"]):
                if o.get("stream") != expected(b["stream"], base, letters):
                    raise Violation("the dictionary compressor wrote another stream than the specification's",
                                    dict(input=[letters[c] for c in b["input"]], spec=expected(b["stream"], base, letters), real=o))
        ctx.note("replayed_behaviours", len(beh))


def raws(ctx):
    rng = ctx.rng
    res = [b"", b"a", b"ab", b"aa", b"aaa", bytes(range(256)), bytes(range(256)) * 3, b"\xff" * 1000, b"ab" * 500, b"abc" * 333,
           b"\x00" * 4097, bytes(rng.randrange(256) for _ in range(3000)), b"banana" * 50 + b"bandana" * 50]
    for _ in range(ctx.pick(60, 400)):
        n = rng.randrange(1, 500)
        al = rng.choice([1, 2, 3, 4, 8, 256])
        x = bytes(rng.randrange(al) * (255 // max(1, al - 1)) if al < 256 else rng.randrange(256) for _ in range(n))
        if rng.random() < 0.3:
            x = x[:40] * rng.randrange(1, 20)
        res.append(x)
    return res


def check_raw(ctx):
    datas = raws(ctx)
    rng = ctx.rng
    # every pair defines a symbol until there are none left
    big = [bytes(rng.randrange(256) for _ in range(ctx.pick(150000, 400000)))]
    big.append(b"".join(bytes((i & 255, i >> 8)) for i in range(0, 65536)) * 2)
    traces = []
    for ds in [datas] + [[b] for b in big]:
        r = ctx.drv.run([("zipraw", dict(kind="dict", datas=",".join(d.hex() for d in ds)))])[0]
        if died(r):
            raise Violation("the dictionary compressor " + died(r), r)
        for d, o in zip(ds, r["res"]):
            if o["enc"] != "ok":
                raise Violation("the dictionary compressor failed", dict(data=d.hex()[:2000], result=o))
            traces.append(make(ctx, dict(mode="raw", w=0, h=0, px=[], order=[], raw=list(d), head=[]), d, bytes.fromhex(o["stream"]),
                               dict(data=d.hex()[:2000])))
    small = [t for t in traces if t["n"] < 20000]
    large = [t for t in traces if t["n"] >= 20000]
    core.validate(ctx, "ZipDictTrace", small, "dictionary streams")
    core.validate(ctx, "ZipDictTrace", large, "dictionary streams")
    if not any(len(t["a"]) > 65279 and t["greedy"] for t in large):
        ctx.note("exhaustion_not_reached")
    # very long
    d = texty(rng, 1300000)
    r = ctx.drv.run([("zipraw", dict(kind="dict", datas=d.hex()))])[0]
    if died(r) or r["res"][0]["enc"] != "ok":
        raise Violation("the dictionary compressor failed", dict(data=d.hex()[:2000]))
    core.validate(ctx, "ZipDictTrace", [make(ctx, dict(mode="raw", w=0, h=0, px=[], order=[], raw=list(d), head=[]), d, bytes.fromhex(r["res"][0]["stream"]),
                                             dict(data=d.hex()[:2000]))], "long dictionary streams")


def texty(rng, n):
    """Words of a vocabulary, as in a text"""
    words = [bytes(rng.choice(b"etaoinshrdlu") for _ in range(rng.randrange(2, 30))) for _ in range(400)]
    words += [rng.randbytes(40) for _ in range(20)]
    out = bytearray()
    while len(out) < n:
        out += rng.choice(words) + rng.choice((b" ", b", ", b". "))
    return bytes(out[:n])


def make(ctx, t, data, body, job):
    hints, ragged = streams.zipdict_hints(data, body, ctx.pick(250000, 5000000), ctx.rng)
    if ragged:
        raise Violation("a dictionary stream isn't a sequence of pairs of 16-bit symbols", dict(job=job, length=len(body)))
    t.update(hints)
    t["_job"] = job
    ctx.note("pairs", len(t["a"]))
    ctx.note("streams_checked_for_greed" if t["greedy"] else "streams_checked_for_validity_only")
    ctx.sample(dict(mode=t["mode"], data_bytes=len(data), pairs=len(t["a"])))
    return t


def check_images(ctx):
    check_these(ctx, generated_images(ctx, maxpx=ctx.pick(4, 6)) + corpus.standard(ctx, big=False), 1500)
    check_these(ctx, corpus.vast(ctx)[:1], 1)


def check_these(ctx, imgs, chunk):
    jobs = rt_jobs(["zip(dict)", "hilbert(zip)"], [(t, i, False) for t, i, _ in imgs], nostream=False)
    res = run_codec_jobs(ctx, [j[2] for j in jobs])
    ords = traversals(ctx, [(r["ow"], r["oh"]) for r in res if "ow" in r])
    traces = []
    for (codec, tag, job), r in zip(jobs, res):
        j = dict(op="rt", codec=codec, img=job[1]["img"][:2000])
        if died(r) or r["enc"] != "ok":
            raise Violation("%s wrote no stream" % codec, dict(job=j, result=r))
        px = packed(r["opix"])
        st = bytes.fromhex(r["stream"])
        w, h = r["ow"], r["oh"]
        if codec == "zip(dict)":
            data = w.to_bytes(4, "little") + h.to_bytes(4, "little") + streams.serial(px)
            t = dict(mode="img", w=w, h=h, px=px, order=[], raw=[], head=[])
            body = st
        else:
            if (w, h) not in ords:
                continue
            order = ords[(w, h)]
            data = streams.serial(px, order)
            t = dict(mode="hil", w=w, h=h, px=px, order=order, raw=[], head=list(st[:8]))
            body = st[8:]
        traces.append(make(ctx, t, data, body, j))
    core.validate(ctx, "ZipDictTrace", traces, "dictionary-zip image streams", chunk=chunk)
