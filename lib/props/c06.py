import core, corpus, streams
from common import *



def run(ctx):
    core.model_check(ctx, "MCHuffman", defs=dict(MaxSyms=4, MaxWeight=ctx.pick(4, 6)))
    core.model_check(ctx, "MCHuffman", defs=dict(MaxSyms=5, MaxWeight=ctx.pick(2, 4)))
    rng = ctx.rng
    imgs = generated_images(ctx, maxpx=ctx.pick(5, 7)) + [c for c in corpus.standard(ctx, big=False)]
    for n in range(2, ctx.pick(20, 30)):
        imgs.append(("zipf", corpus.freqs([1 + 200 // (k + 1) for k in range(n)], rng), False))
        imgs.append(("pow2", corpus.freqs([2 ** min(k, 9) for k in range(min(n, 12))], rng), False))
        imgs.append(("rnd", corpus.freqs([rng.choice([1, 1, 2, 3, 5, 8, 13, 40]) for _ in range(n)], rng), False))
    check_streams(ctx, ["hufman", "delta", "cluster-colors(3)", "cluster-colors(17)"], imgs)
    # many leaves
    big = [("leaves", corpus.freqs([1 + rng.randrange(6) for _ in range(ctx.pick(1500, 4000))], rng), True),
           ("equal", corpus.distinct(40, 30, 5, 11), True), ("skew", corpus.freqs(corpus.fib(ctx.pick(18, 21)), rng), True)]
    check_streams(ctx, ["hufman", "delta"], big)
    heavy(ctx)


def heavy(ctx):
    """Symbols that occur very often: only the code is checked, not the payload
    (that's C01 and C05's business)"""
    rng = ctx.rng
    imgs = []
    for counts in ([200000, 70000, 66000, 65600], [65536, 65535, 65534, 3], [131072, 65536 + 9, 65536 + 5, 2, 2], [70000, 1, 1], [140000, 80000, 70003, 66001, 40000, 30000, 9],
                   corpus.fib(ctx.pick(24, 29)), [256, 255, 257, 511, 512, 513, 1, 2, 128, 127, 70000]):
        imgs.append(("heavy", corpus.freqs(counts, rng), True))
    # hardly any difference: one symbol of delta that occurs very often
    px = [(1, 2, 3)] * 140000
    for k in range(0, 140000, 700):
        px[k] = (1, 2, 4 + k % 3)
    imgs.append(("heavy line", corpus.line(px), True))
    jobs = rt_jobs(["hufman", "delta"], [(t, i, False) for t, i, _ in imgs], nostream=False)
    # large alphabets, some symbols much more frequent than the others
    for n in ctx.pick((10000,), (5000, 9000, 17000, 34000)):
        counts = [rng.choice((1, 1, 1, 2, 3)) for _ in range(n)] + [n, n // 2, n // 5, 700]
        jobs += rt_jobs(["hufman"], [("large alphabet", corpus.freqs(counts, rng), False)], nostream=False)
    res = run_codec_jobs(ctx, [j[2] for j in jobs])
    ords = traversals(ctx, [(r["ow"], r["oh"]) for (c, t, j), r in zip(jobs, res) if c == "delta" and "ow" in r])
    traces = []
    for (codec, tag, job), r in zip(jobs, res):
        j = dict(op="rt", codec=codec, img=job[1]["img"][:2000])
        if died(r) or r["enc"] != "ok":
            raise Violation("%s wrote no stream" % codec, dict(job=j, result=short(r, 2000)))
        kind = "delta" if codec == "delta" else "rgb"
        msg = packed(r["opix"])
        if kind == "delta":
            if (r["ow"], r["oh"]) not in ords:
                continue
            msg = streams.diffs(msg, ords[(r["ow"], r["oh"])])
        st = bytes.fromhex(r["stream"])
        idx, cnt, asc = streams.huffman_hints(kind, st, msg)
        traces.append(dict(kind=kind, w=r["ow"], h=r["oh"], px=[], order=[], bytes=list(st[:20 + 14 * len(cnt)]), idx=[], cnt=cnt, asc=asc, total=len(st), _job=j))
        ctx.note("symbols", len(msg))
    core.validate(ctx, "HuffmanTrace", traces, "prefix codes of frequent symbols")


def check_streams(ctx, codecs, imgs):
    jobs = rt_jobs(codecs, [(t, i, False) for t, i, _ in imgs], nostream=False)
    res = run_codec_jobs(ctx, [j[2] for j in jobs])
    ords = traversals(ctx, [(r["ow"], r["oh"]) for (c, t, j), r in zip(jobs, res) if c == "delta" and "ow" in r])
    traces = []
    for (codec, tag, job), r in zip(jobs, res):
        j = dict(op="rt", codec=codec, img=job[1]["img"][:2000])
        if died(r) or r["enc"] != "ok":
            raise Violation("%s wrote no stream" % codec, dict(job=j, result=r))
        if codec == "delta" and (r["ow"], r["oh"]) not in ords:
            continue
        px = packed(r["opix"])
        kind = "delta" if codec == "delta" else "rgb"
        order = []
        msg = px
        if codec.startswith("cluster"):
            if r["dec"] != "some" or r["dw"] * r["dh"] != r["ow"] * r["oh"]:
                raise Violation("%s: its stream does not decode" % codec, dict(job=j, result=r))
            msg = px = packed(r["dpix"])
        if kind == "delta":
            order = ords[(r["ow"], r["oh"])]
            msg = streams.diffs(px, order)
        st = bytes.fromhex(r["stream"])
        idx, cnt, asc = streams.huffman_hints(kind, st, msg)
        ctx.note("leaves", len(cnt))
        ctx.note("symbols", len(msg))
        ctx.sample(dict(codec=codec, image=tag, leaves=len(cnt), symbols=len(msg), bytes=len(st)))
        traces.append(dict(kind=kind, w=r["ow"], h=r["oh"], px=px, order=order, bytes=list(st), idx=idx, cnt=cnt,
                           asc=asc, _job=j))
    core.validate(ctx, "HuffmanTrace", traces, "prefix-code streams", chunk=2500)
