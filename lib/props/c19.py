import core, corpus
from common import *


def images(ctx):
    rng = ctx.rng
    imgs = generated_images(ctx, maxpx=ctx.pick(4, 6))[::ctx.pick(2, 1)]
    for w, h in [(1, 1), (1, 2), (2, 2), (3, 3), (7, 5), (16, 16), (40, 1), (1, 40), (300, 1), (23, 19)]:
        imgs.append(("const", corpus.constant(w, h), False))
        imgs.append(("noise", corpus.noise(rng, w, h), False))
        imgs.append(("few", corpus.few(rng, w, h, 3), False))
        imgs.append(("blocks", corpus.blocks(rng, w, h), False))
        imgs.append(("gradient", corpus.gradient(w, h), False))
    for n in (2, 3, 7, 8, 9, 17):
        imgs.append(("codes", corpus.freqs([1] * n, rng), False))
        imgs.append(("fib", corpus.freqs(corpus.fib(min(n, 11)), rng), False))
    for l in ([255], [256], [255, 1], [254, 2, 300]):
        imgs.append(("runs", corpus.runs(l), False))
    # what is missing can be a round number of pixels
    for n in (257, 513, 65537, 65536 + 256):
        imgs.append(("tail", corpus.spec(n, 1, [(0, 0, 0)] + [(1, 0, 0)] * (n - 1)), True))
    imgs.append(("tail", corpus.spec(1, 65793, [(0, 0, 0)] * 257 + [(1, 0, 0)] * 65536), True))
    imgs.append(("noise", corpus.noise(rng, 300, 230), True))
    for _ in range(ctx.pick(20, 200)):
        w, h = rng.randrange(1, 14), rng.randrange(1, 14)
        imgs.append(("random", corpus.few(rng, w, h, rng.randrange(1, 9)), False))
    return imgs


CODECS = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(10))", "hilbert(rle(0.5))",
          "cluster-colors(1)", "cluster-colors(5)", "cluster-colors(400)", "voronoi(1)", "voronoi(6)", "voronoi(500)"]


def run(ctx):
    core.model_check(ctx, "MCSession")
    core.model_check(ctx, "MCSessionBytes")
    rng = ctx.rng
    jobs, meta = [], []
    imgs = images(ctx)
    for codec in CODECS:
        for n, (tag, img, large) in enumerate(imgs):
            w, h = map(int, img.split(":")[1:3])
            if codec.startswith("vor") and w * h > 200 or codec.startswith("cluster") and n % 3 or tag == "tail" and large and not codec.startswith("hilbert"):
                continue
            px = w * h
            cuts = "all"
            if px > 60:
                c = set(range(0, 45)) | set(range(-45, 0)) | {rng.randrange(0, 12 * px + 50) for _ in range(ctx.pick(60, 400))}
                if tag == "tail":
                    c |= {8 + 12 * k for k in range(px // 200)}
                cuts = ",".join(str(x) for x in sorted(c))
            jobs.append(("trunc", dict(codec=core.h(codec), img=img, cuts=cuts)))
            meta.append((codec, tag, img))
    res = run_codec_jobs(ctx, jobs)
    traces = []
    for (codec, tag, img), r in zip(meta, res):
        j = dict(op="trunc", codec=codec, img=img[:3000])
        if died(r):
            raise Violation("decoding a truncated %s stream %s" % (codec, died(r)), dict(job=j, result=r))
        if r["enc"] != "ok":
            raise Violation("%s wrote no stream" % codec, dict(job=j, result=r))
        if "P" in r["res"]:
            raise Violation("%s: decoding the first %d bytes of a stream of %d panicked: %s" % (
                codec, r["cuts"][r["res"].index("P")], r["len"], r.get("msg")), dict(job=j, stream=r["stream"][:4000]))
        t = Trace()
        c = t.codec(codec, 0)
        w, h = map(int, img.split(":")[1:3])
        i = t.img(w, h, "image")
        t.add(op="enc", c=c, i=i, n=r["len"])
        for cut, o in sorted(set(zip(r["cuts"], r["res"])), reverse=True):
            t.add(op="trunc", k=cut)
            t.add(op="dec", out=1 if o == "S" else 0, used=cut)
        ctx.note("truncations", len(r["cuts"]))
        ctx.sample(dict(codec=codec, image=tag, length=r["len"], cuts=len(r["cuts"])))
        traces.append(t.get(_job=j))
    core.validate(ctx, "SessionTrace", traces, "truncated streams", chunk=2500)
