import core, corpus
from common import *

# codec, behaves as lossless on every image, deterministic
CODECS = [("hufman", 1, 1), ("delta", 1, 1), ("zip(dict)", 1, 1), ("zip(back)", 1, 1), ("hilbert(rle)", 1, 1), ("hilbert(zip)", 1, 1),
          ("hilbert(rle(10))", 0, 1), ("cluster-colors(4)", 0, 0), ("cluster-colors(5000)", 1, 1), ("voronoi(3)", 0, 0),
          ("voronoi(1)", 0, 1), ("voronoi(5000)", 1, 1)]


def images(ctx):
    rng = ctx.rng
    imgs = generated_images(ctx, maxpx=ctx.pick(3, 5))[::ctx.pick(2, 1)]
    for w, h in [(1, 1), (2, 2), (5, 4), (12, 9), (33, 1), (1, 30), (20, 21)]:
        imgs.append(("const", corpus.constant(w, h), False))
        imgs.append(("noise", corpus.noise(rng, w, h), False))
        imgs.append(("few", corpus.few(rng, w, h, 4), False))
        imgs.append(("gradient", corpus.gradient(w, h), False))
    imgs.append(("runs", corpus.runs([255, 256, 3]), False))
    imgs.append(("codes", corpus.freqs(corpus.fib(10), rng), False))
    imgs.append(("large", corpus.noise(rng, 60, 60), True))
    imgs.append(("large", corpus.few(rng, 130, 70, 40), True))
    imgs.append(("larger", corpus.noise(rng, 300, 230), True))
    for _ in range(ctx.pick(6, 60)):
        w, h = rng.randrange(1, 12), rng.randrange(1, 12)
        imgs.append(("random", corpus.few(rng, w, h, rng.randrange(1, 9)), False))
    return imgs


def plans(ctx, px):
    rng = ctx.rng
    ps = ["-1//0/err/0", "-1/1/0/err/0", "-1/1,2,3/0/err/0", "-1/5/2/err/0", "-1//2/err/0", "-1/1/3/err/0", "-1/7,1/5/err/0", "-1/4096/0/err/0"]
    # a failure after every byte at the start and at the end, and a selection in between
    bs = set(range(0, 60)) | set(range(-50, -1)) | {rng.randrange(0, 11 * px + 60) for _ in range(ctx.pick(25, 250))}
    if px > 20000:
        # late failures
        bs = {-2, -9, -700} | {rng.randrange(0, 3 * px) for _ in range(9)} | {65535, 65536, 131072, 200001}
    elif px > 1000:
        bs = set(range(0, 20)) | set(range(-12, -1)) | {8191, 8192, 8193, 16384, 4096, 65536} | {rng.randrange(0, 11 * px) for _ in range(12)}
    for n, b in enumerate(sorted(bs)):
        # (once: the writer recovers from the failure, but the stream can't)
        mode = ("err", "once", "zero", "once", "pipe")[n % 5]
        ps.append("%d/%s/%d/%s/0" % (b, ("", "1", "3,2", "")[n % 4], (0, 0, 2)[n % 3], mode))
    return ";".join(ps)


def run(ctx):
    core.model_check(ctx, "MCSession")
    core.model_check(ctx, "MCSessionBytes")
    jobs, meta = [], []
    imgs = images(ctx)
    for codec, ll, det in CODECS:
        for n, (tag, img, large) in enumerate(imgs):
            w, h = map(int, img.split(":")[1:3])
            if codec.startswith("vor") and w * h > 150 or codec.startswith("cluster") and (n % 3 or w * h > 500):
                continue
            jobs.append(("fault", dict(codec=core.h(codec), img=img, plans=plans(ctx, w * h))))
            meta.append((codec, ll, det, tag, img))
    res = run_codec_jobs(ctx, jobs)
    traces = []
    for (codec, ll, det, tag, img), r in zip(meta, res):
        j = dict(op="fault", codec=codec, img=img[:3000])
        if died(r):
            raise Violation("%s on a failing output %s" % (codec, died(r)), dict(job=j, result=r))
        if r["enc"] != "ok":
            raise Violation("%s wrote no stream" % codec, dict(job=j, result=r))
        t = Trace()
        c = t.codec(codec, ll)
        i = t.img(r["ow"], r["oh"], "#" + r["odig"])
        ref = None
        for o in r["results"]:
            pj = dict(j, plan=o["plan"], outcome=o)
            if o["out"] == "panic":
                raise Violation("%s panicked on a failing output (%s): %s" % (codec, o["plan"], o.get("msg")), pj)
            if o["dec"] == "panic":
                raise Violation("%s panicked when decoding what a failing output received (%s): %s" % (codec, o["plan"], o.get("decmsg")), pj)
            if o["dec"] == "some":
                out = t.img(o["dw"], o["dh"], "#" + o["ddig"])
            else:
                out = 0
            t.add(op="fresh")
            if o["out"] == "ok":
                t.add(op="enc", c=c, i=i, n=o["n"], faults=o["failures"])
            else:
                t.add(op="encfail", c=c, i=i, n=o["n"], faults=o["failures"])
            ev = dict(op="dec", out=out, used=o["n"])
            if out and det:
                if ref is None:
                    ref = out           # the first plan is the undisturbed one
                ev["ref"] = ref
            t.add(**ev)
            ctx.note("faulty_runs_" + o["out"])
        ctx.sample(dict(codec=codec, image=tag, length=r["len"], plans=len(r["results"])))
        traces.append(t.get(_job=j))
    core.validate(ctx, "SessionTrace", traces, "encodings with a failing output", chunk=1500)
