"""Pieces shared by the property modules."""
import hashlib, json
import core, corpus
from core import Violation, ToolError, died, short

ALL_CODECS = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)", "hilbert(rle(10))",
              "cluster-colors(5)", "voronoi(6)"]
LOSSLESS = {"hufman": 1, "delta": 1, "zip(dict)": 1, "zip(back)": 1, "hilbert(rle)": 1, "hilbert(zip)": 1,
            "hilbert(rle(0))": 1, "hilbert(rle(0.0))": 1}


def is_lossless(codec):
    return LOSSLESS.get(codec, 0)


def generated_images(ctx, maxpx=None, colors=4, palettes=None):
    """All the small images enumerated by TLC, in concrete colours."""
    b = core.generate(ctx, "ImageGen", defs=dict(MaxPixels=maxpx or ctx.pick(6, 8), MaxColors=colors))
    res = []
    for n, x in enumerate(b):
        pals = palettes or [corpus.PALETTES[n % len(corpus.PALETTES)]]
        for pal in pals:
            res.append(("gen", corpus.spec(x["w"], x["h"], [pal[c - 1] for c in x["px"]]), False))
    return res


def batch(items, n):
    return [items[i:i + n] for i in range(0, len(items), n)]


def run_codec_jobs(ctx, jobs):
    return ctx.drv.run(jobs)


class Trace:
    """Builds a SessionTrace."""
    def __init__(self):
        self.imgs, self.index, self.ll, self.cidx, self.ev = [], {}, [], {}, []

    def img(self, w, h, px):
        key = (w, h, px)
        if key not in self.index:
            self.imgs.append(dict(w=w, h=h, px=px))
            self.index[key] = len(self.imgs)
        return self.index[key]

    def codec(self, name, lossless):
        if name not in self.cidx:
            self.ll.append(int(lossless))
            self.cidx[name] = len(self.ll)
        return self.cidx[name]

    def add(self, **e):
        self.ev.append(e)

    def get(self, **extra):
        d = dict(ll=self.ll, imgs=self.imgs, ev=self.ev)
        d.update(extra)
        return d


def px_of(r, prefix):
    return r[prefix + "pix"] if prefix + "pix" in r else "#" + r[prefix + "dig"]


def rt_trace(codec, r, job):
    """One encode-decode job as a history. Something that Session has no event
    for (a panic, an error without a cause) is a violation right away."""
    why = died(r)
    if why:
        raise Violation("%s %s" % (codec, why), dict(codec=codec, job=job, result=r))
    if r["enc"] != "ok":
        raise Violation("%s: encoding gave %s: %s" % (codec, r["enc"], r.get("encmsg")), dict(codec=codec, job=job, result=r))
    t = Trace()
    c = t.codec(codec, is_lossless(codec))
    i = t.img(r["ow"], r["oh"], px_of(r, "o"))
    t.add(op="enc", c=c, i=i, n=r["len"])
    if r["dec"] == "panic":
        raise Violation("%s: decoding panicked: %s" % (codec, r.get("decmsg")), dict(codec=codec, job=job, result=r))
    if r["dec"] == "some":
        t.add(op="dec", out=t.img(r["dw"], r["dh"], px_of(r, "d")), used=r["used"])
    else:
        t.add(op="dec", out=0, used=r["used"])
    return t.get(_job=job, _codec=codec)


def rt_jobs(codecs, imgs, nostream=True, tail=""):
    jobs = []
    for codec in codecs:
        for tag, img, large in imgs:
            kv = dict(codec=core.h(codec), img=img)
            if large:
                kv["digest"] = 1
            if nostream:
                kv["nostream"] = 1
            if tail:
                kv["tail"] = tail
            jobs.append((codec, tag, ("rt", kv)))
    return jobs


def roundtrips(ctx, codecs, imgs, what, lossless=True):
    """Encode and decode, and check the histories against Session."""
    jobs = rt_jobs(codecs, imgs)
    res = run_codec_jobs(ctx, [j[2] for j in jobs])
    traces = []
    for (codec, tag, job), r in zip(jobs, res):
        traces.append(rt_trace(codec, r, dict(op="rt", codec=codec, tag=tag, img=job[1]["img"][:2000])))
        ctx.sample(dict(codec=codec, image=tag, w=r["ow"], h=r["oh"], bytes=r["len"]))
    ctx.note("roundtrips", len(traces))
    core.validate(ctx, "SessionTrace", traces, what)
    return res


def color_hex(pix, i):
    return pix[6 * i:6 * i + 6]


def packed(pix):
    """hex RGB -> list of r*65536+g*256+b"""
    b = bytes.fromhex(pix)
    return [b[i] << 16 | b[i + 1] << 8 | b[i + 2] for i in range(0, len(b), 3)]


def traversals(ctx, dims):
    """The default traversal as recorded from the code: {(w, h): raster indices from 1}.
    Falls back on what the run-length codec does with an image of distinct colours."""
    dims = sorted(set(dims))
    jobs = [("hilb", dict(dims=",".join("%dx%d" % d for d in b))) for b in batch(dims, 20)]
    res = {}
    if ctx.has("hilb"):
        for r in ctx.drv.run(jobs):
            if died(r):
                raise Violation("traversal " + died(r), r)
            for o in r["res"]:
                if o["out"] == "ok":
                    p = o["path"]
                    res[(o["w"], o["h"])] = [p[k + 1] * o["w"] + p[k] + 1 for k in range(0, len(p), 2)]
    else:
        rs = ctx.drv.run([("rt", dict(codec=core.h("hilbert(rle)"), img=corpus.distinct(w, h))) for w, h in dims])
        for (w, h), r in zip(dims, rs):
            s = bytes.fromhex(r.get("stream", ""))[8:]
            res[(w, h)] = [1 + (s[k + 9] | s[k + 10] << 8 | s[k + 11] << 16) for k in range(0, len(s), 12)]
    for d in dims:
        if d not in res or sorted(res[d]) != list(range(1, d[0] * d[1] + 1)):
            ctx.note("dimensions_without_traversal")
            res.pop(d, None)
    return res


def raw_roundtrips(ctx, kind, datas, what):
    """Byte strings through a byte compressor, as histories of Session (a byte
    string counts as a column of bytes)."""
    groups, cur, size = [], [], 0
    for d in datas:
        cur.append(d)
        size += len(d)
        if len(cur) >= 300 or size > 400000:
            groups.append(cur)
            cur, size = [], 0
    if cur:
        groups.append(cur)
    jobs = [("zipraw", dict(kind=kind, digest=1, nostream=1, datas=",".join(d.hex() for d in g))) for g in groups]
    traces = []
    for g, r in zip(groups, ctx.drv.run(jobs)):
        if died(r):
            raise Violation("%s %s" % (what, died(r)), dict(result=r, datas=[d.hex()[:500] for d in g]))
        for d, o in zip(g, r["res"]):
            j = dict(kind=kind, data=d.hex()[:4000], length=len(d))
            if o["enc"] != "ok":
                raise Violation("%s: encoding gave %s: %s" % (what, o["enc"], o.get("msg")), dict(job=j, result=o))
            if o["dec"] == "panic":
                raise Violation("%s: decoding panicked: %s" % (what, o.get("msg")), dict(job=j, result=o))
            t = Trace()
            c = t.codec(kind, 1)
            t.add(op="enc", c=c, i=t.img(1, len(d), o["odig"]), n=max(1, o["len"]))
            t.add(op="dec", out=t.img(1, o["dlen"], o["ddig"]), used=max(1, o["len"]))
            traces.append(t.get(_job=j))
            ctx.sample(dict(bytes=len(d), compressed=o["len"]))
    ctx.note("byte_strings", len(traces))
    core.validate(ctx, "SessionTrace", traces, what)


def all_strings(letters, n):
    """All the strings over the letters up to length n"""
    res, cur = [b""], [b""]
    for _ in range(n):
        cur = [s + bytes([l]) for s in cur for l in letters]
        res += cur
    return res
