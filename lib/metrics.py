"""Rows of the report as traces of Metrics."""
import os, threading
from collections import Counter
import core, corpus, cli, bench
from common import *

DISTORT = {
    "s": lambda b: b,
    "d": lambda b: b[:-1] + bytes([1 if b[-1] == 0 else b[-1] - 1]),
    "i": lambda b: bytes(255 - v for v in b),
    "z": lambda b: bytes(len(b)),
    "x": lambda b: bytes(v ^ (i * 37 % 256) for i, v in enumerate(b)),
    "p": lambda b: bytes(v ^ 1 if i % 997 == 5 else v for i, v in enumerate(b)),
    "q": lambda b: b[:len(b) // 2] + bytes([b[len(b) // 2] ^ 0x81]) + b[len(b) // 2 + 1:],
}


def triples(b):
    return list(zip(b[0::3], b[1::3], b[2::3]))


def cells(a, b):
    return [dict(a=list(x), b=list(y), n=n) for (x, y), n in sorted(Counter(zip(triples(a), triples(b))).items())]


def trace(w, h, a, b, row, written=-1, lossless=0, **extra):
    return dict(w=w, h=h, cells=cells(a, b), lossless=lossless, written=written, size=row["size"], ratio=row["ratio"], error=row["error"],
                rw=row["rw"], ew=row["ew"], **extra)


def report_trace(w, h, a, b, pic, row, lossless, **extra):
    """pic: of read_png, "none" without a file, None for a file that isn't a picture"""
    if pic is None:
        raise Violation("the picture isn't one", extra)
    c = b
    if pic != "none":
        d, n = pic[3], pic[2]
        if len(d) // n != w * h:
            raise Violation("the picture doesn't have the size of the image", extra)
        c = d if n == 3 else bytes(v for k in range(0, len(d), n) for v in (d[k:k + 3] if n >= 3 else d[k:k + 1] * 3))
    cs = [dict(a=list(x), b=list(y), c=list(z), n=n) for (x, y, z), n in sorted(Counter(zip(triples(a), triples(b), triples(c))).items())]
    return dict(lossless=lossless, w=w, h=h, has=int(pic != "none"), pw=pic[0] if pic != "none" else 0, ph=pic[1] if pic != "none" else 0, cells=cs,
                row=int(row is not None), error=row["error"] if row else [], ew=row["ew"] if row else 0, **extra)


def distorted(ctx, images, kinds="sdizxpq", pictures=False, lossless=0):
    """Images with decoded images of any kind, through the scripted codec"""
    drv = core.Driver(ctx.binary, jobtime=120.0)
    jobs, metas, scratches = [], [], []
    rng = ctx.rng
    for k in range(0, len(images), 8):
        s = cli.Scratch("dist%d" % k)
        scratches.append(s)
        plans, paths, meta = [], [], {}
        for who, (w, h, data) in enumerate(images[k:k + 8], 1):
            data = bytes([who, 0]) + data[2:]
            kind = kinds[(who + k) % len(kinds)] if w * h < 200000 or rng.random() < 0.5 else rng.choice("pq")
            size = rng.choice((2, 3, 24, 100, 65537, rng.randrange(2, 100000), w * h * 3))
            name = "m%d.ppm" % who
            s.write(name, b"P6\n%d %d\n255\n" % (w, h) + data)
            plans.append("%d:o%s%d" % (who, kind, size))
            paths.append(name)
            meta[who] = (w, h, data, kind, size)
        jobs.append(("bench", dict(dir=s.dir, name="scripted", lossless=lossless, plans=",".join(plans), paths=",".join(paths), gates="", reps=1, rally=0)))
        metas.append(({n: i for i, n in enumerate(paths, 1)}, meta))
    traces = []
    for (names, meta), job, r in zip(metas, jobs, drv.run(jobs)):
        if died(r):
            raise Violation("the benchmark " + died(r), dict(job=job[1], result=short(r, 2000)))
        o = r["reps"][0]
        if o["out"] != "ok":
            raise Violation("the benchmark run doesn't complete: %s %s" % (o["out"], o.get("msg")), dict(job=job[1], out=o["out"]))
        report = bytes.fromhex(o["csv"])
        head, rows, junk = bench.read_report(report, names)
        if pictures:
            pics = {n: cli.read_png(bytes.fromhex(d)) for n, d in o["pngs"]}
            found = {x["t"]: x for x in rows}
            for t, (w, h, a, kind, size) in meta.items():
                traces.append(report_trace(w, h, a, DISTORT[kind](a), pics.pop("m%d.png" % t, "none"), found.get(t), lossless,
                                           _job=dict(image=[w, h, a[:600].hex()], distortion=kind, lossless=lossless, report=report.decode()[:1500])))
                ctx.sample(dict(w=w, h=h, distortion=kind, lossless=lossless, picture=traces[-1]["has"]))
            if pics:
                raise Violation("pictures of no image", dict(job=job[1], pictures=sorted(pics)))
            continue
        if sorted(x["t"] for x in rows) != sorted(meta) or not head or junk:
            raise Violation("not the rows of these images", dict(job=job[1], report=report.decode(errors="replace")[:3000]))
        for row in rows:
            w, h, a, kind, size = meta[row["t"]]
            traces.append(trace(w, h, a, DISTORT[kind](a), row, size,
                                _job=dict(image=[w, h, a[:600].hex()], distortion=kind, written=size, report=report.decode()[:1500])))
            ctx.sample(dict(w=w, h=h, distortion=kind, cells=len(traces[-1]["cells"])))
    ctx.drv.count += drv.count
    for s in scratches:
        s.__exit__()
    return traces


def large(ctx, codec, w, h, data, magic=b"P6"):
    """A large image through the command line; the pixels shown are what the driver decodes (deterministic codecs)"""
    with cli.Scratch("large") as s:
        s.write("large.ppm", magic + b"\n%d %d\n255\n" % (w, h) + data)
        r = s.run(ctx, ["--codec=" + codec, "large.ppm"], timeout=600)
        files = [f for f in s.files() if f.endswith(".csv")]
        report = s.read("output/" + files[0]) if files else None
        pic = cli.read_png(s.read("output/large.png")) if os.path.exists(s.path("output/large.png")) else None
        has = os.path.exists(s.path("output/large.png"))
    j = dict(codec=codec, w=w, h=h, status=r.code, stderr=r.err[-2000:], report=(report or b"").decode(errors="replace"))
    head, rows, junk = bench.read_report(report, {"large.ppm": 1})
    if r.code or not head or junk or len(rows) != 1 or rows[0]["t"] != 1:
        raise Violation("%s of a large image gives no row" % codec, j)
    return rows[0], has, pic, j
