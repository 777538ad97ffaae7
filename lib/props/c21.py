import os, re
import core, corpus, cli
from common import *
from props import c14

ASSUMPTIONS = ["the walks that the lines are compared with are recorded from the code (C14 is about them)"]

NAMES = ["i%d.ppm", "sub/i%d.ppm", "./i%d.ppm", "a b%d.ppm", "x.y%d.ppm", "i%d.min.ppm", "\u00e9%d.ppm", "%d.rect.ppm", "csv%d.csv.ppm", "UP%d.PPM", "hilbert.%d.ppm", "x,\"%d.ppm"]


def walks(ctx, ds):
    ds = sorted(set(ds))
    return c14.walks(ctx, ds) or c14.coded(ctx, ds)


def read(data):
    """head, rows, junk"""
    if data is None:
        return 0, [], 1
    text = data.decode(errors="replace")
    lines = text.split("\n")
    junk = 0
    if lines[-1] != "":
        junk += 1
    lines = [l[:-1] if l.endswith("\r") else l for l in lines[:-1]]
    head = int(bool(lines) and lines[0] == "red,green,blue")
    rows = []
    for l in lines[head:]:
        if not re.fullmatch(r"\d{1,3},\d{1,3},\d{1,3}", l):
            junk += 1
            continue
        a, b, c = map(int, l.split(","))
        if max(a, b, c) > 255:
            junk += 1
        rows.append(a << 16 | b << 8 | c)
    return head, rows, junk


def one_run(ctx, files, stale=False):
    """files: (name, bytes, image)"""
    originals = run_codec_jobs(ctx, [("rt", dict(codec=core.h("hilbert(rle)"), img=f[2], nostream=1)) for f in files])
    traces = []
    with cli.Scratch("dump") as s:
        expected = []
        for name, data, img in files:
            s.write(name, data)
            stem = os.path.splitext(os.path.basename(name))[0]
            expected.append(["%s.%s.hilbert.csv" % (stem, v) for v in ("rect", "small", "large")])
            if stale:
                for e in expected[-1]:
                    s.write("output/" + e, b"red,green,blue\n" + b"1,2,3\n" * 3000)
        r = s.run(ctx, ["--special=hilbert"] + [f[0] for f in files], timeout=300)
        others = len(set(s.files()) - {e for es in expected for e in es})
        for (name, data, img), es, o in zip(files, expected, originals):
            if died(o) or "opix" not in o:
                raise Violation("hilbert(rle) doesn't get through the image: %s" % (died(o) or o.get("encmsg")), dict(img=img[:2000], result=short(o, 1000)))
            w, h = o["ow"], o["oh"]
            px = packed(o["opix"])
            fs, texts = [], {}
            for v, e in zip(("rect", "small", "large"), es):
                d = s.read("output/" + e)
                head, rows, junk = read(d)
                fs.append(dict(name=v, head=head, rows=rows, junk=junk))
                texts[e] = (d or b"<none>")[:300].decode(errors="replace")
            traces.append(dict(w=w, h=h, px=px, code="ok" if r.code == 0 else "status %d" % r.code, files=fs, others=others,
                               _job=dict(name=name, files=[f[0] for f in files], image=img[:2000], dumps=texts, stderr=r.err[-1000:], status=r.code)))
    return traces


def run(ctx):
    core.model_check(ctx, "MCDump", defs=ctx.pick({}, dict(MaxW=3, MaxH=4)))
    core.model_refute(ctx, "MCDump", cfg="MCDumpAppend", kind="invariant GoodDump")
    rng = ctx.rng
    traces = []
    for n in range(ctx.pick(45, 400)):
        files = []
        for k in range(rng.choice((1, 1, 2, 3, 8))):
            w, h = rng.choice(((1, 1), (1, rng.randrange(2, 40)), (rng.randrange(2, 40), 1), (rng.randrange(1, 12), rng.randrange(1, 12)),
                               (rng.randrange(8, 40), rng.randrange(8, 40)), rng.choice(((8, 8), (16, 16), (7, 9), (33, 31), (32, 40), (64, 20)))))
            if rng.random() < 0.3:
                _, img = rng.choice(corpus.formats(rng, min(w, 12), min(h, 12)))
                files.append(("i%d.png" % k, cli.png(img), img))
            else:
                img = rng.choice((corpus.noise(rng, w, h), corpus.few(rng, w, h, 3), corpus.gradient(w, h), corpus.distinct(w, h, rng.randrange(1 << 24), rng.randrange(1, 5000))))
                files.append((rng.choice(NAMES) % k, cli.ppm(img), img))
        traces += one_run(ctx, files, stale=rng.random() < 0.3)
    for w, h in ctx.pick([(300, 201), (129, 100), (1, 300), (200, 260), (331, 301), (600, 450)], [(1500, 1100), (331, 301), (300, 201), (129, 100), (1, 700), (800, 600), (600, 800), (1025, 300), (700, 2)]):
        img = rng.choice((corpus.noise(rng, w, h), corpus.distinct(w, h)))
        traces += one_run(ctx, [("big.ppm", cli.ppm(img), img)])
    # many images
    for k in (130, 300):
        traces += one_run(ctx, [("m%d.ppm" % j, cli.ppm(i), i) for j, i in enumerate(corpus.noise(rng, rng.randrange(1, 4), rng.randrange(1, 4)) for _ in range(k))])
    ds = []
    for t in traces:
        i, o = c14.pow2_inside(t["w"], t["h"]), c14.pow2_around(t["w"], t["h"])
        ds += [(t["w"], t["h"]), (i, i), (o, o)]
        ctx.sample(dict(w=t["w"], h=t["h"], lines=[len(f["rows"]) for f in t["files"]]))
    paths = walks(ctx, ds)
    # (without the driver's part, the order of the largest squares isn't known)
    known = [t for t in traces if (o := c14.pow2_around(t["w"], t["h"])) and (o, o) in paths]
    ctx.note("images_without_known_order", len(traces) - len(known))
    traces = known
    for t in traces:
        i, o = c14.pow2_inside(t["w"], t["h"]), c14.pow2_around(t["w"], t["h"])
        t["walk"], t["inner"], t["around"] = paths[(t["w"], t["h"])], paths[(i, i)], paths[(o, o)]
        t["inv"] = c14.inverse(t["walk"], t["w"] * t["h"])
        t["pos"] = [k + 1 for k, j in enumerate(t["around"]) if (j - 1) % o < t["w"] and (j - 1) // o < t["h"]]
    ctx.note("dumps", len(traces))
    part, size = [], 0
    for t in traces:
        part.append(t)
        size += 4 * len(t["px"]) + len(t["around"])
        if size > 1500000:
            core.validate(ctx, "DumpTrace", part, "dump")
            part, size = [], 0
    core.validate(ctx, "DumpTrace", part, "dump")
