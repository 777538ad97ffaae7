"""Histories of runs in one directory, as traces of Workspace."""
import concurrent.futures, hashlib, os, random
import core, corpus, cli
from core import Violation

EXACT = ["hufman", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "hilbert(zip)"]
# (those that are certain to give the same every time)
INEXACT = [["hilbert(rle(20))", "cluster-colors(1)", "hilbert(rle(38))"], ["voronoi(1)", "hilbert(rle(18.5))", "hilbert(rle(33.25))"]]
LOSSY_CODECS, PLAIN, BAD = (4, 5, 6), (4,), (5, 6)
NI, NC = 6, 6
HEADER = b"name,compressed_size,compression_ratio,error"
VARIANTS = 12   # of WorkspaceGen
LONG = 150
DUMPS = ("rect", "small", "large")
NAMES = ["i%d", "sub/i%d", "./i%d", "deep/er/i%d", "x y%d", "x.y%d", "\u00e9%d", "q,\"%d", "Hufman%d", "hilbert-rle%d", "%d.rect.hilbert"]

BYSTANDERS = {"output/notes.txt": b"do not touch\n", "output/other.csv": HEADER + b"\nold.ppm,1,1.0,0.0\n", "output/old.png": b"a picture",
              "output/old.rect.hilbert.csv": b"red,green,blue\n1,2,3\n", "Hufman.csv": b"elsewhere", "output/kept/Hufman.csv": b"below", "output/Hufman.csv.bak": b"saved"}


def refused(v, images):
    return [[], ["--codec=foo"] + images, ["--codec="] + images, ["--special=foo"] + images, ["--special="] + images, ["--codec", "hufman"] + images,
            images or ["hufman"], ["hufman"] + images, ["--codec=voronoi(0)"] + images, ["--Codec=hufman"] + images, ["--codec=hufman "] + images,
            ["--special=hilbert2"] + images][v - 1]


def near(rng, w, h):
    """A few colours within a distance of 60 of each other: any of the lossy codecs changes them"""
    base = [rng.randrange(200) for _ in range(3)]
    pal = [tuple(b + rng.randrange(0, 30) for b in base) for _ in range(4)] + [tuple(base), tuple(b + 30 for b in base)]
    px = [rng.choice(pal) for _ in range(w * h)]
    px[0], px[-1] = pal[4], pal[5]
    return px


def pictures(ctx, rng):
    for k in range(20):
        p = Pictures(ctx, rng)
        if all(len(set(map(str, p.shown.get(i, {}).values()))) == (0 if i in PLAIN else len(LOSSY_CODECS)) for i in range(1, NI + 1) if i not in BAD):
            return p
    raise Violation("lossy codecs don't leave a picture of what they made of an image", dict(images=p.names, pictures={i: list(c) for i, c in p.shown.items()}))


class Pictures:
    """The images of some histories, and what a run gives for each of them alone"""
    def __init__(self, ctx, rng):
        self.codecs = rng.sample(EXACT, 3) + rng.choice(INEXACT)
        names = rng.sample(NAMES, NI)
        self.files, self.names = {}, []
        for i in range(1, NI + 1):
            name = names[i - 1] % i
            if i == 1:
                w, h = rng.randrange(4, 9), rng.randrange(5, 9)
                name, data = name + ".ppm", cli.ppm(corpus.spec(w, h, near(rng, w, h)))
            elif i == 2:
                w, h = rng.randrange(5, 9), rng.randrange(4, 9)
                name, data = name + ".png", cli.png(corpus.spec(w, h, near(rng, w, h)))
            elif i == 3:
                name, data = name + ".ppm", cli.ppm(corpus.spec(64, 64, near(rng, 64, 64)))
            elif i == 4:
                name, data = name + ".ppm", cli.ppm(corpus.constant(rng.randrange(1, 9), rng.randrange(1, 9)))
            elif i == 5:
                name, data = name + rng.choice((".ppm", ".png", "")), rng.choice((b"", b"P6\n3 3\n255\nabc", b"garbage"))
            else:
                name, data = name + ".ppm", None
            self.names.append(name)
            if data is not None:
                self.files[name] = data
        self.stems = [os.path.splitext(os.path.basename(n))[0] for n in self.names]
        self.reports, self.rows, self.row, self.shown, self.dumps, self.size = [], {}, {}, {}, {}, {}
        for c, codec in enumerate(self.codecs, 1):
            self.reports.append(None)
            for i in range(1, NI + 1):
                if i in BAD:
                    continue
                with self.scratch() as s:
                    s.run(ctx, ["--codec=" + codec, self.names[i - 1]])
                    csvs = [f for f in s.files() if f.endswith(".csv")]
                    if len(csvs) == 1:
                        self.reports[-1] = csvs[0]
                        lines = s.read("output/" + csvs[0]).split(b"\n")
                        if len(lines) == 3 and lines[0] == HEADER:
                            self.rows[(c, lines[1])] = i
                            self.row[(c, i)] = lines[1]
                    png = s.read("output/%s.png" % self.stems[i - 1])
                    p = cli.read_png(png)
                    if p:
                        self.size[(c, i)] = len(png)
                        self.shown.setdefault(i, {})[c] = p
            if not self.reports[-1] or [r for r in self.reports if r == self.reports[-1]] != [self.reports[-1]]:
                raise Violation("runs with %s don't leave a report of their own" % codec, dict(reports=self.reports, codec=codec, images=self.names))
        for i in range(1, NI + 1):
            if i not in BAD:
                with self.scratch() as s:
                    s.run(ctx, ["--special=hilbert", self.names[i - 1]])
                    self.dumps[i] = [s.read("output/" + n) for n in self.dumped(i)]

    def dumped(self, i):
        return ["%s.%s.hilbert.csv" % (self.stems[i - 1], v) for v in DUMPS]

    def scratch(self, bystanders=False):
        s = cli.Scratch("ws")
        for n, d in self.files.items():
            s.write(n, d)
        return s


class Place:
    """A directory in which a history happens"""
    def __init__(self, ctx, rng, pics):
        self.ctx, self.rng, self.p = ctx, rng, pics
        self.s = pics.scratch()
        for n, d in BYSTANDERS.items():
            self.s.write(n, d)
        self.broken = {}
        self.before = self.others()

    def own(self):
        p = self.p
        return ({"output/" + r for r in p.reports} | {"output/%s.png" % t for t in p.stems}
                | {"output/" + d for i in range(1, NI + 1) for d in p.dumped(i)})

    def others(self):
        own, found = self.own(), {}
        for d, ds, fs in os.walk(self.s.dir):
            for n in fs:
                f = os.path.relpath(os.path.join(d, n), self.s.dir)
                if f not in own:
                    found[f] = "link" if os.path.islink(os.path.join(d, n)) else hashlib.sha1(open(os.path.join(d, n), "rb").read()).hexdigest()
            for n in ds:
                f = os.path.relpath(os.path.join(d, n), self.s.dir)
                if f not in own:
                    found[f] = "folder"
        return found

    def files_of(self, o):
        kind, k = o
        return [self.p.reports[k - 1]] if kind == "report" else ["%s.png" % self.p.stems[k - 1]] if kind == "picture" else self.p.dumped(k)

    def remove(self, o):
        for f in self.files_of(o):
            f = os.path.join(self.s.dir, "output", f)
            if os.path.islink(f) or os.path.isfile(f):
                os.remove(f)
            elif os.path.isdir(f):
                os.rmdir(f)

    def set_broken(self, bro, empty):
        """A name that leads to a full disk or is taken by a folder. (Reports without
        a row: only a folder, nothing would be written to the disk.)"""
        bro = [tuple(o) for o in bro]
        for o in list(self.broken):
            if o not in bro or (o[0] == "report" and empty) or self.broken[o][0] == "limit":
                self.remove(o)
                del self.broken[o]
        for o in bro:
            if o not in self.broken:
                self.remove(o)
                how = "folder" if o[0] == "report" and empty else self.rng.choice(("full", "full", "folder"))
                f = os.path.join(self.s.dir, "output", self.rng.choice(self.files_of(o)))
                if how == "full":
                    os.symlink("/dev/full", f)
                else:
                    os.mkdir(f)
                self.broken[o] = [how, os.path.basename(f)]

    def look(self, o):
        return [None if tuple(o) in self.broken else self.s.read("output/" + f) for f in self.files_of(o)]

    def report(self, c):
        data = self.look(("report", c))[0]
        r = dict(there=int(data is not None), rows=[0] * NI, head=0, junk=0)
        if data:
            lines = data.split(b"\n")
            r["junk"] += lines[-1] != b""
            lines = lines[:-1]
            r["head"] = int(lines[:1] == [HEADER])
            for l in lines[r["head"]:]:
                i = self.p.rows.get((c, l))
                if i:
                    r["rows"][i - 1] += 1
                else:
                    r["junk"] += 1
        if r["junk"] and r["there"]:
            r["there"] = 2   # no report of ours
        return r

    def picture(self, i):
        data = self.look(("picture", i))[0]
        if data is None:
            return 0
        shown = cli.read_png(data)
        return next((c for c, p in self.p.shown.get(i, {}).items() if shown and p == shown), 9)

    def dump(self, i):
        data = self.look(("dump", i))
        return 0 if data == [None] * 3 else 1 if data == self.p.dumps.get(i) else 2

    def too_large(self, e, times, limit):
        """The outputs of a run that don't fit when files can't exceed the limit"""
        p, good = self.p, [i for i in e["list"] if i not in BAD]
        if e["kind"] == "dump":
            bad = e["list"][:[i in BAD for i in e["list"]].index(True)] if len(good) < len(e["list"]) else e["list"]
            return [("dump", i) for i in sorted(set(bad)) if any(len(d or b"") > limit for d in p.dumps[i])]
        if e["kind"] == "refused":
            return []
        no = {i for i in good if p.size.get((e["c"], i), 0) > limit}
        rows = [p.row.get((e["c"], i), b"") for i in good if i not in no] * times
        size = len(HEADER) + 1 + sum(len(r) + 1 for r in rows) if rows else 0
        return [("picture", i) for i in sorted(no)] + [("report", e["c"])] * (size > limit)

    def step(self, e, limits):
        self.set_broken([] if limits else e["bro"], not [i for i in e["list"] if i not in BAD])
        images = [self.p.names[i - 1] for i in e["list"]]
        times = 1
        if e["kind"] == "bench":
            if e["v"] == VARIANTS:
                times = LONG
            args = ["--codec=" + self.p.codecs[e["c"] - 1]] + images * times
        elif e["kind"] == "dump":
            args = ["--special=hilbert"] + images
        else:
            args = refused(e["v"], images)
        limit = None
        if limits:   # around the sizes of outputs
            p, good = self.p, [i for i in e["list"] if i not in BAD]
            sizes = ([len(d or b"") for i in good for d in p.dumps[i]] if e["kind"] == "dump" else
                     [p.size.get((e["c"], i), 0) for i in good] + [len(HEADER) + 1 + times * sum(len(p.row.get((e["c"], i), b"")) + 1 for i in good)])
            limit = max(0, self.rng.choice(sizes + [0, 8192]) + self.rng.choice((-1, 0, 0, 1)) if self.rng.random() < 0.7 else self.rng.randrange(max(sizes + [1]) + 1))
            e = dict(e, bro=self.too_large(e, times, limit))
            self.broken = {o: ["limit", limit] for o in e["bro"]}
        r = self.s.run(self.ctx, args, threads=self.rng.choice((1, 2, 8)), timeout=300, fsize=limit)
        now = self.others()
        changed = sorted(f for f in set(now) | set(self.before) if now.get(f) != self.before.get(f))
        return dict(kind=e["kind"], c=e["c"], count=[e["list"].count(i) * times for i in range(1, NI + 1)], bro=[list(o) for o in e["bro"]],
                    ok=int(r.code == 0), told=int(bool(r.err.strip())), report=[self.report(c) for c in range(1, NC + 1)],
                    picture=[self.picture(i) for i in range(1, NI + 1)], dump=[self.dump(i) for i in range(1, NI + 1)], rest=len(changed),
                    _log=dict(args=args[:12], limit=limit, status=r.code, changed=changed, broken=[v for v in self.broken.values()], stderr=r.err[-600:]))


def replay(ctx, rng, history, pics, limits):
    place = Place(ctx, rng, pics)
    with place.s:
        steps = [place.step(e, limits) for e in history]
    log = [s.pop("_log") for s in steps]
    return dict(steps=steps, _job=dict(images={n: pics.files.get(n, b"<none>")[:200].hex() for n in pics.names}, runs=log))


def no_folder(ctx, pics):
    """A file where the folder of the outputs should be: nothing can be written"""
    everything = [["report", c] for c in range(1, NC + 1)] + [[k, i] for k in ("picture", "dump") for i in range(1, NI + 1)]
    for kind, c, lst in (("bench", 1, [1]), ("bench", 5, [1, 3]), ("bench", 4, [4]), ("dump", 1, [1]), ("dump", 1, [3, 4])):
        s = pics.scratch()
        with s:
            os.rmdir(os.path.join(s.dir, "output"))
            s.write("output", b"a file")
            r = s.run(ctx, ["--codec=" + pics.codecs[c - 1] if kind == "bench" else "--special=hilbert"] + [pics.names[i - 1] for i in lst])
            kept = s.read("output") == b"a file"
        nothing = [dict(there=0, rows=[0] * NI, head=0, junk=0)] * NC
        yield dict(steps=[dict(kind=kind, c=c, count=[lst.count(i) for i in range(1, NI + 1)], bro=everything, ok=int(r.code == 0), told=int(bool(r.err.strip())),
                               report=nothing, picture=[0] * NI, dump=[0] * NI, rest=int(not kept))], _job=dict(kind=kind, codec=pics.codecs[c - 1], status=r.code, stderr=r.err[-600:]))


def histories(ctx, num, runs, broken, shared=8):
    """Random histories, replayed; some share their images"""
    out = core.generate(ctx, "WorkspaceGen", defs=dict(Runs=runs, MaxBroken=broken), simulate=num, depth=20 * runs, seed=ctx.rng.randrange(1 << 30))
    parts = [(random.Random(ctx.rng.randrange(1 << 30)), out[i:i + shared]) for i in range(0, len(out), shared)]

    def part(rng, hs):
        pics = pictures(ctx, rng)
        return [replay(ctx, rng, h, pics, broken and k % 3 == 2) for k, h in enumerate(hs)], pics
    with concurrent.futures.ThreadPoolExecutor(8) as pool:
        res = list(pool.map(lambda p: part(*p), parts))
    traces = [t for ts, _ in res for t in ts]
    for h in out:
        ctx.sample(dict(history=[(e["kind"], e["c"], e["list"], e["bro"]) for e in h]))
    ctx.note("runs_in_histories", sum(len(t["steps"]) for t in traces))
    return traces, res[-1][1]
