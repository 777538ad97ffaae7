import core, corpus, streams
from common import *

"""Streams of writers that aren't the encoders: enumerated by TLC from the *Free
specifications, with their meaning, and larger ones read by the trace
specifications in their free form."""

u16 = lambda v: v.to_bytes(2, "little")
u32 = lambda v: v.to_bytes(4, "little")
col = lambda c: b"\3" + bytes(7) + c.to_bytes(3, "big")


def run(ctx):
    models(ctx)
    small_prefix(ctx)
    small_runs(ctx)
    if ctx.has("zip"):
        small_zip(ctx)
        long_zip(ctx)
    prefix(ctx)
    runs(ctx)
    zips(ctx)


def models(ctx):
    core.model_check(ctx, "HuffmanFree", defs=dict(MaxLeaves=ctx.pick(4, 6), MaxMsg=ctx.pick(3, 4)))
    core.model_check(ctx, "ZipDictFree", defs=dict(MaxLen=ctx.pick(6, 9)))
    core.model_check(ctx, "ZipDictFree", defs=dict(LastCode=100, Eof=101, MaxLen=ctx.pick(5, 7)))
    core.model_check(ctx, "ZipBackFree", defs=dict(MaxInput=ctx.pick(5, 6)))
    core.model_check(ctx, "RleFree", defs=dict(MaxLen=ctx.pick(6, 8)))


# ------------------------------------------------------------- decoding

def decode_all(ctx, cases):
    """cases: (codec, stream, what). The decoded images, in order."""
    res = []
    for part in batch(cases, 3000):
        rs = ctx.drv.run([("decode", dict(codec=core.h(c), stream=s.hex())) for c, s, _ in part])
        for (c, s, what), r in zip(part, rs):
            j = dict(op="decode", codec=c, stream=s.hex()[:4000], length=len(s), what=what)
            if died(r):
                raise Violation("%s: decoding %s" % (c, died(r)), dict(job=j, result=r))
            if r["dec"] != "some":
                raise Violation("%s: a well-formed stream decodes to no image (%s)" % (c, r["dec"]), dict(job=j, result=short(r, 2000)))
            res.append((r, j))
    ctx.note("foreign_streams_decoded", len(cases))
    return res


def expect(ctx, cases):
    """cases: (codec, stream, w, h, packed pixels): what TLC's behaviours say"""
    for (c, s, w, h, px), (r, j) in zip(cases, decode_all(ctx, [(c, s, "generated") for c, s, _, _, _ in cases])):
        if (r["dw"], r["dh"]) != (w, h) or packed(r["dpix"]) != px:
            raise Violation("%s: a stream decodes to something else than its meaning" % c, dict(job=j, w=w, h=h, meaning=px, result=short(r, 2000)))
        if r["used"] != len(s):
            raise Violation("%s: %d bytes of a stream of %d were read" % (c, r["used"], len(s)), dict(job=j, result=short(r, 2000)))
    ctx.note("generated_streams_replayed", len(cases))


# ------------------------------------------------------------- small streams

def pack_bits(bits):
    b = bits + [0] * (-len(bits) % 8)
    return bytes(int("".join(map(str, b[k:k + 8])), 2) for k in range(0, len(b), 8))


def tree_bytes(tokens, sym):
    out, k = bytearray(), 0
    while k < len(tokens):
        out.append(tokens[k])
        if tokens[k] == 0:
            out += sym(tokens[k + 1])
            k += 1
        k += 1
    return bytes(out)


def small_prefix(ctx):
    beh = core.generate(ctx, "HuffmanFree", cfg="HuffmanFreeGen", defs=dict(MaxLeaves=ctx.pick(5, 6), MaxMsg=4))
    rng = ctx.rng
    cases = []
    for n, b in enumerate(beh):
        m = len(b["msg"])
        w = rng.choice(corpus.divisors(m))
        h = m // w
        head = u32(w) + u32(h)
        if n % 2:
            pal = rng.sample([0, 1, 255, 256, 65535, 65536, 0xff0000, 0xffffff, 0x102030, 0x302010], b["leaves"])
            s = head + tree_bytes(b["tree"], lambda k: col(pal[k - 1])) + pack_bits(b["bits"])
            cases.append((rng.choice(("hufman", "hufman", "cluster-colors(2)")), s, w, h, [pal[k - 1] for k in b["msg"]]))
        else:
            # the smallest image is along its only dimension, or 2x2
            order = [1, 2, 4, 3] if (w, h) == (2, 2) else list(range(1, m + 1))
            if (w, h) == (2, 2):
                ords = traversals(ctx, [(2, 2)]) if "o22" not in ctx.__dict__ else None
                if ords is not None:
                    ctx.o22 = ords.get((2, 2), order)
                order = ctx.o22
            ds = rng.sample([(0, 0, 0), (1, 2, 3), (60, 0, 1), (0, 63, 63), (7, 7, 7), (20, 50, 30)], b["leaves"])
            s = head + tree_bytes(b["tree"], lambda k: b"".join(u16(v) for v in ds[k - 1])) + pack_bits(b["bits"])
            px, acc = [0] * m, (0, 0, 0)
            for k, x in enumerate(b["msg"]):
                acc = tuple(a + d for a, d in zip(acc, ds[x - 1]))
                px[order[k] - 1] = acc[0] << 16 | acc[1] << 8 | acc[2]
            cases.append(("delta", s, w, h, px))
    expect(ctx, cases)


def small_runs(ctx):
    beh = core.generate(ctx, "RleFree", cfg="RleFreeGen", defs=dict(MaxLen=ctx.pick(6, 8)))
    ords = traversals(ctx, [(w, h) for w in range(1, 9) for h in range(1, 9) if w * h <= 8])
    rng = ctx.rng
    cases = []
    for b in beh:
        m = len(b["pixels"])
        w = rng.choice(corpus.divisors(m))
        h = m // w
        if (w, h) not in ords:
            continue
        pal = rng.choice(((0, 0xffffff), (0x010203, 0x030201), (0xfffffe, 0xffffff)))
        s = u32(w) + u32(h) + b"".join(bytes([n]) + col(pal[c[0] - 1]) for n, c in b["runs"])
        px = [0] * m
        for k, c in enumerate(b["pixels"]):
            px[ords[(w, h)][k] - 1] = pal[c[0] - 1]
        cases.append((rng.choice(("hilbert(rle)", "hilbert(rle)", "hilbert(rle(9))")), s, w, h, px))
    expect(ctx, cases)


def small_zip(ctx):
    beh = core.generate(ctx, "ZipDictFreeGen", defs=dict(MaxLen=ctx.pick(8, 10)))
    letters = (0, 255)
    sym = lambda c: u16(65535 if c == 2000 else letters[c] if c < 2 else 254 + c)
    replay_zip(ctx, "dict", [(b"".join(sym(c) for p in b["stream"] for c in p), bytes(letters[c] for c in b["input"])) for b in beh])
    beh = core.generate(ctx, "ZipDictFreeGen", defs=dict(Base=3, MaxLen=ctx.pick(6, 7)))
    letters = (9, 1, 200)
    sym = lambda c: u16(65535 if c == 2000 else letters[c] if c < 3 else 253 + c)
    replay_zip(ctx, "dict", [(b"".join(sym(c) for p in b["stream"] for c in p), bytes(letters[c] for c in b["input"])) for b in beh])
    beh = core.generate(ctx, "ZipBackFreeGen", defs=dict(MaxInput=ctx.pick(7, 8)))
    val = lambda c: (c * 255) & 255
    back = lambda s: b"".join(u16(len(x["d"])) + bytes(val(c) for c in x["d"]) if x["k"] == 0 else u16(32768 + x["d"][0]) + u16(x["d"][1]) for x in s)
    replay_zip(ctx, "back", [(back(b["stream"]), bytes(val(c) for c in b["input"])) for b in beh])


def replay_zip(ctx, kind, cases):
    name = dict(dict="the dictionary decompressor", back="the look-back decompressor")[kind]
    parts = batch(cases, 300)
    rs = ctx.drv.run([("zipdec", dict(kind=kind, limit=200, streams=",".join(s.hex() for s, _ in p))) for p in parts])
    for p, r in zip(parts, rs):
        if died(r):
            raise Violation("%s %s" % (name, died(r)), dict(result=r, streams=[s.hex() for s, _ in p]))
        for (s, d), o in zip(p, r["res"]):
            if o["dec"] != "some" or bytes.fromhex(o["bytes"]) != d:
                raise Violation("%s gives something else than the meaning of the stream" % name, dict(stream=s.hex(), meaning=d.hex(), real=o))
    ctx.note("generated_streams_replayed", len(cases))


# ------------------------------------------------------------- larger streams

def random_tree(rng, syms, shape):
    """Preorder as a list of ("b",) and symbols, and the codes"""
    out, codes = bytearray(), {}
    stack = [(list(syms), "")]
    tokens = []
    while stack:
        s, path = stack.pop()
        if len(s) == 1:
            tokens.append(s[0])
            codes[s[0]] = path
            continue
        tokens.append(None)
        if shape == "left":
            k = len(s) - 1
        elif shape == "right":
            k = 1
        elif shape == "even":
            k = len(s) // 2
        else:
            k = rng.randrange(1, len(s))
        stack.append((s[k:], path + "1"))
        stack.append((s[:k], path + "0"))
    return tokens, codes


def sizes(ctx):
    rng = ctx.rng
    res = [(1, 1), (2, 1), (1, 2), (3, 3), (5, 4), (7, 1), (1, 9), (16, 16), (13, 17), (31, 2), (40, 25), (64, 9)]
    return res + [(rng.randrange(1, 30), rng.randrange(1, 30)) for _ in range(ctx.pick(40, 300))]


def prefix(ctx):
    rng = ctx.rng
    cases, meta = [], []
    for w, h in sizes(ctx):
        for codec in ("hufman", "delta"):
            for shape in ("left", "right", "even", "any"):
                n = w * h
                k = rng.choice((1, 2, 3, 5, 9, 17, 40, 90, 150))
                if codec == "hufman":
                    syms = rng.sample(range(1 << 24), k)
                    msg = [rng.choice(syms) for _ in range(n)]
                    enc = col
                else:
                    syms, msg = differences(rng, k, n)
                    enc = lambda d: b"".join((v & 65535).to_bytes(2, "little") for v in d)
                order = list(syms)
                rng.shuffle(order)
                tokens, codes = random_tree(rng, order, shape)
                s = u32(w) + u32(h) + b"".join(b"\1" if t is None else b"\0" + enc(t) for t in tokens)
                s += pack_bits([int(x) for m in msg for x in codes[m]])
                cases.append((codec, s, "%d leaves, %s" % (len(syms), shape)))
                meta.append((w, h, codec))
    # very many leaves, and very deep ones
    for codec, shape, k, n in (("hufman", "even", 3000, 500), ("hufman", "left", 700, 120), ("hufman", "right", 700, 120), ("delta", "even", 3000, 400), ("delta", "right", 600, 100),
                               ("hufman", "any", 2000, 900)):
        if codec == "hufman":
            syms = rng.sample(range(1 << 24), k)
            msg, enc = [rng.choice(syms) for _ in range(n)], col
            msg[:2] = syms[-1], syms[0]
        else:
            syms, msg = differences(rng, k, n)
            enc = lambda d: b"".join((v & 65535).to_bytes(2, "little") for v in d)
        tokens, codes = random_tree(rng, syms, shape)
        s = u32(n // 10) + u32(10) + b"".join(b"\1" if t is None else b"\0" + enc(t) for t in tokens) + pack_bits([int(x) for m in msg for x in codes[m]])
        cases.append((codec, s, "%d leaves, %s" % (len(syms), shape)))
        meta.append((n // 10, 10, codec))
    ords = traversals(ctx, [(w, h) for w, h, c in meta if c == "delta"])
    traces = []
    for (codec, s, what), (w, h, _), (r, j) in zip(cases, meta, decode_all(ctx, cases)):
        if codec == "delta" and (w, h) not in ords:
            continue
        px = packed(r["dpix"])
        order = ords[(w, h)] if codec == "delta" else []
        kind = "delta" if codec == "delta" else "rgb"
        # (the hints come from what was decoded: they are right if that is)
        msg = (streams.diffs(px, order) if order else px) if len(px) == w * h else []
        idx, cnt, asc = streams.huffman_hints(kind, s, msg)
        traces.append(dict(kind=kind, w=r["dw"], h=r["dh"], px=px, order=order, bytes=list(s), idx=idx, cnt=cnt, asc=asc, free=1, _job=j))
        ctx.note("leaves", len(cnt))
    core.validate(ctx, "HuffmanTrace", traces, "foreign prefix-code streams", chunk=1500)


def differences(rng, k, n):
    """k different differences of which n give pixels"""
    msg, acc, syms = [], (0, 0, 0), {}
    pool = []
    for _ in range(n):
        fit = [d for d in pool if all(0 <= a + v <= 255 for a, v in zip(acc, d))]
        if len(pool) < k and (not fit or rng.random() < 0.3) or not fit:
            new = tuple(rng.choice((0, 255, rng.randrange(256), min(255, a + 1))) for a in acc)
            d = tuple(v - a for v, a in zip(new, acc))
            if d not in syms:
                syms[d] = 1
                pool.append(d)
        else:
            d = rng.choice(fit)
        msg.append(d)
        acc = tuple(a + v for a, v in zip(acc, d))
    while len(pool) < k:
        d = tuple(rng.randrange(-255, 256) for _ in range(3))
        if d not in syms:
            syms[d] = 1
            pool.append(d)
    return pool, msg


def runs(ctx):
    rng = ctx.rng
    cases, meta = [], []
    for w, h in sizes(ctx) + [(300, 3), (50, 60), (1, 2000), (128, 128)]:
        for style in ("ones", "max", "any", "any"):
            left, s, c = w * h, u32(w) + u32(h), rng.randrange(1 << 24)
            while left:
                n = min(left, 1 if style == "ones" else 255 if style == "max" else rng.choice((1, 2, 254, 255, 128, rng.randrange(1, 256), rng.randrange(1, 9))))
                if rng.random() < 0.5:
                    c = rng.choice((rng.randrange(1 << 24), 0, 0xffffff, c ^ 1))
                s += bytes([n]) + col(c)
                left -= n
            cases.append((rng.choice(("hilbert(rle)", "hilbert(rle)", "hilbert(rle(30))")), s, style))
            meta.append((w, h))
    ords = traversals(ctx, meta)
    traces = []
    for (codec, s, what), (w, h), (r, j) in zip(cases, meta, decode_all(ctx, cases)):
        if (w, h) in ords:
            head, counts, colours, tail = streams.rle_runs(s)
            px = packed(r["dpix"])
            traces.append(dict(w=r["dw"], h=r["dh"], px=px, order=ords[(w, h)], head=head, counts=counts, colours=colours, tail=tail, dn=0, dd=1, dpx=px,
                               free=1, _job=j))
            ctx.note("runs", len(counts))
    core.validate(ctx, "RleTrace", traces, "foreign run-length streams", chunk=1500)


def dict_stream(rng, data, style):
    """Any sequence of symbols for the data: style is how keen it is on long ones"""
    codes, out, p, k = {}, bytearray(), 0, 256
    lens = {}
    first = None
    maxlen = 1
    while p < len(data):
        cand = [1]
        if style != "letters":
            for l in range(2, min(maxlen, len(data) - p, 60) + 1):
                if data[p:p + l] in codes:
                    cand.append(l)
        l = max(cand) if style == "long" else min(cand[1:] or [1]) if style == "short" else rng.choice(cand)
        x = data[p:p + l]
        c = rng.choice(codes[x]) if l > 1 else x[0]
        out += u16(c)
        p += l
        if first is None:
            first = x
        else:
            if k < 65535:
                # the same sequence may be defined several times
                codes.setdefault(first + x, []).append(k)
                maxlen = max(maxlen, len(first + x))
                k += 1
            first = None
    if first is not None:
        out += b"\xff\xff"
    return bytes(out)


def back_stream(rng, data, style):
    out, p = bytearray(), 0
    where = {}
    index = 3
    seen = 0
    while p < len(data):
        while seen < p - index + 1:
            where.setdefault(bytes(data[seen:seen + index]), []).append(seen)
            seen += 1
        l = back = 0
        if style != "explicit" and rng.random() < 0.9 and p >= 1:
            if style == "tiny" and rng.random() < 0.5:
                q = rng.choice([x for x in range(max(0, p - 40), p)])
                l = 0
                while p + l < len(data) and q + l < p and data[q + l] == data[p + l] and l < rng.choice((1, 2, 5, 9)):
                    l += 1
                back = p - q
            else:
                qs = [q for q in where.get(bytes(data[p:p + index]), []) if p - q <= 65535]
                if qs:
                    q = qs[0] if style == "far" else rng.choice(qs)
                    top = min(p - q, len(data) - p, 32767)
                    while l < top and data[q + l] == data[p + l]:
                        l += 1
                    if style == "cut":
                        l = rng.randrange(1, l + 1)
                    back = p - q
        if l:
            out += u16(32768 + l) + u16(back)
        else:
            l = min(len(data) - p, rng.choice((1, 2, 3, 7, 11, 40)) if style != "explicit" else rng.choice((1, 300, 32767)))
            out += u16(l) + data[p:p + l]
        p += l
    return bytes(out)


def zips(ctx):
    rng = ctx.rng
    imgs = [c[1] for c in corpus.standard(ctx, big=False)] + [i for _, i, _ in generated_images(ctx, maxpx=3)]
    imgs = [i for i in imgs if i.startswith("rgb:") and int(i.split(":")[1]) * int(i.split(":")[2]) <= 1100]
    ords = traversals(ctx, [tuple(map(int, i.split(":", 3)[1:3])) for i in imgs])
    cases, meta = [], []
    for img in imgs:
        w, h = map(int, img.split(":", 3)[1:3])
        px = packed(img.split(":", 3)[3])
        head = u32(w) + u32(h)
        data = head + streams.serial(px)
        for style in rng.sample(("letters", "long", "short", "any", "any"), 2):
            cases.append(("zip(dict)", dict_stream(rng, data, style), style))
            meta.append((w, h))
        for style in rng.sample(("explicit", "far", "cut", "tiny", "any"), 2):
            cases.append(("zip(back)", back_stream(rng, data, style), style))
            meta.append((w, h))
        if (w, h) in ords:
            cases.append(("hilbert(zip)", head + dict_stream(rng, streams.serial(px, ords[(w, h)]), rng.choice(("letters", "short", "any", "any"))), "hilbert"))
            meta.append((w, h))
    dicts, backs = [], []
    for (codec, s, what), (w, h), (r, j) in zip(cases, meta, decode_all(ctx, cases)):
        px = packed(r["dpix"])
        w, h = r["dw"], r["dh"]
        data = u32(w) + u32(h) + streams.serial(px)
        if codec == "zip(back)":
            backs.append(back_trace(dict(mode="img", w=w, h=h, px=px, order=[], raw=[], _job=j), data, s))
        elif codec == "zip(dict)":
            dicts.append(dict_trace(dict(mode="img", w=w, h=h, px=px, order=[], raw=[], head=[], _job=j), data, s))
        elif (w, h) in ords:
            data = streams.serial(px, ords[(w, h)])
            dicts.append(dict_trace(dict(mode="hil", w=w, h=h, px=px, order=ords[(w, h)], raw=[], head=list(s[:8]), _job=j), data, s[8:]))
    core.validate(ctx, "ZipDictTrace", dicts, "foreign dictionary-zip streams", chunk=1500)
    core.validate(ctx, "ZipBackTrace", backs, "foreign look-back-zip streams", chunk=1500)


def dict_trace(t, data, body):
    hints, _ = streams.zipdict_hints(data, body, 0)
    np = len(hints["a"])
    hints.update(greedy=0, perm=[], inv=[], lo1=[0] * np, hi1=[0] * np, lo2=[0] * np, hi2=[0] * np)
    t.update(hints)
    return t


def back_trace(t, data, s):
    n, at = 0, 0
    while at + 1 < len(s):
        v = s[at] | s[at + 1] << 8
        at += 4 if v >= 32768 else 2 + v
        n += 1
    t.update(n=len(data), bytes=list(s), maximal=2, perm=[], inv=[], lo=[0] * n, hi=[0] * n)
    return t


def long_zip(ctx):
    """Byte strings: the codes run out, the window is used to its edge"""
    rng = ctx.rng
    rnd = lambda n, al=256: bytes(rng.randrange(al) for _ in range(n))
    dicts, backs = [], []
    for style, d in (("letters", rnd(140000)), ("any", rnd(150000, 3)), ("short", rnd(200, 4) * 40), ("any", rnd(5000, 2)), ("letters", bytes(2001)), ("any", bytes(3000))):
        dicts.append((dict_stream(rng, d, style), d))
    d = rnd(131000)
    s = bytearray(dict_stream(rng, d, "letters"))
    # all the codes are used, the last one too
    for c in (65534, 65533, 256, 257, 40000, 65534):
        e = c - 256
        s += u16(c) + u16(c)
        d += d[2 * e:2 * e + 2] * 2
    dicts.append((bytes(s), d))
    # a dictionary entry doubling each time
    s, d, prev = u16(7) + u16(7), b"\7\7", 2
    for k in range(1, 16):
        s += u16(255 + k) * 2
        d += bytes([7]) * (2 ** (k + 1))
    dicts.append((s, d))
    for style in ("far", "cut", "tiny", "any", "explicit"):
        d = rnd(2000, 3) + rnd(300) * 3 + rnd(700, 2)
        backs.append((back_stream(rng, d, style), d))
    base = rnd(65535)
    ex = lambda b: b"".join(u16(len(b[k:k + 32767])) + b[k:k + 32767] for k in range(0, len(b), 32767))
    for back, l in ((65535, 1), (65535, 32767), (65534, 32767), (32767, 32767), (32768, 32767), (1, 1), (2, 1), (6, 6), (65535, 5), (40000, 3)):
        for lead in (0, 1, 5000):
            d = rnd(lead) + base
            s = ex(d)
            for _ in range(3):
                s += u16(32768 + l) + u16(back)
                d += d[len(d) - back:len(d) - back + l]
            tail = rnd(rng.randrange(3))
            backs.append((s + (ex(tail) if tail else b""), d + tail))
    if not ctx.thorough:
        backs = backs[:5] + rng.sample(backs[5:], 12)
    jobs, traces = [], dict(dict=[], back=[])
    for kind, cs in (("dict", dicts), ("back", backs)):
        for s, d in cs:
            jobs.append((kind, s, d))
    rs = ctx.drv.run([("zipdec", dict(kind=k, limit=len(d) + 50, streams=s.hex())) for k, s, d in jobs])
    for (kind, s, d), r in zip(jobs, rs):
        name = dict(dict="the dictionary decompressor", back="the look-back decompressor")[kind]
        j = dict(kind=kind, stream=s.hex()[:4000], end=s.hex()[-200:], length=len(s))
        if died(r) or r["res"][0]["dec"] != "some":
            raise Violation("%s %s on a well-formed stream" % (name, died(r) or "panicked"), dict(job=j, result=short(r, 2000)))
        got = bytes.fromhex(r["res"][0]["bytes"])
        if kind == "dict":
            traces[kind].append(dict_trace(dict(mode="raw", w=0, h=0, px=[], order=[], raw=list(got), head=[], _job=j), got, s))
        else:
            traces[kind].append(back_trace(dict(mode="raw", w=0, h=0, px=[], order=[], raw=list(got), _job=j), got, s))
    core.validate(ctx, "ZipDictTrace", traces["dict"], "long foreign dictionary streams", chunk=3)
    core.validate(ctx, "ZipBackTrace", traces["back"], "long foreign look-back streams", chunk=6)
    ctx.note("long_streams", len(jobs))
