"""Images used as inputs, in the driver's notation <fmt>:<w>:<h>:<hex>."""
import random

def spec(w, h, px, fmt="rgb"):
    assert len(px) == w * h, (w, h, len(px))
    return "%s:%d:%d:%s" % (fmt, w, h, b"".join(bytes(p) for p in px).hex())

def of_seq(seq, palette, w, h):
    return spec(w, h, [palette[s] for s in seq])

def divisors(n):
    return [d for d in range(1, n + 1) if n % d == 0]

PALETTES = [
    [(0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (128, 128, 128), (1, 0, 0), (0, 0, 1)],
    [(10, 20, 30), (10, 20, 31), (10, 21, 30), (11, 20, 30), (200, 100, 50), (50, 200, 100), (0, 0, 0), (255, 255, 255)],
    [(255, 255, 255), (0, 0, 0), (254, 255, 255), (255, 254, 255), (127, 128, 126), (1, 2, 3), (3, 2, 1), (99, 0, 200)],
]

def color(k):
    """k-th of a list of distinct colours"""
    return ((k * 37) % 256, (k // 256 * 91 + k * 5) % 256, (k // 65536) % 256) if False else (k & 255, (k >> 8) & 255, (k >> 16) & 255)

def constant(w, h, c=(7, 8, 9)):
    return spec(w, h, [c] * (w * h))

def noise(rng, w, h):
    return spec(w, h, [(rng.randrange(256), rng.randrange(256), rng.randrange(256)) for _ in range(w * h)])

def few(rng, w, h, n):
    pal = [(rng.randrange(256), rng.randrange(256), rng.randrange(256)) for _ in range(n)]
    return spec(w, h, [rng.choice(pal) for _ in range(w * h)])

def distinct(w, h, start=0, step=1):
    return spec(w, h, [color((start + step * i) & 0xffffff) for i in range(w * h)])

def gradient(w, h):
    return spec(w, h, [(x * 255 // max(1, w - 1), y * 255 // max(1, h - 1), (x + y) % 256) for y in range(h) for x in range(w)])

def blocks(rng, w, h, n=6):
    px = [(200, 180, 160)] * (w * h)
    for _ in range(n):
        x0, y0 = rng.randrange(w), rng.randrange(h)
        x1, y1 = rng.randrange(x0, w) + 1, rng.randrange(y0, h) + 1
        c = (rng.randrange(256), rng.randrange(256), rng.randrange(256))
        for y in range(y0, y1):
            for x in range(x0, x1):
                px[y * w + x] = c
    return spec(w, h, px)

def freqs(counts, rng=None, w=None):
    """Colours with the given numbers of occurrences"""
    px = [color(i * 9973 & 0xffffff) for i, c in enumerate(counts) for _ in range(c)]
    if rng:
        rng.shuffle(px)
    n = len(px)
    if w is None:
        w = max(d for d in divisors(n) if d * d <= n)
    return spec(w, n // w, px)

def fib(n):
    f = [1, 1]
    while len(f) < n:
        f.append(f[-1] + f[-2])
    return f[:n]

def alternating(w, h, a=(0, 0, 0), b=(255, 255, 255), flip=False):
    return spec(w, h, [(a, b)[(x + (y if flip else 0)) % 2] for y in range(h) for x in range(w)])

def line(px, vertical=False):
    return spec(1, len(px), px) if vertical else spec(len(px), 1, px)

def runs(lengths, vertical=False, pal=None):
    px = []
    for i, n in enumerate(lengths):
        c = (pal or [(0, 0, 0), (255, 1, 2), (9, 9, 9)])[i % len(pal or [0, 0, 0])]
        px += [c] * n
    return line(px, vertical)

def formats(rng, w, h):
    """The same random picture in all the supported formats"""
    res = []
    for fmt, n in (("rgb", 3), ("rgba", 4), ("l", 1), ("la", 2), ("rgb16", 6), ("rgba16", 8), ("l16", 2)):
        res.append((fmt, "%s:%d:%d:%s" % (fmt, w, h, bytes(rng.randrange(256) for _ in range(n * w * h)).hex())))
    return res

def standard(ctx, big=True):
    """The common corpus: (tag, image, large?)"""
    rng = ctx.rng
    c = []
    def add(tag, img, large=False):
        c.append((tag, img, large))
    for (w, h) in [(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (1, 5), (3, 3), (4, 2), (5, 7), (8, 8), (16, 3), (13, 17)]:
        add("const", constant(w, h))
        add("noise", noise(rng, w, h))
        add("distinct", distinct(w, h))
        add("few2", few(rng, w, h, 2))
        add("few4", few(rng, w, h, 4))
        add("gradient", gradient(w, h))
        add("blocks", blocks(rng, w, h))
    for (w, h) in [(300, 1), (1, 300), (2, 200), (33, 31), (64, 64), (31, 128)]:
        add("const", constant(w, h), True)
        add("noise", noise(rng, w, h), True)
        add("few3", few(rng, w, h, 3), True)
        add("gradient", gradient(w, h), True)
        add("blocks", blocks(rng, w, h, 12), True)
    add("black", constant(9, 9, (0, 0, 0)))
    add("white", constant(9, 9, (255, 255, 255)))
    for n in (2, 3, 4, 5, 8, 16, 17, 20):
        add("fib%d" % n, freqs(fib(n), rng), n > 12)
    for n in (2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000):
        add("ncol%d" % n, freqs([1] * n, rng), n > 64)
        add("ncols%d" % n, freqs([1 + rng.randrange(4) for _ in range(n)], rng), n > 64)
    add("onebig", freqs([5000] + [1] * 30, rng), True)
    add("alt", alternating(16, 16))
    add("altflip", alternating(17, 16, flip=True))
    for a, b in (((0, 0, 0), (255, 255, 255)), ((255, 0, 255), (0, 255, 0)), ((0, 255, 128), (255, 0, 127))):
        add("extreme", alternating(40, 1, a, b))
        add("extreme", alternating(7, 9, a, b, True))
    for n in (1, 2, 3, 127, 128, 129, 253, 254, 255, 256, 257, 509, 510, 511, 512, 765, 766, 1020, 1021):
        add("run%d" % n, runs([n]), n > 64)
        add("runs%d" % n, runs([1, n, 2]), n > 64)
        add("runsv%d" % n, runs([n, n, 3], True), n > 64)
    for w, h in ((1, 1), (2, 3), (9, 5), (40, 30)):
        for fmt, s in formats(rng, w, h):
            add(fmt, s, w > 10)
    # periodic data, whose repetitions overlap
    for p in (1, 2, 3, 4, 5, 7, 11):
        pal = [(rng.randrange(256), rng.randrange(256), rng.randrange(256)) for _ in range(p)]
        add("period%d" % p, spec(60, 4, [pal[i % p] for i in range(240)]), True)
    for _ in range(ctx.pick(120, 1500)):
        w, h = rng.randrange(1, 20), rng.randrange(1, 20)
        kind = rng.randrange(4)
        add("random", noise(rng, w, h) if kind == 0 else few(rng, w, h, rng.randrange(1, 9)) if kind == 1 else blocks(rng, w, h) if kind == 2 else
            freqs([rng.randrange(1, 12) for _ in range(rng.randrange(1, 14))], rng), w * h > 64)
    if big:
        add("long", few(rng, 70000, 1, 5), True)
        add("tall", few(rng, 1, 70000, 300), True)
        add("noise300", noise(rng, 300, 300), True)
        add("manycol", distinct(270, 256, 0, 7), True)
        add("const512", constant(512, 300), True)
        add("blocks400", blocks(rng, 400, 410, 40), True)
        add("fib22", freqs(fib(22), rng), True)
        for tag, img, large in vast(ctx):
            add(tag, img, large)
        if ctx.thorough:
            add("noise700", noise(rng, 700, 701), True)
            add("fib27", freqs(fib(27), rng), True)
            add("const1500", constant(1500, 1100), True)
            add("long3", few(rng, 200000, 1, 40), True)
            for w, h in ((640, 3), (3, 640), (257, 255), (1000, 500)):
                add("gradient", gradient(w, h), True)
                add("blocks", blocks(rng, w, h, 60), True)
    return c

def steps(rng, w, h, lengths):
    """Rows of runs of the given lengths, in a few colours; quick to make"""
    pal = [bytes((rng.randrange(256), rng.randrange(256), rng.randrange(256))) for _ in range(50)]
    out = bytearray()
    while len(out) < 3 * w * h:
        out += rng.choice(pal) * rng.choice(lengths)
    return "rgb:%d:%d:%s" % (w, h, out[:3 * w * h].hex())

def vast(ctx):
    """Images of several hundred thousand to a million pixels"""
    rng = ctx.rng
    return [("vast", steps(rng, 700, 501, (1, 2, 3, 9, 40, 255, 256, 700, 3000)), True),
            ("vast", "rgb:%d:%d:%s" % (610, 520, rng.randbytes(3 * 610 * 520).hex()), True),
            ("vast", steps(rng, 1100, 1001, (1, 30, 500, 1100, 5000)), True)]
