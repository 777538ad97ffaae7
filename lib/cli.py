"""Runs of the real command line, in directories of their own."""
import itertools, os, re, resource, shutil, signal, struct, subprocess, time, zlib
import core
from core import Violation, ToolError

_n = itertools.count(1)


class Run:
    pass


class Scratch:
    """A directory with an output/ folder to run the command line in"""
    def __init__(self, name, output=True):
        self.dir = os.path.join(core.WORK, "cli_%s_%d" % (name, next(_n)))
        os.makedirs(os.path.join(self.dir, "output") if output else self.dir)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, name):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, data):
        with open(self.path(name), "wb") as f:
            f.write(data)

    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), "rb") as f:
                return f.read()
        except OSError:
            return None

    def files(self, sub="output"):
        return sorted(os.listdir(os.path.join(self.dir, sub)))

    def ppm(self, name, spec):
        self.write(name, ppm(spec))

    def png(self, name, spec):
        self.write(name, png(spec))

    def run(self, ctx, args, timeout=120, threads=None, env=None, fsize=None):
        e = dict(os.environ)
        for k in ("CNIIC_VERIF_JOBS", "CNIIC_VERIF_OUT"):
            e.pop(k, None)
        if threads:
            e["RAYON_NUM_THREADS"] = str(threads)
        e.update(env or {})

        def limits():
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if fsize is not None:   # no file can grow beyond: write() fails from there on
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        r = Run()
        try:
            p = subprocess.run([ctx.binary] + args, cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise Violation("the command line hangs", dict(args=args))
        r.code, r.out, r.err = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        ctx.note("command_line_runs")
        return r


def raw(spec):
    fmt, w, h, data = spec.split(":", 3)
    return fmt, int(w), int(h), bytes.fromhex(data)


def ppm(spec):
    fmt, w, h, d = raw(spec)
    return {"rgb": b"P6", "l": b"P5"}[fmt] + b"\n%d %d\n255\n" % (w, h) + d


def png(spec):
    fmt, w, h, d = raw(spec)
    depth, ctype, n = {"rgb": (8, 2, 3), "rgba": (8, 6, 4), "l": (8, 0, 1), "la": (8, 4, 2), "rgb16": (16, 2, 6), "l16": (16, 0, 2), "rgba16": (16, 6, 8)}[fmt]
    if depth == 16:  # big endian in the file
        d = bytes(d[i ^ 1] for i in range(len(d)))
    rows = b"".join(b"\0" + d[y * w * n:(y + 1) * w * n] for y in range(h))
    chunk = lambda t, b: struct.pack(">I", len(b)) + t + b + struct.pack(">I", zlib.crc32(t + b))
    return b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", w, h, depth, ctype, 0, 0, 0)) + chunk(b"IDAT", zlib.compress(rows, 1)) + chunk(b"IEND", b"")


def read_png(b):
    """(w, h, channels, samples) of an 8 bit, non interlaced PNG file; None where it isn't one"""
    if b is None or b[:8] != b"\x89PNG\r\n\x1a\n":
        return None
    p, idat, head = 8, b"", None
    try:
        while p < len(b):
            n, t = struct.unpack(">I4s", b[p:p + 8])
            body = b[p + 8:p + 8 + n]
            if t == b"IHDR":
                head = struct.unpack(">IIBBBBB", body)
            elif t == b"IDAT":
                idat += body
            elif t == b"IEND":
                break
            p += 12 + n
        w, h, depth, ctype, _, _, inter = head
        if depth != 8 or inter or ctype not in (0, 2, 4, 6):
            return None
        n = {0: 1, 2: 3, 4: 2, 6: 4}[ctype]
        d = zlib.decompress(idat)
    except Exception:
        return None
    stride = w * n
    if len(d) != (stride + 1) * h:
        return None
    out = bytearray()
    prev = bytearray(stride)
    for y in range(h):
        f = d[y * (stride + 1)]
        row = bytearray(d[y * (stride + 1) + 1:(y + 1) * (stride + 1)])
        for i in range(stride):
            a = row[i - n] if i >= n else 0
            u = prev[i]
            c = prev[i - n] if i >= n else 0
            if f == 1:
                row[i] = (row[i] + a) & 255
            elif f == 2:
                row[i] = (row[i] + u) & 255
            elif f == 3:
                row[i] = (row[i] + (a + u) // 2) & 255
            elif f == 4:
                e = a + u - c
                pa, pb, pc = abs(e - a), abs(e - u), abs(e - c)
                row[i] = (row[i] + (a if pa <= pb and pa <= pc else u if pb <= pc else c)) & 255
        out += row
        prev = row
    return w, h, n, bytes(out)
