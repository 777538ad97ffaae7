import itertools, re
import core, corpus, cli
from common import *

ASSUMPTIONS = ["whether inf and nan are numbers is left open", "numbers that double precision may round are not compared by their names"]

WORDS = ["hufman", "Hufman", "HUFMAN", "hUfMaN", "delta", "zip(dict)", "zip(back)", "hilbert(rle)", "Hilbert(rle)", "hilbert(zip)", "Hilbert(zip)",
         "hilbert(rle(1))", "Hilbert(rle(2.5))", "hilbert(rle(-3))", "hilbert(rle(1e2))", "hilbert(rle(0))", "hilbert(rle(.5))", "hilbert(rle(5.))", "hilbert(rle(+1.5E-2))",
         "cluster-colors(5)", "clustercolors(12)", "cluster-col(1)", "clustercol(9)", "c-colors(30)", "ccolors(7)", "c-col(2)", "ccol(16)", "voronoi(5)", "voronoi(100)"]
EDITS = list("hHuUfmandeltzipbckrsvo-()., 0129e+_\t\n/\\\"'%$^*?|[]{}") + ["\u00e9", "\u0663", "\u00df", "\u212a", "\u017f", "\U0001f600", "\0", "\u2212", "\uff11"]


def edits(w):
    for i in range(len(w) + 1):
        for c in EDITS:
            yield w[:i] + c + w[i:]
    for i in range(len(w)):
        yield w[:i] + w[i + 1:]
        yield w[:i] + w[i].swapcase() + w[i + 1:]
        yield w[:i] + w[i] + w[i:]
        for c in EDITS[::3]:
            yield w[:i] + c + w[i + 1:]
        for j in range(i + 1, min(len(w), i + 4)):
            yield w[:i] + w[j] + w[i + 1:j] + w[i] + w[j + 1:]


def number(rng):
    d = lambda n: "".join(rng.choice("0123456789") for _ in range(rng.randrange(n)))
    return rng.choice(("", "", "-", "+")) + rng.choice((d(4), d(4) + "." + d(6), "." + d(3), d(3) + ".", d(30), "0" * rng.randrange(20) + d(3))) + \
        rng.choice(("", "", "", "e" + d(3), "E-" + d(3), "e+" + d(2), "e", "e-", "e5e5", "e" + d(6)))


def strings(ctx):
    rng = ctx.rng
    out = list(WORDS)
    out += [x for w in WORDS for x in edits(w)]
    out += [x for w in WORDS for sp in (" ", "\t", "\n", "  ", "\u00a0", "\u200b", "\ufeff") for x in (sp + w, w + sp, sp + w + sp)]
    if ctx.thorough:
        for w in WORDS:
            e = list(edits(w))
            out += [x for y in rng.sample(e, 40) for x in edits(y)]
    for _ in range(ctx.pick(2500, 20000)):
        w = rng.choice(WORDS)
        for _ in range(rng.randrange(2, 5)):
            i = rng.randrange(len(w) + 1)
            w = w[:i] + rng.choice(EDITS + ["", "()", "(rle)", "rle", "(5)", "zip"]) + w[i + rng.randrange(3):]
        out.append(w)
    for a, b in itertools.product(WORDS[::2], repeat=2):
        out += [a + b, a + "," + b, a + "(" + b + ")"]
    for _ in range(ctx.pick(1200, 10000)):
        out.append("hilbert(rle(%s))" % number(rng))
    for pre in ("cluster-colors", "clustercolors", "cluster-col", "clustercol", "c-colors", "ccolors", "c-col", "ccol", "voronoi", "c-", "cluster", "col", "Voronoi", "cluster--colors"):
        for n in ["0", "00", "1", "01", "10", "007", "", "-1", "+1", "1.0", "1e1", " 1", "1 ", "0x1", "1_000", "\u0661", "18446744073709551615", "18446744073709551616",
                  "018446744073709551615", "99999999999999999999", "184467440737095516150", "4294967296", "9223372036854775808", "0" * 40 + "3", "9" * 300, "1,2", "(1)", "a"] + \
                [str(rng.randrange(1, 10 ** rng.randrange(1, 19))) for _ in range(ctx.pick(8, 50))]:
            out.append("%s(%s)" % (pre, n))
    for k in range(1, ctx.pick(120, 600)):
        out += ["voronoi(%d)" % k, "cluster-colors(%d)" % k, "hilbert(rle(%d))" % k, "hilbert(rle(%.1f))" % (k / 10), "hilbert(rle(%.5f))" % (k / 1000)]
    # numbers that differ little
    for _ in range(ctx.pick(150, 1500)):
        x = rng.randrange(10 ** 14, 10 ** 15)
        s = rng.choice((0, 3, 12, 15))
        for y in (x, x + 1):
            t = "%0*d" % (s + 1, y)
            out.append("hilbert(rle(%s.%s))" % (t[:len(t) - s] or "0", t[len(t) - s:]))
    out += ["", " ", "(", ")", ",", "()", "hilbert", "hilbert()", "hilbert(rle())", "hilbert(rle(,))", "hilbert(rle(1,2))", "hilbert(rle,zip)", "hilbert(delta)", "zip", "zip()",
            "zip(dict,back)", "zip(zip)", "hilbert(zip(dict))", "hilbert(hilbert(rle))", "rle", "rle(1)", "HILBERT(rle)", "hilbert(RLE)", "Zip(dict)", "Delta", "DELTA",
            "voronoi", "cluster-colors", "hilbert(rle(" + "1" * 5000 + "))", "x" * 100000, "(" * 70000, "a" + "(" * 70000 + ")" * 70000, "hilbert(" + "rle(" * 300 + "1" + ")" * 301,
            "hilbert(rle(inf))", "hilbert(rle(-inf))", "hilbert(rle(nan))", "hilbert(rle(NaN))", "hilbert(rle(infinity))", "hilbert(rle(infinit))", "hilbert(rle(1e400))",
            "hilbert(rle(1e-400))", "hilbert(rle(" + "0" * 400 + "." + "0" * 400 + "1))", "hilbert(rle(1e99999999999999999999))", "hilbert(rle(0x10))", "hilbert(rle(1f64))"]
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x))]


def chars(s):
    return [c if " " <= c <= "~" else "U+%04X" % ord(c) for c in s]


def codec_args(ctx, strs, what):
    cases = []
    bs = batch(strs, 500)
    for b, r in zip(bs, ctx.drv.run([("arg", dict(args=",".join(core.h(s) for s in b))) for b in bs])):
        if died(r):
            raise Violation("parsing a codec argument " + died(r), dict(strings=[s[:200] for s in b], result=r))
        for s, o in zip(b, r["res"]):
            if o["out"] == "panic":
                raise Violation("parsing the codec argument %r panics: %s" % (s[:200], o.get("msg")), dict(argument=s[:5000], result=o))
            if len(s) <= 300:
                cases.append(dict(s=chars(s), out=o["out"], name=o.get("name", "")))
            elif o["out"] == "ok":
                # too long for the specification, but for the number it is
                if not re.fullmatch(r"(hilbert\(rle\([+-]?[0-9.]*(e[+-]?[0-9]+)?\)\)|[-a-z]+\([0-9]+\))", s):
                    raise Violation("the codec argument %r... is accepted" % s[:100], dict(argument=s[:5000], result=o))
    ctx.note("codec_arguments", len(cases))
    ctx.note("codec_arguments_accepted", sum(c["out"] == "ok" for c in cases))
    for c in cases[::97]:
        ctx.sample(dict(argument="".join(c["s"]), out=c["out"], name=c["name"]))
    # those accepted in one trace: names are compared over it
    ok = [c for c in cases if c["out"] == "ok"]
    no = [c for c in cases if c["out"] != "ok"]
    core.validate(ctx, "CodecArgTrace", [dict(cases=p, _job=dict(n=len(p))) for p in [ok] + batch(no, 400) if p], what)


def fun_calls(ctx):
    rng = ctx.rng
    strs = ["".join(t) for n in range(ctx.pick(7, 9)) for t in itertools.product("(),a", repeat=n)]
    alphabets = ["(),ab", "(),\u00e9a", "(), \U0001f600", "()a", "(,)(,)()hilbertrle0.5-"]
    for _ in range(ctx.pick(3000, 30000)):
        al = rng.choice(alphabets)
        strs.append("".join(rng.choice(al) for _ in range(rng.randrange(1, 40))))
    # those that balance
    def term(d):
        if d == 0 or rng.random() < 0.4:
            return rng.choice(("a", "bc", "\u00e9", "1.5", " x ", "-", "\U0001f600y"))
        return rng.choice(("f", "g\u00e9", "")) + "(" + ",".join(term(d - 1) for _ in range(rng.randrange(0, 4))) + ")" + rng.choice(("", "", "z"))
    for _ in range(ctx.pick(2500, 20000)):
        t = "f(" + ",".join(term(4) for _ in range(rng.randrange(0, 4))) + ")"
        if rng.random() < 0.4:
            i = rng.randrange(len(t) + 1)
            t = t[:i] + rng.choice(("", "(", ")", ",", "a")) + t[i + rng.randrange(2):]
        strs.append(t)
    for d in (10, 127, 128, 254, 255, 256, 257, 300, 1000):
        strs += ["f" + "(" * d + "a" + ")" * d, "f" + "(" * d + ")" * (d - 1), "f" + "(" * d + ")" * (d + 1), "f(" + "a," * d + "b)", "f(" + "a," * d + ")", "f" + "()" * d, "f(" + "()" * d + ")"]
    cases = []
    bs = batch(strs, 800)
    for b, r in zip(bs, ctx.drv.run([("prs", dict(strs=",".join(core.h(s) for s in b))) for b in bs])):
        if died(r):
            raise Violation("parsing a function call " + died(r), dict(strings=b[:50], result=r))
        for s, o in zip(b, r["res"]):
            if o["out"] == "panic":
                raise Violation("parsing the function call %r panics: %s" % (s[:200], o.get("msg")), dict(string=s[:5000], result=o))
            un = lambda x: chars(bytes.fromhex(x).decode())
            cases.append(dict(s=chars(s), out=o["out"], name=un(o.get("name", "")), args=[un(a) for a in o.get("args", [])]))
    ctx.note("function_calls", len(cases))
    ctx.note("function_calls_accepted", sum(c["out"] == "some" for c in cases))
    core.validate(ctx, "FunCallTrace", [dict(cases=p) for p in batch(cases, 300)], "function call")


def usage(ctx):
    """The arguments that the usage text offers"""
    with cli.Scratch("usage") as s:
        texts = []
        for args in ([], ["--codec=nonsense"], ["hufman"], ["--special=nonsense"], ["--codec="], ["--codec=hilbert(rle())"], ["--codec=voronoi(0)", "x.ppm"]):
            r = s.run(ctx, args)
            if r.code == 0 or r.code < 0:
                raise Violation("the command line %r %s" % (args, "succeeds" if r.code == 0 else "dies of signal %d" % -r.code), dict(args=args, stderr=r.err[-2000:]))
            if [f for f in s.files()]:
                raise Violation("the command line %r writes files" % args, dict(args=args, files=s.files()))
            texts.append((r.out + r.err).replace("\\n", "\n"))
    offered = []
    for t in texts:
        on = False
        for l in t.splitlines():
            if "codecs:" in l:
                on = True
            elif on and re.match(r"^\s+\S", l):
                offered.append(l.strip().rstrip("\")'"if not "(" in l else "\"'"))
            elif on:
                break
    offered = sorted(set(re.sub(r"\"\)*$", "", o) for o in offered))
    if not offered:
        core.log("  no list of codecs in the usage text")
        return
    strs = []
    for o in offered:
        for n in ("1", "3", "17"):
            strs.append(re.sub(r"<[^>]*>", n, o))
    r = ctx.drv.run([("arg", dict(args=",".join(core.h(s) for s in strs)))])[0]
    for s, o in zip(strs, r["res"]):
        if o["out"] != "ok":
            raise Violation("the usage text offers %r, which is not accepted" % s, dict(offered=offered, result=o))
    codec_args(ctx, strs, "arguments offered by the usage text")
    ctx.note("offered", len(offered))
    with cli.Scratch("accepted") as s:
        s.ppm("a.ppm", corpus.constant(3, 2))
        for n, a in enumerate(strs):
            r = s.run(ctx, ["--codec=" + a, "a.ppm"])
            if r.code != 0:
                raise Violation("the command line does not accept %r" % a, dict(argument=a, status=r.code, stderr=r.err[-1000:]))


def run(ctx):
    core.model_check(ctx, "MCFunCall", defs=ctx.pick({}, dict(MaxLen=10)))
    core.model_check(ctx, "MCCodecArg", defs=ctx.pick({}, dict(MaxDigits=2)))
    codec_args(ctx, strings(ctx), "codec argument")
    if ctx.has("prs"):
        fun_calls(ctx)
    usage(ctx)
