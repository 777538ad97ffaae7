import core, corpus, cli, bench
from common import *

ASSUMPTIONS = ["the schedules of the real threads are those that the gates of the scripted codec impose, and those that happen"]


def odd_names(rng):
    names = ["plain.ppm", "with space.ppm", "comma,here.ppm", "quote\"d.ppm", "'single'.ppm", "semi;colon.ppm", "new\nline.ppm", "caf\u00e9.ppm", "\u65e5\u672c.ppm",
             "dots.in.name.ppm", "sub/dir/inner.ppm", "./dot.ppm", "-dash.ppm", "=cmd.ppm", "tab\there.ppm", "name,compressed_size,compression_ratio,error.ppm",
             "#hash.ppm", "\"quoted\".ppm", "trailing,.ppm", "cr\rhere.ppm"]
    rng.shuffle(names)
    return names


def real(ctx):
    """Whole runs of the command line, with names that a report must quote"""
    rng = ctx.rng
    traces = []
    codecs = list(bench.DETERMINISTIC) + list(bench.CLUSTER)
    for n in range(ctx.pick(40, 300)):
        codec = codecs[n % len(codecs)]
        names = odd_names(rng)[:rng.choice((0, 1, 2, 5, 20))]
        if rng.random() < 0.2:
            names = ["f%d.ppm" % k for k in range(70)]
        if n % 13 == 0:
            names = ["f%d.ppm" % k for k in range((130, 300, 1100)[n // 13 % 3])]
        files = []
        for name in names:
            w, h = rng.randrange(1, 9), rng.randrange(1, 9)
            img = rng.choice((corpus.constant(w, h), corpus.noise(rng, w, h), corpus.few(rng, w, h, 3)))
            if rng.random() < 0.15:
                files.append((name, rng.choice((b"", b"P6\n", b"P6\n3 3\n255\nabc")), None, "open"))
            else:
                files.append((name, cli.ppm(img), img, ""))
        if files and codec in bench.DETERMINISTIC and "voronoi" not in codec:
            # several times the same image
            files += [rng.choice(files) for _ in range(rng.choice((0, 0, 1, 3, 20)))]
            rng.shuffle(files)
        t = bench.real_run(ctx, codec, files, threads=rng.choice((1, 2, 3, 8, 64)))
        traces.append(t)
        ctx.sample(dict(codec=codec, files=len(files), rows=len(t["rows"])))
    core.validate(ctx, "BenchTrace", traces, "report of a run")


def run(ctx):
    core.model_check(ctx, "MCBench")
    if ctx.thorough:
        core.model_check(ctx, "MCBench", defs=dict(Tasks=4, Threads=3, Outcomes='{"ok", "diff", "enc"}'))
    core.model_refute(ctx, "MCBench", cfg="MCBenchUnlocked", kind="invariant GoodReport")
    if ctx.has("bench"):
        for tasks, num in ((2, 100), (3, 200), (4, 300), (6, 150)):
            bench.scripted(ctx, bench.behaviours(ctx, num * ctx.pick(1, 10), tasks, tasks), 8, "report of a scheduled run")
        # many at once, leaving the codec together
        n = ctx.pick(20, 100)
        for threads, tasks in ((8, 8), (16, 16), (3, 10)):
            b = [dict(lossless=k % 2, plan=[ctx.rng.choice(("ok", "ok", "ok", "diff")) if k % 3 else "ok" for _ in range(tasks)], ev=[]) for k in range(n)]
            bench.scripted(ctx, b, threads, "report of a run", gates=False, reps=ctx.pick(8, 20), rally=min(threads, tasks))
        # very tight races on the first row and the others: nothing else runs
        for threads in (2, 4):
            b = [dict(lossless=1, plan=["ok"] * threads, ev=[]) for k in range(ctx.pick(8, 40))]
            bench.scripted(ctx, b, threads, "report of a run", gates=False, reps=ctx.pick(150, 400), rally=threads, tiny=True)
        bench.scripted(ctx, bench.behaviours(ctx, ctx.pick(100, 1000), 5, 5), 1, "report of a run of one thread", gates=False)
    real(ctx)
