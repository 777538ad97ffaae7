import core, workspace

ASSUMPTIONS = ["outputs are made to fail by names that lead to /dev/full or are taken by folders"]


def run(ctx):
    core.model_check(ctx, "MCWorkspace", defs=ctx.pick({}, dict(Runs=2, MaxList=3, Images="{1, 2, 3}")))
    core.model_refute(ctx, "MCWorkspace", cfg="MCWorkspaceUnflushed", kind="invariant Fulfilled")
    traces = []
    for runs, num in ctx.pick(((1, 100), (3, 80), (8, 40)), ((1, 400), (3, 400), (8, 200))):
        ts, pics = workspace.histories(ctx, num, runs, 2)
        traces += ts
    traces += list(workspace.no_folder(ctx, pics))
    core.validate(ctx, "WorkspaceTrace", traces, "history of runs with failing outputs")
    ctx.note("runs_with_broken_outputs", sum(bool(s["bro"]) for t in traces for s in t["steps"]))
    ctx.note("runs_that_failed", sum(not s["ok"] for t in traces for s in t["steps"]))
