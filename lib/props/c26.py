import core, workspace

ASSUMPTIONS = ["rows, pictures and dumps are compared with those of a run with this image alone (C16, C17, C21, C22 are about these)"]


def run(ctx):
    core.model_check(ctx, "MCWorkspace", defs=ctx.pick({}, dict(Runs=2, MaxList=3, Images="{1, 2, 3}")))
    for v in ("Appends", "Sweeps", "Early"):
        core.model_refute(ctx, "MCWorkspace", cfg="MCWorkspace" + v, kind="invariant Fulfilled")
    traces = []
    for runs, num in ctx.pick(((3, 100), (8, 60)), ((3, 400), (8, 300), (20, 60))):
        traces += workspace.histories(ctx, num, runs, 0)[0]
    core.validate(ctx, "WorkspaceTrace", traces, "history of runs")
