#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]
exit 0: the property held on everything explored; 1: VIOLATION; 2: tool error."""
import argparse, importlib, json, os, shutil, sys, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import core
from core import Ctx, Driver, Violation, log


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED") or "1")
    prop = a.property
    mod = importlib.import_module("props." + prop.lower())
    core.setup_work(prop)
    ctx = Ctx(prop, tier, seed)
    viol = []
    code = 0
    try:
        ctx.binary, ctx.parts = core.build()
        ctx.drv = Driver(ctx.binary)
        try:
            mod.run(ctx)
        except Violation as v:
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, tier, seed))
            with open(path, "w") as f:
                json.dump(dict(property=prop, tier=tier, seed=seed, what=v.what, detail=v.detail,
                               rerun="python3 check.py %s --tier %s --seed %d" % (prop, tier, seed)), f, indent=1)
            print("%s: %s" % (prop, v.what[:2000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            viol.append(dict(property=prop, what=v.what[:2000], replay=path))
            code = 1
        for key, text in ctx.known:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        core.write_evidence(ctx, getattr(mod, "LEVEL", "model_checking"), viol,
                            getattr(mod, "ASSUMPTIONS", []) + core.ASSUMPTIONS)
    except core.ToolError as e:
        log("TOOL ERROR: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(core.WORK, ignore_errors=True)
    if code == 0:
        print("%s held: %d states, %d traces of the real code accepted" % (prop, ctx.states, ctx.traces))
    sys.stdout.flush()
    os._exit(code)


main()
