import importlib
import os
import sys


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import core

    mod = importlib.import_module("vf.checks." + pid.lower())
    ctx = core.Ctx(pid, tier, seed)
    if "--replay" in sys.argv:
        sys.exit(replay(ctx, mod, sys.argv[sys.argv.index("--replay") + 1]))
    mod.check(ctx)
    sys.exit(core.finish(ctx, getattr(mod, "LEVEL", "exploration"), getattr(mod, "MIN_EVAL", 1)))


def replay(ctx, mod, path):
    """Re-executes the recorded case on fresh parties and re-judges it."""
    import base64
    import json
    import pickle

    d = json.load(open(path))
    c = pickle.loads(base64.b64decode(d["case_pickle"]))
    print(d["message"])
    if "fn" not in c:
        print("(no single-case replay; run the check with VERIF_SEED=%d)" % d["seed"])
        return 0
    g = ctx.group(c["ws"], c.get("cfg"), c["label"], **c.get("opts", {}))
    try:
        for i in range(3):
            outs = g.call(c["mod"], c["fn"], c["case"])
            print("run", i, [str(o)[:1500] for o in outs])
    finally:
        g.kill()
    return 0


if __name__ == "__main__":
    main()
