"""Run one counterexample against the real code on native values.

usage: python -m symex.replay FILE   (cwd /verif)
exit 3: the violation shows on the real code; 0: it does not; 4: the run does
not follow the counterexample (an assumption failed).
"""
import ast
import json
import sys
import traceback


def run(data, quiet=False):
    """(code, message) of one native run, or of one for every explored path
    when the finding is an outcome that none of them shows."""
    a = data["assignment"]
    if "goal" not in a:
        return run_one(data, a)[:2]
    shown = set()
    for p in a["paths"]:
        code, msg, covered = run_one(data, p)
        if code == 3:
            return 3, msg
        shown |= covered
    if a["goal"] in shown:
        return 0, "the outcome occurs"
    return 3, (f"outcome {a['goal']} does not occur on any of "
               f"{len(a['paths'])} runs; those that do: {sorted(shown)[:40]}")


def run_one(data, assignment):
    import importlib
    from symex import core, stubs
    mod = importlib.import_module(data["module"])
    fn = getattr(mod, data["harness"])
    cfg = ast.literal_eval(data["cfg"])
    ctx = core.ConcreteCtx(assignment)
    core.set_cur(ctx)
    env = stubs.Env()
    env.reset(ctx)
    try:
        fn(ctx, **cfg)
    except core.Violated as v:
        return 3, f"assertion violated: {v.label}", set()
    except core.PathAbort:
        return 4, "assumption not met", set()
    except Exception as e:
        tb = traceback.format_exc()
        return 3, f"uncaught {type(e).__name__}: {e}\n{tb}", set()
    finally:
        core.set_cur(None)
    return 0, "no violation", ctx.covered


def main(argv):
    from symex.boot import boot
    data = json.load(open(argv[1]))
    boot(symbolic=False)
    code, msg = run(data)
    print(msg)
    if "-v" in argv:
        print(json.dumps(data["assignment"], indent=1))
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv))
