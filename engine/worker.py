"""Runs harnesses on the real (scratch-built) package: reads requests (JSON) from a file, writes results."""
import importlib
import json
import os
import sys
import tempfile
import traceback


def run_one(fn, params, env, seed, scratch):
    from engine.ctx import ConcCtx, AssumeFail
    c = ConcCtx(env, seed, scratch)
    out = dict(fails=[], obs=None, env=None, skipped=False)
    devnull = open(os.devnull, "w")
    saved = sys.stdout
    sys.stdout = devnull
    try:
        fn(c, **params)
    except AssumeFail:
        out["skipped"] = True
        return out
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        c.fails.append((f"exception:{type(e).__name__}", f"{type(e).__name__}: {e} at {tb[-1].filename}:{tb[-1].lineno}"))
    finally:
        sys.stdout = saved
        devnull.close()
        for u in reversed(c.undo):
            u()
    out["fails"], out["obs"], out["env"], out["count"] = c.fails, c.obs, c.env, c.count
    return out


def main():
    pkg, verif, inp, outp = sys.argv[1:5]
    sys.path.insert(0, pkg)
    sys.path.insert(1, verif)
    import warnings
    warnings.filterwarnings("ignore")
    import tbplas
    assert tbplas.__file__.startswith(pkg), tbplas.__file__
    with open(inp) as f:
        reqs = json.load(f)
    with open(outp, "w") as f:
        for r in reqs:
            mod = importlib.import_module("checks." + r["check"])
            fn = getattr(mod, r["func"])
            scratch = tempfile.mkdtemp(prefix="run_", dir=os.path.dirname(inp))
            cwd = os.getcwd()
            os.chdir(scratch)
            devnull = os.open(os.devnull, os.O_WRONLY)
            keep = os.dup(1)
            os.dup2(devnull, 1)
            try:
                res = run_one(fn, r["params"], r["env"], r.get("seed", 1), scratch)
            finally:
                os.dup2(keep, 1)
                os.close(keep)
                os.close(devnull)
                os.chdir(cwd)
            res["id"] = r["id"]
            f.write(json.dumps(res) + "\n")
            f.flush()


if __name__ == "__main__":
    main()
