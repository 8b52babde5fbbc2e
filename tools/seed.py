#!/usr/bin/env python3
"""Confirm planted bugs in scratch copies: tools/seed.py ID... [--no-tests] [--no-check]
applies seeded/ID/patch.diff to a copy of /repo, builds it, runs the demo with and without it, the tests, and the check."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, env=None, timeout=3000):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scripts(d):
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read()
        s = s.replace("/opt/vp/build.sh", d + "/build.sh").replace("/opt/vp/work", d + "/work").replace("REPO=/repo", f"REPO={d}/repo")
        s = s.replace("T=/repo/tests", f"T={d}/repo/tests").replace("rootdir=/repo", f"rootdir={d}/repo").replace("'/repo/tbplas/'", f"'{d}/repo/tbplas/'")
        s = s.replace("unset PYTHONPATH", f"export PYTHONPATH={d}/repo")
        open(os.path.join(d, n), "w").write(s)


def run(i, tests, check):
    b = os.path.join(V, "seeded", i)
    meta = json.load(open(b + "/meta.json"))
    d = tempfile.mkdtemp(prefix=f"seed_{i}_")
    out = [f"{i} ({meta['property']})"]
    try:
        sh(f"git -C /repo worktree prune; mkdir {d}/repo && git -C /repo archive HEAD | tar x -C {d}/repo && cd {d}/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x")
        scripts(d)
        env = dict(os.environ, PYTHONPATH=f"{d}/repo")
        demo = f"{d}/demo"
        shutil.copytree(b, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        rc, o = sh(f"bash {d}/build.sh", env=env)
        out.append(f"build {rc}")
        rc, o = sh(f"bash {demo}/demo.sh", cwd=f"{d}/repo", env=env, timeout=300)
        out.append(f"demo on unchanged tree {rc}{'' if rc == 0 else ' BAD ' + o[-600:]}")
        rc, o = sh(f"git apply {b}/patch.diff", cwd=f"{d}/repo")
        if rc:
            return "\n  ".join(out + ["patch does not apply " + o])
        rc, o = sh(f"bash {d}/build.sh", env=env)
        out.append(f"build with patch {rc}{'' if rc == 0 else ' BAD ' + o[-600:]}")
        rc, o = sh(f"bash {demo}/demo.sh", cwd=f"{d}/repo", env=env, timeout=300)
        out.append(f"demo with patch {rc}{' BAD' if rc == 0 else ''}: {o.strip().splitlines()[-1][:200] if o.strip() else ''}")
        if check:
            e = dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_EVIDENCE=f"{d}/ev")
            rc, o = sh(f"/opt/venv/bin/python check.py {meta['property']} --tier quick", cwd=V, env=e)
            l = [x for x in o.splitlines() if x.startswith(("VIOLATION", "counterexample in"))]
            out.append(f"check {rc} {'CAUGHT' if rc == 1 and l else 'MISSED'} {l[:1]} {o.splitlines()[-3:] if rc != 1 else ''}")
        if tests:
            rc, o = sh(f"bash {d}/test.sh {d}/out.json", env=env)
            r = json.load(open(f"{d}/out.json"))
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            bad = sorted(st - set(r["passed"]))
            out.append(f"stable tests not passing: {bad if bad else 'none'}")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return "\n  ".join(out)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    if not a:
        a = sorted(os.listdir(V + "/seeded"))
    for i in a:
        print(run(i, "--no-tests" not in sys.argv, "--no-check" not in sys.argv), flush=True)
