#!/usr/bin/env python3
"""Confirm planted changes and see which checks report them.

plant.py DEFS.py [id ...]   build /verif/seeded/<id>/ from definitions (BUGS list of dicts), confirming each in a scratch copy
plant.py --recheck [id ...] run the checks of the changes under /verif/seeded again
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '#!/bin/bash\n# Exit 0 when the property holds, 1 when it is broken. Runs in the repository.\nPYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)


def tests_pass(repo):
    with tempfile.TemporaryDirectory() as t:
        r = sh([PY, "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", "--ignore=tests/interoptests"], repo,
               {"PYTHONPATH": repo, "PYTHONPYCACHEPREFIX": t})
    return r.returncode == 0, r.stdout.strip().splitlines()[-1:]


def demo(d, repo):
    with tempfile.TemporaryDirectory(prefix="demo.") as t:
        shutil.copytree(d, t, dirs_exist_ok=True, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        return sh(["bash", os.path.join(t, "demo.sh")], repo, timeout=300)


def check(prop, repo):
    r = sh(["./check.sh", prop], ROOT, {"VERIF_REPO": repo})
    lines = [x[:170] for x in r.stdout.splitlines() if x.startswith(("violation", "first violation", "VIOLATION", "ERROR", "runs="))]
    return r.returncode, lines


def copy_repo(t):
    repo = os.path.join(t, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    return repo


def run_one(bug, d, only_check=False, extra_props=()):
    with tempfile.TemporaryDirectory(prefix="plant.", dir="/tmp") as t:
        repo = copy_repo(t)
        if not only_check:
            r = demo(d, repo)
            if r.returncode != 0:
                return f"REJECT demo fails on clean tree: {r.stdout[-200:]} {r.stderr[-300:]}"
        a = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if a.returncode:
            return "REJECT patch: " + a.stderr[:200]
        if not only_check:
            ok, tail = tests_pass(repo)
            if not ok:
                return f"REJECT tests: {tail}"
            r = demo(d, repo)
            if r.returncode == 0:
                return "REJECT demo passes with the patch"
        out = []
        for p in [bug["property"], *extra_props]:
            rc, lines = check(p, repo)
            v = next((x for x in lines if x.startswith("violation")), "")
            first = next((x[len("first violation in planned "):] for x in lines if x.startswith("first violation")), "")
            out.append(f"{p} {'CAUGHT' if rc == 1 else 'missed' if rc == 0 else 'ERROR rc=%d' % rc} {first} {v[:130]}")
        return " | ".join(out)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--recheck":
        ids = args[1:] or sorted(os.listdir(SEEDED))
        for i in ids:
            d = os.path.join(SEEDED, i)
            print(i, run_one(json.load(open(os.path.join(d, "meta.json"))), d, only_check=True), flush=True)
        return
    bugs = runpy.run_path(args[0])["BUGS"]
    for bug in bugs:
        if len(args) > 1 and bug["id"] not in args[1:]:
            continue
        d = os.path.join(SEEDED, bug["id"])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory(prefix="plant.", dir="/tmp") as t:
            repo = copy_repo(t)
            bad = None
            for f, old, new in bug["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = f"{f}: {s.count(old)} matches of {old[:60]!r}"
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(bug["id"], "REJECT", bad, flush=True)
                shutil.rmtree(d)
                continue
            diff = sh(["git", "diff"], repo).stdout
        with open(os.path.join(d, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write(bug["demo"].lstrip("\n"))
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        res = run_one(bug, d, extra_props=bug.get("also", ()))
        print(bug["id"], res, flush=True)
        if res.startswith("REJECT"):
            shutil.rmtree(d)


main()
