#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo (development aid; no check uses it): every check has to stay quiet on them.

refactor.py [NAME ...] [--checks P01,P02] : applies tools/refactorings/NAME.py (EDITS = [(file, old, new)], HEAD-relative) to a
scratch copy, runs the tests there and all checks with COAN_ROOT pointing at it.
"""
import glob, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))


def run(name, checks, jobs):
    root = tempfile.mkdtemp(prefix="refactor", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", root], check=True)
        for f, old, new, *every in runpy.run_path(os.path.join(HERE, "refactorings", name + ".py"))["EDITS"]:
            p = os.path.join(root, "continual", f)
            s = open(p).read()
            if s.count(old) != 1 and not (every and old in s):
                print(name, "edit does not apply" if old not in s else "edit is ambiguous", s.count(old), f, repr(old[:70]))
                continue
            open(p, "w").write(s.replace(old, new))
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=root, env=dict(os.environ, PYTHONPATH=root), capture_output=True, text=True)
        print(name, "tests:", (t.stdout.strip().splitlines() or ["?"])[-1])

        def one(c):
            r = subprocess.run(["python3", "check.py", c], cwd=os.path.dirname(HERE), env=dict(os.environ, COAN_ROOT=root, COAN_JOBS="2"), capture_output=True, text=True)
            return c, r

        with ThreadPoolExecutor(jobs) as ex:
            for c, r in ex.map(one, checks):
                if r.returncode or "0 undetermined" not in r.stdout:
                    print(name, c, "exit", r.returncode, (r.stdout.splitlines() or [r.stderr[-300:]])[0][:160])
                    if r.returncode:
                        print("\n".join(l[:330] for l in r.stdout.splitlines()[1:9]))
                sys.stdout.flush()
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    args = sys.argv[1:]
    checks = sorted(os.path.basename(p)[:3].upper() for p in glob.glob(os.path.join(HERE, "..", "rules", "p[0-9][0-9].py")))
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    names = args or sorted(os.path.basename(p)[:-3] for p in glob.glob(os.path.join(HERE, "refactorings", "*.py")))
    for n in names:
        run(n, checks, int(os.environ.get("JOBS", "4")))
