#!/usr/bin/env python3
"""Author and validate planted bugs (development aid; no check uses it).

seedtool.py make SPEC.py      -> writes seeded/<id>/ from BUGS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
seedtool.py verify [ID...]    -> apply to a scratch copy, run build-equivalent import, tests, demo with/without, and the property's check
"""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, "seeded")
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="4", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0")
DEMO = '#!/bin/bash\n# exit 0: behaviour as stated; nonzero: broken\nexport PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, timeout=300, env=None):
    r = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env or ENV)
    return r.returncode, r.stdout + r.stderr


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        tmp = tempfile.mkdtemp()
        sh(f"git clone -q /repo {tmp}/r", "/")
        for f, old, new in b["edits"]:
            p = os.path.join(tmp, "r", f)
            s = open(p).read()
            if s.count(old) != 1:
                print("EDIT MISMATCH", b["id"], f, s.count(old), repr(old[:60]))
                break
            open(p, "w").write(s.replace(old, new))
        else:
            _, diff = sh("git diff", tmp + "/r")
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
            print("made", b["id"])
        shutil.rmtree(tmp)


def one(i):
    d = os.path.join(SEED, i)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp()
    try:
        r = tmp + "/r"
        sh(f"git clone -q /repo {r}", "/")
        out = [i, meta["property"]]
        env = dict(ENV, PYTHONPATH=r)
        c0, o0 = sh(f"bash {d}/demo.sh", r)
        rc, o = sh(f"git apply {d}/patch.diff", r)
        if rc:
            return out + ["APPLY-FAILS", o[:100]]
        c1, o1 = sh(f"bash {d}/demo.sh", r)
        rc, o = sh('PYTHONPATH=/opt/vp/plugins:$PWD /opt/venv/bin/python -m pytest -q -x -p seed_each_test -p no:cacheprovider --timeout=300 -m "not skip_cicd" 2>&1 | grep -E "^FAILED|passed|failed" | cut -c1-150', r, 600)
        out.append(f"demo clean={c0} patched={c1}")
        out.append("tests " + " ; ".join(o.strip().splitlines()[-2:]))
        if c0:
            out.append(o0[-300:])
        cc, co = sh(f"python3 {HERE}/check.py {meta['property']} --root {r}", HERE, 900, dict(ENV, COAN_JOBS="4"))
        out.append(f"check={cc}")
        if cc != 1:
            out.append(co[-300:])
        else:
            out.append(next((l for l in co.splitlines() if "@" in l), "")[:140])
        return out
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(3) as ex:
            for r in ex.map(one, ids):
                print(" | ".join(map(str, r)), flush=True)
