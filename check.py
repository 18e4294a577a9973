#!/usr/bin/env python3
"""Decide one property of /repo statically:  check.py <ID> [--tier quick|thorough] [--root DIR]"""
import argparse
import hashlib
import importlib
import json
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def known(pid):
    """Listed findings of a property: (signature, description)."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith(f"finding: property={pid} "):
                rest = line.split(" ", 2)[2]
                sig, _, desc = rest.partition(" -- ")
                sig, _, dig = sig.partition(" ##")
                out.append((sig.strip(), desc.strip(), dig.strip()))
    return out


def detail_digest(o):
    """Identifies what fails, so that another failure of the same obligation is still reported."""
    return hashlib.sha256(o["detail"].encode()).hexdigest()[:10]


def run_jobs(lab, a):
    if not lab.jobs:
        return
    n = int(os.environ.get("COAN_JOBS", "0")) or min(8, os.cpu_count() or 1)
    if n <= 1 or len(lab.jobs) < 4:
        for fn, args in lab.jobs:
            fn(lab, *args)
        return
    import multiprocessing

    global _LAB
    _LAB = lab
    broken = []
    with multiprocessing.get_context("fork").Pool(n) as pool:
        for idx, obls, paths, err, dt in pool.imap_unordered(_work, range(len(lab.jobs)), chunksize=1):
            if err:
                broken.append(err)
            for o in obls:
                o["t"] = dt
                o["idx"] = idx
            lab.obls.extend(obls)
            lab.I.paths_explored += paths
    lab.obls.sort(key=lambda o: o.get("idx", -1))
    if broken:
        from coan.prog import AnalysisError
        raise AnalysisError("; ".join(sorted(set(broken)))[:600])


def _work(i):
    from coan.prog import AnalysisError

    lab = _LAB
    lab.obls = []
    p0 = lab.I.paths_explored
    fn, args = lab.jobs[i]
    err = None
    t = time.time()
    try:
        fn(lab, *args)
    except AnalysisError as e:
        err = str(e)
    return i, lab.obls, lab.I.paths_explored - p0, err, round(time.time() - t, 2)


def signature(o):
    return f"{o['rule']}@{o['subject']}"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from coan.lab import Lab
    from coan.prog import AnalysisError
    from coan import rulemeta

    pid = a.pid
    try:
        lab = Lab(a.root)
        lab.tier = a.tier
        lab.deadline = t0 + float(os.environ.get("COAN_DEADLINE", "780"))
        lab.budget = 150 if a.tier == "quick" else 400
        mod = importlib.import_module(f"rules.{pid.lower()}")
        mod.run(lab, a.tier)
        run_jobs(lab, a)
    except AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={pid}: {e}")
        sys.exit(2)
    obls = lab.obls
    by = {"holds": 0, "violated": 0, "undetermined": 0}
    for o in obls:
        by[o["status"]] += 1
    listed = known(pid)
    viol, kf = [], []
    for o in obls:
        if o["status"] != "violated":
            continue
        hit = next((k for k in listed if k[0] == signature(o) and k[2] in ("", detail_digest(o))), None)
        (kf if hit else viol).append((o, hit))
    if by["holds"] == 0 and not viol:
        for o in obls[:5]:
            print("  ", o["status"], signature(o), o["detail"][:300])
        print(f"ANALYSIS-BROKEN property={pid}: no obligation was decided ({len(obls)} generated)")
        sys.exit(2)
    rules = {}
    for o in obls:
        r = rules.setdefault(o["rule"], {"holds": 0, "violated": 0, "undetermined": 0, "subjects": []})
        r[o["status"]] += 1
        if o["subject"] not in r["subjects"]:
            r["subjects"].append(o["subject"])
    digest = hashlib.sha256()
    for m in sorted(lab.I.prog.modules.values(), key=lambda m: m.name) if hasattr(lab.I.prog, "modules") else []:
        digest.update(open(m.path, "rb").read())
    wheres = sorted({w for o in obls for w in o["where"].split(", ") if w})
    cov = {
        "explanation": (mod.__doc__ or "").strip() + " Decided by path-sensitive abstract interpretation / value numbering of the current source "
        "(no execution, no solver): every obligation is a comparison of path summaries (terms, facts, effect events).",
        "obligations": len(obls), "discharged": by["holds"], "undetermined": by["undetermined"], "violated": by["violated"],
        "paths_analysed": sum(o["paths"] for o in obls),
        "abstract_paths_total": lab.I.paths_explored,
        "functions_analysed": wheres,
        "rules": {r: {k: v for k, v in d.items()} for r, d in rules.items()},
        "undetermined_list": [f"{signature(o)}: {o['detail']}" for o in obls if o["status"] == "undetermined"],
        "known_findings": [signature(o) for o, _ in kf],
        "source_digest": digest.hexdigest(),
    }
    ev = {
        "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "coverage": cov,
        "wall_s": round(time.time() - t0, 2),
        "violations": [f"{signature(o)}: {o['detail']} [{o['where']}]" for o, _ in viol],
        "assumptions": rulemeta.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for o, k in kf:
        print(f"KNOWN-FINDING: property={pid} {signature(o)} {k[1]}")
    print(f"{pid} tier={a.tier}: {len(obls)} obligations, {by['holds']} hold, {by['undetermined']} undetermined, {len(viol)} violated, {len(kf)} known; {lab.I.paths_explored} paths, {ev['wall_s']} s")
    if a.v:
        for o in sorted(obls, key=lambda o: -o.get("t", 0))[:8]:
            print("  slow", o.get("t"), signature(o), o["paths"])
        for o in obls:
            if o["status"] == "undetermined":
                print("  undetermined", signature(o), o["detail"])
    if viol:
        rp = os.path.join(HERE, "evidence", f"{pid}.violations.txt")
        with open(rp, "w") as fh:
            for o, _ in viol:
                fh.write(f"rule {o['rule']} on {o['subject']}\n  at {o['where']}\n  {o['detail']}\n")
        lim = 600 if a.v else 240
        for o, _ in viol[:6]:
            print(f"  {signature(o)} ##{detail_digest(o)}: {o['detail'][:lim]}\n    at {o['where']}")
        if len(viol) > 6:
            print(f"  ... and {len(viol) - 6} more: " + ", ".join(signature(o) for o, _ in viol[6:])[:1500])
        print(f"VIOLATION property={pid} replay={rp}")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
