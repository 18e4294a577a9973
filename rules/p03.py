"""P03: cleaning the state equals starting over; containers clean every child."""
from coan.interp import Opq
from coan.lab import verdict
from . import subjects as S
from .common import run_call, seeds


def trace(lab, subj, o, n, clip=False):
    out = [lab.fz(lab.m(o, "get_state"))]
    for i in range(n):
        out.append(run_call(lab, o, "forward_step", subj.x(i)))
        out.append(lab.fz(lab.m(o, "get_state")))
    if clip:
        out.append(run_call(lab, o, "forward_steps", subj.X()))
        out.append(lab.fz(lab.m(o, "get_state")))
    return out


def leaf(lab, subj, hist, steps, clip):
    def thunk(ctx):
        o = subj.build(lab)
        snap = lab.snapshot(o)
        fresh = trace(lab, subj, o, steps, clip)
        lab.restore(snap)
        seeds(lab, subj, o, hist)
        if hist == "running":
            lab.m(o, "forward_step", *subj.x(90))
        lab.m(o, "clean_state")
        cleaned = trace(lab, subj, o, steps, clip)
        return fresh, cleaned

    def judge(path):
        fresh, cleaned = path.value
        names = ["the state right after cleaning differs from that of a fresh module"]
        for i in range(steps):
            names += [f"output {i} after cleaning differs from that of a fresh module", f"the state {i + 1} frames after cleaning differs from that of a fresh module"]
        names += ["the clip output after cleaning differs from that of a fresh module", "the state after a clip differs"]
        return [verdict(b, a, n, path.facts) for a, b, n in zip(fresh, cleaned, names)]

    lab.obligation(f"clean-{hist}" + ("-clip" if clip else ""), subj.name, subj.where(lab, "clean_state", "get_state", "forward_step"), thunk, judge)


def container(lab, subj):
    def thunk(ctx):
        o = subj.build(lab)
        kids = [c for c in S.children(lab, o)]
        n0 = len(ctx.events)
        lab.m(o, "clean_state")
        return n0, kids

    def judge(path):
        n0, kids = path.value
        cleaned = [e.obj for e in path.events[n0:] if e.kind == "call" and e.method == "clean_state"]
        out = [(True, "")]
        for c in kids:
            if not any(c is x for x in cleaned):
                out.append((False, f"clean_state does not reach the sub-module {c.name}"))
        for e in path.events[n0:]:
            if e.kind == "call" and e.method not in ("clean_state", "children", "modules", "named_children"):
                if e.method in ("forward_step", "forward_steps", "set_state", "__call__", "forward"):
                    out.append((False, f"clean_state calls {e.method} on a sub-module at {e.loc}"))
        return out

    lab.obligation("clean-children", subj.name, subj.where(lab, "clean_state"), thunk, judge)


def run(lab, tier):
    hists = ("after1", "running") if tier == "quick" else ("after1", "after2", "after3", "running")
    for subj in S.leaves() + S.mha_subjects():
        if subj.family in ("stateless", "list", "retrolambda"):
            continue
        for h in hists:
            lab.job(leaf, subj, h, 1 if tier == "quick" and subj.family in ("conv", "mha") else 2, False)
            if tier != "quick":
                lab.job(leaf, subj, h, 0, True)
    for subj in S.container_subjects((1, 2, 3, 4)) + S.nested_subjects():
        lab.job(container, subj)
