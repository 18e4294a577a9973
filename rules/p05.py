"""P05: regular forward neither uses nor disturbs the stream (positional encodings excepted)."""
from coan.interp import Opq
from coan.lab import verdict
from . import subjects as S
from .common import run_call, seeds, resolved_method


def leaf(lab, subj, hist):
    stateless = subj.family in ("stateless", "list", "retrolambda")

    def thunk(ctx):
        o = subj.build(lab)
        st00 = lab.fz(lab.m(o, "get_state"))
        out0 = run_call(lab, o, "forward", subj.X())
        st0 = lab.fz(lab.m(o, "get_state"))
        seeds(lab, subj, o, hist)
        snap = lab.snapshot(o)
        y_ref = None if stateless else run_call(lab, o, "forward_step", subj.x())
        lab.restore(snap)
        before = lab.fz(lab.m(o, "get_state"))
        out1 = run_call(lab, o, "forward", subj.X())
        after = lab.fz(lab.m(o, "get_state"))
        y = None if stateless else run_call(lab, o, "forward_step", subj.x())
        return out0, (st00, st0), before, out1, after, y_ref, y

    def judge(path):
        out0, st0, before, out1, after, y_ref, y = path.value
        f = path.facts
        return [
            verdict(st0[1], st0[0], "forward on a fresh module leaves a stream state behind", f) if not stateless else (True, ""),
            verdict(out1, out0, "forward depends on what was streamed before", f),
            verdict(after, before, "forward changed the stream state", f),
            verdict(y, y_ref, "the step after forward differs from the step without it", f),
        ]

    lab.obligation(f"forward-{hist}", subj.name, subj.where(lab, "forward"), thunk, judge)


def container(lab, subj):
    def thunk(ctx):
        o = subj.build(lab)
        n0 = len(ctx.events)
        run_call(lab, o, "forward", subj.X())
        return n0

    def judge(path):
        out = [(True, "")]
        for e in path.events[path.value:]:
            if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.kind == "comodule":
                if e.method in ("set_state", "clean_state", "_forward_step") or resolved_method(e) in ("forward_step", "forward_steps"):
                    out.append((False, f"forward runs {resolved_method(e) or e.method} of a sub-module at {e.loc}"))
        return out

    lab.obligation("forward-children", subj.name, subj.where(lab, "forward"), thunk, judge)


def run(lab, tier):
    hists = ("after1", "running") if tier == "quick" else ("after1", "after2", "running")
    for subj in S.leaves() + S.mha_subjects():
        if subj.family == "rpe":
            continue
        for h in hists if subj.family not in ("stateless", "list", "retrolambda") else ("fresh",):
            lab.job(leaf, subj, h)
    for subj in S.container_subjects((1, 2, 3)) + S.nested_subjects():
        lab.job(container, subj)
