"""P01: stepping with update_state=False is a pure preview."""
from coan.interp import Opq
from coan.lab import verdict, same
from coan.terms import show, sym
from . import subjects as S
from .common import child_flag, run_call, seeds

STEP = ("forward_step", "forward_steps")


def leaf(lab, subj, method, hist, **kw):
    args = lambda: subj.x() if method == "forward_step" else subj.X()

    def thunk(ctx):
        o = subj.build(lab)
        seeds(lab, subj, o, hist)
        snap = lab.snapshot(o)
        ref = run_call(lab, o, method, args(), **kw)
        ref_state = lab.fz(lab.m(o, "get_state"))
        lab.restore(snap)
        before = lab.fz(lab.m(o, "get_state"))
        out1 = run_call(lab, o, method, args(), update_state=False, **kw)
        after = lab.fz(lab.m(o, "get_state"))
        out2 = run_call(lab, o, method, args(), **kw)
        end = lab.fz(lab.m(o, "get_state"))
        return ref, ref_state, before, out1, after, out2, end

    def judge(path):
        ref, ref_state, before, out1, after, out2, end = path.value
        f = path.facts
        return [
            verdict(after, before, f"{method}(update_state=False) changed the stored state", f),
            verdict(out1, ref, f"{method}(update_state=False) returned a different output than the updating call", f),
            verdict(out2, ref, f"the output after {method}(update_state=False) differs from the output without the preview", f),
            verdict(end, ref_state, f"the state after {method}(update_state=False) followed by {method} differs", f),
        ]

    tag = "-padded" if kw else ""
    opts = dict(unroll=1) if kw and lab.tier == "quick" else {}
    lab.obligation(f"preview-{method}{tag}-{hist}", subj.name, subj.where(lab, method, "_forward_step"), thunk, judge, **opts)


def container(lab, subj, method, **kw):
    def thunk(ctx):
        o = subj.build(lab)
        n0 = len(ctx.events)
        run_call(lab, o, method, subj.x() if method == "forward_step" else subj.X(), update_state=False, **kw)
        return n0

    def judge(path):
        out = []
        for e in path.events[path.value:]:
            if e.kind != "call" or not isinstance(e.obj, Opq) or e.obj.kind != "comodule":
                continue
            if e.method in ("set_state", "clean_state"):
                out.append((False, f"{e.method} is called on a child during {method}(update_state=False) at {e.loc}"))
                continue
            flag = child_flag(e, "update_state", True)
            if flag is not None and flag is not False:
                out.append((False if flag is True else None, f"a child is stepped with update_state={show(flag) if flag is not True else True} during {method}(update_state=False) at {e.loc}"))
        return out

    lab.obligation(f"forward-flag-{method}" + ("-padded" if kw else ""), subj.name, subj.where(lab, method), thunk, judge)


def padded(lab, subj, hist):
    leaf(lab, subj, "forward_steps", hist, pad_end=True)


def padded_container(lab, subj):
    container(lab, subj, "forward_steps", pad_end=True)


def run(lab, tier):
    hists = ("fresh", "running") if tier == "quick" else ("fresh", "running", "after1", "after2")
    subs = S.leaves() + S.mha_subjects()
    for subj in subs:
        for m in STEP:
            for h in hists:
                if subj.family in ("mha",) and m == "forward_steps" and h not in ("fresh",) and tier == "quick":
                    continue
                lab.job(leaf, subj, m, h)
        if subj.family in ("conv", "pool", "delay", "retro", "skip", "rnn", "stateless"):
            for h in hists if tier != "quick" else ("running",):
                lab.job(padded, subj, h)
    for subj in S.container_subjects((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)) + S.nested_subjects():
        for m in STEP:
            lab.job(container, subj, m)
        lab.job(padded_container, subj)
