"""P04: a state can be taken out, put back and resumed from."""
from coan.lab import verdict
from . import subjects as S
from .common import run_call, seeds


def arbitrary_state(lab, subj, o, tag="g"):
    S.with_history(lab, subj, o, 1)
    st = lab.m(o, "get_state")
    if st is None:
        return None
    st = S.generalise(lab, st, tag)
    S.assume_ranges(lab, subj, lab.scalars)
    return st


def roundtrip(lab, subj, hist):
    def thunk(ctx):
        o = subj.build(lab)
        fresh = lab.snapshot(o)
        st = arbitrary_state(lab, subj, o)
        if st is None:
            return None
        ref = lab.fz(st)
        # from a fresh module
        lab.restore(fresh)
        lab.m(o, "set_state", S.copy_state(lab, st))
        got1 = lab.fz(lab.m(o, "get_state"))
        y1 = run_call(lab, o, "forward_step", subj.x(0))
        n1 = lab.fz(lab.m(o, "get_state"))
        # from a module that has streamed something else
        lab.restore(fresh)
        S.with_history(lab, subj, o, hist)
        lab.m(o, "set_state", S.copy_state(lab, st))
        got2 = lab.fz(lab.m(o, "get_state"))
        y2 = run_call(lab, o, "forward_step", subj.x(0))
        n2 = lab.fz(lab.m(o, "get_state"))
        return ref, got1, got2, y1, y2, n1, n2

    def judge(path):
        if path.value is None:
            return [(True, "")]
        ref, got1, got2, y1, y2, n1, n2 = path.value
        f = path.facts
        return [
            verdict(got1, ref, "the state read back differs from the state set", f),
            verdict(got2, ref, "the state read back differs from the state set", f),
            verdict(y2, y1, "the output after set_state depends on what was streamed before", f),
            verdict(n2, n1, "the state after set_state and a step depends on what was streamed before", f),
        ]

    lab.obligation(f"roundtrip-{hist}", subj.name, subj.where(lab, "get_state", "set_state"), thunk, judge)


def resume(lab, subj, hist, away, method):
    """Suspend at some point, stream something else, resume."""
    args = (lambda: subj.x(0)) if method == "forward_step" else subj.X

    def thunk(ctx):
        o = subj.build(lab)
        seeds(lab, subj, o, hist)
        snap = lab.snapshot(o)
        y = run_call(lab, o, method, args())
        n = lab.fz(lab.m(o, "get_state"))
        lab.restore(snap)
        st = lab.m(o, "get_state")
        if st is None:
            return None
        st = S.copy_state(lab, st)
        for i in range(away):
            lab.m(o, "forward_step", *subj.x(50 + i))
        lab.m(o, "set_state", S.copy_state(lab, st))
        y2 = run_call(lab, o, method, args())
        n2 = lab.fz(lab.m(o, "get_state"))
        return y, n, y2, n2

    def judge(path):
        if path.value is None:
            return [(True, "")]
        y, n, y2, n2 = path.value
        f = path.facts
        return [
            verdict(y2, y, "the output after resuming from a retrieved state differs from the uninterrupted stream", f),
            verdict(n2, n, "the state after resuming differs from the uninterrupted stream", f),
        ]

    lab.obligation(f"resume-{method}-{hist}-{away}", subj.name, subj.where(lab, "get_state", "set_state", "_forward_step"), thunk, judge)


def run(lab, tier):
    for subj in S.leaves() + S.mha_subjects():
        if subj.family in ("stateless", "list", "retrolambda"):
            continue
        for h in (1,) if tier == "quick" else (1, 2, 3):
            lab.job(roundtrip, subj, h)
        for h in ("after1", "running"):
            lab.job(resume, subj, h, 1, "forward_step")
            if tier != "quick":
                lab.job(resume, subj, h, 2, "forward_step")
                lab.job(resume, subj, h, 1, "forward_steps")
