"""P02: a clip gives what its frames give one by one (no end padding)."""
from coan.interp import Ten, sel_term, size_term, T
from coan.lab import same, verdict
from coan.terms import SHAPES, is_num, subst
from . import subjects as S
from .common import seeds

DRIVE = """
def drive(o, X, frames):
    ys = []
    for x in frames:
        y = o.forward_step(*x)
        ys.append(y)
    return ys

def split(o, X, dims, L):
    return [tuple([x.select(d, t) for x, d in zip(X, dims)]) for t in range(L)]
"""


def time_dim(subj):
    """Time dimension of the clip input and of the stacked clip output."""
    if subj.family == "mha":
        if "embed_dim_second" in subj.name:
            return 2, 2
        return (0, 0) if "batch_first=False" in subj.name or subj.name == "RetroactiveMHA(N)" else (1, 1)
    return 2, 2


def leaf(lab, subj, L, hist):
    din, dout = time_dim(subj)
    drive, split = lab.driver(DRIVE, name="drive"), lab.driver(DRIVE, name="split")

    def thunk(ctx):
        o = subj.build(lab)
        seeds(lab, subj, o, hist)
        X = subj.X()
        for x in X:
            if x in SHAPES:
                sh = list(SHAPES[x])
                sh[din] = L
                SHAPES[x] = tuple(sh)
        snap = lab.snapshot(o)
        frames = lab.call(split, o, X, (din,) * len(X), L)
        ys = lab.call(drive, o, X, frames)
        ys = [lab.fz(y) for y in lab.I.iterate_list(ys)]
        st1 = lab.fz(lab.m(o, "get_state"))
        lab.restore(snap)
        out = lab.fz(lab.m(o, "forward_steps", *X))
        st2 = lab.fz(lab.m(o, "get_state"))
        return ys, st1, out, st2

    def judge(path):
        ys, st1, out, st2 = path.value
        f = path.facts
        ready = [y for y in ys if y is not None]
        res = [verdict(st2, st1, f"a clip of {L} frames leaves another state than its frames one by one", f)]
        if not ready:
            res.append((True if out is None else verdict(out, None, "", f)[0], f"the frames yield no output but the clip of {L} frames yields {S.show(out)[:160]}"))
            return res
        if out is None:
            res.append((False, f"{len(ready)} of the {L} frames yield an output but the clip yields none"))
            return res
        if subj.family == "rpe":  # elementwise over an index clip: the state decides (see P01, P14)
            return res
        n = size_term(out, dout)
        if not (is_num(n) and n == len(ready)):
            res.append((False if is_num(n) else None, f"the clip yields {S.show(n)} outputs, its {L} frames {len(ready)}"))
            return res
        for i, y in enumerate(ready):
            res.append(verdict(sel_term(out, dout, i), y, f"output {i} of a clip of {L} frames differs from the step output", f))
        return res

    lab.obligation(f"clip{L}-{hist}", subj.name, subj.where(lab, "forward_steps", "forward_step", "_forward_step"), thunk, judge, unroll=L + 1)


def rnn(lab, subj, hist):
    """torch's recurrence is assumed to be frame-by-frame; the module must feed it the clip from
    the stored state and keep what it returns, as the step does (compared on a clip of one frame,
    with the clip symbolic, so no dependence on its length can hide)."""
    def thunk(ctx):
        o = subj.build(lab)
        seeds(lab, subj, o, hist)
        snap = lab.snapshot(o)
        x = subj.x()[0]
        y = lab.fz(lab.m(o, "forward_step", x))
        st1 = lab.fz(lab.m(o, "get_state"))
        lab.restore(snap)
        one = lab.I.as_ten(x)
        one = lab.m(one, "unsqueeze", 2)
        out1 = lab.fz(lab.m(o, "forward_steps", one))
        st2 = lab.fz(lab.m(o, "get_state"))
        lab.restore(snap)
        out = lab.fz(lab.m(o, "forward_steps", *subj.X()))
        st3 = lab.fz(lab.m(o, "get_state"))
        return y, st1, out1, st2, out, st3, lab.fz(one)

    def judge(path):
        y, st1, out1, st2, out, st3, one = path.value
        f = path.facts
        X = subj.X()[0]
        re = lambda v: None if v is None else subst(v, {X: one})
        return [
            verdict(st2, st1, "a clip of one frame leaves another state than the step", f),
            verdict(sel_term(out1, 2, 0), y, "a clip of one frame yields another output than the step", f),
            verdict(re(st3), st2, "the state left by a clip depends on its length", f),
            verdict(sel_term(re(out), 2, 0), y, "the output of a clip depends on its length", f),
        ]

    lab.obligation(f"clip-{hist}", subj.name, subj.where(lab, "forward_steps", "forward_step", "_forward_step"), thunk, judge)


def run(lab, tier):
    Ls = (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)
    for subj in S.conv_subjects() + S.pool_subjects() + S.delay_subjects() + S.rpe_subjects() + S.mha_subjects():
        if subj.name == "RNN":
            continue
        for h in ("fresh", "running"):
            for L in Ls:
                lab.job(leaf, subj, L, h)
    for subj in S.rnn_subjects():
        for h in ("fresh", "running"):
            lab.job(rnn, subj, h)
