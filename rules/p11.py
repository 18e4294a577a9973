"""P11: end padding continues with filler frames after the clip and leaves no trace."""
import math
from coan.fills import canon, fill
from coan.interp import Opq, sel_term, size_term
from coan.lab import verdict
from coan.shapes import shape_of
from coan.terms import SHAPES, eq0, is_num, p_sub, show
from . import subjects as S
from .common import child_flag, resolved_method, run_call, seeds
from .p02 import time_dim

DRIVE = """
def drive(o, X, L, fill, n):
    ys = []
    last = None
    for t in range(L):
        last = X.select(2, t)
        ys.append(o.forward_step(last))
    state = o.get_state()
    return ys, state

def flush(o, X, L, fill, n):
    ys = []
    last = X.select(2, L - 1)
    for i in range(n):
        ys.append(o.forward_step(fill(last)))
    return ys
"""


def temporal_padding(subj):
    """(symbol or number of filler frames, fill kind) of a subject, from its configuration."""
    n = subj.name
    if subj.family in ("conv", "pool"):
        kind = "replicate" if "replicate)" in n and "padding)" not in n else "zeros"
        if "Max" in n:
            kind = "neg_inf"
        if "Adaptive" in n:
            return 0, kind
        return S.p, kind
    if subj.family == "delay":
        if "auto_shrink" in n or n == "Delay(0)":
            return 0, "zeros"
        return S.dd, "replicate" if "replicate" in n else "zeros"
    if subj.family == "retro":
        return None, None
    return 0, "zeros"


FILLS = {
    "zeros": "lambda x: torch.zeros_like(x)",
    "replicate": "lambda x: x.clone()",
    "neg_inf": "lambda x: torch.full_like(x, float('-inf'))",
}


def leaf(lab, subj, L, n, hist):
    amount, kind = temporal_padding(subj)
    if is_num(amount):
        n = amount
    src = DRIVE + f"\nimport torch\nfill = {FILLS[kind]}\n"
    drive, flush = lab.driver(src, name="drive"), lab.driver(src, name="flush")
    mk = lab.driver(src, name="fill")

    def thunk(ctx):
        o = subj.build(lab)
        if not is_num(amount):
            ctx.facts.assume(eq0(p_sub(amount, n)), True)
        seeds(lab, subj, o, hist)
        X = subj.X()
        for x in X:
            if x in SHAPES:
                sh = list(SHAPES[x])
                sh[2] = L
                SHAPES[x] = tuple(sh)
        snap = lab.snapshot(o)
        ys, st = lab.call(drive, o, lab.I.as_ten(X[0]), L, mk, n)
        ys = [lab.fz(y) for y in lab.I.iterate_list(ys)]
        st = lab.fz(st)
        zs = [lab.fz(y) for y in lab.I.iterate_list(lab.call(flush, o, lab.I.as_ten(X[0]), L, mk, n))]
        lab.restore(snap)
        out = lab.fz(lab.m(o, "forward_steps", *X, pad_end=True))
        st2 = lab.fz(lab.m(o, "get_state"))
        return [canon(y) for y in ys + zs], canon(st), canon(out), canon(st2)

    def judge(path):
        ys, st, out, st2 = path.value
        f = path.facts
        ready = [y for y in ys if y is not None]
        res = [verdict(st2, st, f"the state kept after an end-padded clip is not the one right after its last frame ({L} frames, {n} fillers)", f)]
        if not ready:
            res.append((out is None, f"neither the {L} frames nor the {n} fillers yield an output but the padded clip yields {show(out)[:160]}"))
            return res
        if out is None:
            res.append((False, f"{len(ready)} of the {L} frames and {n} fillers yield an output but the padded clip yields none"))
            return res
        if subj.family == "rpe":
            return res
        m = size_term(out, 2)
        if not (is_num(m) and m == len(ready)):
            res.append((False if is_num(m) else None, f"the padded clip yields {show(m)} outputs, its {L} frames and {n} fillers {len(ready)}"))
            return res
        for i, y in enumerate(ready):
            what = "output" if i < len([y for y in ys[:L] if y is not None]) else "padded output"
            res.append(verdict(canon(sel_term(out, 2, i)), y, f"{what} {i} of an end-padded clip ({L} frames, {n} fillers) differs from continuing with filler frames", f))
        return res

    lab.obligation(f"pad{n}-clip{L}-{hist}", subj.name, subj.where(lab, "forward_steps", "_forward_step"), thunk, judge, unroll=L + n + 2)


def default_fill(lab, subj, L, hist):
    """Modules without filler frames return the same with and without the option."""
    def thunk(ctx):
        o = subj.build(lab)
        seeds(lab, subj, o, hist)
        snap = lab.snapshot(o)
        out = run_call(lab, o, "forward_steps", subj.X())
        st = lab.fz(lab.m(o, "get_state"))
        lab.restore(snap)
        out2 = run_call(lab, o, "forward_steps", subj.X(), pad_end=True)
        return out, st, out2, lab.fz(lab.m(o, "get_state"))

    def judge(path):
        out, st, out2, st2 = path.value
        return [verdict(out2, out, "end padding changes the output of a module without temporal padding", path.facts),
                verdict(st2, st, "end padding changes the state left by a module without temporal padding", path.facts)]

    lab.obligation(f"nopad-{hist}", subj.name, subj.where(lab, "forward_steps"), thunk, judge)


def container(lab, subj, pad, upd):
    """Every child stepped over a clip receives the caller's options."""
    def thunk(ctx):
        o = subj.build(lab)
        n0 = len(ctx.events)
        run_call(lab, o, "forward_steps", subj.X(), pad_end=pad, update_state=upd)
        return n0

    def judge(path):
        out, steps = [(True, "")], 0
        for e in path.events[path.value:]:
            if e.kind != "call" or not isinstance(e.obj, Opq) or e.obj.kind != "comodule":
                continue
            m = resolved_method(e)
            if m is None:
                continue
            if m != "forward_steps":
                continue
            steps += 1
            flag = child_flag(e, "pad_end", False)
            if flag is not pad:
                out.append((None if not isinstance(flag, bool) else False, f"forward_steps(pad_end={pad}, update_state={upd}) runs a child with pad_end={show(flag) if not isinstance(flag, bool) else flag} at {e.loc}"))
        return out

    lab.obligation(f"option-{pad}-{upd}", subj.name, subj.where(lab, "forward_steps"), thunk, judge)


def run(lab, tier):
    Ls, ns = ((1, 2), (1, 2)) if tier == "quick" else ((1, 2, 3), (0, 1, 2, 3))
    hists = ("fresh", "running")
    for subj in S.conv_subjects() + S.pool_subjects() + S.delay_subjects():
        amount, kind = temporal_padding(subj)
        if kind is None:
            continue
        for h in hists:
            for L in Ls:
                for n in (ns if not is_num(amount) else (0,)):
                    if n == 0 and "Delay" in subj.clsname and not is_num(amount):
                        continue
                    lab.job(leaf, subj, L, n, h)
    for subj in S.rnn_subjects() + S.rpe_subjects() + S.stateless_subjects():
        if subj.family in ("list", "retrolambda"):
            continue
        for h in hists:
            lab.job(default_fill, subj, 0, h)
    for subj in S.container_subjects((1, 2, 3)) + S.nested_subjects():
        for pad in (True, False):
            for upd in (True, False):
                lab.job(container, subj, pad, upd)
