"""P14: positions and phases stay in range however long the stream.

Concrete part: for every hyper-parameter combination of the grid of P13 the index part of the
state is followed, frame by frame, until it repeats.  From then on the stream revisits the same
positions for ever, so the finite exploration covers streams of any length; a position outside
the buffer raises, a counter that grows without bound never repeats.
Symbolic part: from any in-range state the next state is in range again (all hyper-parameters).
"""
from coan.interp import Ten, PList
from coan.terms import SHAPES, T, ge0, is_num, p_sub, show, sym
from . import subjects as S
from .p13 import composed, concrete, inputs
from .subjects import new


def scalars(lab, st):
    """The index part of a state: numbers in order of appearance."""
    out = []

    def go(v):
        if isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, PList):
            for x in v.items:
                go(x)
        elif isinstance(v, Ten):
            if v.scalar or v.cell.scalar:
                out.append(lab.fz(v))
        elif isinstance(v, int) and not isinstance(v, bool):
            out.append(v)
        elif v is None:
            out.append(None)
    go(st)
    return tuple(out)


def sizes(lab, st):
    """Lengths of the buffers of a state."""
    out = []

    def go(v):
        if isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, PList):
            for x in v.items:
                go(x)
        elif isinstance(v, Ten) and not (v.scalar or v.cell.scalar):
            out.append(lab.I.len_of(v))
    go(st)
    return tuple(out)


def cycle(lab, subj, first, period):
    cap = 4 * (first + 2) * (period + 1) + 40

    def thunk(ctx):
        o = subj.build(lab)
        seen, trail, valid = {}, [], []
        buf = None
        for t in range(cap):
            y = lab.m(o, "forward_step", *inputs(subj, t))
            st = lab.m(o, "get_state") if subj.family != "seq" else [lab.m(m, "get_state") for m in kids(o)]
            if st is None:
                return ("stateless", 0, valid, None)
            sc = scalars(lab, st)
            ln = sizes(lab, st)
            valid.append(y is not None)
            if any(v is not None and not is_num(v) for v in sc):
                return ("unknown", sc, valid, None)
            key = (sc, ln)
            if key in seen and t > first:
                return ("cycle", seen[key], valid, key)
            seen[key] = t
            # forget the buffer contents: only positions matter from here on
            forget(lab, o if subj.family != "seq" else kids(o), st, subj)
        return ("unbounded", sc, valid, None)

    def judge(path):
        kind, a, valid, key = path.value
        if kind == "unknown":
            return [(None, f"the position {show([x for x in a if not is_num(x)][0])[:80]} is not a number")]
        if kind == "unbounded":
            return [(False, f"after {cap} frames the positions {a} have not repeated: a counter grows with the stream")]
        want = [t >= first and (t - first) % period == 0 for t in range(len(valid))]
        if valid != want:
            w = lambda l: [t for t, v in enumerate(l) if v][:12]
            return [(False, f"after wrapping around, outputs come at frames {w(valid)} instead of {w(want)}")]
        return [(True, "")]

    paths = lab.obligation("revolutions", subj.name, subj.where(lab, "forward_step", "_forward_step"), thunk, judge, unroll=cap + 2)
    raising = [p for p in paths if p.kind == "raise"]
    if raising and len(raising) == len(paths):
        return
    for p in raising:
        lab.check("revolutions-raise", subj.name, False if not p.ctx.imprecise else None, f"stepping fails with {lab.describe_raise(p)} after some frames", subj.where(lab, "_forward_step"))
        break


def kids(o):
    return [m for _, m in o.modules.pairs]


def forget(lab, o, st, subj):
    """Replace the buffer contents by fresh unknowns of the same shape (keeps terms small)."""
    if isinstance(o, list):
        for m, s in zip(o, st):
            if s is not None:
                lab.m(m, "set_state", S.generalise(lab, s, scalars=False))
        return
    lab.m(o, "set_state", S.generalise(lab, st, scalars=False))


def inductive(lab, subj):
    def thunk(ctx):
        o = subj.build(lab)
        S.with_history(lab, subj, o, 1)
        st = lab.m(o, "get_state")
        if st is None:
            return None
        lab.m(o, "set_state", S.generalise(lab, st))
        S.assume_ranges(lab, subj, lab.scalars)
        lab.m(o, "forward_step", *subj.x())
        return scalars(lab, lab.m(o, "get_state"))

    def judge(path):
        if path.value is None:
            return [(True, "")]
        out = []
        for v, (lo, hi) in zip(path.value, S.ranges(subj)):
            for b, q in ((lo, None if lo is None else ge0(p_sub(v, lo))), (hi, None if hi is None else ge0(p_sub(hi, v)))):
                if q is None:
                    continue
                r = path.facts.query(q) if isinstance(q, T) else q
                out.append((True if r is True else None, f"not shown that {show(v)[:80]} stays within {show(lo) if lo is not None else '-inf'}..{show(hi)}"))
        return out or [(True, "")]

    lab.obligation("inductive", subj.name, subj.where(lab, "_forward_step"), thunk, judge)


def rpe(lab, subj, n, steps):
    """The recycled position stays a valid embedding number after every kind of call."""
    def thunk(ctx):
        o = subj.build(lab)
        out = []
        F = lab.I.ctx.facts
        idx = lambda: scalars(lab, lab.m(o, "get_state"))
        for t in range(steps):
            lab.m(o, "forward_step", *subj.x(t))
            out.append(("forward_step", idx()))
        for t in range(steps):
            _, st = lab.m(o, "_forward_step", *subj.x(t), lab.m(o, "get_state"))
            lab.m(o, "set_state", st)
            out.append(("_forward_step", scalars(lab, st)))
        for name in ("forward", "forward_steps"):
            for L in range(1, n + 1):
                X = sym(f"X{L}")
                SHAPES[X] = (S.P("B", 2), S.E_, L)
                F.assume(T("kind", X, "Tensor"), True)
                for r in range(2):
                    lab.m(o, name, X)
                    out.append((name, idx()))
        return out

    def judge(path):
        for name, sc in path.value:
            for v in sc:
                if not is_num(v):
                    return [(None, f"position {show(v)[:60]} after {name}")]
                if not 0 <= v < n:
                    return [(False, f"after {name} the position is {v}, outside the {n} embeddings")]
        return [(True, "")]

    lab.obligation("recycling", subj.name, subj.where(lab, "forward", "forward_step", "_forward_step"), thunk, judge, unroll=4 * steps + 4)


def rpe_stepped(lab, n):
    """forward with any documented index step."""
    for step in (0, 1, 2, n, n + 1):
        s = S.Subject(f"RecyclingPositionalEncoding({n},steps={step})", "RecyclingPositionalEncoding", new("RecyclingPositionalEncoding", S.E_, n, True, step), family="rpe")
        rpe(lab, s, n, n + 2)


def batch(lab, items):
    for it in items:
        cycle(lab, *it)


def run(lab, tier):
    items = [x for x in concrete(tier) if x[0].family not in ("stateless", "rnn", "rpe")]
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 7):
        items.append((S.Subject(f"RecyclingPositionalEncoding({n})", "RecyclingPositionalEncoding", new("RecyclingPositionalEncoding", S.E_, n), family="rpe"), 0, 1))
        lab.job(rpe_stepped, n)
    for it in composed(tier):
        lab.job(batch, [it])
    for i in range(0, len(items), 8):
        lab.job(batch, items[i:i + 8])
    for subj in S.leaves() + S.mha_subjects():
        if S.ranges(subj):
            lab.job(inductive, subj)
