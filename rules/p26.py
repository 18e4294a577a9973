"""P26: attention memories hold the last window in arrival order.

After every step (and every clip) the state is expanded in the provenance domain.  Some memory must
hold, entry by entry along one of its axes, the projected keys of the latest frames - zeros before
the start - and one the projected values of the same frames; the output of a step is the attention
of the query at the configured window position over those keys and values.
"""
from collections import Counter

from coan import prov
from coan.terms import SHAPES
from . import attn as A
from . import frames as F
from .attn import RE, SO, Attn


def subjects(tier):
    deep = tier != "quick"
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4, 5):
        yield Attn(SO, n)
        for q in range(n) if n > 1 else ():
            yield Attn(SO, n, query_index=q)
        for q in range(-n, -1):
            yield Attn(SO, n, query_index=q)
    yield Attn(SO, 2, inputs=3)
    yield Attn(SO, 2, batch_first=False)
    yield Attn(SO, 2, embed_dim_second=True, query_index=0)
    for n in (1, 2, 3) if deep else (1, 2):
        yield Attn(RE, n)
    yield Attn(RE, 3, embed=2, heads=1, batch=1)
    yield Attn(RE, 2, inputs=3)
    yield Attn(RE, 2, batch_first=True)


def expected(subj, frames, t, which):
    """Multisets of the projected entries of frame t (of zeros before the start)."""
    e = subj.batch * subj.embed
    if t < 0:
        return Counter({prov.num(0): e})
    x = frames(which, t)
    return Counter(subj.project(prov.stack([x], 0), which).data)


def holds_window(subj, arr, frames, t, which):
    """Axis along which the memory holds the latest entries in order, None if there is none."""
    for a, m in enumerate(arr.shape):
        if m not in (subj.n, subj.n - 1) or not m:
            continue
        sl = []
        for j in range(m):
            sl.append(Counter(prov.index(arr, (slice(None),) * a + (j,)).data))
        if all(sl[j] == expected(subj, frames, t - m + 1 + j, which) for j in range(m)):
            return a
    return None


def check_state(subj, ev, state, frames, t, when):
    arrs = []
    for x in state:
        try:
            v = ev.arr(x)
        except F.Unsupported as e:
            return [(prov.failed(e), f"{when}: {e}")]
        if len(v.shape) > 1:
            arrs.append(v)
    res = []
    for which, nm in ((1, "key"), (2, "value")):
        ok = any(holds_window(subj, v, frames, t, which) is not None for v in arrs)
        res.append((ok, "" if ok else f"{when}: no memory holds the projected {nm}s of the last {subj.n} frames in order"))
    return res


def stepwise(lab, subj, steps):
    def run(o):
        shp = [(subj.batch, subj.dims(j)) for j in range(subj.inputs)]
        xs, outs = [], []
        for t in range(steps):
            q = A.inputs(lab, subj, shp, f"x{t}_")
            xs += q
            y = lab.fz(lab.m(o, "forward_step", *q))
            st = lab.m(o, "get_state")
            outs.append((y, None if st is None else tuple(lab.fz(st))))
        return xs, outs

    def judge(path):
        outs, xs, ev = A.evaluate(lab, subj, path)
        k = subj.inputs
        frames = lambda j, i: ev.arr(xs[i * k + (j if k == 3 else 0)])
        res = []
        for t, (y, st) in enumerate(outs):
            if st is None:
                res.append((False, f"after step {t}: no state"))
                continue
            res += check_state(subj, ev, st, frames, t, f"after step {t}")
            if t < subj.n - 1:
                res.append((y is None, "" if y is None else f"step {t}: an output before the window is full"))
                continue
            try:
                m = "no output" if y is None else F.diff(ev.arr(y), subj.step_ref(t, frames))
            except F.Unsupported as e:
                res.append((prov.failed(e), f"step {t}: {e}"))
                continue
            res.append((m is None, "" if m is None else f"output of step {t}: {m}"))
        return res

    lab.obligation("memory", subj.name, subj.where(lab, "forward_step", "_forward_step"), A.thunk(lab, subj, run), judge, unroll=8)


def clip_then_step(lab, subj, L):
    """The memories after a clip are those after its frames; a later step continues from them."""

    def run(o):
        xs = A.inputs(lab, subj, [subj.clip_shape(L, j) for j in range(subj.inputs)], "X")
        lab.m(o, "forward_steps", *xs)
        st = lab.m(o, "get_state")
        return xs, None if st is None else tuple(lab.fz(st))

    def judge(path):
        st, xs, ev = A.evaluate(lab, subj, path)
        if st is None:
            return [(False, "no state after a clip")]
        clips = [subj.to_time_first(ev.arr(x)) for x in xs]
        frames = lambda j, i: prov.index(clips[j if len(clips) == 3 else 0], (i,))
        return check_state(subj, ev, st, frames, L - 1, f"after a clip of {L} frames")

    lab.obligation("memory-clip", subj.name, subj.where(lab, "forward_steps"), A.thunk(lab, subj, run), judge, unroll=8)


def batch(lab, subj, tier):
    stepwise(lab, subj, 2 * subj.n + 1)
    clip_then_step(lab, subj, 2 * subj.n + 1)


def run(lab, tier):
    for s in subjects(tier):
        lab.job(batch, s, tier)
