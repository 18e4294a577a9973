"""P32: continual attention equals softmax attention over the window.

Steps, clips and regular forward of both attention modules are expanded in the provenance domain
(exact arithmetic, exponentials of polynomials as atoms) and compared with multi-head softmax
attention, in- and out-projections included, computed from scratch over the window's frames - for
the retroactive module this discharges the algebra of its running numerator and normaliser.
"""
from coan import prov
from coan.terms import SHAPES
from . import attn as A
from . import frames as F
from .attn import RE, SO, Attn


def subjects(tier):
    deep = tier != "quick"
    for cn in (SO, RE):
        for n in (1, 2, 3) if not deep or cn == RE else (1, 2, 3, 4, 5):
            if cn == RE and n == 3 and not deep:
                yield Attn(cn, 3, embed=2, heads=1)
                continue
            yield Attn(cn, n)
        yield Attn(cn, 2, inputs=3)
        yield Attn(cn, 2, inputs=3, kdim=3, vdim=5)
        yield Attn(cn, 2, inputs=3, kdim=3, vdim=2, bias=False)
        yield Attn(cn, 2, bias=False)
        yield Attn(cn, 2, dropout=0.5)
        yield Attn(cn, 2, batch_first=False)
        yield Attn(cn, 2, batch_first=True)
        yield Attn(cn, 2, batch_first=True, embed_dim_second=True)
        yield Attn(cn, 2, batch_first=True, embed_dim_second=True, inputs=3)
        yield Attn(cn, 2, embed=6, heads=3, batch=1)
        yield Attn(cn, 2, embed=3, heads=1, batch=3)
        yield Attn(cn, 2, forward_returns_attn_mask=False)
        if deep:
            yield Attn(cn, 4, embed=2, heads=2, batch=1)
            yield Attn(cn, 3, embed=4, heads=4)
    for q in (0, 1, -2):
        yield Attn(SO, 3, query_index=q)
    yield Attn(SO, 3, query_index=1, batch_first=False)
    yield Attn(SO, 3, query_index=1, embed_dim_second=True)
    yield Attn(SO, 2, single_output_forward=False)
    yield Attn(SO, 2, single_output_forward=False, embed_dim_second=True, forward_returns_attn_mask=False)


def frame_reader(subj, ev, xs, clip):
    k = subj.inputs
    if clip:
        clips = [subj.to_time_first(ev.arr(x)) for x in xs]
        return lambda j, i: prov.index(clips[j if k == 3 else 0], (i,))
    return lambda j, i: ev.arr(xs[i * k + (j if k == 3 else 0)])


def steps(lab, subj, n, training=False):
    def run(o):
        shp = [(subj.batch, subj.dims(j)) for j in range(subj.inputs)]
        xs, outs = [], []
        for t in range(n):
            q = A.inputs(lab, subj, shp, f"x{t}_")
            xs += q
            outs.append(lab.fz(lab.m(o, "forward_step", *q)))
        return xs, outs

    def judge(path):
        outs, xs, ev = A.evaluate(lab, subj, path)
        fr = frame_reader(subj, ev, xs, False)
        res = []
        for t, y in enumerate(outs):
            if t < subj.n - 1:
                continue
            try:
                m = "no output" if y is None else F.diff(ev.arr(y), subj.step_ref(t, fr))
            except F.Unsupported as e:
                res.append((prov.failed(e), f"step {t}: {e}"))
                continue
            res.append((m is None, "" if m is None else f"output of step {t}: {m}"))
        return res

    lab.obligation("step-" + ("train" if training else "eval"), subj.name, subj.where(lab, "forward_step", "_forward_step"), A.thunk(lab, subj, run, training), judge, unroll=8)


def clip(lab, subj, L):
    def run(o):
        xs = A.inputs(lab, subj, [subj.clip_shape(L, j) for j in range(subj.inputs)], "X")
        return xs, lab.fz(lab.m(o, "forward_steps", *xs))

    def judge(path):
        out, xs, ev = A.evaluate(lab, subj, path)
        try:
            fr = frame_reader(subj, ev, xs, True)
            want = subj.from_outputs([subj.step_ref(t, fr) if subj.cn == SO else subj.retro_rows(t, fr) for t in range(subj.n - 1, L)])
            m = "no output" if out is None else F.diff(ev.arr(out), want)
        except F.Unsupported as e:
            return [(prov.failed(e), f"clip: {e}")]
        return [(m is None, "" if m is None else f"clip of {L} frames: {m}")]

    lab.obligation("clip", subj.name, subj.where(lab, "forward_steps"), A.thunk(lab, subj, run), judge, unroll=8)


def forward(lab, subj, L):
    def run(o):
        xs = A.inputs(lab, subj, [subj.clip_shape(L, j) for j in range(subj.inputs)], "X")
        return xs, lab.fz(lab.m(o, "forward", *xs))

    def judge(path):
        out, xs, ev = A.evaluate(lab, subj, path)
        try:
            clips = [subj.to_time_first(ev.arr(x)) for x in xs]
            q, k, v = clips if len(clips) == 3 else clips * 3
            if subj.cn == SO and subj.opts.get("single_output_forward", True):
                i = subj.opts.get("query_index", -1) % L
                q = prov.index(q, (slice(i, i + 1),))
            y, w = subj.attention(q, k, v)
            if subj.batch_first:
                y = prov.permute(y, (1, 2, 0) if subj.eds else (1, 0, 2))
            with_w = subj.opts.get("forward_returns_attn_mask", True)
            if isinstance(out, tuple) != with_w:
                return [(False, "forward returns the attention weights" if isinstance(out, tuple) else "forward returns no attention weights")]
            m = F.diff(ev.arr(out[0] if with_w else out), y)
        except F.Unsupported as e:
            return [(prov.failed(e), f"forward: {e}")]
        return [(m is None, "" if m is None else f"forward: {m}")]

    lab.obligation("forward", subj.name, subj.where(lab, "forward"), A.thunk(lab, subj, run), judge, unroll=8)


def batch(lab, subj, tier):
    steps(lab, subj, 2 * subj.n + 2)
    if not subj.opts.get("dropout"):
        steps(lab, subj, 2 * subj.n + 1, True)
    clip(lab, subj, 2 * subj.n + 1)
    forward(lab, subj, subj.n)


def run(lab, tier):
    for s in subjects(tier):
        lab.job(batch, s, tier)
