"""P33: continual transformer encoders equal the regular post-norm encoder over the window.

Encoder layers and encoders are built by the analysed factories; the outputs of steps, clips and
the regular forward are expanded in the provenance domain - attention exactly, layer norms and
activations as opaque functions of the elements below them - and compared with a post-norm
encoder (attention, residual, norm, feed-forward, residual, norm) computed from scratch over the
frames of the window with the same parameters.
"""
from coan import prov
from coan.terms import SHAPES
from . import attn as A
from . import frames as F
from .attn import RE, SO
from .enc import LAYERS, Encoder, Layer

FACTORY = """
def make(num_layers, norm=None, **kw):
    return TransformerEncoder(TransformerEncoderLayerFactory(**kw), num_layers)
def make_norm(num_layers, d, **kw):
    return TransformerEncoder(TransformerEncoderLayerFactory(**kw), num_layers, nn.LayerNorm(d))
"""


def layer(cn, n, embed=2, heads=1, ff=2, batch=1, **kw):
    opts = "".join(f", {a}={v}" for a, v in kw.items())
    return Encoder(f"{LAYERS[cn]}(d_model={embed}, nhead={heads}, ff={ff}, sequence_len={n}{opts})", LAYERS[cn], n,
                   [Layer(cn, n, embed, heads, ff, batch, query_index=kw.get("query_index", -1), single=kw.get("single_output_forward", False), eps=kw.get("layer_norm_eps", 1e-5))],
                   lambda lab: lab.call(lab.fn("transformer", LAYERS[cn]), embed, heads, ff, sequence_len=n, **kw), batch, embed,
                   single_forward=kw.get("single_output_forward", False))


def encoder(num, n, embed=2, heads=1, ff=2, batch=1, norm=False, act="relu", eps=1e-5):
    ls = [Layer(SO, n, embed, heads, ff, batch, act, single=False, eps=eps)] if num == 1 else [Layer(RE, n, embed, heads, ff, batch, act, eps=eps), Layer(SO, n, embed, heads, ff, batch, act, single=True, eps=eps)]

    def make(lab):
        kw = dict(d_model=embed, nhead=heads, dim_feedforward=ff, activation=act, sequence_len=n)
        if eps != 1e-5:
            kw['layer_norm_eps'] = eps
        return lab.call(lab.driver(FACTORY, "transformer", "make_norm" if norm else "make"), num, *([embed] if norm else []), **kw)

    return Encoder(f"TransformerEncoder({num} layers, d_model={embed}, nhead={heads}, ff={ff}, activation={act}, sequence_len={n}{', norm' if norm else ''}{f', eps={eps}' if eps != 1e-5 else ''})", "TransformerEncoder", n, ls, make, batch, embed,
                   norm=norm, single_forward=num > 1)


def subjects(tier):
    deep = tier != "quick"
    for n in (1, 2, 3) + ((4,) if deep else ()):
        yield layer(SO, n)
    for q in (0, 1, -2):
        yield layer(SO, 3, query_index=q)
    yield layer(SO, 2, heads=2, batch=2)
    yield layer(SO, 2, embed=4, heads=2, ff=3)
    yield layer(SO, 2, single_output_forward=True)
    yield layer(SO, 3, single_output_forward=True, query_index=1)
    yield layer(SO, 2, dropout=0.5, layer_norm_eps=0.5)
    for n in (1, 2) + ((3,) if deep else ()):
        yield layer(RE, n)
    yield layer(RE, 2, ff=3)
    yield layer(RE, 2, dropout=0.5, layer_norm_eps=0.5)
    yield layer(RE, 2, heads=2, batch=2)
    yield encoder(1, 2)
    yield encoder(1, 3, act="gelu")
    yield encoder(1, 2, norm=True)
    yield encoder(2, 2)
    yield encoder(2, 2, norm=True, act="gelu")
    yield encoder(2, 1)
    yield encoder(1, 2, norm=True, eps=0.5)
    yield encoder(2, 2, norm=True, eps=0.5)
    if deep:
        yield encoder(2, 3)
        yield encoder(2, 2, heads=2, batch=2, ff=3)


def thunk(lab, subj, run):
    def th(ctx):
        SHAPES.clear()
        o = subj.build(lab)
        for t, sh in subj.leaves().items():
            if sh is not None:
                SHAPES[t] = sh
        xs, outs = run(o)
        return outs, {x: SHAPES[x] for x in xs}, subj.binding(), dict(lab.frame_children)

    return th


def evaluate(lab, subj, path):
    outs, xs, b, subj.kids = path.value
    subj.rebind(b)
    SHAPES.clear()
    leaves = dict(xs)
    leaves.update(subj.leaves())
    SHAPES.update({t: s for t, s in leaves.items() if s is not None})
    return outs, list(xs), prov.Eval({}, leaves, subj.resolve)


def steps(lab, subj, n):
    def run(o):
        xs = A.inputs(lab, subj, [(subj.batch, subj.embed)] * n)
        return xs, [lab.fz(lab.m(o, "forward_step", x)) for x in xs]

    def judge(path):
        outs, xs, ev = evaluate(lab, subj, path)
        res = []
        for t, y in enumerate(outs):
            d = subj.n - 1 - (subj.qi if len(subj.layers) == 1 and subj.layers[0].cn == SO else 0)
            if t < subj.n - 1:
                if t < d:
                    res.append((y is None, "" if y is None else f"step {t} gives an output before the first window is full"))
                continue
            try:
                w = prov.stack([ev.arr(x) for x in xs[t - subj.n + 1:t + 1]], 0)
                m = "no output" if y is None else F.diff(ev.arr(y), subj.window(w))
            except F.Unsupported as e:
                res.append((prov.failed(e), f"step {t}: {e}"))
                continue
            res.append((m is None, "" if m is None else f"output of step {t}: {m}"))
        return res

    lab.obligation("step", subj.name, subj.where(lab, "forward_step", "_forward_step"), thunk(lab, subj, run), judge, unroll=8)


def clip(lab, subj, L):
    def run(o):
        xs = A.inputs(lab, subj, [(subj.batch, subj.embed, L)], "X")
        return xs, lab.fz(lab.m(o, "forward_steps", *xs))

    def judge(path):
        out, xs, ev = evaluate(lab, subj, path)
        try:
            x = prov.permute(ev.arr(xs[0]), (2, 0, 1))
            want = prov.stack([subj.window(prov.index(x, (slice(t - subj.n + 1, t + 1),))) for t in range(subj.n - 1, L)], 2)
            got = None if out is None else ev.arr(out)
            if got is not None and not subj.rows_out and got.shape[2] > want.shape[2]:
                # a query before the end of the window answers before the first window is full
                got = prov.index(got, (slice(None), slice(None), slice(-want.shape[2], None)))
            m = "no output" if got is None else F.diff(got, want)
        except F.Unsupported as e:
            return [(prov.failed(e), f"clip: {e}")]
        return [(m is None, "" if m is None else f"clip of {L} frames: {m}")]

    lab.obligation("clip", subj.name, subj.where(lab, "forward_steps"), thunk(lab, subj, run), judge, unroll=8)


def forward(lab, subj, L):
    def run(o):
        xs = A.inputs(lab, subj, [(subj.batch, subj.embed, L)], "X")
        return xs, lab.fz(lab.m(o, "forward", *xs))

    def judge(path):
        out, xs, ev = evaluate(lab, subj, path)
        try:
            m = F.diff(ev.arr(out), subj.clip(prov.permute(ev.arr(xs[0]), (2, 0, 1))))
        except F.Unsupported as e:
            return [(prov.failed(e), f"forward: {e}")]
        return [(m is None, "" if m is None else f"forward: {m}")]

    lab.obligation("forward", subj.name, subj.where(lab, "forward"), thunk(lab, subj, run), judge, unroll=8)


def batch(lab, subj):
    steps(lab, subj, 2 * subj.n + 3)
    clip(lab, subj, subj.n + 1)
    forward(lab, subj, subj.n)


def run(lab, tier):
    for s in subjects(tier):
        lab.job(batch, s)
