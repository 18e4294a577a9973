"""P29: step mode uses the same parameters and options as the regular forward.

One instance is run over the same frames in both modes; outputs whose window lies inside the frames
are expanded in the provenance domain (every parameter entry, coefficient and divisor
appears there) and compared with each other, over sweeps of the operator options.
"""
from coan import prov
from coan.terms import SHAPES, T
from . import attn as A
from . import frames as F
from . import p32, p33
from . import subjects as S
from .attn import RE, SO, Attn
from .frames import Frames, NLinear, NPos, NRnn, NetSubject

JOIN = "def join(xs, dim):\n    return torch.stack(xs, dim=dim)\n"


def linear(cd, shape, bias=True, tdim=2):
    """`tdim` is where time goes in a clip."""
    kw = {} if cd is None else dict(channel_dim=cd)
    if not bias:
        kw["bias"] = False
    ci = 3
    f = Frames(f"Linear(3, 2{''.join(f', {a}={v}' for a, v in kw.items())}) frames {shape}", "Linear", S.new("Linear", ci, 2, **kw), shape, None, 0, 1,
               leaves={"weight": (2, ci), **({"bias": (2,)} if bias else {})}, absent=() if bias else ("bias",))
    return f, (1, 0, 1, tdim)


def subjects(tier):
    deep = tier != "quick"
    cv, g = F.conv, lambda k, p, s: (k, p, s, 2)
    for k, s, p in ((2, 1, 0), (3, 2, 1)) + (((4, 3, 2), (5, 1, 4)) if deep else ()):
        yield cv(1, k, s, p, groups=2, ci=4, co=2), g(k, p, s)
        yield cv(1, k, s, p, bias=False), g(k, p, s)
        yield cv(1, k, s, p, mode="replicate", fill="replicate"), g(k, p, s)
        yield cv(1, k, s, p, scalar=True), g(k, p, s)
        for sp in (1, 2):
            sh = lambda *v: tuple(v[:sp])
            yield cv(1 + sp, (k,) + sh(2, 3), (s,) + sh(2, 1), (p,) + sh(0, 1)), g(k, p, s)
            yield cv(1 + sp, (k,) + sh(3, 1), (s,) + sh(1, 2), (p,) + sh(2, 1), bias=False), g(k, p, s)
            yield cv(1 + sp, (k,) + sh(2, 2), (s,) + sh(1, 1), (p,) + sh(1, 0), dil=(1,) + sh(2, 1)), g(k, p, s)
            yield cv(1 + sp, (k,) + sh(2, 2), (s,) + sh(2, 1), (p,) + sh(1, 1), dil=(1,) + sh(1, 2), groups=2, ci=2, co=2), g(k, p, s)
            yield cv(1 + sp, (k,) + sh(2, 3), (s,) + sh(1, 2), (p,) + sh(1, 2), mode="replicate", fill="replicate"), g(k, p, s)
            yield cv(1 + sp, (k,) + sh(2, 3), (s,) + sh(2, 1), (p,) + sh(0, 1), mode="replicate", groups=2, ci=2, co=2, bias=False), g(k, p, s)
    for sp in (1, 2):
        yield cv(1 + sp, 2, 2, 1, scalar=True), g(2, 1, 2)
        yield cv(1 + sp, 3, 1, 1, scalar=True, mode="replicate"), g(3, 1, 1)
        yield cv(1 + sp, 1, 1, 0, scalar=True), g(1, 0, 1)
        yield cv(1 + sp, (1,) + (2, 3)[:sp], (1,) + (2, 1)[:sp], (0, 1, 1)[:1 + sp], dil=(1, 1, 2)[:1 + sp]), g(1, 0, 1)
    for kind in ("Avg", "Max"):
        pl = lambda *a, **k: F.pool(kind, *a, **k)
        for k, s, p in ((2, 1, 1), (3, 2, 0)) + (((4, 3, 2),) if deep else ()):
            yield pl(1, k, s, p), g(k, p, s)
            yield pl(1, k, None, p), g(k, p, k)
            for d in (2, 3):
                yield pl(1, k, s, 0, d, scalar=True), g(d * (k - 1) + 1, 0, s)
            for sp in (1, 2):
                sh = lambda *v: tuple(v[:sp])
                yield pl(1 + sp, (k,) + sh(2, 3), (s,) + sh(1, 2), (p,) + sh(1, 0)), g(k, p, s)
                yield pl(1 + sp, (k,) + sh(3, 2), (s,) + sh(2, 1), (p,) + sh(1, 1)), g(k, p, s)
                yield pl(1 + sp, (k,) + sh(3, 2)), g(k, 0, k)
                yield pl(1 + sp, (k,) + sh(3, 2), (s,) + sh(2, 2), (p,) + sh(1, 1), ceil=True), g(k, p, s)
                yield pl(1 + sp, 2, s, 1, scalar=True), g(2, 1, s)
                yield pl(1 + sp, 2, scalar=True), g(2, 0, 2)
                if kind == "Max":
                    yield pl(1 + sp, (k,) + sh(2, 2), (s,) + sh(1, 2), (p,) + sh(1, 0), (2,) + sh(2, 1)), g(2 * (k - 1) + 1, p, s)
                    yield pl(1 + sp, (k,) + sh(2, 2), (s,) + sh(1, 1), (p,) + sh(0, 0), (1,) + sh(1, 2)), g(k, p, s)
                else:
                    yield pl(1 + sp, (k,) + sh(3, 2), (s,) + sh(2, 1), (p,) + sh(1, 1), include_pad=False), g(k, p, s)
                    yield pl(1 + sp, (k,) + sh(3, 2), (s,) + sh(2, 2), (p,) + sh(1, 1), include_pad=False, ceil=True), g(k, p, s)
                    yield pl(1 + sp, (k,) + sh(2, 2), (s,) + sh(1, 1), (p,) + sh(1, 0), divisor=5), g(k, p, s)
                    yield pl(1 + sp, (k,) + sh(3, 2), (s,) + sh(1, 2), (p,) + sh(1, 1), divisor=3, ceil=True), g(k, p, s)
        for out, k in (((1, 2), 3), ((1, 3), 2), (1, 2)):
            yield F.adaptive(kind, 2, out, k), "whole"
        for out, k in (((1, 2, 1), 3), ((1, 1, 2), 2), ((1, 3, 2), 2)):
            yield F.adaptive(kind, 3, out, k), "whole"
    for cd, shape, tdim in ((1, (2, 3), 2), (1, (2, 3, 2), 2), (1, (2, 3, 2, 2), 2), (-1, (2, 3), 1), (None, (2, 3), 1), (None, (2, 2, 3), 1), (-1, (2, 2, 3), 1)):
        for bias in (True, False):
            yield linear(cd, shape, bias, tdim)


def pair(lab, subj, geom):
    """Outputs of stepping against those of the regular forward of the same frames."""
    whole = geom == "whole"
    rf, p, s, tdim = (subj.delay + 1, 0, 1, 2) if whole else geom
    n = rf if whole else rf + 2 * s + 2

    def thunk(ctx):
        o = subj.build(lab)
        xs = F.frame_terms(subj, n)
        for v in xs:
            ctx.facts.assume(T("kind", v, "Tensor"), True)
        fwd = lab.fz(lab.m(o, "forward", lab.call(lab.driver(JOIN), tuple(xs), tdim)))
        return fwd, [lab.fz(lab.m(o, "forward_step", v)) for v in xs], xs, F.children(lab, o), dict(subj.params)

    def judge(path):
        fwd, outs, xs, kids, params = path.value
        lab.frame_children = kids
        for v in xs:
            SHAPES[v] = subj.shape
        subj.rebind(params)
        ev = subj.evaluator(lab, xs)
        res = []
        try:
            ref = ev.arr(fwd)
        except F.Unsupported as e:
            return [(prov.failed(e), f"forward: {e}")]
        for t, y in enumerate(outs):
            if t < rf - 1 or (t + p - (rf - 1)) % s:
                continue
            j = 0 if whole else (t + p - (rf - 1)) // s
            if j >= ref.shape[tdim]:
                res.append((False, f"forward has no output for the window ending at frame {t}"))
                continue
            if y is None:
                res.append((False, f"step {t} has no output but forward has"))
                continue
            try:
                m = F.diff(ev.arr(y), prov.index(ref, (slice(None),) * tdim + (j,)))
            except F.Unsupported as e:
                res.append((prov.failed(e), f"step {t}: {e}"))
                continue
            res.append((m is None, "" if m is None else f"step {t} against forward: {m}"))
        return res or [(None, "no window inside the frames")]

    lab.obligation("same-options", subj.name, subj.where(lab, "_forward_step_py", "_forward_step", "forward_step"), thunk, judge, unroll=8)


def nets(tier):
    """Modules whose two modes are both compared with the definition."""
    for cn in ("RNN", "GRU", "LSTM"):
        yield NRnn(cn, 1, 2, 3)
        yield NRnn(cn, 2, 2, 2, bias=False)
        yield NRnn(cn, 2, 3, 2, dropout=0.5)
    yield NRnn("RNN", 2, 2, 3, nonlinearity="relu")
    yield NRnn("LSTM", 2, 2, 3, proj_size=2)
    yield NPos(5)
    yield NPos(7, learned=False)


def attns(tier):
    for cn in (SO, RE):
        yield Attn(cn, 2)
        yield Attn(cn, 2, bias=False)
        yield Attn(cn, 2, inputs=3, kdim=3, vdim=5)
        yield Attn(cn, 2, inputs=3, kdim=5, vdim=3, bias=False, batch_first=True)
        yield Attn(cn, 2, embed=6, heads=3, batch=1)
        yield Attn(cn, 2, embed=4, heads=1, batch=1)
        yield Attn(cn, 2, embed=4, heads=4, batch=1)
        yield Attn(cn, 2, batch_first=False, inputs=3)
        yield Attn(cn, 2, batch_first=True, embed_dim_second=True)
        yield Attn(cn, 2, dropout=0.5)
    for q in (0, 1, -1, -3):
        yield Attn(SO, 3, query_index=q)
    yield Attn(SO, 3, query_index=1, bias=False, inputs=3, kdim=3, vdim=3)


def encoders(tier):
    yield p33.layer(SO, 2, embed=4, heads=2, ff=3)
    yield p33.layer(SO, 3, query_index=1)
    yield p33.layer(SO, 2, single_output_forward=True)
    yield p33.layer(RE, 2, ff=3)
    yield p33.encoder(1, 2, act="gelu")
    yield p33.encoder(1, 2, norm=True)
    yield p33.encoder(2, 2, act="gelu", norm=True)


def batch(lab, items):
    for subj, geom in items:
        pair(lab, subj, geom)


def net_batch(lab, net):
    subj = NetSubject(net, (2, net.ci if isinstance(net, NRnn) else 2))
    F.net_stream(lab, subj, 6 if isinstance(net, NRnn) else 2 * net.m, "step-definition")
    F.net_clip(lab, subj, 4, "forward", "forward-definition")


def attn_batch(lab, subj):
    p32.steps(lab, subj, 2 * subj.n + 1)
    p32.forward(lab, subj, subj.n)


def enc_batch(lab, subj):
    p33.steps(lab, subj, 2 * subj.n + 1)
    p33.forward(lab, subj, subj.n)


def run(lab, tier):
    for s in encoders(tier):
        lab.job(enc_batch, s)
    for s in attns(tier):
        lab.job(attn_batch, s)
    for s in nets(tier):
        lab.job(net_batch, s)
    items = list(subjects(tier))
    for i in range(0, len(items), 6):
        lab.job(batch, items[i:i + 6])
