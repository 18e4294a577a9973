"""P25: constructor arguments reach the computation they name.

Two kinds of obligations.  Binding: each constructor is called with its defaults, with every
argument by keyword and with every argument by position (all values distinct); the public
attributes, the torch base class initialisation and the torch modules created underneath must
hold the values of the arguments that name them.  Effect: with non-default options the outputs
of both modes, expanded in the provenance domain, are those of the operator's definition
under these options.
"""

from coan import prov
from coan.terms import SHAPES, T, sym
from . import attn as A
from . import frames as F
from . import p29, p32, p33
from . import subjects as S
from .attn import RE, SO, Attn
from .enc import LAYERS

REQ = object()
DEV, DT = "cpu", "float16"


def conv_params(n, k, s, p, dil):
    t = lambda v: (v,) * n if isinstance(v, int) else v
    return [("in_channels", REQ, 4, "attr"), ("out_channels", REQ, 6, "attr"), ("kernel_size", REQ, k, "attr", t), ("stride", 1, s, "attr", t), ("padding", 0, p, "attr", t), ("dilation", 1, dil, "attr", t),
            ("groups", 1, 2, "attr"), ("bias", True, False, "base"), ("padding_mode", "zeros", "replicate", "attr"), ("device", None, DEV, "base"), ("dtype", None, DT, "base"), ("temporal_fill", "zeros", "replicate", None)]


def pool_params(kind, n, k, s, p, d):
    t = lambda v: (v,) * n if isinstance(v, int) else v
    mid = [("ceil_mode", False, True, "attr"), ("count_include_pad", True, False, "attr")] if kind == "Avg" else []
    div = [("divisor_override", None, 7, "attr")] if kind == "Avg" and n > 1 else []
    dil = [("dilation", 1, d, "attr", t)]
    end = [("temporal_fill", "zeros" if kind == "Avg" else "neg_inf", "replicate", None)]
    st = [("kernel_size", REQ, k, "attr", t), ("stride", None, s, "attr", lambda v: t(k if v is None else v)), ("padding", 0, p, "attr", t)]
    return st + (mid + div + dil if kind == "Avg" else dil + [("ceil_mode", False, True, "attr")]) + end


def attn_params(cn):
    ps = [("embed_dim", REQ, 12, "attr"), ("num_heads", REQ, 3, "attr"), ("dropout", 0.0, 0.25, "attr"), ("bias", True, False, "base"), ("add_bias_kv", False, False, "base"), ("add_zero_attn", False, False, "attr"),
          ("kdim", None, 5, "base"), ("vdim", None, 7, "base"), ("batch_first", cn == SO, cn != SO, "attr"), ("device", None, DEV, "base"), ("dtype", None, DT, "base"), ("sequence_len", REQ, 8, "attr")]
    if cn == SO:
        ps.append(("query_index", -1, 2, None))
    ps += [("forward_returns_attn_mask", True, False, None), ("embed_dim_second", False, True, None)]
    if cn == SO:
        ps.append(("single_output_forward", True, False, None))
    return ps


def rnn_params(cn):
    ps = [("input_size", REQ, 3, "base"), ("hidden_size", REQ, 5, "base"), ("num_layers", 1, 2, "base")]
    if cn == "RNN":
        ps.append(("nonlinearity", "tanh", "relu", "base"))
    ps += [("bias", True, False, "base"), ("dropout", 0.0, 0.25, "base")]
    if cn == "LSTM":
        ps.append(("proj_size", 0, 4, "base"))
    return ps + [("device", None, DEV, "base"), ("dtype", None, DT, "base")]


LINEAR = [("in_features", REQ, 3, "attr"), ("out_features", REQ, 5, "attr"), ("bias", True, False, "base"), ("device", None, DEV, "base"), ("dtype", None, DT, "base"), ("channel_dim", -1, 1, "attr")]


def bindings():
    for n, cases in ((1, [(5, 3, 2, 1), ((5,), (3,), (2,), (1,))]), (2, [((5, 3), (2, 4), (1, 6), (1, 7)), (3, 2, 1, 1)]), (3, [((5, 3, 2), (2, 4, 6), (1, 7, 8), (1, 9, 10)), (3, 2, 1, 1)])):
        for c in cases:
            yield f"Conv{n}d", conv_params(n, *c)
    for kind in ("Avg", "Max"):
        for n, cases in ((1, [(5, 3, 2, 4), ((5,), (3,), (2,), (4,))]), (2, [((5, 3), (2, 4), (1, 6), (3, 7)), (3, 2, 1, 1)]), (3, [((5, 3, 2), (2, 4, 6), (1, 7, 8), (3, 9, 10)), (3, 2, 1, 1)])):
            for k, s, p, d in cases:
                if kind == "Avg" and isinstance(d, tuple):
                    d = d[:1] + (1,) * (n - 1)
                yield f"{kind}Pool{n}d", pool_params(kind, n, k, s, p, d)
    for cn in (SO, RE):
        yield cn, attn_params(cn)
    for cn in ("RNN", "GRU", "LSTM"):
        yield cn, rnn_params(cn)
    yield "Linear", LINEAR


def bind(lab, cn, params, how):
    cls = lab.cls(cn)
    vals = {p[0]: (p[1] if how == "defaults" and p[1] is not REQ else p[2]) for p in params}

    def thunk(ctx):
        n0 = len(ctx.events)
        if how == "defaults":
            o = lab.new(cn, **{p[0]: p[2] for p in params if p[1] is REQ})
        elif how == "keywords":
            o = lab.new(cn, **vals)
        else:
            o = lab.new(cn, *[vals[p[0]] for p in params])
        base = {}
        for e in ctx.events[n0:]:
            if e.kind == "extinit" and e.data["obj"] is o:
                base.update(e.data["bound"])
        got = {}
        for p in params:
            if p[3] == "attr":
                got[p[0]] = plain(lab, lab.attr(o, p[0], None))
            elif p[3] == "base":
                got[p[0]] = plain(lab, base.get(p[0], "default"))
        return got

    def judge(path):
        res = []
        for p in params:
            if p[3] is None:
                continue
            want = vals[p[0]]
            if len(p) > 4:
                want = p[4](want)
            have = path.value[p[0]]
            if have == "default":  # not handed on: the base class default applies
                ok = how == "defaults" and want == p[1]
            else:
                ok = have == want
            res.append((ok, f"{cn}: {p[0]}={vals[p[0]]} arrives as {have}"))
        return res

    lab.obligation(f"bind-{how}", f"{cn}({', '.join(str(vals[p[0]]) for p in params)})", lab.where(cls, "__init__"), thunk, judge)


def plain(lab, v):
    v = lab.fz(v)
    if isinstance(v, T) and v.op in ("list", "tuple"):
        v = tuple(v.args)
    return v


# ------------------------------------------------------------------ transformer encoder layers
def layer_binding(lab, cn, how):
    """The modules an encoder layer is made of carry its options."""
    vals = dict(d_model=4, nhead=2, dim_feedforward=6 if how != "defaults" else 2048, dropout=0.25 if how != "defaults" else 0.1, layer_norm_eps=0.5 if how != "defaults" else 1e-5,
                device=DEV if how != "defaults" else None, dtype=DT if how != "defaults" else None, sequence_len=3)

    def thunk(ctx):
        n0 = len(ctx.events)
        act = sym("activation")
        lab.I.ctx.facts.assume(T("kind", act, "function"), True)
        if how == "factory":
            f = lab.call(lab.fn("transformer", "TransformerEncoderLayerFactory"), **vals)
            lab.call(f, {SO: "single_output", RE: "retroactive"}[cn])
        elif how == "factory-positional":
            f = lab.call(lab.fn("transformer", "TransformerEncoderLayerFactory"), 4, 2, 6, 0.25, "gelu", 0.5, DEV, DT, 3)
            lab.call(f, {SO: "single_output", RE: "retroactive"}[cn])
        elif how == "defaults":
            lab.call(lab.fn("transformer", LAYERS[cn]), 4, 2, sequence_len=3)
        else:
            lab.call(lab.fn("transformer", LAYERS[cn]), **vals)
        got = []
        for e in ctx.events[n0:]:
            if e.kind in ("new", "extinit"):
                got.append((e.data["cls"], {k: plain(lab, v) for k, v in e.data["bound"].items()}))
        return got

    def judge(path):
        res = []
        seen, lins = {}, []
        for cls, b in path.value:
            if cls == "Linear":
                if b.get("in_features") is None:
                    continue
                lins.append(b)
            seen.setdefault(cls, []).append(b)
            for a in ("device", "dtype"):
                if cls in ("LayerNorm", "Linear", "MultiheadAttention"):
                    have = b.get(a)
                    res.append((have == vals[a], f"{cls} is created with {a}={have} instead of {vals[a]}"))
        norms = seen.get("LayerNorm", [])
        res.append((len(norms) == 2, f"{len(norms)} layer norms"))
        for b in norms:
            res.append((b.get("eps", 1e-5) == vals["layer_norm_eps"], f"a layer norm has eps {b.get('eps')}"))
            res.append((b.get("normalized_shape") in (4, (4,)), f"a layer norm over {b.get('normalized_shape')}"))
        drops = seen.get("Dropout", [])
        res.append((len(drops) == 2, f"{len(drops)} dropouts"))
        for b in drops:
            res.append((b.get("p", 0.5) == vals["dropout"], f"a dropout with p={b.get('p')}"))
        at = seen.get("MultiheadAttention", [])
        res.append((len(at) == 1, f"{len(at)} attention modules"))
        for b in at:
            for a, w in (("embed_dim", 4), ("num_heads", 2), ("dropout", vals["dropout"])):
                res.append((b.get(a) == w, f"attention is created with {a}={b.get(a)} instead of {w}"))
        lin = sorted((b.get("in_features"), b.get("out_features")) for b in lins)
        w = sorted([(4, vals["dim_feedforward"]), (vals["dim_feedforward"], 4)])
        res.append((lin == w, f"linear layers {lin} instead of {w}"))
        return res

    lab.obligation(f"bind-{how}", LAYERS[cn], lab.fwhere(lab.fn("transformer", LAYERS[cn])), thunk, judge)


# ----------------------------------------------------------------------- positional encodings
def positions(lab, kw, explicit, steps):
    """Consecutive regular passes move on by the number of positions asked for."""
    net = F.NPos(7, **kw)
    subj = F.NetSubject(net, (2, 2))

    def run(o):
        xs, ys = [], []
        for i in range(3):
            X = sym(f"X{i}")
            SHAPES[X] = (2, 2, 3)
            lab.I.ctx.facts.assume(T("kind", X, "Tensor"), True)
            xs.append(X)
            ys.append(lab.fz(lab.m(o, "forward", X, **({} if explicit is None else dict(update_index_steps=explicit)))))
        return ys, xs

    def judge(path):
        ys, xs, ev = F.net_eval(lab, subj, path)
        res = []
        try:
            for i, y in enumerate(ys):
                w = net.par("pe.pattern") if net.leaf_shapes else prov.leaf(net.label + ".weight", (7, 2))
                x = ev.arr(xs[i])
                want = prov.build(x.shape, lambda j: prov.add(x.at(j), w.at(((j[2] + i * steps) % 7, j[1]))))
                m = F.diff(ev.arr(y), want)
                res.append((m is None, "" if m is None else f"regular pass {i}: {m}"))
        except F.Unsupported as e:
            res.append((prov.failed(e), str(e)))
        return res

    lab.obligation("positions", net.name + ("" if explicit is None else f" update_index_steps={explicit}"), lab.where(lab.cls("RecyclingPositionalEncoding"), "forward"), F.net_thunk(lab, subj, run), judge, unroll=8)


# --------------------------------------------------------------------------------- effects
def include_pad(lab, n):
    """Averages at the start of a stream under count_include_pad=False divide by the frames there are."""
    k, p = (3,) + (2,) * (n - 1), (1,) + (0,) * (n - 1)
    subj = F.pool("Avg", n, k, (1,) * n, p, include_pad=False)

    def thunk(ctx):
        o = subj.build(lab)
        xs = F.frame_terms(subj, 4)
        for v in xs:
            ctx.facts.assume(T("kind", v, "Tensor"), True)
        return [lab.fz(lab.m(o, "forward_step", v)) for v in xs], xs, F.children(lab, o), dict(subj.params)

    def judge(path):
        outs, xs, kids, params = path.value
        lab.frame_children = kids
        for v in xs:
            SHAPES[v] = subj.shape
        subj.rebind(params)
        ev = subj.evaluator(lab, xs)
        try:
            want = subj.clip(prov.stack([ev.arr(x) for x in xs], 2))
            m = F.diff(ev.arr(outs[1]), prov.index(want, (slice(None), slice(None), 0)))
        except F.Unsupported as e:
            return [(prov.failed(e), str(e))]
        return [(m is None, "" if m is None else f"first output: {m}")]

    lab.obligation("partial-window", subj.name, subj.where(lab, "_forward_step"), thunk, judge, unroll=8)


def effects(tier):
    for subj, geom in p29.subjects(tier):
        if subj.ref is None:
            continue
        yield subj, geom
    for kind in ("Avg", "Max"):
        for fill in ("zeros", "replicate") + (("neg_inf",) if kind == "Max" else ()):
            yield F.pool(kind, 1, 3, 1, 1, fill=fill), None
            yield F.pool(kind, 2, (2, 2), (1, 1), (1, 1), fill=fill), None
            yield F.pool(kind, 3, (2, 2, 1), (1, 1, 2), (1, 1, 0), fill=fill), None
            yield F.adaptive(kind, 2, (1, 2), 3, fill=fill), None
        for n, out in ((2, (1, 2)), (3, (1, 2, 1))):
            for k, s, p, d in ((3, 2, 0, 1), (2, 1, 1, 1), (2, 1, 0, 2), (3, 2, 1, 2)):
                yield F.adaptive(kind, n, out, k, s=s, p=p, d=d), None
    for fill in ("zeros", "replicate"):
        for n, k in ((1, 3), (2, (3, 2)), (3, (2, 1, 2))):
            yield F.conv(n, k, 1, (1,) + (0,) * (n - 1), fill=fill), None
    for d in (1, 2):
        for shrink in (None, True, "centered", "lagging"):
            yield F.delay(d, "replicate", shrink), None


def effect(lab, items):
    for subj, geom in items:
        F.stepped(lab, subj, subj.delay + 2 * subj.ring + 2 * subj.stride + 1, "effect-step")
        if subj.clip is not None and not (geom is None or subj.name.startswith("AvgPool") and getattr(subj, "dilated", False)):
            F.clipped(lab, subj, max(5, subj.ring + subj.stride + 1), "effect-forward")


def attn(lab, subj):
    p32.steps(lab, subj, 2 * subj.n)
    p32.clip(lab, subj, subj.n + 1)
    p32.forward(lab, subj, subj.n)


def all_bindings(lab):
    for cn, params in bindings():
        for how in ("defaults", "keywords", "positions"):
            bind(lab, cn, params, how)
    for cn in (SO, RE):
        for how in ("defaults", "keywords", "factory", "factory-positional"):
            layer_binding(lab, cn, how)
    for learned in (True, False):
        for steps in (None, 1, 2, 3):
            kw = {} if steps is None else dict(forward_update_index_steps=steps)
            if not learned:
                kw["learned"] = False
            positions(lab, kw, None, 1 if steps is None else steps)
        positions(lab, {} if learned else dict(learned=False), 2, 2)
        positions(lab, dict(forward_update_index_steps=3, **({} if learned else dict(learned=False))), 0, 0)
    for n in (1, 2, 3):
        include_pad(lab, n)


def run(lab, tier):
    lab.job(all_bindings)
    for s in p29.attns(tier):
        lab.job(attn, s)
    for s in p29.encoders(tier):
        lab.job(p29.enc_batch, s)
    items = list(effects(tier))
    for i in range(0, len(items), 6):
        lab.job(effect, items[i:i + 6])
