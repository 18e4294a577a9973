"""P17: conversion keeps hyper-parameters and parameter values; options override."""
from coan.interp import MISSING, Opq, PList, Ten
from coan.lab import same, verdict
from coan.terms import T, eq0, show, sym
from . import subjects as S
from .subjects import P

IGNORED = object()


def tens(lab, name):
    """A parameter tensor of the source module."""
    v = sym(name)
    lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
    lab.I.ctx.facts.assume(T("kind", v, "None"), False)
    return v


class Case:
    """One convertible class: source attributes, call arguments and what must come out."""

    def __init__(self, name, cn, src, attrs=(), ctor=None, params=(), call=None, args=(), overrides=None, absent=()):
        self.name, self.cn, self.src = name, cn, src
        self.attrs, self.ctor, self.params = attrs, ctor or {}, params
        self.args, self.call, self.overrides, self.absent = args, call or {}, overrides or {}, absent


def tup(*v):
    return v if len(v) > 1 else v


def cases():
    out = []
    K, ST, PD = ("k", "k1", "k2"), ("s", "s1", "s2"), ("p", "p1", "p2")
    for n in (1, 2, 3):
        base = dict(in_channels=P("ic"), out_channels=P("oc"), kernel_size=tuple(P(x) for x in K[:n]), stride=tuple(P(x) for x in ST[:n]),
                    padding=tuple(P(x, 0) for x in PD[:n]), dilation=(1,) + tuple(P(f"dil{i}") for i in range(1, n)), groups=P("grp"))
        for pm in ("zeros", "replicate"):
            for bias in (True, False):
                src = dict(base, padding_mode=pm, weight=True, bias=bias)
                over = dict(stride=tuple(P(f"os{i}") for i in range(n)), padding=tuple(P(f"op{i}", 0) for i in range(n)), temporal_fill=None)
                out.append(Case(f"Conv{n}d({pm},bias={bias})", f"Conv{n}d", src, attrs=tuple(base) + ("padding_mode",) if n > 1 else tuple(base), ctor=dict(bias=bias),
                                params=("weight", "bias") if bias else ("weight",), overrides=over if pm == "zeros" and bias else {}))
        for fam in ("Avg", "Max"):
            for form in ("int", "tuple"):
                f = (lambda a, lo=1: P(a[0], lo)) if form == "int" else (lambda a, lo=1: tuple(P(x, lo) for x in a[:n]))
                src = dict(kernel_size=f(K), stride=f(ST), padding=f(PD, 0), ceil_mode=Opq("cm", "value"))
                if fam == "Avg":
                    src["count_include_pad"] = Opq("cip", "value")
                    if n > 1:
                        src["divisor_override"] = P("dv")
                else:
                    src["dilation"] = f(("dl", "dl1", "dl2"))
                over = dict(stride=tuple(P(f"os{i}") for i in range(n)), padding=tuple(P(f"op{i}", 0) for i in range(n)), dilation=tuple(P(f"od{i}") for i in range(n)), ceil_mode=Opq("ocm", "value"), kernel_size=tuple(P(f"ok{i}") for i in range(n)))
                if fam == "Avg":
                    over["count_include_pad"] = Opq("ocip", "value")
                out.append(Case(f"{fam}Pool{n}d({form})", f"{fam}Pool{n}d", src, attrs=tuple(src), overrides=over))
            if n > 1:
                src = dict(output_size=(1,) + tuple(P(f"o{i}") for i in range(1, n)))
                out.append(Case(f"Adaptive{fam}Pool{n}d", f"Adaptive{fam}Pool{n}d", src, attrs=("output_size",), args=(P("k"),),
                                overrides=dict(output_size=(1,) + tuple(P(f"oo{i}") for i in range(1, n)), stride=P("os"), padding=P("op", 0), dilation=P("od"))))
    for bias in (True, False):
        out.append(Case(f"Linear(bias={bias})", "Linear", dict(in_features=P("if"), out_features=P("of"), weight=True, bias=bias), attrs=("in_features", "out_features"), ctor=dict(bias=bias),
                        params=("weight", "bias") if bias else ("weight",), overrides=dict(channel_dim=2) if bias else {}))
    for cn in ("RNN", "GRU", "LSTM"):
        for bias in (True, False):
            for nl in (1, 2):
                for pj in (0, P("pj")) if cn == "LSTM" else (0,):
                    nw = nl * (2 + 2 * bias + (pj != 0))
                    src = dict(input_size=P("is"), hidden_size=P("hs"), num_layers=nl, bias=bias, dropout=sym("drop"), _flat_weights=nw)
                    if cn == "RNN":
                        src["nonlinearity"] = "relu" if nl == 2 else "tanh"
                    if cn == "LSTM":
                        src["proj_size"] = pj
                    out.append(Case(f"{cn}(layers={nl},bias={bias}{',proj' if pj else ''})", cn, dict(src, bidirectional=False, batch_first=bias), attrs=tuple(k for k in src if k != "_flat_weights"), params=("_flat_weights",),
                                    overrides=dict(dropout=sym("odrop")) if nl == 1 else {}))
    PAR = ("in_proj_weight", "q_proj_weight", "k_proj_weight", "v_proj_weight", "in_proj_bias", "bias_k", "bias_v")
    for cn in ("SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"):
        for kv in (True, False):
            for bias in (True, False):
                src = dict(embed_dim=S.E_, num_heads=S.H_, kdim=S.E_ if kv else P("kd"), vdim=S.E_ if kv else P("vd"), dropout=sym("drop"), add_zero_attn=False, batch_first=Opq("bf", "value"))
                have = {"in_proj_weight"} if kv else {"q_proj_weight", "k_proj_weight", "v_proj_weight"}
                if bias:
                    have |= {"in_proj_bias"}
                full = dict(src, **{x: x in have for x in PAR})
                full["out_proj"] = dict(weight=True, bias=bias)
                over = dict(embed_dim_second=True, forward_returns_attn_mask=False, dropout=sym("odrop"), batch_first=Opq("obf", "value")) if bias and kv else {}
                out.append(Case(f"{cn}(same dims={kv},bias={bias})", cn, full, attrs=("embed_dim", "num_heads", "dropout", "add_zero_attn", "batch_first"), ctor=dict(kdim=src["kdim"], vdim=src["vdim"], bias=bias, add_bias_kv=False),
                                params=tuple(sorted(have)) + ("out_proj.weight",) + (("out_proj.bias",) if bias else ()), args=(P("N"),), overrides=over))
    return out


def source(lab, case):
    def mk(name, v, pre):
        if v is True and name.rsplit(".")[-1] in PARAMETER:
            return tens(lab, pre + name)
        if v is False and name in PARAMETER:
            return None
        if name == "_flat_weights":
            return PList([tens(lab, f"{pre}w{i}") for i in range(v)])
        if isinstance(v, dict):
            return Opq(pre + name, "torchmodule", {k: mk(k, x, f"{pre}{name}.") for k, x in v.items()})
        return v
    a = dict(case.src)
    if case.cn in ("RNN", "GRU", "LSTM"):
        flags = {"bias": a.pop("bias")}
    else:
        flags = {}
    attrs = {k: mk(k, v, "src.") for k, v in a.items()}
    attrs.update(flags)
    return Opq("src", "torchmodule", attrs)


PARAMETER = {"weight", "bias", "in_proj_weight", "q_proj_weight", "k_proj_weight", "v_proj_weight", "in_proj_bias", "bias_k", "bias_v"}


def expand(v, like):
    """A single number stands for the same value in every dimension."""
    if isinstance(like, tuple) and not isinstance(v, tuple):
        return (v,) * len(like)
    if isinstance(v, tuple) and len(v) == 1 and not isinstance(like, tuple):
        return v[0]
    return v


def getpath(lab, o, path):
    for p in path.split("."):
        o = o.attrs[p] if isinstance(o, Opq) else lab.attr(o, p)
    return o


def convert(lab, case, override=None):
    kw = dict(case.call)
    exp = {}
    for a in case.attrs:
        exp[a] = case.src[a]
    if override:
        k, v = override
        kw[k] = v
        exp[k] = v

    def thunk(ctx):
        src = source(lab, case)
        orig = {pn: getpath(lab, src, pn) for pn in case.params}
        orig = {pn: PList([lab.fz(x) for x in b.items]) if isinstance(b, PList) else lab.fz(b) for pn, b in orig.items()}
        o = lab.m(lab.cls(case.cn), "build_from", src, *case.args, **kw)
        F = lambda v: lab.fz(v)
        got = {a: F(lab.attr(o, a, None)) for a in exp}
        want = {a: F(v) for a, v in exp.items()}
        bound = {}
        for e in ctx.events:
            if e.kind == "extinit" and e.obj is o:
                bound.update(e.bound)
        ctor = {a: (F(bound[a]) if a in bound else None) for a in case.ctor}
        params = []
        for pn in case.params:
            a, b = getpath(lab, o, pn), orig[pn]
            if isinstance(b, PList):
                a = a.items if isinstance(a, PList) else [None]
                for i, (x, y) in enumerate(zip(a, b.items)):
                    params.append((f"{pn}[{i}]", F(x), y))
                if len(a) != len(b.items):
                    params.append((pn, len(a), len(b.items)))
            else:
                params.append((pn, F(a), b))
        # a parameter that receives a copy of the values must be able to hold them
        kind = []
        if case.params and not any(e.kind in ("extmethod", "call") and getattr(e, "method", None) in ("to", "type", "double", "_apply") for e in ctx.events):
            shared = all(holds_source(lab, o, src, pn) for pn in case.params)
            ps = [b for pn in case.params for b in (getpath(lab, src, pn).items if isinstance(getpath(lab, src, pn), PList) else [getpath(lab, src, pn)])]
            if "out_proj" in case.src:
                ps.append(src.attrs["out_proj"].attrs["weight"])
            for a in ("device", "dtype"):
                v = bound.get(a)
                ok = shared or v is not None and any(lab.fz(v) == lab.fz(lab.I.getattr_(b, a, None)) for b in ps)
                kind.append((ok, a, None if v is None else lab.fz(v)))
        loads = []
        late = []
        for e in ctx.events:
            if e.kind == "extmethod" and e.method == "load_state_dict" and e.obj is o:
                a = F(e.args[0]) if e.args else F(e.kwargs.get("state_dict"))
                st = e.kwargs.get("strict", e.args[1] if len(e.args) > 1 else True)
                loads.append((isinstance(a, T) and "state_dict" in show(a) and "src" in show(a)) and st is True)
                late = []
            elif e.kind == "extmethod" and e.method.endswith("reset_parameters") and e.obj is o:
                late.append("re-initialised")
            elif e.kind == "mut" and loads:
                late.append("changed")
        cls = getattr(o, "cls", None)
        return got, want, ctor, params, loads, late, kind, cls is lab.cls(case.cn)

    def judge(path):
        got, want, ctor, params, loads, late, kind, iscls = path.value
        f = path.facts
        res = [(iscls, "the result is not an instance of the continual class")]
        for a in want:
            if case.cn.startswith("Adaptive") and a in ("stride", "padding", "dilation") and isinstance(got[a], tuple) and not isinstance(want[a], tuple):
                got = dict(got, **{a: got[a][0]})  # only the temporal entry is the caller's
            w = expand(want[a], got[a])
            r = same(expand(got[a], w), w, f)
            if got[a] is None and want[a] is not None:
                r = None if unset(lab, case.cn, a) else False
            res.append((r, f"{a} becomes {show(got[a])[:80]}, the original has {show(want[a])[:80]}" if override is None or a != override[0] else f"{a} becomes {show(got[a])[:80]} although {show(want[a])[:80]} is asked for"))
        for a, v in case.ctor.items():
            c = ctor[a]
            if a in ("kdim", "vdim") and c is None and v == case.src["embed_dim"]:
                r = True  # the default of these dimensions
            elif isinstance(v, bool) and isinstance(c, T):
                q = f.query(c)
                c = c if q is None else q
                r = None if q is None else q == v
            else:
                r = same(c, lab.fz(v) if not isinstance(v, bool) else v, f)
            res.append((r, f"{a} is constructed as {show(ctor[a])[:60]}, the original has {v if isinstance(v, bool) else show(v)}"))
        for ok, a, v in kind:
            res.append((ok, f"the parameters are created with {a}={show(v)[:60]} instead of the original's, which its values are then converted to"))
        if any(x is True for x in loads) and not late:
            return res
        for pn, a, b in params:
            res.append((same(a, b, f), f"parameter {pn} holds {show(a)[:80]} instead of the original's values"))
        return res

    nm = "convert" if override is None else f"override {override[0]}"
    lab.obligation(nm, case.name, lab.where(lab.cls(case.cn), "build_from"), thunk, judge)


def holds_source(lab, o, src, pn):
    """Does the converted module hold the very parameter of the original?"""
    a, b = getpath(lab, o, pn), getpath(lab, src, pn)
    if isinstance(a, PList) and isinstance(b, PList):
        pairs = list(zip(a.items, b.items))
    else:
        pairs = [(a, b)]
    cell = lambda v: v.cell if isinstance(v, Ten) else lab.I.cell_of(v) if isinstance(v, T) else None
    return all(cell(x) is not None and cell(x) is cell(y) for x, y in pairs)


def unset(lab, cn, a):
    """Attributes the torch base class derives (not stored verbatim by the analysed code)."""
    return False


def temporal(lab, case, fill):
    """temporal_fill given for the conversion is the one the converted module declares."""
    def thunk(ctx):
        a = lab.m(lab.cls(case.cn), "build_from", source(lab, case), *case.args, temporal_fill=fill)
        b = lab.I.freeze(lab.attr(a, "_make_padding"))
        ref = {k: lab.fz(v) for k, v in (("zeros", lab.I.getattr_(lab.I.globals["continual.conv"]["torch"], "zeros_like", None)),)}
        return b, ref.get(fill)

    def judge(path):
        b, ref = path.value
        return [(same(b, ref, path.facts) if ref is not None else True, f"temporal_fill={fill} becomes {show(b)[:80]}")]

    lab.obligation(f"override temporal_fill={fill}", case.name, lab.where(lab.cls(case.cn), "build_from"), thunk, judge)


def batch(lab, cs):
    for c in cs:
        convert(lab, c)
        for k, v in c.overrides.items():
            if v is None:
                continue
            convert(lab, c, (k, v))
        if "temporal_fill" in c.overrides or "Pool" in c.cn:
            temporal(lab, c, "zeros")


# ------------------------------------------------------------------ regular transformer encoders
ENC = '''
class _Source:
    pass


class _Encoder(nn.TransformerEncoder):
    def __init__(self):
        pass

    def state_dict(self, *a, **k):
        return self.entries


def _lin(i, o, dev, dt):
    m = _Source()
    m.in_features, m.out_features = i, o
    m.weight = _Source()
    m.weight.device, m.weight.dtype = dev, dt
    m.bias = m.weight
    return m


def _drop(p):
    m = _Source()
    m.p = p
    return m


def _convert_encoder(n, d, heads, ff, p, eps, act, dev, dt, norm_first, bias, with_norm, entries, length):
    layers = []
    for _ in range(n):
        l = _Source()
        l.self_attn = _Source()
        l.self_attn.embed_dim, l.self_attn.num_heads, l.self_attn.dropout, l.self_attn.batch_first = d, heads, p, True
        l.self_attn.head_dim, l.self_attn.kdim, l.self_attn.vdim = d // heads, d, d
        l.linear1, l.linear2 = _lin(d, ff, dev, dt), _lin(ff, d, dev, dt)
        l.dropout, l.dropout1, l.dropout2 = _drop(p), _drop(p), _drop(p)
        l.norm1, l.norm2 = _Source(), _Source()
        for x in (l.norm1, l.norm2):
            x.eps, x.normalized_shape = eps, (d,)
        l.activation, l.norm_first = act, norm_first
        layers.append(l)
    src = _Encoder()
    src.layers, src.num_layers, src.entries = layers, n, entries
    src.norm = nn.LayerNorm(d) if with_norm else None
    return TransformerEncoder.build_from(src, length)
'''
LAYER_KEYS = [f"self_attn.{a}" for a in ("in_proj_weight", "in_proj_bias", "out_proj.weight", "out_proj.bias")] + [f"{m}.{a}" for m in ("linear1", "linear2", "norm1", "norm2") for a in ("weight", "bias")]


def regular_key(key):
    """The entry of a regular encoder that a name of the continual encoder stands for: (layer, tail)."""
    parts = key.split(".")
    nums = [p for p in parts if p.isdigit()]
    tail = [p for p in parts if not p.isdigit() and p not in ("layers", "fn", "_ff_block")]
    return ".".join(([f"layers.{nums[0]}"] if "layers" in parts else []) + tail)


def encoder(lab, n, with_norm, norm_first=False):
    conv = lab.driver(ENC, "transformer", "_convert_encoder")
    length = 5
    vals = dict(d=6, heads=3, ff=10, p=0.375, eps=0.03125, act=lab.driver("def act(x):\n    return torch.tanh(x)\n", "transformer"), dev=sym("dev"), dt=sym("dt"))
    keys = [f"layers.{i}.{k}" for i in range(n) for k in LAYER_KEYS] + (["norm.weight", "norm.bias"] if with_norm else [])
    value = {k: sym("@" + k) for k in keys}
    name = f"TransformerEncoder({n} layers{', norm' if with_norm else ''}{', norm_first' if norm_first else ''})"

    def thunk(ctx):
        from coan.interp import PDict
        entries = PDict([[k, tens(lab, "@" + k)] for k in keys])
        n0 = len(ctx.events)
        o = lab.call(conv, n, vals["d"], vals["heads"], vals["ff"], vals["p"], vals["eps"], vals["act"], vals["dev"], vals["dt"], norm_first, True, with_norm, entries, length)
        loaded, made = [], []
        for e in ctx.events[n0:]:
            if e.kind == "extmethod" and e.method == "load_state_dict":
                d = e.args[0] if e.args else e.kwargs.get("state_dict")
                loaded.append([(k, lab.fz(v)) for k, v in d.pairs] if isinstance(d, PDict) else None)
            if e.kind in ("new", "extinit"):
                made.append((e.data["cls"], {k: lab.fz(v) for k, v in e.data["bound"].items()}))
        insts = [i for i in lab._reach([o])[0] if getattr(i, "cls", None) is not None]
        fns = [lab.fz(lab.attr(i, "fn", None)) for i in insts if getattr(i.cls, "name", "").endswith("Lambda")]
        lens = [lab.fz(lab.attr(i, "sequence_len", None)) for i in insts if getattr(i.cls, "name", "").endswith("MultiheadAttention")]
        own = [lab.fz(k) for k in lab.I.iterate(lab.m(lab.m(o, "state_dict"), "keys"), None)]
        return loaded, made, fns, lens, own

    def judge(path):
        if norm_first:
            return [(path.kind == "raise", "an encoder that normalises first is converted into one that normalises last")]
        loaded, made, fns, lens, own = path.value
        res = []
        by = {}
        for cls, b in made:
            by.setdefault(cls, []).append(b)
        at = by.get("MultiheadAttention", [])
        res.append((len(at) == n and len(lens) == n, f"{len(at)} attention modules for {n} layers"))
        for b in at:
            for a, w in (("embed_dim", 6), ("num_heads", 3), ("dropout", 0.375)):
                res.append((b.get(a) == w, f"attention is created with {a}={show(b.get(a))} instead of {w}"))
        for v in lens:
            res.append((v == length, f"attention over {show(v)} frames instead of {length}"))
        norms = [b for b in by.get("LayerNorm", [])]
        eps = [b.get("eps", 1e-5) for b in norms]
        res.append((eps.count(0.03125) == 2 * n, f"{eps.count(0.03125)} layer norms with the eps of the source instead of {2 * n}"))
        for b in by.get("Dropout", []):
            res.append((b.get("p", 0.5) == 0.375, f"a dropout with p={show(b.get('p'))} instead of 0.375"))
        lin = sorted((b["in_features"], b["out_features"]) for b in by.get("Linear", []) if isinstance(b.get("in_features"), int))
        lin = sorted(set(lin))
        res.append((lin == [(6, 10), (10, 6)], f"linear layers of sizes {lin}"))
        for cls in ("LayerNorm", "Linear", "MultiheadAttention"):
            for b in by.get(cls, []):
                if cls == "Linear" and b.get("in_features") is None or cls == "LayerNorm" and b.get("eps", 1e-5) != 0.03125:
                    continue  # the norm of the source encoder itself
                for a, w in (("device", vals["dev"]), ("dtype", vals["dt"])):
                    res.append((b.get(a) is w, f"{cls} is created with {a}={show(b.get(a))}"))
        if fns and all(f is not None for f in fns):
            k = sum(f is lab.fz(vals["act"]) for f in fns)
            res.append((k == n or None if k >= n else False, f"the activation of the source is used {k} times for {n} layers"))
        if len(loaded) != 1 or loaded[0] is None:
            res.append((None, "parameters are transferred in another way"))
            return res
        got = dict(loaded[0])
        for k in own:
            w = regular_key(k)
            if w not in value:
                res.append((None, f"parameter {k} of the continual encoder"))
            elif k not in got:
                res.append((False, f"parameter {k} gets no value"))
            else:
                res.append((got[k] is value[w], f"parameter {k} gets the value of {show(got[k])} instead of {w}"))
        for k in got:
            if k not in own:
                res.append((False, f"{k} is no parameter of the continual encoder"))
        res.append((len(own) == len(keys), f"{len(own)} parameters instead of {len(keys)}"))
        return res

    where = lab.where(lab.cls("TransformerEncoder"), "build_from")
    lab.obligation("encoder", name, where, thunk, judge, raises_ok=not norm_first, need_return=not norm_first, unroll=8)


def run(lab, tier):
    cs = cases()
    for n in (1, 2):
        for with_norm in (False, True):
            lab.job(encoder, n, with_norm)
        lab.job(encoder, n, False, True)
    for i in range(0, len(cs), 3):
        lab.job(batch, cs[i:i + 3])
