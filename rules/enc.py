"""Transformer encoder subjects and the regular post-norm encoder written with its definition."""
from coan import prov
from coan.interp import Inst
from coan.terms import SHAPES, T, show
from . import frames as F
from . import subjects as S
from .attn import RE, SO, Attn

LAYERS = {SO: "SingleOutputTransformerEncoderLayer", RE: "RetroactiveTransformerEncoderLayer"}


def insts(o):
    """Instances below o in registration order."""
    out, seen = [], set()

    def go(v):
        if not isinstance(v, Inst) or id(v) in seen:
            return
        seen.add(id(v))
        out.append(v)
        for _, x in v.modules.pairs if v.modules is not None else []:
            go(x)
        for x in v.attrs.values():
            go(x)

    go(o)
    return out


class Layer:
    """One encoder layer of a built model."""

    def __init__(self, cn, n, embed, heads, ff, batch, act="relu", query_index=-1, single=True, eps=1e-5):
        self.cn, self.act, self.ff, self.eps = cn, act, ff, eps
        kw = dict(batch_first=True, embed_dim_second=True, forward_returns_attn_mask=False)
        if cn == SO:
            kw.update(single_output_forward=single, query_index=query_index)
        self.at = Attn(cn, n, embed=embed, heads=heads, batch=batch, **kw)

    def bind(self, lab, mods):
        """Takes the modules of this layer from the front of the list `mods`."""
        take = lambda name: next(m for m in mods if m.cls.name == name)
        mha = take(self.at.cn)
        i = mods.index(mha)
        rest = mods[i + 1:]
        lin = [m for m in rest if m.cls.name == "Linear"][:2]
        nrm = [m for m in rest if m.cls.name == "LayerNorm"][:2]
        self.at.bind(lab, mha)
        self.label = show(lab.fz(mha))
        self.norms = [F.norm_label(show(lab.fz(m)), self.eps) for m in nrm]
        self.lin = []
        for m, sh in zip(lin, ((self.ff, self.at.embed), (self.at.embed, self.ff))):
            self.lin += [(lab.fz(lab.attr(m, "weight")), sh), (lab.fz(lab.attr(m, "bias")), sh[:1])]
        for t, _ in self.lin:
            lab.I.ctx.facts.assume(T("kind", t, "None"), False)
        last = max(mods.index(m) for m in lin + nrm)
        return mods[last + 1:]

    def leaves(self):
        d = {t: self.at.leaf_shapes.get(a) for a, t in self.at.params.items()}
        d.update(dict(self.lin))
        return d

    def rows(self, x, q=None):
        """Regular post-norm layer over (L, N, E): all positions, or position q."""
        xq = x if q is None else prov.index(x, (slice(q, q + 1),))
        par = [prov.leaf(show(t), sh) for t, sh in self.lin]
        y = prov.zip2(xq, self.at.attention(xq, x, x)[0], prov.add)
        y = prov.layernorm(y, self.norms[0])
        h = prov.fmap(prov.linear(y, par[0], par[1]), lambda p: prov.fn(self.act, p))
        y = prov.zip2(y, prov.linear(h, par[2], par[3]), prov.add)
        return prov.layernorm(y, self.norms[1])


class Encoder(S.Subject):
    def __init__(self, name, where, n, layers, make, batch, embed, norm=False, single_forward=False, final_eps=1e-5):
        self.final_eps = final_eps
        super().__init__(name, where, make, family="encoder")
        self.cn = where
        self.n, self.layers, self.batch, self.embed = n, layers, batch, embed
        self.norm, self.single_forward = norm, single_forward
        self.rows_out = len(layers) == 1 and layers[0].cn == RE
        self.qi = layers[-1].at.qi if not self.rows_out else 0

    def build(self, lab):
        o = self.make(lab)
        mods = insts(o)
        for m in mods:
            lab.I.ctx.facts.assume(T("truth", T("attr", lab.fz(m), "training")), False)
        for la in self.layers:
            mods = la.bind(lab, mods)
        nm = [m for m in mods if m.cls.name == "LayerNorm"]
        self.final = F.norm_label(show(lab.fz(nm[0])), self.final_eps) if nm else None
        lab.frame_children = F.children(lab, o)
        return o

    def leaves(self):
        d = {}
        for la in self.layers:
            d.update(la.leaves())
        return d

    def binding(self):
        return [(la.at.params, la.norms, la.lin, la.label) for la in self.layers], self.final

    def rebind(self, b):
        for la, x in zip(self.layers, b[0]):
            la.at.params, la.norms, la.lin, la.label = x
        self.final = b[1]

    def window(self, w):
        """(n, N, E) frames -> (N, E) at the query position, or all rows (N, E, n)."""
        for la in self.layers[:-1]:
            w = la.rows(w)
        la = self.layers[-1]
        y = la.rows(w) if self.rows_out else la.rows(w, self.qi)
        if self.norm:
            y = prov.layernorm(y, self.final)
        return prov.permute(y, (1, 2, 0)) if self.rows_out else prov.index(y, (0,))

    def clip(self, x):
        """Regular forward of a whole (T, N, E) clip -> (N, E, T)."""
        for la in self.layers[:-1]:
            x = la.rows(x)
        y = self.layers[-1].rows(x, (self.layers[-1].at.opts.get("query_index", -1) % x.shape[0]) if self.single_forward else None)
        if self.norm:
            y = prov.layernorm(y, self.final)
        return prov.permute(y, (1, 2, 0))

    def resolve(self, ev, base, args, kw, cls=None):
        c = self.kids.get(show(base))
        if c is not None and (cls or c[0]) == "Dropout":
            return ev.arr(args[0])
        if cls == "MultiheadAttention":
            la = next(x for x in self.layers if show(base) == x.label)
            q, k, v = (la.at.to_plain(ev.arr(x)) for x in args[:3])
            return prov.permute(la.at.attention(q, k, v)[0], (1, 0, 2)), None
        return F.child_value(ev, base, args, kw, self.kids, cls)


    def where(self, lab, *methods):
        if self.cn in lab.classes:
            return lab.where(lab.cls(self.cn), *methods)
        return lab.fwhere(lab.fn("transformer", self.cn))
