"""Attention subjects with concrete extents, and softmax attention written with its definition."""
import math

from coan import prov
from coan.prov import Unsupported
from coan.terms import SHAPES, T, show, sym
from . import frames as F
from . import subjects as S

SO, RE = "SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"
N, E, H = 2, 4, 2


class Attn(S.Subject):
    """A continual attention module over a window of `n` frames; `inputs` is 1 (self-attention) or 3."""

    def __init__(self, cn, n, inputs=1, bias=True, kdim=None, vdim=None, batch=N, embed=E, heads=H, **kw):
        opts = dict(kw)
        if not bias:
            opts["bias"] = False
        for a, v in (("kdim", kdim), ("vdim", vdim)):
            if v is not None:
                opts[a] = v
        name = f"{'SingleOutputMHA' if cn == SO else 'RetroactiveMHA'}({embed}, {heads}, sequence_len={n}" + "".join(f", {a}={v}" for a, v in opts.items()) + (", separate q/k/v" if inputs == 3 else "") + ")"
        super().__init__(name, cn, None, family="mha", inputs=inputs)
        self.cn = cn
        self.n, self.opts, self.bias, self.batch, self.embed, self.heads = n, opts, bias, batch, embed, heads
        self.kd, self.vd = kdim or embed, vdim or embed
        self.same = self.kd == embed and self.vd == embed
        self.batch_first = opts.get("batch_first", cn == SO)
        self.eds = opts.get("embed_dim_second", False)
        qi = opts.get("query_index", -1)
        self.qi = qi if qi >= 0 else n + qi
        self.delay = (n - 1 - self.qi) if cn == SO else n - 1
        e = embed
        self.leaf_shapes = {"out_proj.weight": (e, e)}
        if self.same:
            self.leaf_shapes["in_proj_weight"] = (3 * e, e)
        else:
            self.leaf_shapes.update({"q_proj_weight": (e, e), "k_proj_weight": (e, self.kd), "v_proj_weight": (e, self.vd)})
        self.none = ["bias_k", "bias_v"] + (["q_proj_weight", "k_proj_weight", "v_proj_weight"] if self.same else ["in_proj_weight"])
        if bias:
            self.leaf_shapes.update({"in_proj_bias": (3 * e,), "out_proj.bias": (e,)})
        else:
            self.none += ["in_proj_bias", "out_proj.bias"]

    def build(self, lab, training=False):
        o = lab.new(self.cn, self.embed, self.heads, sequence_len=self.n, **self.opts)
        self.bind(lab, o, training)
        return o

    def bind(self, lab, o, training=False):
        """Parameters and flags of a built module."""
        F_ = lab.I.ctx.facts
        self.params = {}
        for a in list(self.leaf_shapes) + self.none:
            t = lab.fz(F.path_attr(lab, o, a))
            self.params[a] = t
            if a in self.leaf_shapes:
                SHAPES[t] = self.leaf_shapes[a]
            F_.assume(T("kind", t, "None"), a in self.none)
            F_.assume(T("kind", t, "Tensor"), a not in self.none)
        b = lab.fz(o)
        F_.assume(T("truth", T("attr", b, "_qkv_same_embed_dim")), self.same)
        F_.assume(T("truth", T("attr", b, "training")), training)

    def par(self, a):
        return prov.leaf(show(self.params[a]), self.leaf_shapes[a]) if a in self.leaf_shapes else None

    def dims(self, i):
        return (self.embed, self.kd, self.vd)[i]

    # -------------------------------------------------------------------------------- reference
    def project(self, x, which):
        """(..., e_in) -> (..., E) by the query, key or value projection."""
        e = self.embed
        sl = slice(which * e, (which + 1) * e)
        w = prov.index(self.par("in_proj_weight"), (sl,)) if self.same else self.par(("q", "k", "v")[which] + "_proj_weight")
        b = self.par("in_proj_bias")
        return prov.linear(x, w, None if b is None else prov.index(b, (sl,)))

    def heads_of(self, x):
        """(L, N, E) -> (N * H, L, E / H)."""
        L, n, e = x.shape
        return prov.permute(prov.reshape(x, (L, n * self.heads, e // self.heads)), (1, 0, 2))

    def attention(self, q, k, v):
        """Softmax attention of (Lq, N, E), (L, N, kd), (L, N, vd) clips -> (Lq, N, E)."""
        Lq, n, _ = q.shape
        hd = self.embed // self.heads
        c = prov.inv(prov.num(math.sqrt(hd)))
        Q = prov.fmap(self.heads_of(self.project(q, 0)), lambda p: prov.mul(p, c))
        K, V = self.heads_of(self.project(k, 1)), self.heads_of(self.project(v, 2))
        A = prov.softmax(prov.matmul(Q, prov.permute(K, (0, 2, 1))), 2)
        y = prov.matmul(A, V)
        y = prov.reshape(prov.permute(y, (1, 0, 2)), (Lq, n, self.embed))
        return prov.linear(y, self.par("out_proj.weight"), self.par("out_proj.bias")), A

    def step_ref(self, t, frames):
        """Output of step t >= n - 1: `frames(which, i)` is frame i (N, e)."""
        w = range(t - self.n + 1, t + 1)
        k, v = (prov.stack([frames(j, i) for i in w], 0) for j in (1, 2))
        if self.cn == SO:
            q = prov.stack([frames(0, t - self.n + 1 + self.qi)], 0)
            return prov.index(self.attention(q, k, v)[0], (0,))
        y = self.retro_rows(t, frames)
        return prov.permute(y, (0, 2, 1)) if self.batch_first and self.eds else y

    def retro_rows(self, t, frames):
        """All rows of the window: (n, N, E), or (N, n, E) with the batch first."""
        q, k, v = (prov.stack([frames(j, i) for i in range(t - self.n + 1, t + 1)], 0) for j in range(3))
        y = self.attention(q, k, v)[0]
        return prov.permute(y, (1, 0, 2)) if self.batch_first else y

    def clip_shape(self, L, which=0):
        e = self.dims(which)
        if not self.batch_first:
            return (L, self.batch, e)
        return (self.batch, e, L) if self.eds else (self.batch, L, e)

    def to_time_first(self, x):
        if not self.batch_first:
            return x
        return prov.permute(x, (2, 0, 1)) if self.eds else prov.permute(x, (1, 0, 2))

    def from_outputs(self, ys):
        """Clip output from the outputs of the steps."""
        if self.cn == SO:
            y = prov.stack(ys, 0)  # T' N E
            if not self.batch_first:
                return y
            return prov.permute(y, (1, 2, 0)) if self.eds else prov.permute(y, (1, 0, 2))
        if not self.batch_first:
            return prov.stack(ys, 0)
        y = prov.stack(ys, 1)  # N T' n E
        return prov.permute(y, (0, 3, 1, 2)) if self.eds else y


def inputs(lab, subj, shapes, tag="x"):
    """Fresh input tensors with the given shapes."""
    out = []
    for i, sh in enumerate(shapes):
        v = sym(f"{tag}{i}")
        SHAPES[v] = sh
        lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
        out.append(v)
    return out


def thunk(lab, subj, run, training=False):
    def th(ctx):
        SHAPES.clear()
        o = subj.build(lab, training)
        xs, outs = run(o)
        return outs, {x: SHAPES[x] for x in xs}, dict(subj.params)

    return th


def evaluate(lab, subj, path):
    outs, xs, params = path.value
    subj.params = params
    SHAPES.clear()
    leaves = dict(xs)
    for a, t in params.items():
        leaves[t] = subj.leaf_shapes.get(a)
    SHAPES.update({t: s for t, s in leaves.items() if s is not None})
    return outs, list(xs), prov.Eval({}, leaves, resolver(subj))


def resolver(subj):
    def resolve(ev, base, args, kw, cls=None):
        if cls != "MultiheadAttention":
            return None
        a = [None if x is None else x for x in args]
        q, k, v = (subj.to_plain(ev.arr(x)) for x in a[:3])
        y, A = subj.attention(q, k, v)
        n, h = subj.batch, subj.heads
        avg = prov.reduce_dim(prov.reshape(A, (n, h) + A.shape[1:]), 1, prov.mean)
        return prov.permute(y, (1, 0, 2)) if subj.batch_first else y, avg

    return resolve


def to_plain(self, x):
    return prov.permute(x, (1, 0, 2)) if self.batch_first else x


Attn.to_plain = to_plain
