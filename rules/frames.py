"""Subjects with concrete extents and the values regular operators give for a window of frames.

The reference value of an output is written with the operators' definitions (coan.prov) over the
frames of the window; the analysed value is the term derived from the source.
"""
import math
from fractions import Fraction

from coan import prov
from coan.prov import Eval, Unsupported
from coan.interp import PList
from coan.terms import SHAPES, T, eq0, show, sym
from . import subjects as S
from .common import resolved_method

B = 2
SPACE = {1: (), 2: (4,), 3: (4, 3)}


class Frames(S.Subject):
    """A module, the shape of a frame, and the reference value `ref(step, frame)`.

    `ref` gets the step and a function giving the (prov) array of frame i.
    """

    def __init__(self, name, cn, make, shape, ref, delay, stride, ring=1, clip=None, leaves=None, absent=(), family="frames", inputs=1):
        super().__init__(name, cn, make, family=family, inputs=inputs)
        self.shape, self.ref, self.delay, self.stride, self.ring, self.clip = shape, ref, delay, stride, ring, clip
        self.leaf_shapes = leaves or {}
        self.absent = absent

    def shapes(self):
        return self.shape, self.shape[:2] + (self.T,) + self.shape[2:]

    T = 6

    def build(self, lab):
        self.tensors(lab)
        o = self.make(lab)
        F = lab.I.ctx.facts
        self.params = {}
        for a, sh in self.leaf_shapes.items():
            t = path_attr(lab, o, a)
            ft = lab.fz(t) if t is not None else None
            if isinstance(ft, T):
                F.assume(T("kind", ft, "None"), False)
                SHAPES[ft] = sh
                self.params[a] = ft
        for a in self.absent:
            self.params[a] = ft = lab.fz(lab.attr(o, a))
            F.assume(T("kind", ft, "None"), True)
        return o

    def rebind(self, params):
        """Takes over the parameter terms of an explored instance."""
        self.params = params
        for a, t in params.items():
            if a in self.leaf_shapes:
                SHAPES[t] = self.leaf_shapes[a]

    def evaluator(self, lab, terms):
        leaves = {t: self.leaf_shapes.get(a) for a, t in self.params.items()}
        for t in terms:
            leaves[t] = SHAPES[t]
        return Eval({}, leaves, Resolver(lab))

    def par(self, name):
        """Leaf array of a parameter (None when the module has none)."""
        t = self.params.get(name)
        return None if t is None or name in self.absent else prov.leaf(show(t), self.leaf_shapes[name])


def path_attr(lab, o, dotted):
    for a in dotted.split("."):
        o = lab.attr(o, a, None)
        if o is None:
            return None
    return o


class Resolver:
    """Values of calls of torch.nn child modules, from their class and constructor arguments."""

    def __init__(self, lab):
        self.lab = lab

    def __call__(self, ev, base, args, kw, cls=None):
        return child_value(ev, base, args, kw, self.lab.frame_children, cls)


def child_value(ev, base, args, kw, children, name=None):
    c = children.get(show(base))
    if c is None:
        return None
    if name in ("RNN", "GRU", "LSTM"):
        at = c[1]
        hx = args[1] if len(args) > 1 else None
        if hx is not None:
            hx = [ev.arr(h) for h in ev.seq(hx)] if name == "LSTM" else [ev.arr(hx)]
        return prov.recurrence(name, show(base), at("num_layers"), at("hidden_size"), ev.arr(args[0]), hx, at("proj_size") if name == "LSTM" else 0)
    if len(args) != 1:
        return None
    if name is None and c[0] == "Embedding":
        w = prov.leaf(show(base) + ".weight", (c[1]("num_embeddings"), c[1]("embedding_dim")))
        ids = ev.arr(args[0])
        return prov.build(ids.shape + w.shape[1:], lambda i: w.at((prov.asint(ids.at(i[:-1])), i[-1])))
    cls, at = c
    cls = name or cls
    x = ev.arr(args[0])
    if cls[:-2] in ("AdaptiveAvgPool", "AdaptiveMaxPool"):
        n = int(cls[-2])
        return prov.adaptive(x, "avg" if "Avg" in cls else "max", prov.tup(at("output_size"), n))
    if cls[:-2] in ("AvgPool", "MaxPool"):
        n = int(cls[-2])
        if "Avg" in cls:
            return prov.pool(x, "avg", at("kernel_size"), at("stride"), at("padding"), ceil=at("ceil_mode"), include_pad=at("count_include_pad"), divisor=at("divisor_override") if n > 1 else None, n=n)
        return prov.pool(x, "max", at("kernel_size"), at("stride"), at("padding"), at("dilation"), at("ceil_mode"), n=n)
    if cls == "Identity":
        return x
    if cls in ("ReLU", "GELU", "Sigmoid", "Tanh"):
        return prov.fmap(x, lambda p: prov.fn(cls.lower(), p))
    if cls == "LayerNorm":
        sh = at("normalized_shape")
        sh = sh if isinstance(sh, tuple) else (sh,)
        if x.shape[-len(sh):] != sh:
            raise prov.OutOfRange(f"LayerNorm over {sh} of a tensor of shape {x.shape}")
        return prov.layernorm(x, norm_label(show(base), at("eps"))) if len(sh) == 1 else None
    if cls == "Dropout":
        return None
    return None


def norm_label(name, eps):
    return f"{name}(eps={show(eps)})"


def children(lab, o):
    """torch.nn modules below o: label -> (class name, attribute reader)."""
    out = {}
    insts, _ = lab._reach([o])
    for i in insts:
        cls = getattr(i, "cls", None)
        name = getattr(cls, "name", None)
        if name is None:
            continue

        def at(a, i=i):
            v = lab.fz(lab.attr(i, a, None))
            return v

        out[show(lab.fz(i))] = (name, at)
    return out


# ------------------------------------------------------------------------------------ references
def conv_ref(subj, k, s, p, dil, groups, mode, fill):
    n = len(k)

    def ref(t, frame):
        fr = []
        for j in range(k[0]):
            i = t - (k[0] - 1) + j
            fr.append(frame(i) if i >= 0 else (frame(0) if fill == "replicate" else prov.const(subj[0].shape, 0)))
        x = prov.stack(fr, 2)
        pad = (0,) + p[1:]
        if mode != "zeros":
            flat = []
            for q in reversed(pad):
                flat += [q, q]
            x, pad = prov.padding(x, flat, mode), (0,) * n
        r = prov.conv(x, subj[0].par("weight"), subj[0].par("bias"), (1,) + s[1:], pad, dil, groups)
        return prov.reshape(r, r.shape[:2] + r.shape[3:])

    return ref


def conv_clip(subj, k, s, p, dil, groups, mode):
    def ref(x):
        pad = p
        if mode != "zeros":
            flat = []
            for q in reversed(pad):
                flat += [q, q]
            x, pad = prov.padding(x, flat, mode), (0,) * len(k)
        return prov.conv(x, subj[0].par("weight"), subj[0].par("bias"), s, pad, dil, groups)

    return ref


def conv(n, k, s=1, p=0, dil=1, groups=1, bias=True, mode="zeros", fill="zeros", ci=2, co=3, scalar=False):
    """A convolution; with `scalar` the options are passed as the plain numbers given."""
    raw = dict(kernel_size=k, stride=s, padding=p, dilation=dil)
    tp = lambda v: (v,) * n if isinstance(v, int) else tuple(v)
    k, s, p, dil = tp(k), tp(s), tp(p), tp(dil)
    kw = {a: (v if scalar else tp(v)) for a, v in raw.items()}
    if n == 1 and not scalar:
        kw = {a: v[0] for a, v in kw.items()}
    kw.update(groups=groups, bias=bias, padding_mode=mode, temporal_fill=fill)
    kw = {a: v for a, v in kw.items() if v != {"groups": 1, "bias": True, "padding_mode": "zeros", "temporal_fill": "zeros"}.get(a, MISSING)}
    cell = []
    leaves = {"weight": (co, ci // groups) + k}
    if bias:
        leaves["bias"] = (co,)
    name = f"Conv{n}d({ci}->{co}, " + ", ".join(f"{a}={v}" for a, v in kw.items()) + ")"
    f = Frames(name, f"Conv{n}d", S.new(f"Conv{n}d", ci, co, **kw), (B, ci) + SPACE[n], conv_ref(cell, k, s, p, dil, groups, mode, fill), k[0] - 1 - p[0], s[0], ring=max(1, k[0] - 1),
               clip=conv_clip(cell, k, s, p, dil, groups, mode), leaves=leaves, absent=() if bias else ("bias",))
    cell.append(f)
    return f


MISSING = object()


def pool(kind, n, k, s=None, p=0, d=1, fill=None, ceil=None, include_pad=None, divisor=None, scalar=False):
    raw = dict(kernel_size=k, stride=s, padding=p, dilation=d)
    tp = lambda v: (v,) * n if isinstance(v, int) else tuple(v)
    kw = {}
    for a, v in raw.items():
        if v is None:
            continue
        v = v if scalar else tp(v)
        kw[a] = v[0] if n == 1 and isinstance(v, tuple) else v
    K, P, D = tp(k), tp(p), tp(d)
    ST = K if s is None else tp(s)
    for a, v in (("temporal_fill", fill), ("ceil_mode", ceil), ("count_include_pad", include_pad), ("divisor_override", divisor)):
        if v is not None:
            kw[a] = v
    fillv = fill or ("zeros" if kind == "Avg" else "neg_inf")
    low = "avg" if kind == "Avg" else "max"

    def space(x):
        if n == 1:
            return x
        return prov.pool(x, low, K[1:], ST[1:], P[1:], D[1:] if kind == "Max" else 1, ceil=bool(ceil), include_pad=include_pad is not False, divisor=divisor and 1, n=n - 1)

    def ref(t, frame):
        fr = []
        for j in range(K[0]):
            i = t - D[0] * (K[0] - 1 - j)
            if i >= 0:
                fr.append(space(frame(i)))
            else:
                z = space(frame(0))
                fr.append(z if fillv == "replicate" else prov.const(z.shape, 0 if fillv == "zeros" else -math.inf))
        x = prov.stack(fr, 0)
        if divisor:
            return prov.reduce_dim(x, 0, lambda ps: prov.mul(prov.total(ps), prov.num(Fraction(1, divisor))))
        return prov.reduce_dim(x, 0, prov.mean if kind == "Avg" else prov.maxi)

    def clip(x):
        return prov.pool(x, low, K, ST, P, D if kind == "Max" else 1, ceil=bool(ceil), include_pad=include_pad is not False, divisor=divisor, n=n)

    cn = f"{kind}Pool{n}d"
    return Frames(f"{cn}(" + ", ".join(f"{a}={v}" for a, v in kw.items()) + ")", cn, S.new(cn, **kw), (B, 2) + SPACE[n], ref, D[0] * (K[0] - 1) - P[0], ST[0], ring=D[0] * (K[0] - 1) + 1, clip=clip)


def adaptive(kind, n, out, k, fill=None, s=1, p=0, d=1):
    fillv = fill or ("zeros" if kind == "Avg" else "neg_inf")
    low = "avg" if kind == "Avg" else "max"
    kw = dict(kernel_size=k)
    if fill:
        kw["temporal_fill"] = fill
    for a, v, dflt in (("stride", s, 1), ("padding", p, 0), ("dilation", d, 1)):
        if v != dflt:
            kw[a] = v
    tp = lambda v: (v,) * n if isinstance(v, int) else tuple(v)
    O = tp(out)

    def ref(t, frame):
        sp = lambda x: prov.adaptive(x, low, O[1:])
        fr = []
        for i in range(t - d * (k - 1), t + 1, d):
            z = sp(frame(max(i, 0)))
            fr.append(z if i >= 0 or fillv == "replicate" else prov.const(z.shape, 0 if fillv == "zeros" else -math.inf))
        return prov.reduce_dim(prov.stack(fr, 0), 0, prov.mean if kind == "Avg" else prov.maxi)

    cn = f"Adaptive{kind}Pool{n}d"
    return Frames(f"{cn}({out}, {', '.join(f'{a}={v}' for a, v in kw.items())})", cn, S.new(cn, out, **kw), (B, 2) + SPACE[n], ref, d * (k - 1) - p, s, ring=d * (k - 1) + 1,
                  clip=lambda x: prov.adaptive(x, low, O))


def delay(d, fill=None, shrink=None, cn="Delay"):
    kw = {}
    if fill:
        kw["temporal_fill"] = fill
    if shrink is not None:
        kw["auto_shrink"] = shrink
    first = 2 * d if shrink in (True, "centered") else d
    return Frames(f"{cn}({d}{''.join(f', {a}={v}' for a, v in kw.items())})", cn, S.new(cn, d, **kw), (B, 2, 3), lambda t, frame: frame(t - d), first, 1, ring=max(d, 1))


def retro(d):
    return Frames(f"RetroactiveUnity({d})", "RetroactiveUnity", S.new("RetroactiveUnity", d), (B, 2), lambda t, frame: prov.stack([frame(i) for i in range(t - d, t + 1)], 2), d, 1, ring=d + 1)


# ------------------------------------------------------------------------------------ comparison
def frame_terms(subj, n, tag="x"):
    out = []
    for i in range(n):
        v = sym(f"{tag}{i}")
        SHAPES[v] = subj.shape
        out.append(v)
    return out


def diff(got, want):
    """Message naming the first element that differs, None when equal."""
    if got.shape != want.shape:
        return f"shape {got.shape} instead of {want.shape}"
    for i, (a, b) in zip(prov.grid(got.shape), zip(got.data, want.data)):
        if a != b:
            return f"element {i} is {prov.describe(a)} instead of {prov.describe(b)}"
    return None


def stepped(lab, subj, nsteps, name="window", prelude=None):
    """Obligation: the step outputs are the reference values."""

    def thunk(ctx):
        o = subj.build(lab)
        xs = frame_terms(subj, nsteps)
        for v in xs:
            lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
        if prelude:
            prelude(lab, o)
        outs = [lab.fz(lab.m(o, "forward_step", v)) for v in xs]
        return outs, xs, children(lab, o), dict(subj.params)

    def judge(path):
        outs, xs, kids, params = path.value
        lab.frame_children = kids
        for v in xs:
            SHAPES[v] = subj.shape
        subj.rebind(params)
        ev = subj.evaluator(lab, xs)
        frame = lambda i: ev.arr(xs[i])
        res = []
        for t, out in enumerate(outs):
            if out is None:
                continue
            try:
                got = ev.arr(out)
                want = subj.ref(t, frame)
            except Unsupported as e:
                res.append((prov.failed(e), f"step {t}: {e}"))
                continue
            if t < subj.delay:
                continue
            m = diff(got, want)
            res.append((m is None, "" if m is None else f"output of step {t}: {m}"))
        if not res:
            res.append((None, "no output"))
        return res

    lab.obligation(name, subj.name, subj.where(lab, "_forward_step_py", "_forward_step", "forward_step"), thunk, judge, unroll=8)


def clipped(lab, subj, frames, name="forward"):
    """Obligation: `forward` of a clip is the regular operator over it."""

    def thunk(ctx):
        subj.T = frames
        o = subj.build(lab)
        X = sym("X")
        SHAPES[X] = subj.shape[:2] + (frames,) + subj.shape[2:]
        lab.I.ctx.facts.assume(T("kind", X, "Tensor"), True)
        return lab.fz(lab.m(o, "forward", X)), X, children(lab, o), dict(subj.params)

    def judge(path):
        out, X, kids, params = path.value
        lab.frame_children = kids
        subj.rebind(params)
        SHAPES[X] = subj.shape[:2] + (frames,) + subj.shape[2:]
        ev = subj.evaluator(lab, [X])
        try:
            want = subj.clip(ev.arr(X))
            got = ev.arr(out)
        except Unsupported as e:
            return [(prov.failed(e), str(e))]
        m = diff(got, want)
        return [(m is None, "" if m is None else f"forward: {m}")]

    lab.obligation(name, subj.name, subj.where(lab, "forward"), thunk, judge, unroll=8)


# ------------------------------------------------------------------------------------ networks
class Net:
    """A module built from parts, with its regular forward written with the operators' definitions.

    `fwd(x, right)` maps a clip to the outputs; with `right=False` the end of the clip is open (no
    padding there), which is what a stream has produced after its last frame.
    """

    D, s, p = 0, 1, 0  # delay, stride, padding
    leaf_shapes = {}
    absent = ()

    def __init__(self, name, *kids):
        self.name, self.kids = name, kids

    def nodes(self):
        yield self
        for k in self.kids:
            yield from k.nodes()

    def build(self, lab):
        o = self.make(lab)
        F = lab.I.ctx.facts
        self.params = {}
        for a, sh in self.leaf_shapes.items():
            ft = lab.fz(path_attr(lab, o, a))
            F.assume(T("kind", ft, "None"), False)
            SHAPES[ft] = sh
            self.params[a] = ft
        for a in self.absent:
            self.params[a] = ft = lab.fz(lab.attr(o, a))
            F.assume(T("kind", ft, "None"), True)
        return o

    def par(self, a):
        return prov.leaf(show(self.params[a]), self.leaf_shapes[a]) if a in self.leaf_shapes else None


def crop(x, a, b):
    return prov.index(x, (slice(None), slice(None), slice(a, b)))


def timepad(x, p, right, v=0):
    flat = [0, 0] * (len(x.shape) - 3) + [p, p if right else 0]
    return prov.padding(x, flat, "constant", v) if p else x


def empty(shape):
    return prov.Arr(shape, [])


class NConv(Net):
    def __init__(self, k, s=1, p=0, n=1, ci=2, co=2, bias=True, groups=1):
        tp = lambda v: v if isinstance(v, tuple) else (v,) * n if n > 1 and not isinstance(v, int) else (v,) + ((1,) * (n - 1) if v in (k, s) else (0,) * (n - 1))
        self.k, self.st, self.pd = tp(k), tp(s), tp(p)
        super().__init__(f"Conv{n}d(k={k},s={s},p={p})")
        self.n, self.ci, self.co, self.bias, self.groups = n, ci, co, bias, groups
        self.D, self.s, self.p = self.k[0] - 1 - self.pd[0], self.st[0], self.pd[0]
        self.leaf_shapes = {"weight": (co, ci // groups) + self.k}
        if bias:
            self.leaf_shapes["bias"] = (co,)
        else:
            self.absent = ("bias",)

    def make(self, lab):
        one = self.n == 1
        f = lambda v: v[0] if one else v
        return lab.new(f"Conv{self.n}d", self.ci, self.co, f(self.k), stride=f(self.st), padding=f(self.pd), bias=self.bias, groups=self.groups)

    def fwd(self, x, right):
        x = timepad(x, self.pd[0], right)
        if x.shape[2] < self.k[0]:
            w = self.par("weight")
            sp = [(l + 2 * p - k) // s + 1 for l, p, k, s in zip(x.shape[3:], self.pd[1:], self.k[1:], self.st[1:])]
            return empty((x.shape[0], self.co, 0) + tuple(sp))
        return prov.conv(x, self.par("weight"), self.par("bias"), self.st, (0,) + self.pd[1:], (1,) * self.n, self.groups)


class NPool(Net):
    def __init__(self, kind, k, s=1, p=0, n=1):
        tp = lambda v, z: v if isinstance(v, tuple) else (v,) + (z,) * (n - 1)
        self.k, self.st, self.pd = tp(k, 1), tp(s, 1), tp(p, 0)
        super().__init__(f"{kind}Pool{n}d(k={k},s={s},p={p})")
        self.n, self.kind = n, kind
        self.D, self.s, self.p = self.k[0] - 1 - self.pd[0], self.st[0], self.pd[0]

    def make(self, lab):
        f = lambda v: v[0] if self.n == 1 else v
        return lab.new(f"{self.kind}Pool{self.n}d", f(self.k), stride=f(self.st), padding=f(self.pd))

    def fwd(self, x, right):
        low = self.kind.lower()
        if self.n > 1:  # space first: the zero padding of the two is the same window
            x = prov.pool(x, low, (1,) + self.k[1:], (1,) + self.st[1:], (0,) + self.pd[1:], n=self.n)
        x = timepad(x, self.pd[0], right, 0 if self.kind == "Avg" else -math.inf)
        if x.shape[2] < self.k[0]:
            return empty(x.shape[:2] + (0,) + x.shape[3:])
        return prov.pool(x, low, (self.k[0],) + (1,) * (self.n - 1), (self.st[0],) + (1,) * (self.n - 1), 0, n=self.n)


class NDelay(Net):
    """Delay, Skip and their like: frames lo .. T - hi of the clip."""

    def __init__(self, cn, d, lo=0, hi=0, D=None, **kw):
        super().__init__(f"{cn}({d}" + "".join(f",{a}={v}" for a, v in kw.items()) + ")")
        self.cn, self.d, self.lo, self.hi, self.kw = cn, d, lo, hi, kw
        self.D = d if D is None else D

    def make(self, lab):
        return lab.new(self.cn, self.d, **self.kw)

    def fwd(self, x, right):
        n = x.shape[2]
        return crop(x, self.lo, max(0, n - self.hi) if right else self.lo + max(0, n - self.D))


class NFun(Net):
    """A module acting on every element by itself."""

    def __init__(self, name, make, f):
        super().__init__(name)
        self.make, self.f = make, f

    def fwd(self, x, right):
        return prov.fmap(x, self.f)


class NLinear(Net):
    def __init__(self, ci=2, co=2):
        super().__init__(f"Linear({ci},{co})")
        self.ci, self.co = ci, co
        self.leaf_shapes = {"weight": (co, ci), "bias": (co,)}

    def make(self, lab):
        return lab.new("Linear", self.ci, self.co, channel_dim=1)

    def fwd(self, x, right):
        r = len(x.shape)
        o = [0] + list(range(2, r)) + [1]
        y = prov.linear(prov.permute(x, o), self.par("weight"), self.par("bias"))
        return prov.permute(y, [0, r - 1] + list(range(1, r - 1)))


class NRnn(Net):
    """A recurrent module: opaque cells, the state carried from frame to frame."""

    def __init__(self, cn, layers=1, ci=2, hidden=2, **kw):
        super().__init__(f"{cn}({ci},{hidden},{layers}" + "".join(f",{a}={v}" for a, v in kw.items()) + ")")
        self.cn, self.layers, self.ci, self.hidden, self.kw = cn, layers, ci, hidden, kw

    def make(self, lab):
        o = lab.new(self.cn, self.ci, self.hidden, self.layers, **self.kw)
        self.label = show(lab.fz(o))
        return o

    def fwd(self, x, right):
        y, _ = prov.recurrence(self.cn, self.label, self.layers, self.hidden, prov.permute(x, (0, 2, 1)), None, self.kw.get("proj_size", 0))
        return prov.permute(y, (0, 2, 1))


class NPos(Net):
    """Recycled positional embeddings added to the frames."""

    def __init__(self, m, e=2, **kw):
        super().__init__(f"RecyclingPositionalEncoding({e},{m}" + "".join(f",{a}={v}" for a, v in kw.items()) + ")")
        self.m, self.e, self.kw = m, e, kw
        if kw.get("learned") is False:
            self.leaf_shapes = {"pe.pattern": (m, e)}

    def make(self, lab):
        o = lab.new("RecyclingPositionalEncoding", self.e, self.m, **self.kw)
        pe = lab.attr(o, "pe")
        self.label = show(lab.fz(pe))
        if self.kw.get("learned") is False:  # the entries of the fixed table are not modelled
            pe.attrs["pattern"] = lab.I.fresh_ten(sym("pattern"))
        return o

    def fwd(self, x, right):
        w = self.par("pe.pattern") if self.leaf_shapes else prov.leaf(self.label + ".weight", (self.m, self.e))
        return prov.build(x.shape, lambda i: prov.add(x.at(i), w.at((i[2] % self.m, i[1]))))


class NSeq(Net):
    def __init__(self, *kids, nested=None):
        super().__init__("Sequential(" + ", ".join(k.name for k in kids) + ")", *kids)
        self.s = 1
        self.D = 0
        for k in kids:
            self.D += self.s * k.D
            self.s *= k.s

    def make(self, lab):
        return lab.new("Sequential", *[k.build(lab) for k in self.kids])

    def fwd(self, x, right):
        for k in self.kids:
            x = k.fwd(x, right)
        return x


FOLD = {"sum": prov.add, "mul": prov.mul, "max": lambda a, b: prov.maxi([a, b]), "custom": lambda a, b: prov.add(prov.mul(a, prov.num(3)), b)}


def combine(ys, how):
    n = min(y.shape[2] for y in ys)
    ys = [crop(y, 0, n) for y in ys]
    if how == "concat":
        return prov.cat(ys, 1)
    r = ys[0]
    for y in ys[1:]:
        r = prov.zip2(r, y, FOLD[how])
    return r


CUSTOM = """
def weighted(outs):
    r = outs[0]
    for i in range(1, len(outs)):
        r = r * 3 + outs[i]
    return r
"""


def reduction(lab, how, enum=False):
    """A reduction by name, as a member of the enumeration, or a function of all branch outputs."""
    if how == "custom":
        return lab.driver(CUSTOM, "container", "weighted")
    return lab.call(lab.fn("container", "Reduction"), how) if enum else how


class NBroad(Net):
    """Branches over the same input, combined."""

    def __init__(self, *kids, how="sum", form="BroadcastReduce", enum=False):
        super().__init__(f"{form}(" + ", ".join(k.name for k in kids) + f", reduce={'Reduction.' if enum else ''}{how})", *kids)
        self.how, self.form, self.enum = how, form, enum
        self.D, self.s = max(k.D for k in kids), kids[0].s

    def make(self, lab):
        ms = [k.build(lab) for k in self.kids]
        if self.form == "BroadcastReduce":
            return lab.new("BroadcastReduce", *ms, reduce=reduction(lab, self.how, self.enum))
        return lab.new("Sequential", lab.new("Broadcast", len(ms)), lab.new("Parallel", *ms), lab.new("Reduce", reduction(lab, self.how, self.enum)))

    def fwd(self, x, right):
        ys = [k.fwd(x, right) for k in self.kids]
        if right and len({y.shape[2] for y in ys}) > 1:
            raise Unsupported("branches of different length")
        return combine(ys, self.how)


class NResidual(Net):
    def __init__(self, kid, how="sum", **kw):
        super().__init__(f"Residual({kid.name}" + "".join(f",{a}={v}" for a, v in kw.items()) + (f",reduce={how}" if how != "sum" else "") + ")", kid)
        self.kw, self.how = kw, how
        self.D = kid.D

    def make(self, lab):
        kw = dict(self.kw)
        if self.how != "sum":
            kw["reduce"] = reduction(lab, self.how)
        return lab.call(lab.fn("container", "Residual"), self.kids[0].build(lab), **kw)

    def shrink(self, n, m):
        return {"centered": (n - m) // 2, True: (n - m) // 2, "leading": n - m}.get(self.kw.get("residual_shrink"), 0)

    def fwd(self, x, right):
        y = self.kids[0].fwd(x, right)
        T0 = 64
        full = self.kids[0].fwd(prov.const(x.shape[:2] + (T0,) + x.shape[3:], 0), True).shape[2]
        a = self.shrink(T0, full)
        r = crop(x, a, None)
        if right:
            if not self.kw.get("residual_shrink") and full != T0:
                raise Unsupported("unequal lengths")
            r = crop(r, 0, y.shape[2])
        return combine([r, y], self.how)


class NCond(Net):
    def __init__(self, a, b, pick):
        super().__init__(f"Conditional({'True' if pick else 'False'}, {a.name}, {b.name})", a, b)
        self.pick = pick
        self.D, self.s = max(a.D, b.D), a.s

    def make(self, lab):
        pred = lab.driver(f"def pred(module, x):\n    return {self.pick}\n", "container")
        return lab.new("Conditional", pred, self.kids[0].build(lab), self.kids[1].build(lab))

    def fwd(self, x, right):
        k = self.kids[0 if self.pick else 1]
        y = k.fwd(x, right)
        # the faster branch waits for the slower one
        return y if right else crop(y, 0, max(0, (x.shape[2] - self.D + self.s - 1) // self.s))


class NetSubject(S.Subject):
    def __init__(self, net, shape=(B, 2), cls=None):
        super().__init__(net.name, cls or "Sequential", None, family="net")
        self.net, self.shape = net, shape

    def where(self, lab, *ms):
        n = self.net
        cn = type(n).__name__
        top = {"NSeq": "Sequential", "NBroad": "BroadcastReduce", "NResidual": "BroadcastReduce", "NCond": "Conditional"}.get(cn)
        if top is None:
            top = getattr(n, "cn", None) or n.name.split("(")[0]
        return lab.where(lab.cls(top), *ms)


def net_thunk(lab, subj, run, training=False):
    """`run(o, ctx)` returns frozen outputs and the input terms."""

    def thunk(ctx):
        SHAPES.clear()
        o = subj.net.build(lab)
        for i in lab._reach([o])[0]:
            t = T("truth", T("attr", lab.fz(i), "training"))
            lab.I.ctx.facts.assume(t, training)
        outs, xs = run(o)
        return outs, xs, children(lab, o), [dict(n.params) for n in subj.net.nodes()], {x: SHAPES[x] for x in xs}

    return thunk


def net_eval(lab, subj, path):
    outs, xs, kids, params, shapes = path.value
    SHAPES.clear()
    leaves = dict(shapes)
    for n, ps in zip(subj.net.nodes(), params):
        n.params = ps
        for a, t in ps.items():
            leaves[t] = n.leaf_shapes.get(a)
    SHAPES.update({t: sh for t, sh in leaves.items() if sh is not None})
    lab.frame_children = kids
    return outs, xs, Eval({}, leaves, Resolver(lab))


def new_inputs(lab, subj, n):
    xs = []
    for i in range(n):
        v = sym(f"x{i}")
        SHAPES[v] = subj.shape
        lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
        xs.append(v)
    return xs


def net_stream(lab, subj, n, name="stream", training=False, threaded=False):
    """Step outputs are, one by one, the outputs of the regular forward with the clip's end open."""

    def run(o):
        xs = new_inputs(lab, subj, n)
        if threaded:  # the state handed from step to step by the caller
            st, ys = None, []
            for v in xs:
                y, st = lab.m(o, "_forward_step", v, st)
                ys.append(lab.fz(y))
            return ys, xs
        return [lab.fz(lab.m(o, "forward_step", v)) for v in xs], xs

    def judge(path):
        outs, xs, ev = net_eval(lab, subj, path)
        net = subj.net
        valid = [t for t, y in enumerate(outs) if y is not None]
        want_t = [t for t in range(n) if t >= net.D and (t - net.D) % net.s == 0]
        res = []
        try:
            want = net.fwd(prov.stack([ev.arr(x) for x in xs], 2), False)
            if valid != want_t:
                return [(False, f"stepping yields outputs at frames {valid} instead of {want_t}: the branches are not aligned" if len(net.kids) > 1 else f"stepping yields outputs at frames {valid} instead of {want_t}")]
            for j, t in enumerate(valid):
                got = ev.arr(outs[t])
                ref = prov.index(want, (slice(None), slice(None), j)) if j < want.shape[2] else None
                if ref is None:
                    res.append((None, "reference too short"))
                    continue
                m = diff(got, ref)
                res.append((m is None, "" if m is None else f"output of step {t}: {m}"))
        except Unsupported as e:
            res.append((prov.failed(e), str(e)))
        return res or [(None, "no output")]

    lab.obligation(name, subj.name, subj.where(lab, "forward_step", "_forward_step"), net_thunk(lab, subj, run, training), judge, unroll=8)


def net_clip(lab, subj, n, mode, name=None, unequal_ok=True):
    """`forward`, `forward_steps` or `forward_steps(pad_end=True)` of a clip against the reference."""

    def run(o):
        X = sym("X")
        SHAPES[X] = subj.shape[:2] + (n,) + subj.shape[2:]
        lab.I.ctx.facts.assume(T("kind", X, "Tensor"), True)
        kw = {"forward": {}, "forward_steps": {}, "padded": dict(pad_end=True)}[mode]
        return lab.fz(lab.m(o, "forward" if mode == "forward" else "forward_steps", X, **kw)), [X]

    def judge(path):
        out, xs, ev = net_eval(lab, subj, path)
        try:
            want = subj.net.fwd(ev.arr(xs[0]), mode != "forward_steps")
            if out is None:
                return [(want.shape[2] == 0, f"{mode}: no output instead of {want.shape[2]} outputs")]
            got = ev.arr(out[0] if isinstance(out, tuple) else out)
            if want.shape[2] == 0 and got.shape[2] == 0:
                return [(True, "")]
        except Unsupported as e:
            return [(prov.failed(e), f"{mode}: {e}")]
        m = diff(got, want)
        return [(m is None, "" if m is None else f"{mode}: {m}")]

    lab.obligation(name or mode, subj.name, subj.where(lab, "forward" if mode == "forward" else "forward_steps"), net_thunk(lab, subj, run), judge, unroll=10)
