"""P34: warming up equals feeding `delay` empty frames.

After `warm_up(frame shape)` the module is stepped through frames with symbolic contents.  The
outputs, expanded in the provenance domain, have to be those of the regular operators over a
stream that starts with `delay` zero frames: none missing, none early, none computed from
anything else.
"""
import math

from coan import prov
from coan.lab import verdict
from coan.terms import T, sym
from . import frames as F
from .frames import NDelay, NFun, NPool, NetSubject
from .p31 import SP, leaves, nets


def advertised(net):
    """Delay of a part as its metadata states it (decided by P12 and P13)."""
    if isinstance(net, NDelay):
        return 0 if net.cn == "Skip" else net.d
    return net.D


def warmed(lab, subj, m, history):
    net = subj.net
    A = advertised(net)

    def run(o):
        old = [sym(f"h{i}") for i in range(history)]
        new = [sym(f"x{i}") for i in range(m)]
        for v in old + new:
            F.SHAPES[v] = subj.shape
            lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
        for v in old:
            lab.m(o, "forward_step", v)
        lab.m(o, "warm_up", subj.shape)
        return [lab.fz(lab.m(o, "forward_step", v)) for v in new], old + new

    def judge(path):
        outs, xs, ev = F.net_eval(lab, subj, path)
        try:
            fill = -math.inf if isinstance(net, NPool) and net.kind == "Max" else 0
            zero = [prov.const(subj.shape, fill)] * A
            stream = [ev.arr(x) for x in xs[:history]] + zero + [ev.arr(x) for x in xs[history:]]
            want = net.fwd(prov.stack(stream, 2), False)
            first = history + A
            when = [t for t in range(len(stream)) if t >= net.D and (t - net.D) % net.s == 0]
            got_t = [t + first for t, y in enumerate(outs) if y is not None]
            want_t = [t for t in when if t >= first]
            if got_t != want_t:
                rel = lambda l: [t - first for t in l]
                return [(False, f"after warming up, outputs come with frames {rel(got_t)} instead of {rel(want_t)}")]
            res = [(True, "")]
            for t in want_t:
                a = ev.arr(outs[t - first])
                w = F.crop(want, when.index(t), when.index(t) + 1)
                w = prov.reshape(w, w.shape[:2] + w.shape[3:])
                d = F.diff(a, w)
                res.append((d is None, "" if d is None else f"output {t - first} after warming up: {d}"))
            return res
        except F.Unsupported as e:
            return [(prov.failed(e), str(e))]

    lab.obligation("warm-up" + (f"-after{history}" if history else ""), subj.name, subj.where(lab, "warm_up", "forward_steps", "forward_step"), F.net_thunk(lab, subj, run), judge, unroll=10)


def attention(lab, cn, n, second, first):
    """Attention modules: whatever the layout of clips, warming up runs and leaves the start-up phase behind."""
    delay = n - 1 if cn.startswith("Retro") else 0
    name = f"{cn}(sequence_len={n}, embed_dim_second={second}, batch_first={first})"

    def thunk(ctx):
        F.SHAPES.clear()
        o = lab.new(cn, 4, 2, 0.0, sequence_len=n, embed_dim_second=second, batch_first=first)
        for i in lab._reach([o])[0]:
            lab.I.ctx.facts.assume(T("truth", T("attr", lab.fz(i), "training")), False)
        fact = lab.I.ctx.facts.assume
        fact(T("truth", T("attr", lab.fz(o), "_qkv_same_embed_dim")), True)
        for a, none in (("bias_k", True), ("bias_v", True), ("in_proj_weight", False), ("in_proj_bias", False)):
            v = lab.fz(lab.attr(o, a))
            fact(T("kind", v, "None"), none)
            if not none:
                F.SHAPES[v] = (12, 4) if a == "in_proj_weight" else (12,)
        before = lab.fz(lab.m(o, "get_state"))
        lab.m(o, "warm_up", (2, 4))
        after = lab.fz(lab.m(o, "get_state"))
        x = sym("x")
        F.SHAPES[x] = (2, 4)
        lab.I.ctx.facts.assume(T("kind", x, "Tensor"), True)
        return before, after, lab.fz(lab.m(o, "forward_step", x))

    def judge(path):
        before, after, y = path.value
        if delay:
            return [(y is not None, "no output with the first frame after warming up")]
        return [verdict(before, after, "warming up a module without delay changes its state", path.facts), (n > 1 or y is not None, "no output for the first frame")]

    lab.obligation("warm-up-attention", name, lab.where(lab.cls(cn), "warm_up", "forward_steps", "forward_step"), thunk, judge, unroll=10)


def batch(lab, items, tier):
    for net, sd in items:
        subj = NetSubject(net, SP[sd])
        warmed(lab, subj, net.s + 2, 0)
        if tier != "quick":
            warmed(lab, subj, net.s + 2, 2)


def lifted():
    yield NDelay("Delay", 2, temporal_fill="replicate"), 1
    yield NFun("Lambda(nn.Identity())", lambda lab: lab.new("Lambda", lab.call(lab.driver("def make():\n    return nn.Identity()\n", "closure"))), lambda x: x), 1
    for cn in ("Identity",):
        yield NFun(f"Lambda({cn})", lambda lab, cn=cn: lab.call(lab.fn("closure", cn)), lambda x: x), 1


def run(lab, tier):
    items = list(leaves(tier)) + list(lifted())
    for i in range(0, len(items), 6):
        lab.job(batch, items[i:i + 6], tier)
    for cn in ("SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"):
        for second in (False, True):
            for first in (False, True):
                for n in (2, 4):
                    lab.job(attention, cn, n, second, first)
    for x in nets(tier):
        lab.job(batch, [(x, 1)], tier)
