"""What calls leave behind in storage they do not own: the caller's inputs (P22) and outputs
handed out earlier (P23).

Every input is a tensor with storage of its own.  After each call of a sequence the contents of
all inputs handed over so far, and of all outputs returned so far, are read again and compared
with what they were when they changed hands.
"""
from coan.interp import Inst, PList, PDict, Ten
from coan.lab import verdict
from coan.terms import SHAPES, T, show, sym
from . import frames as F
from . import p29, p31, p33
from . import subjects as S
from .attn import Attn
from .common import seeds
from .frames import NBroad, NCond, NConv, NDelay, NLinear, NPool, NPos, NResidual, NRnn, NSeq

# a script is a list of (method, kind of input, keyword arguments)
STEPS = [("forward_step", "x", {})]
SCRIPTS = {
    "steps": STEPS * 3,
    "clip-then-step": [("forward_steps", "X", {})] + STEPS * 2,
    "padded-clip": [("forward_steps", "X", dict(pad_end=True))] + STEPS,
    "padded-preview": STEPS + [("forward_steps", "X", dict(pad_end=True, update_state=False))],
    "previews": STEPS + [("forward_step", "x", dict(update_state=False)), ("forward_steps", "X", dict(update_state=False))] + STEPS,
    "regular": [("forward", "X", {}), ("forward", "X", {})],
    "regular-amid-steps": STEPS + [("forward", "X", {})] + STEPS,
    "called": [("__call__", "X", {})] * 2,
    "threaded": [("_forward_step", "x", {})] * 3,
}


def own(lab, v, kept):
    """The value with every tensor in storage of its own, noted with its contents."""
    if isinstance(v, PList):
        r = PList([own(lab, x, kept) for x in v.items])
        kept.append((r, list(r.items)))
        return r
    if isinstance(v, tuple):
        return tuple(own(lab, x, kept) for x in v)
    if isinstance(v, T):
        t = lab.I.fresh_ten(v)
        sh = SHAPES.get(v)
        kept.append((t, v))
        return t
    return v


def parts(v, out):
    """Tensors and containers of a returned value."""
    if isinstance(v, (tuple, list)):
        for x in v:
            parts(x, out)
    elif isinstance(v, PList):
        out.append(v)
        for x in v.items:
            parts(x, out)
    elif isinstance(v, Ten):
        out.append(v)
    return out


def play(lab, o, script, mkx, mkX, state=True):
    """Runs a script; what changed in inputs and in outputs: lists of (what, later, earlier)."""
    ins, outs = [], []
    din, dout = [], []
    thread = None
    for i, (m, kind, kw) in enumerate(script):
        kept = []
        args = tuple(own(lab, v, kept) for v in (mkx if kind == "x" else mkX)(i))
        what = f"call {i} ({m})"
        ins += [(what, r, old) for r, old in kept]
        if m == "__call__":
            y = lab.call(o, *args, **kw)
        elif m == "_forward_step":
            y = lab.m(o, m, *args, prev_state=thread)
            y, thread = y.items if isinstance(y, PList) else y
        else:
            y = lab.m(o, m, *args, **kw)
        for who, r, old in ins:
            if isinstance(r, PList):
                din.append((f"the list handed to {who} after {what}", len(r.items) == len(old) and all(a is b for a, b in zip(r.items, old)), True))
            else:
                din.append((f"the input of {who} after {what}", lab.fz(r), old))
        for who, r, old in outs:
            if isinstance(r, PList):
                dout.append((f"the list returned by {who} after {what}", len(r.items) == len(old) and all(a is b for a, b in zip(r.items, old)), True))
            else:
                dout.append((f"the output of {who} after {what}", lab.fz(r), old))
        for r in parts(y, []):
            outs.append((what, r, list(r.items) if isinstance(r, PList) else lab.fz(r)))
    return din, dout


def judge(side):
    def f(path):
        res = []
        for what, new, old in path.value[side]:
            if new is old or new == old:
                res.append((True, ""))
            else:
                res.append(verdict(new, old, f"{what} is no longer what it was", path.facts))
        return res or [(True, "")]

    return f


def symbolic(lab, side, subj, name, hist):
    script = SCRIPTS[name]
    if subj.family in ("container", "plist"):
        script = script[:2]

    def thunk(ctx):
        o = subj.build(lab)
        seeds(lab, subj, o, hist)

        def frame(i):
            return renamed(lab, subj.x(i))

        def clip(i):
            return renamed(lab, subj.X(), i)

        return play(lab, o, script, frame, clip)

    lab.obligation(f"{name}-{hist}", subj.name, subj.where(lab, script[-1][0] if script[-1][0] != "__call__" else "forward"), thunk, judge(side))


def renamed(lab, vs, i=None):
    """Inputs of call i, with the shapes and assumptions of the subject's inputs."""
    def go(v):
        if isinstance(v, PList):
            return PList([go(x) for x in v.items])
        if i is None:
            w = v
        else:
            w = sym(f"{v.args[0]}_{i}")
            if v in SHAPES:
                SHAPES[w] = SHAPES[v]
        lab.I.ctx.facts.assume(T("kind", w, "Tensor"), True)
        lab.I.ctx.facts.assume(T("eq0", T("len", w)), False)
        return w

    return tuple(go(v) for v in vs)


def concrete(lab, side, subj, build, name, script, shape, frames, inputs=1, training=None):
    """Small modules with concrete sizes: ring buffers revolve, indices are known."""

    def thunk(ctx):
        SHAPES.clear()
        o = build(lab)
        if training is not None:
            for i in lab._reach([o])[0]:
                lab.I.ctx.facts.assume(T("truth", T("attr", lab.fz(i), "training")), training)

        def mk(tag, sh):
            def f(i):
                out = []
                for j in range(inputs):
                    v = sym(f"{tag}{i}{'qkv'[j] if inputs > 1 else ''}")
                    SHAPES[v] = sh
                    lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
                    out.append(v)
                return tuple(out)
            return f

        return play(lab, o, script, mk("x", shape), mk("X", frames))

    lab.obligation(name, subj.name, subj.where(lab, "forward_step"), thunk, judge(side), unroll=10)


def identity():
    return NDelay("Delay", 0, 0, 0, 0)


def nets(tier):
    """Modules whose children hand their input, or a piece of a buffer, through."""
    D = NDelay
    for how in ("sum", "concat", "mul", "max"):
        yield NBroad(identity(), D("Delay", 2, 0, 2, 2), how=how), 1
        yield NBroad(identity(), identity(), how=how), 1
        yield NBroad(D("Delay", 1, 0, 1, 1), D("Delay", 1, 0, 1, 1), how=how), 1
        yield NBroad(NConv(3, 1, 1), identity(), how=how, form="Parallel") if how == "sum" else NBroad(NConv(3, 1, 1), NConv(1), how=how), 1
    yield NResidual(identity()), 1
    yield NResidual(NConv(3, 1, 1)), 1
    yield NResidual(NConv(3), residual_shrink=True), 1
    yield NSeq(identity(), D("Delay", 2, 0, 2, 2), identity()), 1
    yield NSeq(D("Delay", 1, 0, 1, 1), NResidual(NConv(3, 1, 1))), 1
    yield NCond(identity(), D("Delay", 0, 0, 0, 0), True), 1
    yield NCond(identity(), D("Delay", 0, 0, 0, 0), False), 1
    yield NSeq(NPos(9), NConv(3, 1, 1)), 1
    for n, sd in p31.leaves("quick"):
        yield n, sd
    for n in p31.nets("quick"):
        yield n, 1


def all_jobs(lab, side, tier):
    subs = S.leaves() + S.mha_subjects() + S.container_subjects((1, 2))
    for subj in subs:
        lab.job(one_symbolic, side, subj, tier)
    items = list(nets(tier))
    for i in range(0, len(items), 4):
        lab.job(some_nets, side, items[i:i + 4], tier)
    for s in p29.attns(tier):
        lab.job(one_attn, side, s, tier)
    for s in p29.encoders(tier):
        lab.job(one_encoder, side, s, tier)


def one_symbolic(lab, side, subj, tier):
    for name in SCRIPTS:
        if name == "threaded" and subj.family in ("list", "plist", "stateless", "retrolambda"):
            continue
        for hist in ("fresh", "running"):
            if hist == "running" and name not in ("steps", "clip-then-step", "previews"):
                continue
            if subj.family in ("container", "plist"):  # children that are modules of the library: see nets()
                if hist == "running" or name in ("padded-preview", "regular-amid-steps"):
                    continue
            symbolic(lab, side, subj, name, hist)


def concrete_scripts(n):
    return {
        "revolving": STEPS * n,
        "mixed": STEPS * 2 + [("forward_steps", "X", {})] + STEPS + [("forward_steps", "X", dict(pad_end=True)), ("forward", "X", {})] + STEPS * 2 + [("forward_step", "x", dict(update_state=False))] + STEPS,
    }


def some_nets(lab, side, items, tier):
    for net, sd in items:
        subj = F.NetSubject(net, p31.SP[sd])
        n = net.D + 2 * net.s + 4
        L = max(5, net.D + net.s + 1)
        for name, script in concrete_scripts(n).items():
            for tr in (False, True):
                concrete(lab, side, subj, net.build, f"{name}-{'train' if tr else 'eval'}", script, subj.shape, subj.shape[:2] + (L,) + subj.shape[2:], training=tr)


def one_attn(lab, side, subj, tier):
    STEP, CLIP = ("forward_step", "x", {}), ("forward_steps", "X", {})
    scripts = {
        "revolving": [STEP] * (2 * subj.n + 2),
        "mixed": [STEP, CLIP, STEP, ("forward", "X", {}), STEP, ("forward_step", "x", dict(update_state=False)), ("forward_steps", "X", dict(update_state=False)), STEP],
        "threaded": [("_forward_step", "x", {})] * 4,
    }
    for name, script in scripts.items():
        for tr in (False, True):
            attention(lab, side, subj, f"{name}-{'train' if tr else 'eval'}", script, tr)


def attention(lab, side, subj, name, script, training):
    L = subj.n + 1

    def mk(shape):
        def f(i):
            out = []
            for j in range(subj.inputs):
                v = sym(f"x{i}{'qkv'[j]}")
                SHAPES[v] = shape(j)
                lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
                out.append(v)
            return tuple(out)
        return f

    def thunk(ctx):
        SHAPES.clear()
        o = subj.build(lab, training)
        return play(lab, o, script, mk(lambda j: (subj.batch, subj.dims(j))), mk(lambda j: subj.clip_shape(L, j)))

    lab.obligation(name, subj.name, subj.where(lab, "forward_step", "_forward_step"), thunk, judge(side), unroll=8)


def one_encoder(lab, side, subj, tier):
    STEP, CLIP = ("forward_step", "x", {}), ("forward_steps", "X", {})
    scripts = {
        "revolving": [STEP] * (2 * subj.n + 2),
        "mixed": [STEP, CLIP, STEP, ("forward", "X", {}), STEP, ("forward_step", "x", dict(update_state=False)), STEP],
    }
    shape, clip = (subj.batch, subj.embed), (subj.batch, subj.embed, subj.n + 1)

    def mk(sh):
        def f(i):
            v = sym(f"x{i}")
            SHAPES[v] = sh
            lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
            return (v,)
        return f

    for name, script in scripts.items():
        def thunk(ctx, script=script):
            SHAPES.clear()
            o = subj.build(lab)
            for t, sh in subj.leaves().items():
                if sh is not None:
                    SHAPES[t] = sh
            return play(lab, o, script, mk(shape), mk(clip))

        lab.obligation(name, subj.name, subj.where(lab, "forward_step", "_forward_step"), thunk, judge(side), unroll=8)
