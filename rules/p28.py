"""P28: function modules run the function given for each mode.

`Lambda` over every combination of per-mode functions and time handling, and the arithmetic
shorthands, are run in each mode.  The functions differ per mode and act differently on frames and
on clips, so the provenance of the outputs shows which of them ran, on what and how often.
"""
import itertools

from coan import prov
from coan.terms import SHAPES, T, sym
from . import frames as F
from .frames import Net, NetSubject

# name: source of the function, its meaning on an array
FRAME = {
    "affine": ("def affine(x):\n    return x * 2 + 1\n", lambda a: prov.fmap(a, lambda p: prov.add(prov.mul(p, prov.num(2)), prov.num(1)))),
    "first_channel": ("def first_channel(x):\n    return x[:, :1] * 5\n", lambda a: prov.fmap(prov.index(a, (slice(None), slice(0, 1))), lambda p: prov.mul(p, prov.num(5)))),
    "spread": ("def spread(x):\n    return torch.cat([x, x - x[:, :1]], dim=1)\n", lambda a: prov.cat([a, prov.zip2(a, prov.cat([prov.index(a, (slice(None), slice(0, 1)))] * a.shape[1], 1), lambda p, q: prov.add(p, q, -1))], 1)),
}
CLIP = {
    "affine": FRAME["affine"],
    "relative": ("def relative(x):\n    return x * 3 - x[:, :, :1]\n", lambda a: prov.zip2(prov.fmap(a, lambda p: prov.mul(p, prov.num(3))), prov.cat([prov.index(a, (slice(None), slice(None), slice(0, 1)))] * a.shape[2], 2), lambda p, q: prov.add(p, q, -1))),
    "first_channel": FRAME["first_channel"],
}
ONLY = {
    "forward": ("def only_forward(x):\n    return x * (7 + x.dim())\n", lambda a: prov.fmap(a, lambda p: prov.mul(p, prov.num(7 + len(a.shape))))),
    "forward_step": ("def only_step(x):\n    return x * (11 + x.dim())\n", lambda a: prov.fmap(a, lambda p: prov.mul(p, prov.num(11 + len(a.shape))))),
    "forward_steps": ("def only_steps(x):\n    return x * (13 + x.dim())\n", lambda a: prov.fmap(a, lambda p: prov.mul(p, prov.num(13 + len(a.shape))))),
}
ARG = {"forward": "forward_only_fn", "forward_step": "forward_step_only_fn", "forward_steps": "forward_steps_only_fn"}


class Closure(Net):
    """`step(frame)`, `clip(clip, mode)`: the meaning in either kind of mode."""

    def __init__(self, name, make, step, clip, flat=False):
        super().__init__(name)
        self.flat = flat
        self.make, self.step, self.clip = make, step, clip


def time_as_dim(x):
    sh = x.shape[:2] + (1,) + x.shape[2:]
    return prov.Arr(sh, x.data)


def lam(fname, takes_time, only, how):
    table = CLIP if takes_time else FRAME
    src, f = table[fname] if fname else (None, None)

    def make(lab):
        kw = {}
        if src:
            kw["fn"] = lab.driver(src, "closure")
        for m in only:
            kw[ARG[m]] = lab.driver(ONLY[m][0], "closure")
        if takes_time:
            kw["takes_time"] = True
        if how == "build_from":
            return lab.call(lab.I.getattr_(lab.cls("Lambda"), "build_from", None), kw.pop("fn", None), **kw)
        if how == "positional":
            order = ["fn", "forward_only_fn", "forward_step_only_fn", "forward_steps_only_fn", "takes_time"]
            return lab.new("Lambda", *[kw.get(a, False if a == "takes_time" else None) for a in order])
        return lab.new("Lambda", **kw)

    def step(x):
        if "forward_step" in only:
            return ONLY["forward_step"][1](x)
        if takes_time:
            y = f(time_as_dim(x))
            return prov.index(y, (slice(None), slice(None), 0))
        return f(x)

    def clip(x, mode):
        if mode in only:
            return ONLY[mode][1](x)
        if takes_time:
            return f(x)
        return prov.stack([f(prov.index(x, (slice(None), slice(None), t))) for t in range(x.shape[2])], 2)

    name = f"Lambda({', '.join([fname or 'None'] + [ARG[m] for m in only])}{', takes_time=True' if takes_time else ''}){'' if how == 'keywords' else ' ' + how}"
    return Closure(name, make, step, clip)


def shorthand(name, fn, args, el):
    f = lambda a: prov.fmap(a, el)
    return Closure(name, lambda lab: lab.call(lab.fn("closure", fn), *args), f, lambda x, mode: f(x), True)


def subjects(tier):
    for takes_time in (False, True):
        table = CLIP if takes_time else FRAME
        for r in range(4):
            for only in itertools.combinations(("forward", "forward_step", "forward_steps"), r):
                for fname in (list(table) if r == 0 else list(table)[:2]) + ([None] if r == 3 else []):
                    for how in ("keywords", "build_from", "positional") if fname in (None, list(table)[0]) else ("keywords",):
                        yield lam(fname, takes_time, only, how)
    num = prov.num
    for c in (3, -2.5, 0, 1):
        yield shorthand(f"Add({c})", "Add", (c,), lambda p, c=c: prov.add(p, num(c)))
        yield shorthand(f"Multiply({c})", "Multiply", (c,), lambda p, c=c: prov.mul(p, num(c)))
        yield shorthand(f"Constant({c})", "Constant", (c,), lambda p, c=c: num(c))
    yield shorthand("Zero()", "Zero", (), lambda p: num(0))
    yield shorthand("One()", "One", (), lambda p: num(1))
    yield shorthand("Identity()", "Identity", (), lambda p: p)
    yield shorthand("Identity(54, unused)", "Identity", (54, "unused"), lambda p: p)


def run_step(lab, subj, shape, threaded):
    n = 3

    def run(o):
        xs, ys = [], []
        for i in range(n):
            v = sym(f"x{i}")
            SHAPES[v] = shape
            lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
            xs.append(v)
            if threaded:
                y, st = lab.m(o, "_forward_step", v, sym("prior"))
                ys.append((lab.fz(y), lab.fz(st)))
            else:
                ys.append((lab.fz(lab.m(o, "forward_step", v, **({"update_state": False} if i == 1 else {}))), sym("prior")))
        return ys, xs

    def judge(path):
        ys, xs, ev = F.net_eval(lab, subj, path)
        res = []
        for t, (y, st) in enumerate(ys):
            if st is not sym("prior"):
                res.append((False, "the state handed in is not handed on"))
            if y is None:
                res.append((False, f"step {t}: no output"))
                continue
            try:
                m = F.diff(ev.arr(y), subj.net.step(ev.arr(xs[t])))
            except F.Unsupported as e:
                res.append((prov.failed(e), f"step {t}: {e}"))
                continue
            res.append((m is None, "" if m is None else f"step {t}: {m}"))
        return res

    lab.obligation("fn-_forward_step" if threaded else "fn-forward_step", f"{subj.name} {shape}", lab.where(lab.cls("Lambda"), "forward_step", "_forward_step"), F.net_thunk(lab, subj, run), judge, unroll=8)


def run_clip(lab, subj, shape, n, mode, kw):
    def run(o):
        X = sym("X")
        SHAPES[X] = SHAPE(shape, n)
        lab.I.ctx.facts.assume(T("kind", X, "Tensor"), True)
        return lab.fz(lab.m(o, mode, X, **kw)), [X]

    def judge(path):
        out, xs, ev = F.net_eval(lab, subj, path)
        if out is None:
            return [(False, f"{mode}: no output")]
        try:
            m = F.diff(ev.arr(out), subj.net.clip(ev.arr(xs[0]), mode))
        except F.Unsupported as e:
            return [(prov.failed(e), f"{mode}: {e}")]
        return [(m is None, "" if m is None else f"{mode}: {m}")]

    lab.obligation(f"fn-{mode}", f"{subj.name} {SHAPE(shape, n)}{''.join(f' {k}={v}' for k, v in kw.items())}", lab.where(lab.cls("Lambda"), mode), F.net_thunk(lab, subj, run), judge, unroll=8)


def SHAPE(s, n):
    return s if n is None else s[:2] + (n,) + s[2:]


def geometry(lab, subj):
    """The function adds no delay, padding or stride."""

    def run(o):
        v = {a: lab.fz(lab.attr(o, a)) for a in ("delay", "receptive_field")}
        v.update({a: lab.fz(lab.I.num(lab.I.getitem(lab.attr(o, a), 0, None))) for a in ("stride", "padding")})
        return v, []

    def judge(path):
        v = path.value[0]
        want = dict(delay=0, receptive_field=1, stride=1, padding=0)
        return [(v[a] == want[a], f"{a} is {v[a]} instead of {want[a]}") for a in want]

    lab.obligation("fn-geometry", subj.name, lab.where(lab.cls("Lambda")), F.net_thunk(lab, subj, run), judge)


def batch(lab, items, tier):
    for net in items:
        subj = NetSubject(net, cls="Lambda")
        geometry(lab, subj)
        shapes = [(2, 3), (1, 1), (2, 2, 1), (1, 2, 2, 2)] + ([(1, 2, 1, 1), (3, 1, 2)] if tier != "quick" else [])
        for shape in shapes:
            for threaded in (False, True):
                run_step(lab, subj, shape, threaded)
            for mode in ("forward", "forward_steps"):
                for n in (1, 3) if tier == "quick" else (1, 2, 3, 5):
                    run_clip(lab, subj, shape, n, mode, {})
            if net.flat and len(shape) == 2:  # element by element: the shorthands take any shape (container docs)
                for sh in ((1,), (2, 3)):
                    run_clip(lab, subj, sh, None, "forward", {})
                    run_clip(lab, subj, sh, None, "forward_steps", {})
            run_clip(lab, subj, shape, 2, "forward_steps", dict(pad_end=True))
            run_clip(lab, subj, shape, 2, "forward_steps", dict(update_state=False))


def window_fn(fname, takes_time, how):
    """RetroactiveLambda: the function is applied to whole windows that a retroactive module puts out."""
    src, f = (CLIP if takes_time else FRAME)[fname]

    def make(lab):
        fn = lab.driver(src, "closure")
        kw = {"takes_time": True} if takes_time else {}
        if how == "build_from":
            return lab.call(lab.I.getattr_(lab.cls("RetroactiveLambda"), "build_from", None), fn, **kw)
        return lab.new("RetroactiveLambda", fn, **kw)

    def clip(x):
        return f(x) if takes_time else prov.stack([f(prov.index(x, (slice(None), slice(None), t))) for t in range(x.shape[2])], 2)

    return Closure(f"RetroactiveLambda({fname}{', takes_time=True' if takes_time else ''}){'' if how == 'keywords' else ' ' + how}", make, None, clip)


def windows(lab, net, n):
    subj = NetSubject(net, cls="RetroactiveLambda")
    shape = (2, 3, n)

    def window(name, sh):
        v = sym(name)
        SHAPES[v] = sh
        lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
        return v

    def run(o):
        w = [window(f"w{i}", shape) for i in range(3)]
        X = window("X", (2, 3, 2, n))
        ys = [lab.fz(lab.m(o, "forward", w[0])), lab.fz(lab.m(o, "forward_step", w[1], update_state=False))]
        y, st = lab.m(o, "_forward_step", w[2], sym("prior"))
        return ys + [lab.fz(y), lab.fz(st), lab.fz(lab.m(o, "forward_steps", X, pad_end=True))], w + [X]

    def judge(path):
        ys, xs, ev = F.net_eval(lab, subj, path)
        st = ys.pop(3)
        res = [(st is sym("prior"), "the state handed in is not handed on")]
        for mode, y, x in zip(("forward", "forward_step", "_forward_step", "forward_steps"), ys, xs):
            try:
                a = ev.arr(x)
                want = net.clip(a) if mode != "forward_steps" else prov.stack([net.clip(prov.index(a, (slice(None), slice(None), t))) for t in range(2)], 2)
                m = "no output" if y is None else F.diff(ev.arr(y), want)
            except F.Unsupported as e:
                res.append((prov.failed(e), f"{mode}: {e}"))
                continue
            res.append((m is None, "" if m is None else f"{mode} of a window: {m}"))
        return res

    lab.obligation("fn-window", f"{subj.name} window {n}", lab.where(lab.cls("RetroactiveLambda"), "forward", "forward_step", "forward_steps", "build_from"), F.net_thunk(lab, subj, run), judge, unroll=8)


def retro(lab, tier):
    for takes_time in (False, True):
        for fname in CLIP if takes_time else FRAME:
            for how in ("keywords", "build_from"):
                for n in (1, 3) if tier == "quick" else (1, 2, 3, 5):
                    windows(lab, window_fn(fname, takes_time, how), n)


def run(lab, tier):
    lab.job(retro, tier)
    items = list(subjects(tier))
    for i in range(0, len(items), 4):
        lab.job(batch, items[i:i + 4], tier)
