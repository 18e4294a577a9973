"""P24: configurations for which streaming is not defined are refused, the documented ones are accepted.

Refusal: every path through the construction (for options that only matter later: through
construction and first use) of a forbidden configuration ends in an exception; the
arguments are symbols ranging over the whole forbidden region, or enumerated where the guard is
not arithmetic.  Acceptance: no path through an allowed one does.
"""
import itertools

from coan.interp import PList
from coan.terms import SHAPES, T, eq0, ge0, p_add, p_sub, show, sym
from . import subjects as S
from .subjects import P


def region(lab, **ranges):
    """Symbols within bounds: name=(lo, hi), None for open."""
    out = {}
    F = lab.I.ctx.facts
    for a, (lo, hi) in ranges.items():
        v = sym("c_" + a)
        if lo is not None:
            F.assume(ge0(p_sub(v, lo)), True)
        if hi is not None:
            F.assume(ge0(p_sub(hi, v)), True)
        F.assume(T("kind", v, "int"), True)
        out[a] = v
    return out


# (name, anchor, source of go(...), {argument: (lo, hi)})
REFUSED = []
ACCEPTED = []


def no(name, where, expr, **ranges):
    REFUSED.append((name, where, expr, ranges))


def ok(name, where, expr, **ranges):
    ACCEPTED.append((name, where, expr, ranges))


def table():
    del REFUSED[:], ACCEPTED[:]
    # temporal dilation of convolutions
    for n in (1, 2, 3):
        sp = ", 3" * (n - 1)
        cn = f"Conv{n}d"
        at = (cn, "__init__")
        no(f"{cn} temporal dilation", at, f"{cn}(2, 2, (3{sp}), dilation=(n{', 1' * (n - 1)},))", n=(2, None))
        no(f"{cn} dilation as one number", at, f"{cn}(2, 2, 3, dilation=n)", n=(2, None))
        ok(f"{cn} dilation 1", at, f"{cn}(2, 2, 3, dilation=1)")
        if n > 1:
            for d in (1, 2, 3):
                ok(f"{cn} spatial dilation {d}", at, f"{cn}(2, 2, 3, dilation=(1{f', {d}' * (n - 1)}))")
        for f in ("replicat", "neg_inf", "constant", None, 3, ""):
            if f is not None:
                no(f"{cn} temporal_fill={f!r}", at, f"{cn}(2, 2, 3, temporal_fill={f!r})")
        for f in ("circular", "reflect", "none"):
            no(f"{cn} padding_mode={f!r}", at, f"{cn}(2, 2, 3, padding=1, padding_mode={f!r})")
        for f in ("zeros", "replicate"):
            ok(f"{cn} temporal_fill={f!r}", at, f"{cn}(2, 2, 3, padding=1, temporal_fill={f!r})")
            ok(f"{cn} padding_mode={f!r}", at, f"{cn}(2, 2, 3, padding=1, padding_mode={f!r})")
        for k, s, p in itertools.product((1, 2, 5), (1, 3), (0, 1, 4)):
            ok(f"{cn} kernel {k} stride {s} padding {p}", at, f"{cn}(4, 2, {k}, stride={s}, padding={p}, groups=2, bias=False)")
    # pooling
    for fam, n in itertools.product(("Avg", "Max"), (1, 2, 3)):
        cn = f"{fam}Pool{n}d"
        at = (cn, "__init__")
        no(f"{cn} kernel without a frame", at, f"{cn}((n{', 2' * (n - 1)},))", n=(None, 0))
        ok(f"{cn} kernel of frames", at, f"{cn}((n{', 2' * (n - 1)},))", n=(1, None))
        for f in ("replicat", "reflect", ""):
            no(f"{cn} temporal_fill={f!r}", at, f"{cn}(2, temporal_fill={f!r})")
        for f in ("zeros", "replicate", "neg_inf"):
            ok(f"{cn} temporal_fill={f!r}", at, f"{cn}(2, temporal_fill={f!r})")
        ok(f"{cn} temporal dilation", at, f"{cn}(2, stride=1, dilation=(n{', 1' * (n - 1)},))", n=(1, None))
        if fam == "Avg" and n > 1:
            for i in range(1, n):
                d = ", ".join("n" if j == i else "1" for j in range(n))
                no(f"{cn} spatial dilation ({d})", at, f"{cn}(2, dilation=({d}))", n=(2, None))
            no(f"{cn} dilation as one number", at, f"{cn}(2, dilation=n)", n=(2, None))
        if fam == "Max" and n > 1:
            for d in (2, 3):
                ok(f"{cn} spatial dilation {d}", at, f"{cn}(2, dilation=(1{f', {d}' * (n - 1)}))")
        if n > 1:
            cn = f"Adaptive{fam}Pool{n}d"
            at = (cn, "__init__")
            no(f"{cn} several time steps", at, f"{cn}((n{', 2' * (n - 1)}), 3)", n=(2, None))
            no(f"{cn} several time steps as one number", at, f"{cn}(n, 3)", n=(2, None))
            no(f"{cn} no time step", at, f"{cn}((n{', 2' * (n - 1)}), 3)", n=(None, 0))
            no(f"{cn} kernel without a frame", at, f"{cn}((1{', 2' * (n - 1)}), n)", n=(None, 0))
            for o in (1, 2, 5):
                ok(f"{cn} to {o}", at, f"{cn}((1{f', {o}' * (n - 1)}), 3)")
            ok(f"{cn} to 1 as one number", at, f"{cn}(1, 3)")
    # delays
    for cn in ("Delay", "SelectOrDelay", "RetroactiveUnity"):
        no(f"negative {cn}", (cn, "__init__"), f"{cn}(n)", n=(None, -1))
        ok(f"{cn}", (cn, "__init__"), f"{cn}(n)", n=(0, None))
    no("negative Skip", ("Skip", "__init__"), "Skip(n)", n=(None, -1))
    ok("Skip", ("Skip", "__init__"), "Skip(n)", n=(1, None))
    for v in ("neg_inf", "reflect", "", "replicat"):
        no(f"Delay temporal_fill={v!r}", ("Delay", "__init__"), f"Delay(3, temporal_fill={v!r})")
    for v in ("leading", "center", "", 2):
        no(f"Delay auto_shrink={v!r}", ("Delay", "__init__"), f"Delay(2, auto_shrink={v!r})")
    for f, v in itertools.product(("zeros", "replicate"), (True, False, "centered", "lagging")):
        ok(f"Delay temporal_fill={f!r} auto_shrink={v!r}", ("Delay", "__init__"), f"Delay(2, temporal_fill={f!r}, auto_shrink={v!r})")
    # branches
    for form, tail in (("BroadcastReduce", ""), ("Parallel", "")):
        at = (form, "__init__")
        for auto in (True, False):
            no(f"{form} unequal strides, auto_delay={auto}", at, f"{form}(Conv1d(2, 2, 3, stride=a), Conv1d(2, 2, 3, stride=b), auto_delay={auto})", a=(1, 4), b=(5, None))
            no(f"{form} unequal strides of the last branch, auto_delay={auto}", at, f"{form}(Conv1d(2, 2, 3, stride=a), Conv1d(2, 2, 1, stride=a), Conv1d(2, 2, 3, stride=b), auto_delay={auto})", a=(1, 4), b=(5, None))
            no(f"{form} unequal strides of plain modules, auto_delay={auto}", at, f"{form}(nn.Conv1d(2, 2, 3, stride=2), nn.Conv1d(2, 2, 3, stride=1), auto_delay={auto})")
            no(f"{form} unequal strides of stages, auto_delay={auto}", at, f"{form}(Sequential(Conv1d(2, 2, 3, stride=2), Conv1d(2, 2, 3, stride=2)), Conv1d(2, 2, 3, stride=2), auto_delay={auto})")
        ok(f"{form} equal strides", at, f"{form}(Conv1d(2, 2, 3, stride=2), Conv1d(2, 2, 1, stride=2))")
        ok(f"{form} equal strides of stages", at, f"{form}(Sequential(Conv1d(2, 2, 3, stride=2), Conv1d(2, 2, 3, stride=2)), Conv1d(2, 2, 3, stride=4))")
        ok(f"{form} of plain modules", at, f"{form}(nn.Conv1d(2, 2, 3, padding=1), nn.Conv1d(2, 2, 1))")
    at = ("BroadcastReduce", "__init__")
    no("BroadcastReduce of one branch", at, "BroadcastReduce(Conv1d(2, 2, 3))")
    no("BroadcastReduce of no branch", at, "BroadcastReduce()")
    for cn in ("BroadcastReduce(Conv1d(2, 2, 1), Conv1d(2, 2, 1), reduce={})", "Reduce({})", "Residual(Conv1d(2, 2, 3, padding=1), reduce={})"):
        w = cn.split("(")[0]
        at = (w, "__init__") if w != "Residual" else ("container", w)
        for r in ("mean", "", "Sum", 3):
            no(f"{w} reduce={r!r}", at, cn.format(repr(r)))
        for r in ("sum", "concat", "mul", "max"):
            ok(f"{w} reduce={r!r}", at, cn.format(repr(r)))
    # residuals
    at = ("container", "Residual")
    no("Residual over a stride", at, "Residual(Conv1d(2, 2, 3, stride=n, padding=1))", n=(2, None))
    no("Residual over a strided stage", at, "Residual(Sequential(Conv1d(2, 2, 3, padding=1), AvgPool1d(2, stride=2)))")
    for k, p in ((2, 0), (4, 0), (6, 0), (4, 1)):
        for sh in ("True", "'centered'"):
            if (k - 1 - p) % 2 if p else True:
                no(f"Residual shrunk ({sh}) by an odd number: kernel {k} padding {p}", at, f"Residual(Conv1d(2, 2, {k}, padding={p}), residual_shrink={sh})")
    for k in (3, 5, 7):
        for sh in ("True", "'centered'", "'lagging'", "'leading'", "False"):
            ok(f"Residual shrink={sh} kernel {k}", at, f"Residual(Conv1d(2, 2, {k}), residual_shrink={sh})")
        ok(f"Residual kernel {k}", at, f"Residual(Conv1d(2, 2, {k}, padding={k // 2}))")
    no("Residual shrink='middle'", at, "Residual(Conv1d(2, 2, 3), residual_shrink='middle')")
    # attention
    for cn in ("SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"):
        no(f"{cn} window without a frame", (cn, "__init__"), f"{cn}(4, 2, sequence_len=n)", n=(None, 0))
        ok(f"{cn} window", (cn, "__init__"), f"{cn}(4, 2, sequence_len=n)", n=(1, None))
        no(f"{cn} add_zero_attn=True by the first step", (cn, "forward_step"), f"{cn}(4, 2, sequence_len=3, add_zero_attn=True).forward_step(x)")
    cn = "SingleOutputMultiheadAttention"
    for n in (1, 2, 5):
        no(f"{cn} query_index beyond a window of {n}", (cn, "__init__"), f"{cn}(4, 2, sequence_len={n}, query_index=q)", q=(n, None))
        no(f"{cn} query_index before a window of {n}", (cn, "__init__"), f"{cn}(4, 2, sequence_len={n}, query_index=q)", q=(None, -n - 1))
        ok(f"{cn} query_index in a window of {n}", (cn, "__init__"), f"{cn}(4, 2, sequence_len={n}, query_index=q)", q=(-n, n - 1))
    for kind in ("SingleOutput", "Retroactive"):
        f = kind + "TransformerEncoderLayer"
        no(f"{f} window without a frame", ("transformer", f), f"{f}(4, 2, sequence_len=n)", n=(None, 0))
        ok(f"{f} window", ("transformer", f), f"{f}(4, 2, sequence_len=n)", n=(1, None))
    for v in ("both", "", "Retroactive"):
        no(f"encoder layer kind {v!r}", ("transformer", "TransformerEncoderLayerFactory"), f"TransformerEncoderLayerFactory(4, 2, 4, sequence_len=3)({v!r})")
    # recurrence
    for cn in ("RNN", "GRU", "LSTM"):
        no(f"conversion of a bidirectional {cn}", (cn, "build_from"), f"continual(nn.{cn}(2, 3, bidirectional=True))")
        no(f"conversion of a bidirectional {cn} inside a container", (cn, "build_from"), f"continual(nn.Sequential(nn.{cn}(2, 3, bidirectional=True)))")
        ok(f"conversion of a {cn}", (cn, "build_from"), f"continual(nn.{cn}(2, 3, bidirectional=False))")
    # other conversions
    at = ("convert", "continual")
    for d in (1, 2, 3):
        i = f"InstanceNorm{d}d"
        for a, t in itertools.product((True, False), (True, False)):
            (ok if a and t else no)(f"conversion of {i}(affine={a}, track_running_stats={t})", at, f"continual(nn.{i}(4, affine={a}, track_running_stats={t}))")
        no(f"conversion of a dilated Conv{d}d", at, f"continual(nn.Conv{d}d(2, 2, 3, dilation=2))")
        no(f"conversion of a dilated Conv{d}d inside a container", at, f"continual(nn.Sequential(nn.ReLU(), nn.Conv{d}d(2, 2, 3, dilation=3)))")
        ok(f"conversion of Conv{d}d", at, f"continual(nn.Conv{d}d(2, 4, 3, stride=2, padding=1, groups=2))")
    for m in ("ConstantPad1d(1, 0.0)", "Bilinear(2, 2, 2)", "Fold(2, 2)"):
        no(f"conversion of {m.split('(')[0]}, which has no streaming form", at, f"continual(nn.{m})")
    # modes
    for v in ("step", "", "forwards"):
        no(f"call mode {v!r}", ("module", "_callmode"), f"call_mode({v!r})")
    for v in ("forward", "forward_step", "forward_steps", "FORWARD_STEP"):
        ok(f"call mode {v!r}", ("module", "_callmode"), f"call_mode({v!r})")
    # functions and shapes
    no("Lambda of nothing", ("Lambda", "__init__"), "Lambda()")
    no("Lambda of a non-function", ("Lambda", "__init__"), "Lambda(3)")
    no("Lambda with one mode missing", ("Lambda", "__init__"), "Lambda(None, identity, identity)")
    no("Lambda with the clip mode only", ("Lambda", "__init__"), "Lambda(forward_steps_only_fn=identity)")
    ok("Lambda of a function", ("Lambda", "__init__"), "Lambda(identity)")
    ok("Lambda per mode", ("Lambda", "__init__"), "Lambda(None, identity, identity, identity)")
    no("Conditional on a non-function", ("Conditional", "__init__"), "Conditional(3, Conv1d(2, 2, 1))")
    ok("Conditional on a function", ("Conditional", "__init__"), "Conditional(identity, Conv1d(2, 2, 1), Conv1d(2, 2, 1))")
    no("Reshape to nothing", ("Reshape", "__init__"), "Reshape()")
    no("Reshape to a name", ("Reshape", "__init__"), "Reshape('a')")
    ok("Reshape", ("Reshape", "__init__"), "Reshape(2, 3)")
    ok("Reshape to a sequence", ("Reshape", "__init__"), "Reshape((2, 3))")
    for v in ("3", "[1.5]", "[[0, 1.5]]", "[None]"):
        no(f"ParallelDispatch {v}", ("ParallelDispatch", "__init__"), f"ParallelDispatch({v})")
    for v in ("[0, 1]", "[1, [0, 2]]", "[[0, 1], 2, 0]", "(1, 0)"):
        ok(f"ParallelDispatch {v}", ("ParallelDispatch", "__init__"), f"ParallelDispatch({v})")
    # inputs of the wrong rank
    for cn, r in (("Conv1d(2, 2, 3)", 3), ("Conv2d(2, 2, 3)", 4), ("Conv3d(2, 2, 3)", 5)):
        for q in (2, 3, 4, 5, 6):
            (ok if q == r else no)(f"{cn} forward of rank {q}", (cn.split("(")[0], "forward"), f"{cn}.forward(clip{q})")
    for fam in ("Avg", "Max"):
        for n in (1, 2, 3):
            for q in (2, 3, 4, 5, 6):
                (ok if q == n + 2 else no)(f"{fam}Pool{n}d forward_steps of rank {q}", (f"{fam}Pool{n}d", "forward_steps"), f"{fam}Pool{n}d(2).forward_steps(clip{q})")
                if q < 6:
                    (ok if q == n + 1 else no)(f"{fam}Pool{n}d forward_step of rank {q}", (f"{fam}Pool{n}d", "_forward_step"), f"{fam}Pool{n}d(2).forward_step(clip{q})")


def anchor(lab, where):
    a, b = where
    if b == a or a.islower():
        return lab.fwhere(lab.fn(a, b))
    return lab.where(lab.cls(a), b)


def driver(expr, names):
    return "def identity(x):\n    return x\n\ndef go(" + ", ".join(names) + f"):\n    return {expr}\n"


def attempt(lab, expr, ranges):
    names = sorted(ranges)
    extra = [v for v in ("x", "m", "clip2", "clip3", "clip4", "clip5", "clip6") if any(v == w for w in idents(expr))]
    src = driver(expr, names + extra)

    def thunk(ctx):
        SHAPES.clear()
        args = region(lab, **ranges)
        vals = [args[n] for n in names]
        for v in extra:
            t = sym("in_" + v)
            F = lab.I.ctx.facts
            F.assume(T("kind", t, "Tensor"), True)
            SHAPES[t] = (2, 4) if v in "xm" else (2, 2, 6, 5, 4, 3)[:int(v[4:])]
            vals.append(t)
        lab.call(lab.driver(src, "container", "go"), *vals)

    return thunk


def attend(lab, cn, inputs):
    """A supported attention module takes steps."""
    from .attn import Attn
    sub = Attn(cn, 3, inputs)

    def thunk(ctx):
        SHAPES.clear()
        o = sub.build(lab)
        xs = []
        for i in range(inputs):
            t = sym(f"in_{i}")
            lab.I.ctx.facts.assume(T("kind", t, "Tensor"), True)
            SHAPES[t] = (2, 4)
            xs.append(t)
        for _ in range(4):
            lab.m(o, "forward_step", *xs)

    def judge(path):
        return [(path.kind != "raise", f"a step raises {getattr(path.value, 'name', '')}")]

    lab.obligation("accepted", f"steps of {sub.name}", lab.where(lab.cls(cn), "forward_step"), thunk, judge, raises_ok=False, need_return=True, unroll=8)


def idents(expr):
    import ast
    return {n.id for n in ast.walk(ast.parse(expr, mode="eval")) if isinstance(n, ast.Name)}


def refuse(lab, name, where, expr, ranges):
    def judge(path):
        return [(path.kind == "raise", f"{expr}{span(ranges)} is accepted")]

    lab.obligation("refused", name, anchor(lab, where), attempt(lab, expr, ranges), judge, raises_ok=False, need_return=False, unroll=8)


def accept(lab, name, where, expr, ranges):
    def judge(path):
        if path.kind == "raise":
            e = path.value
            return [(None if path.ctx.imprecise else False, f"{expr}{span(ranges)} raises {e.name} at line {getattr(getattr(e, 'node', None), 'lineno', '?')}")]
        return [(True, "")]

    lab.obligation("accepted", name, anchor(lab, where), attempt(lab, expr, ranges), judge, raises_ok=False, need_return=True, unroll=8)


def span(ranges):
    return "".join(f", {a} {'any' if lo is None and hi is None else f'<= {hi}' if lo is None else f'>= {lo}' if hi is None else f'in {lo}..{hi}'}" for a, (lo, hi) in ranges.items())


def batch(lab, items):
    for kind, args in items:
        (refuse if kind == "no" else accept)(lab, *args)


def run(lab, tier):
    table()
    items = [("no", r) for r in REFUSED] + [("ok", a) for a in ACCEPTED]
    for i in range(0, len(items), 16):
        lab.job(batch, items[i:i + 16])
    for cn in ("SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"):
        for n in (1, 3):
            lab.job(attend, cn, n)
