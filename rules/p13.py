"""P13: the first output comes with the frame after the advertised delay, then one per stride.

The index arithmetic is evaluated for every hyper-parameter combination of an enumerated grid,
with symbolic frame contents, shapes, weights and training flag.
"""
import itertools
from coan.terms import SHAPES, sym
from . import subjects as S
from .subjects import P, new


def pool_cfg(tier):
    for k, s, d in itertools.product((1, 2, 3, 4) if tier != "quick" else (1, 2, 3), (1, 2, 3) if tier == "quick" else (1, 2, 3, 4), (1, 2) if tier == "quick" else (1, 2, 3)):
        rf = d * (k - 1) + 1
        for p in sorted({0, 1, k // 2, rf - 1} & set(range(rf))):
            yield k, s, p, d


def conv_cfg(tier):
    for k, s in itertools.product((1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5), (1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        for p in sorted({0, 1, k // 2, k - 1} & set(range(k))):
            yield k, s, p


def concrete(tier):
    """(subject, first valid step, period) triples."""
    out = []
    ci, co = S.ci, S.co

    def add(name, cn, make, fam, first, period, **kw):
        out.append((S.Subject(name, cn, make, family=fam, **kw), first, period))

    for k, s, p in conv_cfg(tier):
        add(f"Conv1d(k={k},s={s},p={p})", "Conv1d", new("Conv1d", ci, co, k, stride=s, padding=p), "conv", k - 1 - p, s)
        if s != 3 and k in (1, 3):
            add(f"Conv2d(k={k},s={s},p={p})", "Conv2d", new("Conv2d", ci, co, (k, 3), stride=(s, 2), padding=(p, 1)), "conv", k - 1 - p, s)
            add(f"Conv3d(k={k},s={s},p={p})", "Conv3d", new("Conv3d", ci, co, (k, 3, 2), stride=(s, 2, 1), padding=(p, 1, 0)), "conv", k - 1 - p, s)
    for k, s, p, d in pool_cfg(tier):
        D = d * (k - 1) - p
        for f in ("Avg", "Max"):
            add(f"{f}Pool1d(k={k},s={s},p={p},d={d})", f"{f}Pool1d", new(f"{f}Pool1d", k, stride=s, padding=p, dilation=d), "pool", D, s)
        if k == 3 and s != 3:
            add(f"AvgPool2d(k={k},s={s},p={p},d={d})", "AvgPool2d", new("AvgPool2d", (k, 2), stride=(s, 3), padding=(p, 1), dilation=(d, 1)), "pool", D, s)
            add(f"MaxPool3d(k={k},s={s},p={p},d={d})", "MaxPool3d", new("MaxPool3d", (k, 2, 2), stride=(s, 3, 1), padding=(p, 1, 0), dilation=(d, 1, 1)), "pool", D, s)
    for k in (1, 2, 3):
        add(f"AdaptiveAvgPool2d(k={k})", "AdaptiveAvgPool2d", new("AdaptiveAvgPool2d", (1, 2), kernel_size=k), "pool", k - 1, 1)
        add(f"AdaptiveMaxPool3d(k={k})", "AdaptiveMaxPool3d", new("AdaptiveMaxPool3d", (1, 2, 2), kernel_size=k), "pool", k - 1, 1)
    for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        add(f"Delay({d})", "Delay", new("Delay", d), "delay", d, 1)
        add(f"Delay({d},auto_shrink=True)", "Delay", new("Delay", d, auto_shrink=True), "delay", 2 * d, 1)
        add(f"Delay({d},auto_shrink=centered)", "Delay", new("Delay", d, auto_shrink="centered"), "delay", 2 * d, 1)
        add(f"Delay({d},auto_shrink=lagging)", "Delay", new("Delay", d, auto_shrink="lagging"), "delay", d, 1)
        add(f"SelectOrDelay({d})", "SelectOrDelay", new("SelectOrDelay", d), "delay", d, 1)
        add(f"RetroactiveUnity({d})", "RetroactiveUnity", new("RetroactiveUnity", d), "retro", d, 1)
        add(f"Skip({d})", "Skip", new("Skip", d), "skip", d, 1)
        n = d + 1
        add(f"SingleOutputMHA(sequence_len={n})", "SingleOutputMultiheadAttention", new("SingleOutputMultiheadAttention", S.E_, S.H_, sequence_len=n), "mha", n - 1, 1)
        add(f"SingleOutputMHA(sequence_len={n},query_index=0)", "SingleOutputMultiheadAttention", new("SingleOutputMultiheadAttention", S.E_, S.H_, sequence_len=n, query_index=0), "mha", n - 1, 1)
        add(f"RetroactiveMHA(sequence_len={n})", "RetroactiveMultiheadAttention", new("RetroactiveMultiheadAttention", S.E_, S.H_, sequence_len=n), "mha", n - 1, 1)
    add("Delay(0)", "Delay", new("Delay", 0), "delay", 0, 1)
    for subj in S.rnn_subjects() + S.rpe_subjects() + [x for x in S.stateless_subjects() if x.family == "stateless"]:
        out.append((subj, 0, 1))
    return out


def composed(tier):
    """Sequences of modules with concrete timing: delay and stride of the whole are those it advertises."""
    out = []
    cv = lambda lab, k, s, p: lab.new("Conv1d", S.ci, S.ci, k, stride=s, padding=p)
    av = lambda lab, k, s, p: lab.new("AvgPool1d", k, stride=s, padding=p)
    dl = lambda lab, d, *_: lab.new("Delay", d)
    combos = [((cv, 3, 1, 0), (cv, 3, 1, 1)), ((cv, 3, 2, 1), (cv, 3, 1, 1)), ((cv, 2, 2, 0), (av, 3, 2, 1)), ((dl, 2, 1, 0), (cv, 3, 2, 0)), ((cv, 1, 3, 0), (cv, 2, 1, 0)),
              ((av, 2, 1, 0), (dl, 3, 1, 0)), ((cv, 3, 3, 2), (cv, 3, 1, 0), (av, 2, 2, 0))]
    if tier != "quick":
        combos += [((cv, 3, 2, 1), (cv, 3, 2, 1), (cv, 3, 2, 1)), ((av, 3, 3, 0), (cv, 3, 1, 1), (dl, 2, 1, 0)), ((cv, 5, 1, 2), (cv, 4, 2, 0))]
    for c in combos:
        D, st = 0, 1
        for f, k, s, p in c:
            D += st * (k if f is dl else k - 1 - p)
            st *= 1 if f is dl else s
        nm = {cv: "Conv1d", av: "AvgPool1d", dl: "Delay"}
        name = "Sequential(" + ", ".join(f"{nm[f]}({k},{s},{p})" if f is not dl else f"Delay({k})" for f, k, s, p in c) + ")"
        out.append((S.Subject(name, "Sequential", lambda lab, c=c: lab.new("Sequential", *[f(lab, k, s, p) for f, k, s, p in c]), family="seq"), D, st))
    return out


def pattern(lab, subj, first, period, clean):
    T = first + 2 * period + 2

    def thunk(ctx):
        o = subj.build(lab)
        if clean:
            for i in range(min(T, 3)):
                lab.m(o, "forward_step", *inputs(subj, 50 + i))
            lab.m(o, "clean_state")
        return [lab.fz(lab.m(o, "forward_step", *inputs(subj, i))) is not None for i in range(T)]

    def judge(path):
        want = [t >= first and (t - first) % period == 0 for t in range(T)]
        got = path.value
        if got == want:
            return [(True, "")]
        w = lambda l: [t for t, v in enumerate(l) if v]
        return [(False, f"stepping yields outputs at frames {w(got)} instead of {w(want)} (delay {first}, stride {period})")]

    lab.obligation("pattern" + ("-cleaned" if clean else ""), subj.name, subj.where(lab, "forward_step", "_forward_step", "init_state") if subj.family != "seq" else subj.where(lab, "forward_step"), thunk, judge, unroll=8)


def inputs(subj, i):
    if subj.family == "seq":
        v = sym(f"x{i}")
        SHAPES.setdefault(v, (P("B", 2), S.ci))
        return (v,)
    return subj.x(i)


def batch(lab, items):
    for subj, first, period in items:
        for clean in (False, True):
            if clean and subj.family in ("stateless",):
                continue
            pattern(lab, subj, first, period, clean)


def run(lab, tier):
    items = concrete(tier)
    for it in composed(tier):
        lab.job(batch, [it])
    n = 12
    for i in range(0, len(items), n):
        lab.job(batch, items[i:i + n])
