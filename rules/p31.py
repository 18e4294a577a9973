"""P31: streaming reproduces the regular forward computation.

Leaf modules and networks are run in all three modes.  The outputs of stepping, of a clip fed in
one or several pieces and of an end-padded clip are expanded in the provenance domain (exact
sums of products of frame elements and parameters; maxima as sets) and compared with the
operator definitions of the regular forward pass over the same frames - and so is `forward`.
"""
import itertools

from coan import prov
from coan.terms import SHAPES, T, sym
from . import frames as F
from .frames import NBroad, NConv, NCond, NDelay, NFun, NLinear, NPool, NPos, NRnn, NResidual, NSeq, NetSubject
from .p21 import relu

SP = {1: (F.B, 2), 2: (F.B, 2, 3), 3: (1, 2, 3, 2)}


def leaves(tier):
    deep = tier != "quick"
    for k, s in itertools.product((1, 2, 3, 4) if not deep else (1, 2, 3, 4, 5, 7), (1, 2, 3)):
        for p in sorted({0, k // 2, k - 1}):
            yield NConv(k, s, p), 1
    yield NConv(3, 1, 1, bias=False, groups=2), 1
    yield NConv((3, 2), (1, 1), (1, 0), n=2, co=3), 2
    yield NConv((2, 3), (2, 2), (0, 1), n=2), 2
    yield NConv((3, 2, 2), (1, 1, 1), (1, 1, 0), n=3), 3
    yield NConv((2, 2, 1), (2, 2, 1), (1, 0, 0), n=3, bias=False), 3
    for kind in ("Avg", "Max"):
        for k, s in itertools.product((1, 2, 3) if not deep else (1, 2, 3, 4, 5), (1, 2)):
            for p in sorted({0, k // 2}):
                yield NPool(kind, k, s, p), 1
        yield NPool(kind, (3, 2), (1, 2), (1, 1), n=2), 2
        yield NPool(kind, (2, 3), (2, 1), (0, 1), n=2), 2
        yield NPool(kind, (2, 2, 2), (1, 1, 2), (1, 1, 0), n=3), 3
    for d in (1, 2, 3):
        yield NDelay("Delay", d), 1
        yield NDelay("Delay", d, d, d, 2 * d, auto_shrink=True), 1
        yield NDelay("Delay", d, d, d, 2 * d, auto_shrink="centered"), 1
        yield NDelay("Delay", d, 0, d, d, auto_shrink="lagging"), 1
        yield NDelay("Skip", d, d, 0, d), 1
    for cn in ("RNN", "GRU", "LSTM"):
        yield NRnn(cn), 1
        yield NRnn(cn, 2, 2, 3), 1
    yield NRnn("LSTM", 1, 2, 3, proj_size=2), 1
    for m in (6, 7, 8):
        yield NPos(m), 1
    yield NLinear(2, 3), 1
    yield NLinear(2, 3), 2


def nets(tier):
    C, A, D = NConv, NPool, NDelay
    yield NSeq(C(3, 1, 1), relu(), C(3, 1, 1))
    yield NSeq(C(3), relu(), A("Avg", 2), NLinear())
    yield NSeq(C(3, 2, 1), C(3, 1, 1))
    yield NSeq(C(3, 2, 1), relu(), C(3, 2, 1))
    yield NSeq(A("Max", 3, 2, 1), C(2, 1, 0))
    yield NSeq(C(2, 2), A("Avg", 3, 1, 1), D("Delay", 1))
    yield NSeq(D("Delay", 2), C(3, 1, 1))
    yield NSeq(NSeq(C(3, 1, 1), A("Max", 2)), NSeq(C(2, 2), relu()))
    yield NSeq(C(1, 3), C(3, 1, 1))
    yield NSeq(NPos(9), C(3, 1, 1))
    yield NSeq(C(3), NLinear())
    yield NResidual(C(3, 1, 1))
    yield NResidual(C(3), residual_shrink=True)
    yield NResidual(C(5), residual_shrink="lagging")
    yield NResidual(C(3), residual_shrink="leading")
    yield NSeq(NResidual(NSeq(C(3, 1, 1), relu(), C(3, 1, 1))), relu(), C(1))
    yield NBroad(C(3, 1, 1), C(5, 1, 2), C(1), how="concat")
    yield NBroad(C(3, 1, 1), A("Avg", 3, 1, 1), how="max")
    yield NBroad(C(3, 2, 1), C(5, 2, 2))
    yield NSeq(NBroad(C(1), C(3, 1, 1)), C(3, 2, 1), relu())
    yield NSeq(NBroad(C(3, 1, 1), C(1), form="Parallel"), A("Max", 2))
    yield NCond(C(3, 1, 1), C(5, 1, 2), True)
    yield NCond(C(3, 1, 1), C(5, 1, 2), False)
    if tier != "quick":
        for a, b, s, t in itertools.product((1, 2, 3), (2, 3), (1, 2), (1, 2)):
            yield NSeq(C(a, s, a // 2), C(b, t, b // 2))
            yield NSeq(A("Avg", a, s, a // 2), relu(), C(b, t, 0))


def pieces(lab, subj, cuts, name, frame_first=0):
    """A clip handed over in pieces (and its first frames one by one)."""
    n = sum(cuts) + frame_first

    def run(o):
        xs = F.new_inputs(lab, subj, frame_first)
        outs = []
        for x in xs:
            outs.append(("step", lab.fz(lab.m(o, "forward_step", x))))
        for i, c in enumerate(cuts):
            X = sym(f"X{i}")
            SHAPES[X] = subj.shape[:2] + (c,) + subj.shape[2:]
            lab.I.ctx.facts.assume(T("kind", X, "Tensor"), True)
            xs.append(X)
            outs.append(("clip", lab.fz(lab.m(o, "forward_steps", X))))
        return outs, xs

    def judge(path):
        outs, xs, ev = F.net_eval(lab, subj, path)
        try:
            parts = [ev.arr(x) for x in xs]
            x = prov.cat([prov.reshape(a, a.shape[:2] + (1,) + a.shape[2:]) if i < frame_first else a for i, a in enumerate(parts)], 2)
            want = subj.net.fwd(x, False)
            got = []
            for kind, v in outs:
                if v is None:
                    continue
                a = ev.arr(v)
                got.append(prov.reshape(a, a.shape[:2] + (1,) + a.shape[2:]) if kind == "step" else a)
            if not got:
                return [(want.shape[2] == 0, f"no output instead of {want.shape[2]} outputs")]
            m = F.diff(prov.cat(got, 2), want)
        except F.Unsupported as e:
            return [(prov.failed(e), str(e))]
        return [(m is None, "" if m is None else f"clips of {cuts} frames{f' after {frame_first} single frames' if frame_first else ''}: {m}")]

    lab.obligation(name, subj.name, subj.where(lab, "forward_steps"), F.net_thunk(lab, subj, run), judge, unroll=10)


def batch(lab, items, tier):
    for net, sd in items:
        subj = NetSubject(net, SP[sd])
        n = net.D + 3 * net.s + 3
        for tr in (False, True) if not net.kids or tier != "quick" else (False,):
            F.net_stream(lab, subj, n, "stream-" + ("train" if tr else "eval"), training=tr)
        F.net_clip(lab, subj, n, "forward_steps", "clip")
        F.net_clip(lab, subj, n, "forward", "forward")
        F.net_clip(lab, subj, n, "padded", "padded")
        pieces(lab, subj, [1, n - 3, 2], "pieces")
        pieces(lab, subj, [2, n - 4], "steps-then-clips", frame_first=2)


def run(lab, tier):
    items = list(leaves(tier))
    for i in range(0, len(items), 4):
        lab.job(batch, items[i:i + 4], tier)
    for x in nets(tier):
        lab.job(batch, [(x, 1)], tier)
