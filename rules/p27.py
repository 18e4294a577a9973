"""P27: reductions combine every branch exactly once.

Networks that join two to five branches - by name, by enumeration member or with a function of the
branch outputs that is sensitive to their order - and the join module on its own are run in every
mode; each output element is expanded in the provenance domain and compared with the fold of the
same elements of all branches.
"""
import itertools

from coan import prov
from coan.prog import ExtClass
from coan.terms import SHAPES, PList, T, sym
from . import frames as F
from .frames import Net, NBroad, NConv, NDelay, NFun, NPool, NResidual, NSeq, NetSubject

HOWS = ("sum", "concat", "mul", "max", "custom")


def relu():
    return NFun("ReLU", lambda lab: lab.call(ExtClass("ReLU")), lambda p: prov.fn("relu", p))


def times(c):
    return NFun(f"Multiply({c})", lambda lab: lab.call(lab.fn("closure", "Multiply"), c), lambda p: prov.mul(p, prov.num(c)))


def plus(c):
    return NFun(f"Add({c})", lambda lab: lab.call(lab.fn("closure", "Add"), c), lambda p: prov.add(p, prov.num(c)))


def nets(tier):
    deep = tier != "quick"
    C = NConv
    for how in HOWS:
        co = (lambda i: 2 + i % 2) if how == "concat" else (lambda i: 2)
        for n in (2, 3, 4, 5):
            for form in ("BroadcastReduce", "Parallel"):
                yield NBroad(*[C(1, co=co(i)) for i in range(n)], how=how, form=form), ()
        yield NBroad(times(2), relu(), plus(1), how=how), ()
        yield NBroad(C(3, 1, 1), times(3), C(1), how=how), ()
        yield NBroad(C(3, 1, 1), plus(2), relu(), C(1), how=how, form="Parallel"), ()
        yield NBroad(C(3, 2, 1), C(1, 2), C(5, 2, 2), how=how), ()
        if how != "custom":
            yield NBroad(C(1), C(1), C(1), how=how, enum=True), ()
            yield NBroad(C(1), relu(), C(1), how=how, form="Parallel", enum=True), ()
        yield NResidual(C(3, 1, 1), how=how), ()
        yield NResidual(C(3), how=how, residual_shrink=True), ()
        yield NSeq(C(1), NBroad(NBroad(C(1), relu(), how=how), C(1), times(2), how=how)), ()
        for extra in ((3,), (2, 2)):
            k, p = (1,) + (3,) * len(extra), (0,) + (1,) * len(extra)
            yield NBroad(C(k, 1, p, n=1 + len(extra)), relu(), times(2), how=how), extra
            yield NBroad(times(5), C(k, 1, p, n=1 + len(extra)), relu(), how=how, form="Parallel"), extra
        if deep:
            for n in (6, 7, 8):
                yield NBroad(*[C(1) for i in range(n)], how=how), ()
                yield NBroad(*[C(1) for i in range(n)], how=how, form="Parallel"), ()
            for ks in itertools.product((1, 3, 5), repeat=3):
                yield NBroad(*[C(k, 1, k // 2) for k in ks], how=how), ()


def batch(lab, items):
    for net, extra in items:
        subj = NetSubject(net, shape=(2, 2) + extra)
        n = net.D + 2 * net.s + 1
        F.net_stream(lab, subj, n, "reduce-step")
        if not extra and n < 6:
            F.net_stream(lab, subj, n, "reduce-_forward_step", threaded=True)
        F.net_clip(lab, subj, n, "forward", "reduce-forward")
        F.net_clip(lab, subj, n, "forward_steps", "reduce-forward_steps")


def bare(lab, how, n, enum):
    """The join module given the list of branch outputs itself."""
    subj = NetSubject(NFun(f"Reduce({'Reduction.' if enum else ''}{how}) of {n} outputs", lambda l: l.new("Reduce", F.reduction(l, how, enum)), None), cls="Reduce")

    def attempt(mode, shape):
        def run(o):
            xs = []
            for i in range(n):
                v = sym(f"y{i}")
                SHAPES[v] = shape[:1] + (shape[1] + (i % 2 if how == "concat" else 0),) + shape[2:]
                lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
                xs.append(v)
            out = lab.m(o, mode, PList(xs))
            if mode == "_forward_step":
                out = out[0]
            return lab.fz(out), xs

        def judge(path):
            out, xs, ev = F.net_eval(lab, subj, path)
            if out is None:
                return [(False, f"{mode}: no output although every branch has one")]
            try:
                ys = [ev.arr(x) for x in xs]
                want = fold(ys, how)
                m = F.diff(ev.arr(out), want)
            except F.Unsupported as e:
                return [(prov.failed(e), str(e))]
            return [(m is None, "" if m is None else f"{mode}: {m}")]

        lab.obligation(f"join-{mode}", subj.name, lab.where(lab.cls("Reduce"), mode), F.net_thunk(lab, subj, run), judge, unroll=8)

    for mode, shape in (("forward", (2, 3, 2, 2)), ("forward_steps", (2, 3, 4)), ("forward_step", (2, 3)), ("_forward_step", (2, 3, 2))):
        attempt(mode, shape)


def fold(ys, how):
    if how == "concat":
        return prov.cat(ys, 1)
    r = ys[0]
    for y in ys[1:]:
        r = prov.zip2(r, y, F.FOLD[how])
    return r


def bares(lab, how, tier):
    for n in (2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6, 7):
        bare(lab, how, n, False)
    if how != "custom":
        bare(lab, how, 3, True)


def run(lab, tier):
    for how in HOWS:
        lab.job(bares, how, tier)
    items = list(nets(tier))
    for i in range(0, len(items), 4):
        lab.job(batch, items[i:i + 4])
