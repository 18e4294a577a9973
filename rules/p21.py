"""P21: branches that are joined refer to the same moment.

Networks with joined branches of unequal delay are streamed and run over a clip; every output is
expanded in the provenance domain and compared with the operator definitions applied to the
same frames: a branch that is a frame early or late contributes other frames.
"""
import itertools

from coan import prov
from coan.prog import ExtClass
from . import frames as F
from .frames import NBroad, NConv, NCond, NDelay, NFun, NPool, NResidual, NSeq, NetSubject, NLinear


def relu():
    return NFun("ReLU", lambda lab: lab.call(ExtClass("ReLU")), lambda p: prov.fn("relu", p))


def nets(tier):
    C, A, D = NConv, NPool, NDelay
    out = []
    for k in (3, 5):
        p = k // 2
        out.append(NResidual(C(k, 1, p)))
        for sh in (True, "centered", "lagging", "leading"):
            out.append(NResidual(C(k), residual_shrink=sh))
    out += [NResidual(C(3), residual_shrink="lagging", temporal_fill="zeros"), NResidual(NSeq(C(3, 1, 1), C(3, 1, 1))), NResidual(NSeq(C(3), C(3)), residual_shrink=True),
            NResidual(NSeq(C(3), C(3)), residual_shrink="leading"), NResidual(NSeq(C(2), C(2)), residual_shrink="lagging"), NResidual(C(1)), NResidual(C(3, 1, 1), how="mul"),
            NResidual(NSeq(NResidual(C(3, 1, 1)), C(3, 1, 1)))]
    for how in ("sum", "concat", "mul", "max"):
        out.append(NBroad(C(3, 1, 1), C(5, 1, 2), how=how))
        out.append(NBroad(C(1), C(3, 1, 1), how=how, form="Parallel"))
    out += [NBroad(C(5, 1, 2), C(1), A("Avg", 3, 1, 1)), NBroad(C(1), A("Max", 3, 1, 1), C(7, 1, 3), how="max"), NBroad(NSeq(C(3, 1, 1), C(3, 1, 1)), C(3, 1, 1)),
            NBroad(NSeq(C(3, 1, 1), D("Delay", 2)), C(1)), NBroad(C(3, 1, 1), C(3, 1, 1)), NBroad(D("Delay", 3), C(5, 1, 2)),
            NBroad(NBroad(C(3, 1, 1), C(1)), C(5, 1, 2)), NBroad(C(3, 2, 1), C(5, 2, 2)), NBroad(C(1, 2), C(3, 2, 1)), NBroad(C(1, 3), C(5, 3, 2), C(3, 3, 1)), NBroad(C(3, 2, 1), C(5, 2, 2), form="Parallel"),
            NBroad(NSeq(C(3, 2, 1), C(3, 1, 1)), C(3, 2, 1)),
            NSeq(NResidual(C(3, 1, 1)), C(3, 2, 1), NBroad(C(1), C(3, 1, 1))), NSeq(C(3, 2, 1), NResidual(C(3, 1, 1))), NSeq(C(2, 2), NResidual(C(3), residual_shrink=True), A("Avg", 2, 2)),
            NCond(C(3, 1, 1), C(5, 1, 2), True), NCond(C(3, 1, 1), C(5, 1, 2), False), NCond(C(1), NSeq(C(3, 1, 1), C(3, 1, 1)), True), NCond(NResidual(C(5, 1, 2)), C(1), False)]
    for on in (True, False):
        out += [NCond(C(7), C(3, 1, 1), on), NCond(C(3, 1, 1), C(6), on), NCond(C(5, 1, 1), C(3), on), NCond(NSeq(C(3, 1, 1), C(2)), C(3, 1, 1), on)]
    if tier != "quick":
        for a, b in itertools.product((1, 3, 5, 7), repeat=2):
            out.append(NBroad(C(a, 1, a // 2), C(b, 1, b // 2), how="concat"))
        for a, b, s in itertools.product((1, 3, 5), (1, 3, 5), (2, 3)):
            out.append(NBroad(C(a, s, a // 2), C(b, s, b // 2)))
        for k in (7, 9):
            out.append(NResidual(C(k, 1, k // 2)))
            out.append(NResidual(C(k), residual_shrink=True))
    return out


def batch(lab, items):
    for net in items:
        subj = NetSubject(net)
        n = net.D + 4 * net.s + 4
        F.net_stream(lab, subj, n, "aligned")
        F.net_clip(lab, subj, n, "forward")


def run(lab, tier):
    items = nets(tier)
    for i in range(0, len(items), 3):
        lab.job(batch, items[i:i + 3])
