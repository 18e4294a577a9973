"""P12: advertised temporal metadata follows from the hyper-parameters and the composition rules."""
from coan.interp import Opq, PDict
from coan.lab import same
from coan.terms import POSITIVE, is_num, p_add, p_max, p_mul, p_sub, show, sym
from . import subjects as S
from .p06 import PLAIN
from .subjects import P, opaque

# ------------------------------------------------------------------ expectations (oracle)
# md = (receptive field, delay, temporal stride, temporal padding)


def md_of(o):
    a = o.attrs
    return (a["receptive_field"], a["delay"], a["stride"][0], a["padding"][0])


def maxs(vs):
    return p_max(list(vs))


def seq(mds):
    rf, st, pad = 1, 1, 0
    for r, _, s, p in mds:
        rf = p_add(rf, p_mul(st, p_sub(r, 1)))
        pad = p_add(pad, p_mul(st, p))
        st = p_mul(st, s)
    return (rf, p_sub(p_sub(rf, 1), pad), st, pad)


def par(mds):
    return (maxs([m[0] for m in mds]), maxs([m[1] for m in mds]), mds[0][2], maxs([m[3] for m in mds]))


def leaf_md(subj):
    n, f = subj.name, subj.family
    if f == "conv":
        return (S.k, p_sub(p_sub(S.k, 1), S.p), S.s, S.p)
    if f == "pool":
        if "Adaptive" in n:
            return (S.k, p_sub(S.k, 1), 1, 0)
        d = S.dd if "dilation d" in n else 1
        rf = p_add(p_mul(d, p_sub(S.k, 1)), 1)
        return (rf, p_sub(p_sub(rf, 1), S.p), S.s, S.p)
    if f == "delay":
        d = 0 if n == "Delay(0)" else S.dd
        return (p_add(d, 1), d, 1, 0)
    if f == "retro":
        return (p_add(S.dd, 1), S.dd, 1, 0)
    if f == "mha":
        d = 0 if n.startswith("Single") else p_sub(S.N_, 1)
        if "query_index=0" in n:
            d = p_sub(S.N_, 1)
        return (S.N_, d, 1, 0)
    return (1, 0, 1, 0)


# ------------------------------------------------------------------ structures
class Node:
    """A composition: how to build it and what it must advertise."""

    def __init__(self, name, build, md):
        self.name, self.build, self.md = name, build, md


def lf(name, **attrs):
    """A part with unknown metadata (consistent: delay = field - 1 - padding)."""
    r, p = P("r_" + name), P("p_" + name, 0)
    a = dict(receptive_field=r, padding=(p, P("pw_" + name, 0)), delay=p_sub(p_sub(r, 1), p), stride=(P("s_" + name), P("sw_" + name)))
    a.update(attrs)
    md = md_of(Opq(name, "comodule", a))
    return Node(name, lambda lab: opaque(name, **a), md)


def n_seq(*kids):
    return Node("Sequential(%s)" % ", ".join(k.name for k in kids), lambda lab: lab.new("Sequential", *[k.build(lab) for k in kids]), seq([k.md for k in kids]))


def odict(lab, pairs):
    return lab.call(lab.driver("""
from collections import OrderedDict
def mk(pairs):
    return OrderedDict(pairs)
""", name="mk"), pairs)


def n_seq_named(*kids):
    from coan.interp import PList
    return Node("Sequential(OrderedDict(%s))" % ", ".join(k.name for k in kids),
                lambda lab: lab.new("Sequential", odict(lab, PList([("n" + str(i), k.build(lab)) for i, k in enumerate(kids)]))), seq([k.md for k in kids]))


def n_append(first, *later):
    def build(lab):
        o = lab.new("Sequential", first.build(lab))
        for k in later:
            lab.m(o, "append", k.build(lab))
        return o
    return Node("Sequential(%s)%s" % (first.name, "".join(f".append({k.name})" for k in later)), build, seq([k.md for k in (first,) + later]))


def n_br(*kids):
    return Node("BroadcastReduce(%s)" % ", ".join(k.name for k in kids), lambda lab: lab.new("BroadcastReduce", *[k.build(lab) for k in kids], auto_delay=False), par([k.md for k in kids]))


def n_par(*kids):
    return Node("Parallel(%s)" % ", ".join(k.name for k in kids), lambda lab: lab.new("Parallel", *[k.build(lab) for k in kids], auto_delay=False), par([k.md for k in kids]))


def n_cond(*kids):
    pred = Opq("pred", "function")
    mds = [k.md for k in kids] + ([(1, 0, kids[0].md[2], 0)] if len(kids) == 1 else [])  # absent branch: the input itself
    return Node("Conditional(%s)" % ", ".join(k.name for k in kids), lambda lab: lab.new("Conditional", pred, *[k.build(lab) for k in kids]), par(mds))


def n_res(kid):
    """Residual without shrinking: a delay of the part's own delay next to the part."""
    d = kid.md[1]
    return Node(f"Residual({kid.name})", lambda lab: lab.call(lab.fn("container", "Residual"), kid.build(lab)),
                par([(p_add(d, 1), d, 1, 0), kid.md]))


def structures(tier):
    a, b, c, d, e = (lf(x) for x in "abcde")
    sq = P("sq")
    same_ = lambda n: lf(n, stride=(sq,))
    u, v, w = same_("u"), same_("v"), same_("w")
    dq = P("dq", 0)
    cu, cv = lf("cu", stride=(sq,), delay=dq), lf("cv", stride=(sq,), delay=dq)
    one = lambda n: lf(n, stride=(1,), padding=(0,), delay=p_sub(P("r_" + n), 1))
    out = [
        n_seq(a), n_seq(a, b), n_seq(a, b, c), n_seq(a, b, c, d), n_seq_named(a, b, c),
        n_append(a, b), n_append(a, b, c), n_append(n_seq(a, b), c),
        n_br(u, v), n_br(u, v, w), n_par(u, v), n_par(u, v, w), n_cond(a), n_cond(cu, cv), n_res(one("a")),
        n_seq(a, n_seq(b, c)), n_seq(n_seq(a, b), c), n_seq(n_seq(a, b), n_seq(c, d)), n_seq(a, n_br(u, v)), n_seq(n_br(u, v), a),
        n_seq(a, n_br(u, v), b), n_br(n_br(u, v), w), n_seq(a, n_cond(b)), n_seq(n_cond(cu, cv), a), n_cond(n_seq(a, b)),
        n_seq(n_par(u, v), a), n_seq(a, n_res(one("b")), c), n_par(n_br(u, v), w), n_seq(n_append(a, b), c),
    ]
    if tier != "quick":
        out += [n_seq(a, b, c, d, e), n_seq(n_seq(n_seq(a, b), c), d), n_seq(a, n_seq(b, n_seq(c, d))), n_br(u, v, w, same_("x")), n_par(u, v, w, same_("x")),
                n_br(n_br(u, v), n_br(w, same_("x"))), n_seq(n_br(u, n_br(v, w)), a), n_seq(a, n_cond(n_seq(b, c)), d)]
    return out


FIELDS = ("receptive_field", "delay", "stride", "padding")


def read(lab, o):
    out = []
    for f in FIELDS:
        v = lab.fz(lab.attr(o, f))
        if isinstance(v, tuple):
            v = v[0]
        elif hasattr(v, "op") and v.op == "list":
            v = v.args[0]
        out.append(v)
    return out


def judge_md(subject, want):
    def judge(path):
        got = path.value
        return [(same(g, w, path.facts), f"{subject} advertises {f} {show(g)[:120]} instead of {show(w)[:120]}") for f, g, w in zip(FIELDS, got, want)]
    return judge


def structure(lab, node):
    def thunk(ctx):
        return read(lab, node.build(lab))
    cn = node.name.split("(")[0]
    cls = "BroadcastReduce" if cn == "Residual" else cn
    lab.obligation("metadata", node.name, lab.where(lab.cls(cls), *FIELDS), thunk, judge_md(node.name, node.md))


def leaf(lab, subj, when):
    def thunk(ctx):
        o = subj.build(lab)
        if when == "used":
            S.with_history(lab, subj, o, 2)
            lab.m(o, "clean_state")
        elif when == "clip":
            lab.m(o, "forward_steps", *subj.X(), **({} if subj.family in ("mha",) else dict(pad_end=True)))
        return read(lab, o)
    lab.obligation(f"metadata-{when}", subj.name, subj.where(lab, *FIELDS), thunk, judge_md(subj.name, leaf_md(subj)), unroll=1 if when == "clip" else 2)


def query(lab, neg):
    """The delay of single-output attention: how far the query lies from the end of the window."""
    q = P("qi", 0)

    def thunk(ctx):
        from coan.terms import ge0
        ctx.facts.assume(ge0(p_sub(p_sub(S.N_, 1), q)), True)
        if neg:
            ctx.facts.assume(ge0(p_sub(q, 1)), True)
        o = lab.new("SingleOutputMultiheadAttention", S.E_, S.H_, sequence_len=S.N_, query_index=p_sub(0, q) if neg else q)
        return [lab.fz(lab.attr(o, "delay"))]

    want = p_sub(q, 1) if neg else p_sub(p_sub(S.N_, 1), q)

    def judge(path):
        g = path.value[0]
        return [(same(g, want, path.facts), f"query index {'-q' if neg else 'q'} of a window of N gives delay {show(g)[:100]} instead of {show(want)}")]
    c = lab.cls("SingleOutputMultiheadAttention")
    lab.obligation("query-delay", f"SingleOutputMHA(query_index={'-q' if neg else 'q'})", lab.where(c, "delay"), thunk, judge)


def lifted(lab):
    lift = lab.fn("convert", "forward_stepping")

    def thunk(ctx):
        return read(lab, lab.call(lift, lab.call(lab.driver(PLAIN, name="PlainModule"), Opq("fn", "function"))))
    lab.obligation("metadata-lifted", "forward_stepping(module)", lab.fwhere(lift), thunk, judge_md("forward_stepping(module)", (1, 0, 1, 0)))


def run(lab, tier):
    lab.job(lifted)
    for subj in S.leaves() + S.mha_subjects():
        lab.job(leaf, subj, "fresh")
        if subj.family not in ("stateless", "list", "retrolambda"):
            lab.job(leaf, subj, "used")
        if subj.family in ("conv", "pool", "delay"):
            lab.job(leaf, subj, "clip")
    for neg in (False, True):
        lab.job(query, neg)
    for node in structures(tier):
        lab.job(structure, node)
