"""Module configurations the rules quantify over.

Every integer hyper-parameter is a symbol with its documented lower bound, so a
verdict covers every value of it.  A recipe that a class no longer accepts, or a
class without a recipe, is simply not an instance of the rule (it is reported in the
evidence); a recipe whose class disappeared is an analysis error.
"""
from coan.terms import show
from coan.shapes import shape_of
from coan.interp import dim_term, length_term, Opq, PList, PDict, Ten, Cell
from coan.terms import POSITIVE, SHAPES, T, ge0, eq0, is_num, p_add, p_sub, sym


def P(name, lo=1):
    s = sym(name)
    POSITIVE[s] = lo
    return s


k, s, p, ci, co, g, dd = P("k"), P("s"), P("p", 0), P("ci"), P("co"), P("g"), P("d")
k1, s1, p1, k2, s2, p2 = P("k1"), P("s1"), P("p1", 0), P("k2"), P("s2"), P("p2", 0)
H_, hd_, N_ = P("H"), P("hd", 2), P("N")


def T_mul(a, b):
    from coan.terms import p_mul
    return p_mul(a, b)


E_ = T_mul(H_, hd_)


class Subject:
    def __init__(self, name, clsname, make, inputs=1, family="leaf", mult=1, running=None, x=None):
        self.name, self.clsname, self.make = name, clsname, make
        self.inputs = inputs
        self.family = family
        self._running = running

    def build(self, lab):
        self.tensors(lab)
        o = self.make(lab)
        if self.family == "mha":
            F = lab.I.ctx.facts
            for a in ("bias_k", "bias_v"):
                F.assume(T("kind", lab.fz(lab.attr(o, a)), "None"), True)
            F.assume(T("truth", lab.fz(lab.attr(o, "_qkv_same_embed_dim"))), "kdim" not in self.name)
        return o

    def cls(self, lab):
        return lab.cls(self.clsname)

    def x(self, i=0):
        """Symbolic step input(s)."""
        if self.family == "list":
            return (PList([sym(f"x{i}a"), sym(f"x{i}b")]),)
        xs = tuple(sym(f"x{i}{'' if j == 0 else 'qkv'[j]}") for j in range(self.inputs))
        sh = self.shapes()[0]
        for v in xs:
            if sh is not None:
                SHAPES.setdefault(v, sh)
        return xs

    def tensors(self, lab):
        """Assume that the symbolic inputs are (non-empty batch) tensors."""
        SHAPES.clear()
        step, clip = self.shapes()
        for i, t in enumerate(self.x() + self.X()):
            for v in (t.items if isinstance(t, PList) else (t,)):
                sh = step if i < len(self.x()) else clip
                if sh is not None:
                    SHAPES[v] = sh
                lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
                lab.I.ctx.facts.assume(eq0(T("len", v)), False)
                lab.I.ctx.facts.assume(eq0(T("size", v, 0)), False)

    def shapes(self):
        """Shapes of one frame and of one clip (None: unspecified rank)."""
        B, C, Tt, S1, S2 = (P(n, 2) for n in ("B", "C", "Tn", "S1", "S2"))
        sp = {"1": (), "2": (S1,), "3": (S1, S2)}
        n = self.clsname
        if self.family in ("conv", "pool"):
            d = sp[n[-2]]
            return (B, C) + d, (B, C, Tt) + d
        if self.family in ("delay", "retro", "skip"):
            return (B, C, S1), (B, C, Tt, S1)
        if self.family == "rnn":
            return (B, ci), (B, ci, Tt)
        if self.family == "rpe":
            return (B, E_), (B, E_, Tt)
        if self.family == "mha":
            if "embed_dim_second" in self.name:
                return (B, E_), (B, E_, Tt)
            return (B, E_), ((Tt, B, E_) if "batch_first=False" in self.name else (B, Tt, E_))
        return None, None

    def X(self):
        """Symbolic clip input(s)."""
        if self.family == "list":
            return (PList([sym("Xa"), sym("Xb")]),)
        return tuple(sym("X" + ("" if j == 0 else "qkv"[j])) for j in range(self.inputs))

    def where(self, lab, *ms):
        return lab.where(self.cls(lab), *ms)


def new(cn, *a, **kw):
    return lambda lab: lab.new(cn, *a, **kw)


def opaque(name, **attrs):
    """A well-behaved continual child module about which nothing but its metadata is known."""
    a = dict(
        delay=P("d_" + name, 0), receptive_field=P("r_" + name), stride=(P("s_" + name),),
        padding=(P("p_" + name, 0),), _state_shape=2, _dynamic_state_inds=PList([True, False]),
    )
    a.update(attrs)
    return Opq(name, "comodule", a)


def conv_subjects(full=False):
    out = []
    base = [
        ("Conv1d", (ci, co, k), dict(stride=s, padding=p)),
        ("Conv2d", (ci, co, (k, k1)), dict(stride=(s, s1), padding=(p, p1))),
        ("Conv3d", (ci, co, (k, k1, k2)), dict(stride=(s, s1, s2), padding=(p, p1, p2))),
    ]
    for cn, a, kw in base:
        out.append(Subject(f"{cn}(k,s,p)", cn, new(cn, *a, **kw), family="conv"))
    out.append(Subject("Conv2d(replicate padding)", "Conv2d", new("Conv2d", ci, co, (k, k1), stride=(s, s1), padding=(p, p1), padding_mode="replicate"), family="conv"))
    out.append(Subject("Conv1d(bias=False,replicate)", "Conv1d", new("Conv1d", ci, co, k, stride=s, padding=p, bias=False, temporal_fill="replicate"), family="conv"))
    return out


def pool_subjects():
    out = []
    for fam in ("Avg", "Max"):
        out.append(Subject(f"{fam}Pool1d(k,s,p)", f"{fam}Pool1d", new(f"{fam}Pool1d", k, stride=s, padding=p), family="pool"))
        out.append(Subject(f"{fam}Pool2d(k,s,p)", f"{fam}Pool2d", new(f"{fam}Pool2d", (k, k1), stride=(s, s1), padding=(p, p1)), family="pool"))
        out.append(Subject(f"{fam}Pool3d(k,s,p)", f"{fam}Pool3d", new(f"{fam}Pool3d", (k, k1, k2), stride=(s, s1, s2), padding=(p, p1, p2)), family="pool"))
        out.append(Subject(f"{fam}Pool1d(dilation d)", f"{fam}Pool1d", new(f"{fam}Pool1d", k, stride=s, padding=p, dilation=dd), family="pool"))
        out.append(Subject(f"{fam}Pool2d(dilation d)", f"{fam}Pool2d", new(f"{fam}Pool2d", (k, k1), stride=(s, 1), padding=(p, 0), dilation=(dd, 1)), family="pool"))
        out.append(Subject(f"Adaptive{fam}Pool2d", f"Adaptive{fam}Pool2d", new(f"Adaptive{fam}Pool2d", (1, P("o1")), kernel_size=k), family="pool"))
        out.append(Subject(f"Adaptive{fam}Pool3d", f"Adaptive{fam}Pool3d", new(f"Adaptive{fam}Pool3d", (1, P("o1"), P("o2")), kernel_size=k), family="pool"))
    return out


def delay_subjects():
    out = [Subject("Delay(d)", "Delay", new("Delay", dd), family="delay")]
    for sh in (True, "centered", "lagging"):
        out.append(Subject(f"Delay(d,auto_shrink={sh})", "Delay", new("Delay", dd, auto_shrink=sh), family="delay"))
    out.append(Subject("Delay(d,replicate)", "Delay", new("Delay", dd, temporal_fill="replicate"), family="delay"))
    out.append(Subject("Delay(0)", "Delay", new("Delay", 0), family="delay"))
    out.append(Subject("SelectOrDelay(d)", "SelectOrDelay", new("SelectOrDelay", dd), family="delay"))
    out.append(Subject("RetroactiveUnity(d)", "RetroactiveUnity", new("RetroactiveUnity", dd), family="retro"))
    out.append(Subject("Skip(d)", "Skip", new("Skip", dd), family="skip"))
    return out


def rnn_subjects():
    return [
        Subject("RNN", "RNN", new("RNN", ci, co), family="rnn"),
        Subject("GRU", "GRU", new("GRU", ci, co), family="rnn"),
        Subject("LSTM", "LSTM", new("LSTM", ci, co), family="rnn"),
        Subject("LSTM(proj_size)", "LSTM", new("LSTM", ci, co, proj_size=P("pj")), family="rnn"),
    ]


def mha_subjects(full=False):
    out = []
    SO, RE = "SingleOutputMultiheadAttention", "RetroactiveMultiheadAttention"
    out.append(Subject("SingleOutputMHA(N)", SO, new(SO, E_, H_, sequence_len=N_), family="mha"))
    out.append(Subject("SingleOutputMHA(q,k,v)", SO, new(SO, E_, H_, sequence_len=N_), inputs=3, family="mha"))
    out.append(Subject("SingleOutputMHA(embed_dim_second)", SO, new(SO, E_, H_, sequence_len=N_, embed_dim_second=True), family="mha"))
    out.append(Subject("SingleOutputMHA(batch_first=False)", SO, new(SO, E_, H_, sequence_len=N_, batch_first=False), family="mha"))
    out.append(Subject("SingleOutputMHA(query_index=0)", SO, new(SO, E_, H_, sequence_len=N_, query_index=0), family="mha"))
    out.append(Subject("RetroactiveMHA(N)", RE, new(RE, E_, H_, sequence_len=N_), family="mha"))
    out.append(Subject("RetroactiveMHA(batch_first,embed_dim_second)", RE, new(RE, E_, H_, sequence_len=N_, batch_first=True, embed_dim_second=True), family="mha"))
    return out


def stateless_subjects():
    f = Opq("fn", "function")
    f1, f2, f3 = Opq("fn_forward", "function"), Opq("fn_step", "function"), Opq("fn_steps", "function")
    out = [
        Subject("Linear", "Linear", new("Linear", ci, co), family="stateless"),
        Subject("Linear(channel_dim=1)", "Linear", new("Linear", ci, co, channel_dim=1), family="stateless"),
        Subject("Lambda(fn)", "Lambda", new("Lambda", f), family="stateless"),
        Subject("Lambda(fn,takes_time)", "Lambda", new("Lambda", f, takes_time=True), family="stateless"),
        Subject("Lambda(per mode)", "Lambda", new("Lambda", None, f1, f2, f3), family="stateless"),
        Subject("RetroactiveLambda(fn)", "RetroactiveLambda", new("RetroactiveLambda", f), family="retrolambda"),
        Subject("Reshape", "Reshape", new("Reshape", P("n1"), P("n2")), family="stateless"),
        Subject("Broadcast", "Broadcast", new("Broadcast", 2), family="stateless"),
        Subject("ParallelDispatch", "ParallelDispatch", lambda lab: lab.new("ParallelDispatch", PList([1, 0, 1])), family="list"),
        Subject("Reduce", "Reduce", new("Reduce", "sum"), family="list"),
    ]
    return out


def rpe_subjects():
    return [
        Subject("RecyclingPositionalEncoding", "RecyclingPositionalEncoding", new("RecyclingPositionalEncoding", E_, P("Nm")), family="rpe"),
    ]


def container_subjects(n=(1, 2, 3)):
    out = []
    for m in n:
        kids = lambda m=m: [opaque(f"m{i}") for i in range(m)]
        out.append(Subject(f"Sequential[{m}]", "Sequential", lambda lab, kids=kids: lab.new("Sequential", *kids()), family="container"))
        if m >= 2:
            out.append(Subject(f"BroadcastReduce[{m}]", "BroadcastReduce", lambda lab, kids=kids: lab.new("BroadcastReduce", *[with_same(x, stride=(P("sq"),)) for x in kids()], auto_delay=False), family="container"))
        if m >= 2:
            out.append(Subject(f"Parallel[{m}]", "Parallel", lambda lab, m=m: lab.new("Parallel", *[opaque(f"m{i}", stride=(P("sq"),)) for i in range(m)], auto_delay=False), family="plist"))
    pred = Opq("pred", "function")
    same_delay = P("dq", 0)
    out.append(Subject("Conditional[1]", "Conditional", lambda lab: lab.new("Conditional", pred, opaque("m0")), family="container"))
    out.append(Subject("Conditional[2]", "Conditional", lambda lab: lab.new("Conditional", pred, opaque("m0", delay=same_delay), opaque("m1", delay=same_delay)), family="container"))
    return out


def with_same(o, **attrs):
    o.attrs.update(attrs)
    return o


def leaves(full=True):
    return conv_subjects() + pool_subjects() + delay_subjects() + rnn_subjects() + rpe_subjects() + stateless_subjects()


# ---------------------------------------------------------------- arbitrary running states
# Bounds of the scalar components of a running state, in order of appearance in the
# state tuple: the inductive invariants that rule P14 establishes on the same tree.
def ranges(subj):
    f = subj.family
    if f == "conv":
        return [(0, p_sub(k, 1)), (None, p_sub(s, 1))]
    if f == "pool":
        d = dd if "dilation d" in subj.name else 1
        return [(0, T_mul(d, p_sub(k, 1))), (None, p_sub(s, 1))]
    if f == "delay":
        d = 0 if subj.name == "Delay(0)" else dd
        return [(p_sub(0, T_mul(2, d)), p_sub(d, 1))]
    if f == "retro":
        return [(p_sub(0, dd), dd)]
    if f == "skip":
        return [(None, 0)]
    if f == "rpe":
        return [(0, p_sub(P("Nm"), 1))]
    if f == "mha":
        return [(p_sub(0, N_), 0)]
    return []


def assume_ranges(lab, subj, scalars):
    F = lab.I.ctx.facts
    for v, (lo, hi) in zip(scalars, ranges(subj)):
        if lo is not None:
            F.assume(ge0(p_sub(v, lo)), True)
        if hi is not None:
            F.assume(ge0(p_sub(hi, v)), True)


def arbitrary(name, c):
    """Unknown tensor content of the same shape as c."""
    sh = shape_of(c)
    if sh is not None:
        return T("any", name, sh)
    return T("any", name, length_term(c), dim_term(c))


NUMERIC = {"poly", "mod", "floordiv", "max", "min"}


def generalise(lab, state, tag="g", scalars=True):
    """An arbitrary state of the same layout: unknown buffer contents, unknown indices."""
    I = lab.I
    n = [0]
    lab.scalars = []

    def scalar():
        v = sym(f"{tag}{n[0]}")
        lab.scalars.append(v)
        return I.fresh_ten(v, scalar=True)

    def gen(v):
        if isinstance(v, (tuple, list)):
            return tuple(gen(x) for x in v)
        if isinstance(v, PList):
            return PList([gen(x) for x in v.items])
        if isinstance(v, Ten):
            n[0] += 1
            if v.scalar or v.cell.scalar:
                if not scalars:
                    return v
                return scalar()
            c = I.read(v)
            return I.fresh_ten(arbitrary(f"{tag}{n[0]}", c))
        if isinstance(v, T):
            n[0] += 1
            if v.op in NUMERIC:
                return scalar() if scalars else v
            return I.fresh_ten(arbitrary(f"{tag}{n[0]}", v))
        if isinstance(v, int) and not isinstance(v, bool):
            n[0] += 1
            return scalar() if scalars else v
        return v

    return gen(state)


def with_history(lab, subj, obj, h):
    """Drive obj through h symbolic steps (bounded history)."""
    for i in range(h):
        lab.m(obj, "forward_step", *subj.x(100 + i))


def children(lab, o):
    """Opaque continual descendants of a composite."""
    out, stack = [], [o]
    seen = set()
    while stack:
        v = stack.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, Opq):
            if v.kind == "comodule":
                out.append(v)
            continue
        mods = getattr(v, "modules", None)
        if mods is not None and hasattr(mods, "pairs"):
            stack.extend(x for _, x in reversed(mods.pairs))
    return out


def nested_subjects():
    """Composites of composites over opaque leaves."""
    pred = Opq("pred", "function")

    def seq_in_seq(lab):
        return lab.new("Sequential", opaque("a"), lab.new("Sequential", opaque("b"), opaque("c")))

    def br_in_seq(lab):
        return lab.new("Sequential", opaque("a"), lab.new("BroadcastReduce", opaque("b", stride=(P("sq"),)), opaque("c", stride=(P("sq"),)), auto_delay=False))

    def cond_in_seq(lab):
        return lab.new("Sequential", lab.new("Conditional", pred, opaque("b", delay=P("dq", 0)), opaque("c", delay=P("dq", 0))), opaque("a"))

    def seq_in_cond(lab):
        return lab.new("Conditional", pred, lab.new("Sequential", opaque("a", stride=(1,)), opaque("b", stride=(1,))))

    def seq_in_br(lab):
        return lab.new("BroadcastReduce", lab.new("Sequential", opaque("a", stride=(1,)), opaque("b", stride=(1,))), opaque("c", stride=(1,)), auto_delay=False)

    def residual(lab):
        return lab.call(lab.fn("container", "Residual"), opaque("a", stride=(1,), padding=(0,), receptive_field=P("rA"), delay=p_sub(P("rA"), 1)))

    return [
        Subject("Sequential[m,Sequential]", "Sequential", seq_in_seq, family="container"),
        Subject("Sequential[m,BroadcastReduce]", "Sequential", br_in_seq, family="container"),
        Subject("Sequential[Conditional,m]", "Sequential", cond_in_seq, family="container"),
        Subject("Conditional[Sequential]", "Conditional", seq_in_cond, family="container"),
        Subject("BroadcastReduce[Sequential,m]", "BroadcastReduce", seq_in_br, family="container"),
        Subject("Residual[m]", "BroadcastReduce", residual, family="container"),
    ]


def copy_state(lab, v):
    """A deep copy of a retrieved state (fresh storage, same contents)."""
    if isinstance(v, (tuple, list)):
        return tuple(copy_state(lab, x) for x in v)
    if isinstance(v, PList):
        return PList([copy_state(lab, x) for x in v.items])
    if isinstance(v, Ten):
        return lab.I.fresh_ten(lab.fz(v), scalar=v.scalar or v.cell.scalar)
    return v
