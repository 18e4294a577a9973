"""P15: the functional step is pure, agrees with the stateful one, and its state is declared truthfully."""
from coan.interp import Opq, PList, Ten
from coan.lab import same, verdict
from coan.shapes import shape_of
from coan.terms import SHAPES, T, mentions, show, subterms, sym
from . import subjects as S
from .common import run_call
from .p04 import arbitrary_state
from .subjects import P, new


def pair(lab, v):
    if isinstance(v, PList):
        v = tuple(v.items)
    assert isinstance(v, tuple) and len(v) == 2, f"not a pair: {show(lab.fz(v))[:80]}"
    return v


def step(lab, o, xs, st):
    """Functional step; the result is frozen at once."""
    y, n = pair(lab, lab.m(o, "_forward_step", *xs, prev_state=st))
    return lab.fz(y), lab.fz(n), n


def pure(lab, subj, hist):
    def thunk(ctx):
        o = subj.build(lab)
        fresh = lab.snapshot(o)
        if hist == "none":
            st = lambda: None
        else:
            st0 = arbitrary_state(lab, subj, o)
            if st0 is None:
                return None
            st = lambda: S.copy_state(lab, st0)
        # reference: stateful step from that state
        lab.restore(fresh)
        if hist != "none":
            lab.m(o, "set_state", st())
        ry = run_call(lab, o, "forward_step", subj.x(0))
        rn = lab.fz(lab.m(o, "get_state"))
        # functional step on a module that holds no / another stream
        out = []
        for h in (0, 2):
            lab.restore(fresh)
            S.with_history(lab, subj, o, h)
            before = lab.fz(lab.m(o, "get_state"))
            y, n, _ = step(lab, o, subj.x(0), st())
            out.append((y, n, before, lab.fz(lab.m(o, "get_state"))))
        return ry, rn, out

    def judge(path):
        if path.value is None:
            return [(True, "")]
        ry, rn, out = path.value
        f = path.facts
        res = []
        for y, n, before, after in out:
            res += [verdict(after, before, "the functional step changes the stream stored in the module", f),
                    verdict(y, ry, "the functional step returns another output than the stateful step", f)]
            if rn is not None:
                res.append(verdict(n, rn, "the functional step returns another state than the stateful step keeps", f))
        return res

    lab.obligation(f"pure-{hist}", subj.name, subj.where(lab, "_forward_step"), thunk, judge)


def leaves_of(lab, st):
    out = []

    def go(v):
        if isinstance(v, (tuple, list)):
            for x in v:
                go(x)
        elif isinstance(v, PList):
            for x in v.items:
                go(x)
        elif v is not None:
            out.append(v)
    go(st)
    return out


def nest(v):
    """A declaration as nested Python lists."""
    if isinstance(v, PList):
        return [nest(x) for x in v.items]
    if isinstance(v, (tuple, list)):
        return [nest(x) for x in v]
    return v


def flat(v):
    return [y for x in v for y in flat(x)] if isinstance(v, list) else [v]


def depends_on_batch(lab, v):
    """True/False/None: does the size of this state tensor vary with the batch size?"""
    if isinstance(v, int):
        return False
    if isinstance(v, Ten) and (v.scalar or v.cell.scalar):
        return False
    if isinstance(v, T) and v.op in S.NUMERIC or isinstance(v, Ten) and isinstance(lab.I.read(v), T) and lab.I.read(v).op in S.NUMERIC:
        return False
    sh = shape_of(lab.I.read(v) if isinstance(v, Ten) else v)
    if sh is None:
        return None
    return any(d == P("B", 2) or isinstance(d, T) and P("B", 2) in subterms(d) for d in sh)


def layout(lab, st):
    """Nested lists of 'does this tensor vary with the batch'; None for what has no state yet."""
    if isinstance(st, PList):
        st = tuple(st.items)
    if isinstance(st, (tuple, list)):
        return [layout(lab, x) for x in st]
    return None if st is None else ("leaf", depends_on_batch(lab, st))


def match(shape, dyn, st, res, all_ran):
    if st is None:
        if not all_ran:  # this stage has not processed anything yet
            return
        st = []
    if isinstance(shape, list):
        if not isinstance(st, list) or len(st) != len(shape) or len(dyn) != len(shape):
            res.append((False, f"{len(st) if isinstance(st, list) else 1} states are returned, _state_shape declares {shape} and _dynamic_state_inds {dyn}"))
            return
        for a, b, c in zip(shape, dyn, st):
            match(a, b, c, res, all_ran)
        return
    ls = [x for x in (st if isinstance(st, list) else [st]) if x is not None]
    flat_ls = flat(ls)
    if any(x is None or not isinstance(x, tuple) for x in flat_ls) or not isinstance(dyn, list):
        res.append((False, f"unexpected layout of the state, _state_shape declares {shape} and _dynamic_state_inds {dyn}"))
        return
    n = len(flat_ls)
    res.append((shape == n, f"{n} state tensors are returned but _state_shape declares {shape}"))
    fd = flat(dyn)
    if len(fd) != n:
        res.append((False, f"_dynamic_state_inds {dyn} has {len(fd)} entries for {n} state tensors"))
        return
    for i, ((_, b), d) in enumerate(zip(flat_ls, fd)):
        if b is not None:
            res.append((b == d, f"state tensor {i} {'varies' if b else 'does not vary'} with the batch but is declared {d}"))


def declared(lab, subj):
    def thunk(ctx):
        o = subj.build(lab)
        st = None
        out = []
        for i in range(subj.mult_steps):
            y, _, st = step(lab, o, inputs(subj, i), st)
            out.append((layout(lab, st), subj.family != "nest" or y is not None and "Cond" not in subj.name))
        return lab.attr(o, "_state_shape"), lab.attr(o, "_dynamic_state_inds"), out

    def judge(path):
        shape, dyn, out = path.value
        res = []
        for st, all_ran in out:
            match(nest(shape), nest(dyn), st, res, all_ran)
        return res

    lab.obligation("declared", subj.name, subj.where(lab, "_state_shape", "_dynamic_state_inds", "_forward_step"), thunk, judge, unroll=8)


def rebuilt(lab, subj):
    """The state rebuilt from its flat tensors with the declared layout continues the same."""
    def thunk(ctx):
        o = subj.build(lab)
        fl, sl = lab.fn("utils", "flatten"), lab.fn("onnx", "_shape_list")
        st = None
        for i in range(subj.mult_steps):
            _, _, st = step(lab, o, inputs(subj, i), st)
        flatst = lab.call(fl, S.copy_state(lab, st))
        fz = lambda r: (r[0], tuple(lab.fz(x) for x in leaves_of(lab, r[2])))
        ref = fz(step(lab, o, inputs(subj, 90), S.copy_state(lab, st)))
        shaped = pair(lab, lab.call(sl, tuple(flatst.items), lab.attr(o, "_state_shape")))[0]
        got = fz(step(lab, o, inputs(subj, 90), shaped))
        return ref, got

    def judge(path):
        (ry, rn), (y, n) = path.value
        return [verdict(y, ry, "the output after rebuilding the state from its flat tensors differs", path.facts),
                verdict(n, rn, "the state after rebuilding the state from its flat tensors differs", path.facts)]

    lab.obligation("rebuilt", subj.name, subj.where(lab, "_state_shape", "_forward_step"), thunk, judge, unroll=8)


def inputs(subj, i):
    if subj.family == "nest":
        v = sym(f"x{i}")
        SHAPES.setdefault(v, (P("B", 2), S.ci))
        return (v,)
    return subj.x(i)


def nestings():
    """Composites of real modules with concrete timing."""
    ci = S.ci
    cv = lambda lab, k=3, s=1, p=0: lab.new("Conv1d", ci, ci, k, stride=s, padding=p)
    dl = lambda lab, d: lab.new("Delay", d)
    av = lambda lab, k=2: lab.new("AvgPool1d", k, stride=1)
    sk = lambda lab, n: lab.new("Skip", n)
    seq = lambda lab, *m: lab.new("Sequential", *m)
    br = lambda lab, *m, **k: lab.new("BroadcastReduce", *m, **k)
    pred = Opq("pred", "function")
    N = [
        ("Sequential[Conv,Delay]", lambda L: seq(L, cv(L), dl(L, 2))),
        ("Sequential[Conv(k=1),Conv]", lambda L: seq(L, cv(L, 1), cv(L))),
        ("Sequential[Conv,Lambda,Pool]", lambda L: seq(L, cv(L, 2), L.new("Lambda", Opq("fn", "function")), av(L))),
        ("Sequential[Sequential[Conv],Sequential[Conv,Delay]]", lambda L: seq(L, seq(L, cv(L, 2)), seq(L, cv(L, 2), dl(L, 1)))),
        ("Sequential[RNN,Conv]", lambda L: seq(L, L.new("GRU", ci, ci), cv(L, 2))),
        ("Sequential[LSTM]", lambda L: seq(L, L.new("LSTM", ci, ci))),
        ("BroadcastReduce[Conv,Delay]", lambda L: br(L, cv(L), dl(L, 2))),
        ("BroadcastReduce[Conv,Conv(k=1)]", lambda L: br(L, cv(L, 3), cv(L, 1))),
        ("BroadcastReduce[Sequential,Conv]", lambda L: br(L, seq(L, cv(L, 2), cv(L, 2)), cv(L, 3))),
        ("Residual[Conv]", lambda L: L.call(L.fn("container", "Residual"), cv(L, 3, 1, 1))),
        ("Sequential[Residual[Conv],Pool]", lambda L: seq(L, L.call(L.fn("container", "Residual"), cv(L, 3, 1, 1)), av(L))),
        ("Sequential[Broadcast,Parallel,Reduce]", lambda L: seq(L, L.new("Broadcast", 2), L.new("Parallel", cv(L), dl(L, 2)), L.new("Reduce", "sum"))),
        ("Conditional[Conv,Delay]", lambda L: L.new("Conditional", pred, cv(L), dl(L, 2))),
        ("Conditional[Conv]", lambda L: L.new("Conditional", pred, cv(L))),
        ("Sequential[Skip,Conv]", lambda L: seq(L, sk(L, 1), cv(L, 2))),
    ]
    out = []
    for name, mk in N:
        s = S.Subject(name, name.split("[")[0] if name[:3] != "Res" else "BroadcastReduce", mk, family="nest")
        s.mult_steps = 5
        out.append(s)
    return out


def run(lab, tier):
    leaf = [x for x in S.leaves() + S.mha_subjects() if x.family not in ("list", "retrolambda")]
    for subj in leaf:
        subj.mult_steps = 1 if tier == "quick" else 2
        has = lab.cls(subj.clsname).find("_forward_step")[1] is not None
        if not has:
            continue
        for h in ("none", "given"):
            if subj.family == "stateless" and h == "given":
                continue
            lab.job(pure, subj, h)
        lab.job(declared, subj)
        lab.job(rebuilt, subj)
    for subj in nestings():
        lab.job(declared, subj)
        lab.job(rebuilt, subj)
        lab.job(pure, subj, "none")
