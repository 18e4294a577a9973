"""P10: a conditional module takes the same branch in every mode, exactly one, with all options."""
from coan.interp import Inst, Opq, PList
from coan.lab import same
from coan.terms import T, eq0, show, sym
from . import subjects as S
from .common import SIG, child_flag, resolved_method
from .p08 import run_events

MODES = ("forward", "forward_steps", "forward_step", "_forward_step")
P = S.P


def choose(lab, subj, nb, mode, state):
    def thunk(ctx):
        o = subj.build(lab)
        kids = S.children(lab, o)
        kids.sort(key=lambda c: c.name)
        n0 = len(ctx.events)
        x = sym("x0")
        F = lab.I.ctx.facts
        F.assume(T("kind", x, "Tensor"), True)
        F.assume(eq0(T("len", x)), False)
        kw = {}
        if mode == "forward_steps":
            kw = dict(pad_end=sym("pe"), update_state=sym("us"))
        elif mode == "forward_step":
            kw = dict(update_state=sym("us"))
        elif mode == "_forward_step" and state != "default":
            kw = dict(prev_state=PList([T("st", c.name) for c in kids]) if state == "given" else None)
        v = lab.fz(lab.m(o, mode, x, **kw))
        return n0, kids, v, lab.fz(o)

    def judge(path):
        n0, kids, v, me = path.value
        f = path.facts
        pe = [e for e in path.events[n0:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.name == "pred"]
        if len(pe) != 1:
            return [(False, f"{mode} asks the predicate {len(pe)} times")]
        out = [(True, "")]
        if tuple(pe[0].fargs) != (me, sym("x0")) or pe[0].fkwargs:
            out.append((False, f"{mode} calls the predicate with ({', '.join(show(a)[:40] for a in pe[0].fargs)}) instead of the module and the input"))
        c = pe[0].data["result"]
        taken = f.query(T("truth", c))
        if taken is None:
            taken = truth_of(f, c)
        if taken is None:
            return out + [(None, "the predicate's outcome is not tested on this path")]
        ev = run_events(path, n0)
        i = 0 if taken else 1
        state = [T("st", k.name) for k in kids] if state_given else [None] * nb
        res, nst = v if mode == "_forward_step" else (v, None)
        if i >= nb:
            if ev:
                out.append((False, f"{mode} runs {ev[0].obj.name} although the predicate is false and there is no second module"))
            out.append((same(res, sym("x0"), f), f"{mode} returns {show(res)[:80]} instead of passing the input through"))
        else:
            if [e.obj.name for e in ev] != [kids[i].name]:
                return out + [(False, f"{mode} runs {[e.obj.name for e in ev]} when the predicate is {bool(taken)}")]
            e = ev[0]
            m = resolved_method(e)
            direct = e.method == "__call__" and mode == "forward" and e.mode == "own"  # runs in the child's own (default) mode
            if m != mode and not direct:
                out.append((False, f"{mode} runs the chosen module in mode {m or show(e.mode)}"))
                return out
            a = e.fargs[0] if e.fargs else e.fkwargs.get("input")
            out.append((same(a, sym("x0"), f), f"{mode} hands {show(a)[:80]} to the chosen module instead of the input"))
            for flag, w in (("pad_end", sym("pe")), ("update_state", sym("us"))):
                if flag in SIG[mode]:
                    g = child_flag(e, flag, "default")
                    if lab.fz(g) != w:
                        out.append((False, f"the chosen module receives {flag}={show(lab.fz(g))[:60]} instead of the caller's in {mode}"))
            r = e.data["result"]
            if mode == "_forward_step":
                g = lab.fz(child_flag(e, "prev_state", None))
                if g != state[i]:
                    out.append((False, f"the chosen module receives the state {show(g)[:60]}"))
                state[i] = r[1]
                r = r[0]
            out.append((same(res, r, f), f"{mode} returns {show(res)[:80]} instead of the chosen module's result"))
        if mode == "_forward_step":
            n = nst.args if isinstance(nst, T) and nst.op == "list" else nst
            out.append((same(n, tuple(state), f), f"the next state is {show(nst)[:100]} instead of {show(tuple(state))[:100]}"))
        return out

    state_given = state == "given"
    lab.obligation(f"choose-{mode}" + (f"-{state}" if mode == "_forward_step" else ""), subj.name, subj.where(lab, mode), thunk, judge, raises_ok=True)


def truth_of(f, c):
    for q in (c, T("eqc", c, True)):
        r = f.query(q)
        if r is not None:
            return r
    return None


def subjects():
    pred = Opq("pred", "function")
    dq = dict(delay=P("dq", 0))
    return [
        (1, S.Subject("Conditional(pred,m)", "Conditional", lambda lab: lab.new("Conditional", pred, S.opaque("m0")), family="container")),
        (2, S.Subject("Conditional(pred,m,m)", "Conditional", lambda lab: lab.new("Conditional", pred, S.opaque("m0", **dq), S.opaque("m1", **dq)), family="container")),
    ]


def delayed(lab, mode, long):
    """Branches of unequal delay: the shorter one is delayed, the branch order stays."""
    def thunk(ctx):
        pred = Opq("pred", "function")
        d = P("dl", 1)
        a, b = S.opaque("m0", delay=d if long == 0 else 0), S.opaque("m1", delay=0 if long == 0 else d)
        a.attrs["stride"] = b.attrs["stride"] = (1,)
        o = lab.new("Conditional", pred, a, b)
        x = sym("x0")
        F = lab.I.ctx.facts
        F.assume(T("kind", x, "Tensor"), True)
        F.assume(eq0(T("len", x)), False)
        n0 = len(ctx.events)
        lab.m(o, mode, x)
        return n0

    def judge(path):
        n0 = path.value
        pe = [e for e in path.events[n0:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.name == "pred"]
        if len(pe) != 1:
            return [(False, f"{mode} asks the predicate {len(pe)} times")]
        taken = truth_of(path.facts, T("truth", pe[0].data["result"]))
        taken = taken if taken is not None else truth_of(path.facts, pe[0].data["result"])
        want = "m0" if taken else "m1"
        names = {e.obj.name for e in run_events(path, n0)}
        ok = names <= {want}
        return [(ok, f"{mode} runs {sorted(names)} when the predicate is {bool(taken)}")]

    lab.obligation(f"choose-unequal-{mode}-{long}", "Conditional(pred,m,m)", lab.where(lab.cls("Conditional"), mode, "__init__"), thunk, judge, raises_ok=True)


def run(lab, tier):
    for nb, subj in subjects():
        for m in MODES:
            for st in ("given", "none", "default") if m == "_forward_step" else (None,):
                lab.job(choose, subj, nb, m, st)
    for m in MODES[:3]:
        for long in (0, 1):
            lab.job(delayed, m, long)
