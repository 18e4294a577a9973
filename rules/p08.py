"""P08: a sequence runs each stage once, in order, in the mode asked for."""
from coan.interp import Opq, PList
from coan.lab import same
from coan.terms import T, show, sym
from . import subjects as S
from .common import SIG, child_flag, resolved_method

MODES = ("forward", "forward_steps", "forward_step", "_forward_step")


def stages(lab, o):
    return S.children(lab, o)


def run_events(path, start):
    return [e for e in path.events[start:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.kind == "comodule" and (resolved_method(e) or e.method == "__call__")]


def chain(lab, subj, mode):
    """Events, data flow and result of one call, over every readiness pattern of the stages."""
    def thunk(ctx):
        o = subj.build(lab)
        kids = stages(lab, o)
        n0 = len(ctx.events)
        x = sym("x0")
        F = lab.I.ctx.facts
        F.assume(T("kind", x, "Tensor"), True)
        F.assume(T("cmp", T("len", x)), True) if False else None
        from coan.terms import eq0
        F.assume(eq0(T("len", x)), False)
        kw = {}
        if mode == "forward_steps":
            kw = dict(pad_end=sym("pe"), update_state=sym("us"))
        elif mode == "forward_step":
            kw = dict(update_state=sym("us"))
        elif mode == "_forward_step":
            kw = dict(prev_state=PList([T("st", c.name) for c in kids]))
        v = lab.fz(lab.m(o, mode, x, **kw))
        return n0, kids, v

    def judge(path):
        n0, kids, v = path.value
        ev = run_events(path, n0)
        out = [(True, "")]
        f = path.facts
        cur = sym("x0")
        state = [T("st", c.name) for c in kids]
        for i, e in enumerate(ev):
            if i >= len(kids) or e.obj is not kids[i]:
                return [(False, f"{mode} runs the stages in the order {[x.obj.name for x in ev]}, expected {[c.name for c in kids]} at most once each")]
            m = resolved_method(e)
            if m != mode:
                out.append((False, f"{mode} runs stage {e.obj.name} in mode {m or show(e.mode)} at {e.loc}"))
                continue
            arg = e.fargs[0] if e.fargs else e.fkwargs.get("input")
            s = same(arg, cur, f)
            if s is not True:
                out.append((s, f"stage {e.obj.name} receives {show(arg)[:100]} instead of {show(cur)[:100]} in {mode}"))
            for flag, want in (("pad_end", sym("pe")), ("update_state", sym("us"))):
                if flag in SIG[mode]:
                    got = child_flag(e, flag, "default")
                    if got is not want and lab.fz(got) != want:
                        out.append((False, f"stage {e.obj.name} receives {flag}={show(lab.fz(got))[:60]} instead of the caller's in {mode}"))
            if mode == "_forward_step":
                got = lab.fz(child_flag(e, "prev_state", None))
                if got != state[i]:
                    out.append((False, f"stage {e.obj.name} receives state {show(got)[:60]} instead of its own"))
                r = e.data["result"]
                state[i] = r[1]
                cur = r[0]
            else:
                cur = e.data["result"]
                if mode == "forward" and e.obj.isa.get("RNNBase"):  # torch's recurrent modules return (output, state)
                    cur = lab.fz(lab.I.getitem(cur, 0, None))
        complete = len(ev) == len(kids)
        res, nst = (v if mode == "_forward_step" else (v, None))
        if mode == "_forward_step":
            got = nst.args if isinstance(nst, T) and nst.op == "list" else nst
            s = same(tuple(got) if isinstance(got, (tuple, list)) else got, tuple(state), f)
            if s is not True:
                out.append((s, f"the next state is {show(nst)[:120]} instead of {show(tuple(state))[:120]}"))
        if complete:
            s = same(res, cur, f)
            if s is not True:
                ready = f.query(T("kind", cur, "Tensor"))
                if not (res is None and ready is False):
                    out.append((s, f"{mode} returns {show(res)[:100]} instead of the last stage's result {show(cur)[:100]}"))
        else:
            if res is not None:
                out.append((False, f"{mode} stops after {len(ev)} of {len(kids)} stages but returns {show(res)[:100]}"))
            if mode == "forward":
                out.append((False, f"forward runs only {len(ev)} of {len(kids)} stages"))
            if ev and f.query(T("kind", cur, "Tensor")) is True and not empty(f, cur):
                out.append((False, f"{mode} stops after stage {ev[-1].obj.name} although it has an output"))
            if not ev:
                out.append((False, f"{mode} runs no stage for a non-empty input"))
        # a stage behind one without output must not be run
        for a, b in zip(ev, ev[1:]):
            r = a.data["result"]
            r = r[0] if isinstance(r, tuple) else r
            if mode != "forward" and f.query(T("kind", r, "None")) is True:
                out.append((False, f"{mode} runs stage {b.obj.name} although {a.obj.name} has no output"))
            elif mode != "forward" and f.query(T("kind", r, "Tensor")) is None and f.query(T("kind", r, "None")) is None:
                if mode == "forward_steps" and f.query(T("kind", r, "list")) is True:
                    continue
                out.append((False, f"{mode} runs stage {b.obj.name} without regard to whether {a.obj.name} has an output"))
        return out

    lab.obligation(f"chain-{mode}", subj.name, subj.where(lab, mode), thunk, judge, raises_ok=True)


def empty(f, v):
    from coan.terms import eq0
    return f.query(eq0(T("len", v))) is True or f.query(eq0(T("size", v, 0))) is True


def subjects(tier):
    out = [s for s in S.container_subjects((1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5)) if s.clsname == "Sequential"]
    out += [s for s in S.nested_subjects() if s.name == "Sequential[m,Sequential]"]

    def named(lab):
        d = lab.driver("def mk(a, b):\n    return OrderedDict([('first', a), ('second', b)])\n", mod="container", name="mk")
        return lab.new("Sequential", lab.call(d, S.opaque("a"), S.opaque("b")))

    def appended(lab):
        o = lab.new("Sequential", S.opaque("a"), S.opaque("b"))
        return lab.m(o, "append", S.opaque("c"))

    def rnn(lab):
        r = S.opaque("r")
        r.isa = {"RNNBase": True, "RNN": False, "GRU": True, "LSTM": False}
        return lab.new("Sequential", S.opaque("a"), r, S.opaque("b"))

    out.append(S.Subject("Sequential[m,recurrent,m]", "Sequential", rnn, family="container"))
    out.append(S.Subject("Sequential(OrderedDict)", "Sequential", named, family="container"))
    out.append(S.Subject("Sequential.append", "Sequential", appended, family="container"))
    return out


def run(lab, tier):
    for subj in subjects(tier):
        for m in MODES:
            if subj.name == "Sequential[m,Sequential]" and m == "_forward_step":
                continue
            lab.job(chain, subj, m)
