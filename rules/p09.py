"""P09: parallel branches advance in lock-step and are joined only when all have an output."""
from coan.interp import Opq, PList
from coan.lab import same
from coan.terms import T, eq0, show, sym
from . import subjects as S
from .common import SIG, child_flag, resolved_method
from .p08 import run_events

MODES = ("forward", "forward_steps", "forward_step", "_forward_step")
P = S.P


def inputs(lab, subj, n):
    F = lab.I.ctx.facts
    xs = [sym(f"x{i}") for i in range(n)] if subj.family == "plist" else [sym("x0")]
    for x in xs:
        F.assume(T("kind", x, "Tensor"), True)
        F.assume(eq0(T("len", x)), False)
        F.assume(eq0(T("size", x, 0)), False)
    return xs


def lockstep(lab, subj, mode, state):
    def thunk(ctx):
        o = subj.build(lab)
        kids = S.children(lab, o)
        n0 = len(ctx.events)
        xs = inputs(lab, subj, len(kids))
        arg = PList(list(xs)) if subj.family == "plist" else xs[0]
        kw = {}
        if mode == "forward_steps":
            kw = dict(pad_end=sym("pe"), update_state=sym("us"))
        elif mode == "forward_step":
            kw = dict(update_state=sym("us"))
        elif mode == "_forward_step" and state != "default":
            kw = dict(prev_state=PList([T("st", c.name) for c in kids]) if state == "given" else None)
        v = lab.fz(lab.m(o, mode, arg, **kw))
        return n0, kids, xs, v

    def judge(path):
        n0, kids, xs, v = path.value
        f = path.facts
        ev = run_events(path, n0)
        out = [(True, "")]
        got = {}
        for e in ev:
            m = resolved_method(e)
            if any(e.obj is x.obj for x in got.values()):
                out.append((False, f"{mode} runs branch {e.obj.name} more than once"))
                continue
            i = next((i for i, c in enumerate(kids) if c is e.obj), None)
            if i is None:
                continue
            got[i] = e
            if m != mode:
                out.append((False, f"{mode} runs branch {e.obj.name} in mode {m or show(e.mode)} at {e.loc}"))
                continue
            arg = e.fargs[0] if e.fargs else e.fkwargs.get("input")
            want = xs[i] if subj.family == "plist" else xs[0]
            s = same(arg, want, f)
            if s is not True:
                out.append((s, f"branch {e.obj.name} receives {show(arg)[:80]} instead of {show(want)} in {mode}"))
            for flag, w in (("pad_end", sym("pe")), ("update_state", sym("us"))):
                if flag in SIG[mode]:
                    g = child_flag(e, flag, "default")
                    if g is not w and lab.fz(g) != w:
                        out.append((False, f"branch {e.obj.name} receives {flag}={show(lab.fz(g))[:60]} instead of the caller's in {mode}"))
            if mode == "_forward_step":
                g = lab.fz(child_flag(e, "prev_state", None))
                w = T("st", e.obj.name) if state == "given" else None
                if g != w:
                    out.append((False, f"branch {e.obj.name} receives the state {show(g)[:60]} instead of {show(w)}"))
        for i, c in enumerate(kids):
            if i not in got:
                out.append((False, f"{mode} does not run branch {c.name}" + (" once another branch has no output" if got else "")))
        if any(i not in got for i in range(len(kids))):
            return out
        res = [got[i].data["result"] for i in range(len(kids))]
        ys = [r[0] for r in res] if mode == "_forward_step" else res
        if mode == "_forward_step":
            v, nst = v
            want = tuple(r[1] for r in res)
            nst = nst.args if isinstance(nst, T) and nst.op == "list" else nst
            s = same(nst, want, f)
            if s is not True:
                out.append((s, f"the next state is {show(nst)[:120]} instead of {show(want)[:120]}"))
        if subj.family == "plist":
            items = v.args if isinstance(v, T) and v.op == "list" else v
            s = same(items, tuple(ys), f)
            if s is not True:
                out.append((s, f"{mode} returns {show(v)[:120]} instead of the branch outputs in order"))
            return out
        # joined branches: absent when any branch is absent, otherwise the reduction of all in order
        kinds = [f.query(T("kind", y, "Tensor")) for y in ys]
        none = [f.query(T("kind", y, "None")) for y in ys]
        join = T("out", T("obj", "join"), None)
        je = [e for e in path.events[n0:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.name == "join"]
        if v is None:
            if je:
                out.append((False, f"{mode} computes the joined output but does not return it"))
            if all(k is True for k in kinds) and not any(empty(f, y) for y in ys):
                out.append((False, f"{mode} returns nothing although all branches have an output"))
            return out
        if len(je) != 1:
            return out + [(False, f"{mode} returns {show(v)[:100]} having joined the branches {len(je)} times")]
        if any(k is False for k in kinds) or any(n is True for n in none):
            out.append((False, f"{mode} joins the branches although one has no output"))
        elif any(k is None and n is None for k, n in zip(kinds, none)):
            out.append((False, f"{mode} joins the branches without regard to whether all have an output"))
        a = je[0].fargs[0] if je[0].fargs else None
        items = a.args if isinstance(a, T) and a.op == "list" else a
        s = same(tuple(items) if isinstance(items, tuple) else items, tuple(ys), f)
        if s is not True:
            out.append((s, f"{mode} joins {show(a)[:120]} instead of the outputs of all branches in order"))
        s = same(v, je[0].data["result"], f)
        if s is not True:
            out.append((s, f"{mode} returns {show(v)[:100]} instead of the joined branch outputs"))
        return out

    lab.obligation(f"lockstep-{mode}" + (f"-{state}" if mode == "_forward_step" else ""), subj.name, subj.where(lab, mode), thunk, judge, raises_ok=True)


def empty(f, y):
    return f.query(eq0(T("len", y))) is True or f.query(eq0(T("size", y, 0))) is True


def subjects(tier):
    join = lambda: Opq("join", "function")
    q = dict(stride=(P("sq"),))
    out = []
    for n in (2, 3) if tier == "quick" else (2, 3, 4, 5):
        kids = lambda n=n: [S.opaque(f"m{i}", **q) for i in range(n)]
        out.append(S.Subject(f"BroadcastReduce[{n}]", "BroadcastReduce", lambda lab, k=kids: lab.new("BroadcastReduce", *k(), reduce=join(), auto_delay=False), family="container"))
        out.append(S.Subject(f"Parallel[{n}]", "Parallel", lambda lab, k=kids: lab.new("Parallel", *k(), auto_delay=False), family="plist"))

    def named(cls, lab, **kw):
        d = lab.driver("def mk(a, b):\n    return OrderedDict([('first', a), ('second', b)])\n", mod="container", name="mk")
        return lab.new(cls, lab.call(d, S.opaque("a", **q), S.opaque("b", **q)), auto_delay=False, **kw)

    out.append(S.Subject("BroadcastReduce(OrderedDict)", "BroadcastReduce", lambda lab: named("BroadcastReduce", lab, reduce=join()), family="container"))
    out.append(S.Subject("Parallel(OrderedDict)", "Parallel", lambda lab: named("Parallel", lab), family="plist"))
    return out


def pipeline(lab, mode):
    """Broadcast - Parallel - Reduce is the same as a BroadcastReduce of the branches."""
    def thunk(ctx):
        q = dict(stride=(1,))
        o = lab.new("Sequential", lab.new("Broadcast"), lab.new("Parallel", S.opaque("a", **q), S.opaque("b", **q), auto_delay=False), lab.new("Reduce", Opq("join", "function")))
        kids = S.children(lab, o)
        n0 = len(ctx.events)
        x = inputs(lab, SEQ, 1)[0]
        return n0, kids, lab.fz(lab.m(o, mode, x))

    def judge(path):
        n0, kids, v = path.value
        f = path.facts
        ev = run_events(path, n0)
        out = [([e.obj.name for e in ev] == [c.name for c in kids], f"{mode} runs {[e.obj.name for e in ev]}")]
        for e in ev:
            out.append((resolved_method(e) == mode, f"{mode} runs {e.obj.name} in mode {resolved_method(e)}"))
            out.append((same(e.fargs[0], sym("x0"), f), f"{e.obj.name} receives another input"))
        ys = [e.data["result"] for e in ev]
        if v is None:
            joined = [e for e in path.events[n0:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.name == "join"]
            made = joined and f.query(T("kind", joined[0].data["result"], "Tensor")) is not True
            if not made and all(f.query(T("kind", y, "Tensor")) is True and not empty(f, y) for y in ys):
                out.append((False, "nothing is returned although all branches have an output"))
        else:
            je = [e for e in path.events[n0:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.name == "join"]
            out.append((len(je) == 1 and same(v, je[0].data["result"], f) is True and same(tuple(je[0].fargs[0].args), tuple(ys), f) is True, f"{mode} does not return the reduction of the branch outputs"))
        return out

    lab.obligation(f"pipeline-{mode}", "Sequential[Broadcast,Parallel,Reduce]", lab.where(lab.cls("Sequential"), mode), thunk, judge)


SEQ = S.Subject("x", "Sequential", None, family="container")


def run(lab, tier):
    for subj in subjects(tier):
        for m in MODES:
            for st in ("given", "none", "default") if m == "_forward_step" else (None,):
                lab.job(lockstep, subj, m, st)
    for m in MODES[:3]:
        lab.job(pipeline, m)
