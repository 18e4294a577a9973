"""P06: calling a module runs exactly the mode that applies, with all arguments, hooks once."""
from coan.interp import MISSING, Inst, Opq, PDict
from coan.lab import same
from coan.terms import T, show, sym
from . import subjects as S

MODES = ("forward", "forward_steps", "forward_step")

DRIVE = """
def plain(o, a, k):
    return o(*a, **k)

def inst(o, m, a, k):
    o.call_mode = m
    return o(*a, **k)

def temp(o, m, a, k):
    with temporary_parameter(o, "call_mode", m):
        return o(*a, **k)

def scoped(o, m, a, k):
    with call_mode(m):
        return o(*a, **k)

def nested(o, m1, m2, a, k):
    with call_mode(m1):
        with call_mode(m2):
            return o(*a, **k)

def spelled(kind, m):
    if kind == "name":
        return m
    if kind == "upper":
        return m.upper()
    n = {"forward": 0, "forward_steps": 1, "forward_step": 2}[m]
    if kind == "number":
        return n
    return torch.tensor(n)
"""


def stubbed(lab, o):
    """Replace the three processing functions by opaque ones, so that only the dispatch is analysed."""
    for m in MODES:
        f = Opq("stub_" + m, "function")
        o.attrs[m] = f


def lifted(lab):
    m = lab.new_plain()
    return lab.call(lab.fn("convert", "forward_stepping"), m)


PLAIN = """
class PlainModule(nn.Module):
    def __init__(self, fn):
        super().__init__()
        self.fn = fn
        self.stride = (1,)
        self.padding = (0,)

    def forward(self, input, *args, **kwargs):
        return self.fn(input, *args, **kwargs)

def make(fn):
    return PlainModule(fn)
"""

ARGS = {"forward": ((sym("a0"),), {}), "forward_steps": ((sym("a0"), sym("a1")), {"update_state": sym("u")}), "forward_step": ((sym("a0"),), {"update_state": sym("u")})}


def build(lab, subj):
    o = subj.build(lab)
    stubbed(lab, o)
    return o


def which(path, start):
    """Stub calls made, in order."""
    return [e for e in path.events[start:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.name.startswith("stub_")]


def expect(path, start, value, mode, args, kwargs, what):
    ev = which(path, start)
    names = [e.obj.name[5:] for e in ev]
    if names != [mode]:
        return [(False, f"{what}: expected {mode} to run, ran {', '.join(names) or 'nothing'}")]
    e = ev[0]
    if tuple(e.fargs) != tuple(args) or dict(e.fkwargs) != dict(kwargs):
        return [(False, f"{what}: {mode} received ({show(tuple(e.fargs))}, {sorted(e.fkwargs)}) instead of the caller's arguments")]
    r = e.data["result"]
    return [(same(value, r), f"{what}: the result of {mode} is returned as {show(value)[:120]}")]


def dispatch(lab, subj):
    D = {n: lab.driver(DRIVE, name=n) for n in ("plain", "inst", "temp", "scoped", "nested", "spelled")}

    def case(how, mode, extra, run):
        def thunk(ctx):
            o = build(lab, subj)
            a, k = ARGS[mode]
            n0 = len(ctx.events)
            return n0, lab.fz(run(o, tuple(a), dict(k)))

        def judge(path):
            n0, v = path.value
            a, k = ARGS[mode]
            return expect(path, n0, v, mode, a, k, extra)

        lab.obligation(f"dispatch-{how}-{mode}", subj.name, subj.where(lab, "_call_impl", "call_mode") if hasattr(subj.cls(lab), "find") else "", thunk, judge, raises_ok=False)

    K = lambda k: PDict([[x, y] for x, y in k.items()])
    case("default", "forward", "no mode selected", lambda o, a, k: lab.call(D["plain"], o, a, K(k)))
    for m in MODES:
        for sp in ("name", "upper", "number", "tensor"):
            v = lambda m=m, sp=sp: lab.call(D["spelled"], sp, m)
            case(f"inst-{sp}", m, f"instance mode {m} given as {sp}", lambda o, a, k, v=v: lab.call(D["inst"], o, v(), a, K(k)))
            case(f"scope-{sp}", m, f"scope {m} given as {sp}", lambda o, a, k, v=v: lab.call(D["scoped"], o, v(), a, K(k)))
        case("temporary", m, f"temporary instance mode {m}", lambda o, a, k, m=m: lab.call(D["temp"], o, m, a, K(k)))
        for i in MODES:
            def both(o, a, k, m=m, i=i):
                lab.call(lab.driver("def setm(o, m):\n    o.call_mode = m\n", name="setm"), o, i)
                return lab.call(D["scoped"], o, m, a, K(k))
            case(f"inst-{i}-scope", m, f"scope {m} over instance mode {i}", both)
            case(f"scope-{i}-scope", m, f"scope {m} inside scope {i}", lambda o, a, k, m=m, i=i: lab.call(D["nested"], o, i, m, a, K(k)))

            def after(o, a, k, m=m, i=i):
                lab.call(lab.driver("def setm(o, m):\n    o.call_mode = m\n", name="setm"), o, m)
                lab.call(lab.driver("def enter(m):\n    with call_mode(m):\n        pass\n", name="enter"), i)
                return lab.call(D["plain"], o, a, K(k))
            case(f"after-scope-{i}", m, f"instance mode {m} after a scope {i} was left", after)


def hooks(lab, subj):
    D = lab.driver(DRIVE, name="temp")

    def case(mode, npre, npost):
        def thunk(ctx):
            o = build(lab, subj)
            pre = [Opq(f"pre{i}", "function") for i in range(npre)]
            post = [Opq(f"post{i}", "function") for i in range(npost)]
            o.attrs["_forward_pre_hooks"] = PDict([[i, h] for i, h in enumerate(pre)])
            o.attrs["_forward_hooks"] = PDict([[10 + i, h] for i, h in enumerate(post)])
            a, k = ARGS[mode]
            n0 = len(ctx.events)
            return n0, lab.fz(lab.call(D, o, mode, tuple(a), PDict([[x, y] for x, y in k.items()])))

        def judge(path):
            n0, v = path.value
            ev = [e for e in path.events[n0:] if e.kind == "call" and isinstance(e.obj, Opq)]
            names = [e.obj.name for e in ev]
            want = [f"pre{i}" for i in range(npre)] + ["stub_" + mode] + [f"post{i}" for i in range(npost)]
            out = [(names == want, f"calling with {npre} pre-forward and {npost} forward hooks runs {names} instead of {want}")]
            if names == want:
                run, last = ev[npre], ev[-1]
                for e in ev[npre + 1:]:
                    if len(e.fargs) < 3:
                        out.append((False, "a forward hook does not receive module, input and output"))
                if npre == 0:
                    a, k = ARGS[mode]
                    out.append((tuple(run.fargs) == tuple(a) and dict(run.fkwargs) == dict(k), f"{mode} does not receive the caller's arguments when hooks are present"))
                if npost == 0:
                    out.append((same(v, run.data["result"]), f"the result of {mode} is not returned unchanged when hooks are present"))
                elif npost == 1:
                    h = last.data["result"]
                    out.append((True if v in (h, run.data["result"]) else None if same(v, h) is None else False, "with a forward hook something else than the hook's or the module's result is returned"))
                    out.append((same(tuple(last.fargs)[-1], run.data["result"]), "the forward hook does not receive the module's result"))
            return out

        lab.obligation(f"hooks-{mode}-{npre}-{npost}", subj.name, subj.where(lab, "_call_impl"), thunk, judge, raises_ok=True)

    for m in MODES:
        for npre, npost in ((0, 1), (1, 0), (1, 1)) + (((2, 2),) if lab.tier != "quick" else ()):
            case(m, npre, npost)


def lifted_modules(lab, dim):
    D = {n: lab.driver(DRIVE, name=n) for n in ("plain", "inst", "temp", "scoped", "nested", "spelled")}
    make = lab.driver(PLAIN, name="make")
    lift = lab.fn("convert", "forward_stepping")
    where = lab.fwhere(lift)
    name = f"forward_stepping(module{'' if dim is None else ', dim'})"

    def built(ctx):
        for v in (sym("a0"),):
            lab.I.ctx.facts.assume(T("kind", v, "Tensor"), True)
        return lab.call(lift, lab.call(make, Opq("fn", "function")), *(() if dim is None else (dim,)))

    def case(how, mode, extra, run):
        def thunk(ctx):
            o = built(ctx)
            n0 = len(ctx.events)
            a, k = ((sym("a0"),), {}) if mode == "forward" else ((sym("a0"),), {"update_state": True})
            v = lab.fz(run(o, a, k))
            n1 = len(ctx.events)
            ref = lab.fz(lab.m(o, mode, *a, **k)) if mode != "forward" else None
            return n0, n1, v, ref

        def judge(path):
            n0, n1, v, ref = path.value
            ev = [e for e in path.events[n0:n1] if e.kind == "call" and isinstance(e.obj, Opq)]
            out = [([e.obj.name for e in ev] == ["fn"], f"{extra}: the lifted module's function runs {len(ev)} times")]
            if ev:
                if mode == "forward":
                    out.append((same(tuple(ev[0].fargs), (sym("a0"),)), f"{extra}: the input does not reach the lifted module unchanged"))
                    out.append((same(v, ev[0].data["result"]), f"{extra}: the result is changed"))
                else:
                    out.append((same(v, ref), f"{extra}: the call gives {show(v)[:100]}, {mode} gives {show(ref)[:100]}"))
            return out

        lab.obligation(f"lifted-{how}-{mode}", name, where, thunk, judge, raises_ok=False)

    K = lambda k: PDict([[x, y] for x, y in k.items()])
    case("default", "forward", "no mode selected", lambda o, a, k: lab.call(D["plain"], o, a, K(k)))
    for m in MODES:
        for sp in ("name", "upper", "number", "tensor"):
            v = lambda m=m, sp=sp: lab.call(D["spelled"], sp, m)
            case(f"inst-{sp}", m, f"instance mode {m} given as {sp}", lambda o, a, k, v=v: lab.call(D["inst"], o, v(), a, K(k)))
            case(f"scope-{sp}", m, f"scope {m} given as {sp}", lambda o, a, k, v=v: lab.call(D["scoped"], o, v(), a, K(k)))
            case(f"temporary-{sp}", m, f"temporary mode {m} given as {sp}", lambda o, a, k, v=v: lab.call(D["temp"], o, v(), a, K(k)))


def lifted_hooks(lab):
    make = lab.driver(PLAIN, name="make")
    lift = lab.fn("convert", "forward_stepping")
    D = lab.driver(DRIVE, name="temp")

    def case(mode):
        def thunk(ctx):
            lab.I.ctx.facts.assume(T("kind", sym("a0"), "Tensor"), True)
            o = lab.call(lift, lab.call(make, Opq("fn", "function")))
            o.attrs["_forward_pre_hooks"] = PDict([[0, Opq("pre0", "function")]])
            o.attrs["_forward_hooks"] = PDict([[1, Opq("post0", "function")]])
            n0 = len(ctx.events)
            lab.call(D, o, mode, (sym("a0"),), PDict())
            return n0

        def judge(path):
            names = [e.obj.name for e in path.events[path.value:] if e.kind == "call" and isinstance(e.obj, Opq)]
            return [(names == ["pre0", "fn", "post0"], f"calling a lifted module in mode {mode} runs {names}")]

        lab.obligation(f"lifted-hooks-{mode}", "forward_stepping(module)", lab.fwhere(lift), thunk, judge, raises_ok=True)

    for m in MODES:
        case(m)


def subjects(lab):
    seen, out = set(), []
    for s in S.leaves() + S.mha_subjects() + S.container_subjects((2,)):
        if s.clsname not in seen:
            seen.add(s.clsname)
            out.append(s)
    return out


GLOBAL_HOOKS = ("_global_backward_hooks", "_global_forward_hooks", "_global_forward_pre_hooks", "_global_backward_pre_hooks")


def run(lab, tier):
    # torch's process-wide hook tables are empty unless the application fills them
    for g in lab.I.globals.values():
        for n in GLOBAL_HOOKS:
            if n in g:
                g[n] = PDict()
    for subj in subjects(lab):
        lab.job(dispatch, subj)
        lab.job(hooks, subj)
    for d in (None, 1):
        lab.job(lifted_modules, d)
    lab.job(lifted_hooks)
