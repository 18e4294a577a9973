"""P07: scoped settings apply inside the scope and are restored on every exit."""
from coan.interp import Inst, Opq, PDict
from coan.lab import same
from coan.terms import T, show, sym
from . import subjects as S
from .p06 import GLOBAL_HOOKS, stubbed

MODES = ("forward", "forward_steps", "forward_step")

# Nested scopes with an arbitrary (possibly failing) body at every level; `obs(tag)` observes
# the setting in force.
CALL = """
def run(o, x, m1, m2, m3, body):
    seen = []
    def obs(tag):
        seen.append((tag, o(x)))
    obs(0)
    try:
        with call_mode(m1):
            obs(1)
            body(1)
            try:
                with call_mode(m2):
                    obs(2)
                    body(2)
                    try:
                        with call_mode(m3):
                            obs(3)
                            body(3)
                    except Exception:
                        pass
                    obs(2)
            except Exception:
                pass
            obs(1)
            body(4)
    except Exception:
        pass
    obs(0)
    with call_mode(m2):
        obs(2)
    obs(0)
    return seen

def returning(o, x, m1, m2, body):
    seen = []
    def inner():
        with call_mode(m2):
            body(1)
            seen.append((2, o(x)))
            return None
    seen.append((0, o(x)))
    with call_mode(m1):
        try:
            inner()
        except Exception:
            pass
        seen.append((1, o(x)))
    seen.append((0, o(x)))
    return seen
"""

FLAT = """
def run(obs_, body):
    seen = []
    def obs(tag):
        seen.append((tag, obs_()))
    obs(0)
    try:
        with flat_state_dict:
            obs(1)
            body(1)
            try:
                with flat_state_dict:
                    obs(1)
                    body(2)
            except Exception:
                pass
            obs(1)
            body(3)
    except Exception:
        pass
    obs(0)
    with flat_state_dict:
        obs(1)
    obs(0)
    return seen

def mk_obs(m):
    def obs_():
        return list(state_dict(m).keys())
    return obs_
"""

PARAM = """
class Box:
    pass

def boxed():
    b = Box()
    b.inner = Box()
    return b

def put(b, attr, v):
    setattr(b, attr, v)

def run(b, attr, path, v1, v2, body):
    seen = []
    def obs(tag):
        seen.append((tag, getattr(b, attr, "absent")))
    obs(0)
    try:
        with temporary_parameter(*path, v1):
            obs(1)
            body(1)
            try:
                with temporary_parameter(*path, v2):
                    obs(2)
                    body(2)
            except Exception:
                pass
            obs(1)
            body(3)
    except Exception:
        pass
    obs(0)
    try:
        with temporary_parameter(*path, v2):
            obs(2)
            body(4)
    except Exception:
        pass
    obs(0)
    return seen

def changed(b, attr, v1, v2):
    with temporary_parameter(b, attr, v1):
        setattr(b, attr, v2)
    return getattr(b, attr, "absent")
"""


def judge_tags(expected, what):
    """Every observation must show the setting of the scope it was made in."""
    def judge(path):
        out = [(True, "")]
        for tag, v in [(x[0], x[1]) for x in items(path.value)]:
            want = expected[tag](path) if callable(expected[tag]) else expected[tag]
            ok = same(v, want)
            if ok is not True:
                out.append((ok, f"{what}: at nesting depth {tag} the value in force is {show(v)[:100]} instead of {show(want)[:100]}"))
        return out
    return judge


def items(v):
    return v.args if isinstance(v, T) and v.op == "list" else tuple(v)


def modes(lab, m1, m2, m3, base):
    run = lab.driver(CALL, name="run")
    ret = lab.driver(CALL, name="returning")
    where = lab.where(lab.cls("_CallModeContext"), "__call__", "__enter__", "__exit__")
    subj = S.delay_subjects()[0]
    body = Opq("body", "function")

    def build():
        o = subj.build(lab)
        stubbed(lab, o)
        if base != "forward":
            o.attrs.pop("call_mode", None)
            lab.I.setattr_(o, "call_mode", base, None)
        return o

    x = sym("a0")

    def label(v):
        """The mode whose stub produced the value."""
        for m in MODES:
            if isinstance(v, T) and v.op == "out" and show(v.args[0]) == "stub_" + m:
                return m
        return v

    def judge_for(exp):
        j = judge_tags(exp, "call mode")

        def judge(path):
            path.value = tuple((a[0], label(a[1])) for a in items(path.value))
            return j(path)
        return judge

    exp = {0: base, 1: m1, 2: m2, 3: m3}
    lab.obligation(f"call-mode-{base}-{m1}-{m2}-{m3}", "call_mode", where, lambda ctx: lab.fz(lab.call(run, build(), x, m1, m2, m3, body)), judge_for(exp), raises=True)
    lab.obligation(f"call-mode-return-{base}-{m1}-{m2}", "call_mode", where, lambda ctx: lab.fz(lab.call(ret, build(), x, m1, m2, body)), judge_for(exp), raises=True)


def flat(lab):
    run = lab.driver(FLAT, name="run")
    mk = lab.driver(FLAT, name="mk_obs")
    body = Opq("body", "function")
    C = lab.I.globals["continual.utils"].get("flat_state_dict")
    where = lab.where(C.cls, "__enter__", "__exit__") if isinstance(C, Inst) else "continual/utils.py"

    def thunk(ctx):
        o = S.delay_subjects()[0].build(lab)
        o.attrs["@state_dict"] = PDict([["0.weight", sym("w")], ["a.1.bias", sym("b")]])
        return lab.fz(lab.call(run, lab.call(mk, o), body))

    long, short = T("list", "0.weight", "a.1.bias"), T("list", "weight", "a.bias")
    lab.obligation("flat-state-dict", "flat_state_dict", where, thunk, judge_tags({0: long, 1: short}, "flattened naming"), raises=True)


def param(lab, kind):
    run, boxed, put, changed = (lab.driver(PARAM, name=n) for n in ("run", "boxed", "put", "changed"))
    body = Opq("body", "function")
    tp = lab.fn("utils", "temporary_parameter")

    def thunk(ctx):
        b = lab.call(boxed)
        target = b
        if kind == "dotted":
            target = lab.attr(b, "inner")
        if kind != "absent":
            lab.call(put, target, "a", sym("v0"))
        path = (b, "inner.a") if kind == "dotted" else (b, "a")
        return lab.fz(lab.call(run, target, "a", path, sym("v1"), sym("v2"), body))

    exp = {0: "absent" if kind == "absent" else sym("v0"), 1: sym("v1"), 2: sym("v2")}
    lab.obligation(f"temporary-parameter-{kind}", "temporary_parameter", lab.fwhere(tp), thunk, judge_tags(exp, "temporary parameter"), raises=True)

    if kind != "dotted":
        def thunk2(ctx):
            b = lab.call(boxed)
            if kind != "absent":
                lab.call(put, b, "a", sym("v0"))
            return lab.fz(lab.call(changed, b, "a", sym("v1"), sym("v2")))

        lab.obligation(f"temporary-parameter-changed-{kind}", "temporary_parameter", lab.fwhere(tp), thunk2,
                       lambda path: [(same(path.value, exp[0]), "a parameter changed inside the scope is not restored")])


def falsy(lab):
    """Replaced values that are falsy or None are restored too."""
    run, boxed, put = (lab.driver(PARAM, name=n) for n in ("run", "boxed", "put"))
    body = Opq("body", "function")
    for v0 in (None, 0, ""):
        def thunk(ctx, v0=v0):
            b = lab.call(boxed)
            lab.call(put, b, "a", v0)
            return lab.fz(lab.call(run, b, "a", (b, "a"), sym("v1"), None, body))

        lab.obligation(f"temporary-parameter-{v0}", "temporary_parameter", lab.fwhere(lab.fn("utils", "temporary_parameter")), thunk,
                       judge_tags({0: v0, 1: sym("v1"), 2: None}, "temporary parameter"), raises=True)


def container_modes(lab, subj, method, mode0):
    """Running a composite leaves the modes of its children as they were, also when a child fails."""
    src = "def run(o, method, args):\n    try:\n        getattr(o, method)(*args)\n    except Exception:\n        return False\n    return True\n"
    run = lab.driver(src, name="run")

    def thunk(ctx):
        o = subj.build(lab)
        kids = S.children(lab, o)
        for c in kids:
            c.attrs["call_mode"] = lab.call(lab.fn("module", "_callmode"), "forward")
        lab.I.setattr_(o, "call_mode", mode0, None)
        before = [(c.name, lab.fz(c.attrs.get("call_mode"))) for c in kids]
        ok = lab.call(run, o, method, subj.x() if method == "forward_step" else subj.X())
        return tuple((n, v, lab.fz(c.attrs.get("call_mode"))) for (n, v), c in zip(before, kids))

    def judge(path):
        return [(same(v, w), f"{method} leaves sub-module {n} in mode {show(v)[:60]}, it was {show(w)[:60]}") for n, w, v in path.value] + [(True, "")]

    lab.obligation(f"child-mode-{method}-from-{mode0}", subj.name, subj.where(lab, method), thunk, judge, raises=True)


def run(lab, tier):
    for g in lab.I.globals.values():
        for n in GLOBAL_HOOKS:
            if n in g:
                g[n] = PDict()
    for base in MODES:
        for m1 in MODES:
            for m2 in MODES:
                for m3 in MODES if tier != "quick" else MODES[:1]:
                    lab.job(modes, m1, m2, m3, base)
    lab.job(flat)
    for kind in ("present", "absent", "dotted"):
        lab.job(param, kind)
    lab.job(falsy)
    for subj in S.container_subjects((1, 2, 3)) + S.nested_subjects():
        for m in MODES:
            for m0 in MODES if tier != "quick" else [x for x in MODES if x != m][:1]:
                lab.job(container_modes, subj, m, m0)
