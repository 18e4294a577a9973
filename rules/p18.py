"""P18: conversion picks the right counterpart and recurses; unknown types and invalid registrations are refused."""
from coan.interp import Inst, MISSING, Opq, PDict
from coan.lab import same
from coan.prog import ExtClass
from coan.terms import T, show, sym
from . import subjects as S

# documented counterparts: torch constructor call -> continual class (None: lifted)
MAPPED = {
    "Conv1d": "ci, co, 3", "Conv2d": "ci, co, 3", "Conv3d": "ci, co, 3",
    "AvgPool1d": "2", "AvgPool2d": "2", "AvgPool3d": "2", "MaxPool1d": "2", "MaxPool2d": "2", "MaxPool3d": "2",
    "Linear": "ci, co", "RNN": "ci, co", "LSTM": "ci, co", "GRU": "ci, co",
}
LIFTED = """Threshold ReLU RReLU Hardtanh ReLU6 Sigmoid Hardsigmoid Tanh SiLU Hardswish ELU CELU SELU GLU GELU Hardshrink LeakyReLU LogSigmoid Softplus
Softshrink PReLU Softsign Tanhshrink Softmin Softmax Softmax2d LogSoftmax BatchNorm1d BatchNorm2d BatchNorm3d LayerNorm GroupNorm Dropout Dropout1d Dropout2d
Dropout3d AlphaDropout FeatureAlphaDropout""".split()
LIFT_ARGS = {"Threshold": "0.1, 20", "GroupNorm": "1, ci", "LayerNorm": "ci", "BatchNorm1d": "ci", "BatchNorm2d": "ci", "BatchNorm3d": "ci"}
# torch modules whose output at one time step depends on other steps, changes the layout, or takes several inputs
REFUSED = """ConvTranspose1d ConvTranspose2d ConvTranspose3d LPPool1d LPPool2d AdaptiveAvgPool1d AdaptiveMaxPool1d FractionalMaxPool2d MaxUnpool1d Unfold Fold Upsample
Flatten ReflectionPad1d ReplicationPad1d ZeroPad2d ConstantPad1d RNNCell LSTMCell GRUCell Bilinear Embedding MultiheadAttention Transformer TransformerDecoder
PixelShuffle CosineSimilarity LazyConv1d ModuleList""".split()

SRC = """
def make(ci, co):
    return nn.%s(%s)

def go(m):
    return continual(m)
"""
MORE = """
class MySub(nn.%s):
    pass

def make(ci, co):
    return MySub(%s)
"""
CLS = """
class Good(CoModule, nn.Module):
    @staticmethod
    def build_from(module):
        return ("built from", module)

class NoBuild(CoModule, nn.Module):
    build_from = None

class NoStep(CoModule, nn.Module):
    forward_step = None
    @staticmethod
    def build_from(module):
        return None

class NoSteps(CoModule, nn.Module):
    forward_steps = None
    @staticmethod
    def build_from(module):
        return None

class NoForward(CoModule, nn.Module):
    forward = None
    @staticmethod
    def build_from(module):
        return None

class NoClean(CoModule, nn.Module):
    clean_state = None
    @staticmethod
    def build_from(module):
        return None

class NoGet(CoModule, nn.Module):
    get_state = None
    @staticmethod
    def build_from(module):
        return None

class NoSet(CoModule, nn.Module):
    set_state = None
    @staticmethod
    def build_from(module):
        return None

class NoDelay(CoModule, nn.Module):
    delay = None
    @staticmethod
    def build_from(module):
        return None

class NoField(CoModule, nn.Module):
    receptive_field = "three"
    @staticmethod
    def build_from(module):
        return None

class Other:
    @staticmethod
    def build_from(module):
        return None

class Mine(nn.Module):
    pass

def attempt(name):
    C = {"Good": Good, "NoBuild": NoBuild, "NoStep": NoStep, "NoSteps": NoSteps, "NoForward": NoForward, "NoClean": NoClean, "NoGet": NoGet, "NoSet": NoSet,
         "NoDelay": NoDelay, "NoField": NoField, "Other": Other}[name]
    n = len(MODULE_MAPPING)
    try:
        r = register(Mine, C)
    except AssertionError:
        return "refused", len(MODULE_MAPPING) == n
    return "accepted", r is C

def convert_mine():
    register(Mine, Good)
    m = Mine()
    return continual(m), m

def override():
    register(nn.Linear, Good)
    m = nn.Linear(2, 3)
    r = continual(m)
    register(nn.Linear, Linear)
    return r, m

class Duck(nn.Module):
    delay = 0
    receptive_field = 1
    stride = (1,)
    padding = (0,)
    _state_shape = 0
    _dynamic_state_inds = ()
    def forward(self, x):
        return x
    def forward_step(self, x, update_state=True):
        return x
    def forward_steps(self, x, pad_end=False, update_state=True):
        return x
    def get_state(self):
        return None
    def set_state(self, s):
        pass
    def clean_state(self):
        pass

def duck():
    m = Duck()
    return continual(m) is m

def function():
    def f(x):
        return x
    return continual(f), f
"""
NEST = """
def plain():
    return nn.Sequential(nn.Conv1d(2, 3, 3), nn.ReLU(), nn.Sequential(nn.Linear(4, 5), nn.AvgPool1d(2)))

def named():
    return nn.Sequential(OrderedDict([("first", nn.Conv1d(2, 3, 3)), ("act", nn.ReLU()), ("rest", nn.Sequential(OrderedDict([("lin", nn.Linear(4, 5)), ("pool", nn.AvgPool1d(2))])))]))

def odd():
    return nn.Sequential(OrderedDict([("5", nn.Conv1d(2, 3, 3)), ("1", nn.Conv1d(7, 7, 1)), ("0", nn.Conv1d(9, 9, 2))]))

def mixed():
    return nn.Sequential(Conv1d(2, 3, 3), nn.ReLU(), Sequential(Linear(4, 5), AvgPool1d(2)))

def shared():
    act, lin = nn.ReLU(), nn.Linear(4, 4)
    return nn.Sequential(act, nn.Conv1d(2, 3, 3), act, nn.Sequential(lin, act, lin), lin)

def conv(m):
    return continual(m)
"""


def facts(lab):
    for a in ("ci", "co"):
        S.P(a)


def kids(o):
    return list(o.modules.d.items()) if hasattr(o.modules, "d") else [(k, v) for k, v in o.modules.items]


def clsname(o):
    return getattr(getattr(o, "cls", None), "name", type(o).__name__)


def is_lift(lab, o, m):
    return o is m


def refused(p):
    return p.kind == "raise" and p.extra_name() == "AssertionError"


def lookup(lab, tn, args, want):
    mk, go = lab.driver(SRC % (tn, args), mod="convert", name="make"), lab.driver(SRC % (tn, args), mod="convert", name="go")
    where = lab.fwhere(lab.fn("convert", "continual"))

    def thunk(ctx):
        m = lab.call(mk, S.ci, S.co)
        o = lab.call(go, m)
        again = lab.call(go, o)
        return m, o, again

    def judge(path):
        m, o, again = path.value
        if want is None:
            res = [(o is m, f"nn.{tn} becomes {clsname(o)} instead of being lifted as it is")]
        else:
            c = lab.cls(want)
            res = [(isinstance(o, Inst) and o.cls is c, f"nn.{tn} becomes {clsname(o)}, not the continual {want}"), (o is not m, "the original is returned unconverted")]
        res.append((again is o, f"converting the converted {tn} again gives another module"))
        return res

    lab.obligation("counterpart", f"nn.{tn}", where, thunk, judge, )


def lifted(lab, tn):
    """A lifted module applies its own function, with a time dimension, in every mode and keeps no state."""
    mk, go = lab.driver(SRC % (tn, LIFT_ARGS.get(tn, "")), mod="convert", name="make"), lab.driver(SRC % (tn, ""), mod="convert", name="go")
    where = lab.fwhere(lab.fn("convert", "forward_stepping"))
    x = sym("x0")

    def run(kind):
        def thunk(ctx):
            lab.I.ctx.facts.assume(T("kind", x, "Tensor"), True)
            m = lab.call(mk, S.ci, S.co)
            m.attrs["forward"] = Opq("fn", "function")
            o = lab.call(go, m)
            n0 = len(ctx.events)
            if kind == "meta":
                return tuple(lab.fz(lab.attr(o, a)) for a in ("delay", "receptive_field", "stride", "padding")), lab.m(o, "clean_state"), lab.m(o, "get_state")
            if kind == "forward_step":
                r = lab.m(o, "forward_step", x, update_state=sym("u"))
            elif kind == "_forward_step":
                r = lab.m(o, "_forward_step", x, sym("st"))
            elif kind == "forward_steps":
                r = lab.m(o, "forward_steps", x, pad_end=sym("pe"), update_state=sym("u"))
            else:
                r = lab.m(o, "forward", x)
            ev = [e for e in ctx.events[n0:] if e.kind == "call" and isinstance(e.obj, Opq) and e.obj.name == "fn"]
            un, sq = lab.driver(WRAP, name="un"), lab.driver(WRAP, name="sq")
            step = "forward_step" in kind and kind != "forward_steps"
            arg = lab.fz(lab.call(un, x)) if step else x
            res = ev[0].data["result"] if ev else None
            want = lab.fz(lab.call(sq, res)) if step and ev else lab.fz(res)
            if kind == "_forward_step":
                want = (want, sym("st"))
            return len(ev), tuple(lab.fz(a) for a in ev[0].fargs) if ev else None, arg, lab.fz(r), want

        def judge(path):
            if kind == "meta":
                meta, c, g = path.value
                return [(meta == (0, 1, (1,), (0,)), f"delay, receptive field, stride, padding of a lifted {tn} are {meta}"), (g is None, "a lifted module reports a state")]
            n, got, arg, r, want = path.value
            return [(n == 1, f"{kind} runs the module {n} times"), (same(got, (arg,)) if n else False, f"{kind} hands {show(got)[:80]} to the module, not {show(arg)[:80]}"), (same(r, want), f"{kind} returns {show(r)[:80]}, not {show(want)[:80]}")]

        lab.obligation(f"lifted-{kind}", f"nn.{tn}", where, thunk, judge, )

    for kd in ("forward", "forward_step", "_forward_step", "forward_steps", "meta"):
        run(kd)


WRAP = """
def un(x):
    return x.unsqueeze(2)

def sq(y):
    return y.squeeze(2)
"""


def norms(lab, d, affine, track):
    tn = f"InstanceNorm{d}d"
    mk, go = lab.driver(SRC % (tn, f"ci, affine={affine}, track_running_stats={track}"), mod="convert", name="make"), lab.driver(SRC % (tn, ""), mod="convert", name="go")
    where = lab.fwhere(lab.fn("convert", "continual"))
    refusal(lab, "instance-norm", f"nn.{tn}(affine={affine}, track_running_stats={track})", where, lambda ctx: lab.call(go, lab.call(mk, S.ci, S.co)), not (affine and track))


def refusal(lab, name, subject, where, run, expect):
    from coan.interp import PyRaise

    def thunk(ctx):
        try:
            run(ctx)
        except PyRaise as e:
            return e.name
        return None

    def judge(path):
        r = path.value
        if expect:
            return [(r == "AssertionError", "it is converted although it must be refused" if r is None else f"it fails with {r} instead of being refused")]
        return [(r is None, f"it is refused ({r})")]

    lab.obligation(name, subject, where, thunk, judge)


def unknown(lab, tn):
    where = lab.fwhere(lab.fn("convert", "continual"))
    go = lab.driver(SRC % (tn, ""), mod="convert", name="go")

    def run(ctx):
        m = Inst_of(lab, tn)
        lab.call(go, m)

    refusal(lab, "no-counterpart", f"nn.{tn}", where, run, True)


def Inst_of(lab, tn):
    c = ExtClass._all.get(tn)
    mk = lab.driver("def make():\n    return object.__new__(nn.%s)\n" % tn, mod="convert", name="make")
    o = Inst(c, tn, 0) if False else Opq(f"src{tn}", "torchmodule", {})
    o.isa = dict(getattr(o, "isa", None) or {})
    o.isa["type"] = c
    for a in ("forward_step", "forward_steps", "get_state", "set_state", "clean_state", "delay", "receptive_field", "_state_shape", "_dynamic_state_inds"):
        o.attrs[a] = None
    return o


def subclassed(lab, tn, args):
    where = lab.fwhere(lab.fn("convert", "continual"))
    mk, go = lab.driver(MORE % (tn, args), mod="convert", name="make"), lab.driver(SRC % (tn, args), mod="convert", name="go")
    refusal(lab, "subclass", f"class MySub(nn.{tn})", where, lambda ctx: lab.call(go, lab.call(mk, S.ci, S.co)), True)


def already(lab, subj):
    go = lab.driver(SRC % ("ReLU", ""), mod="convert", name="go")
    where = lab.fwhere(lab.fn("convert", "continual"))

    def thunk(ctx):
        o = subj.build(lab)
        return lab.call(go, o) is o

    lab.obligation("already-continual", subj.name, where, thunk, lambda p: [(p.value, "a continual module is converted to another one")])


def registration(lab, name):
    D = lab.driver(CLS, mod="convert", name="attempt")
    where = lab.fwhere(lab.fn("convert", "register"))

    def judge(path):
        r, ok = path.value
        want = "accepted" if name == "Good" else "refused"
        return [(r == want, f"registering the class {name} is {r}"), (ok is True, "register does not return the class" if name == "Good" else "the refused class was entered in the table")]

    lab.obligation("register", name, where, lambda ctx: lab.call(D, name), judge, )


def used(lab, fn):
    D = lab.driver(CLS, mod="convert", name=fn)
    where = lab.fwhere(lab.fn("convert", "continual"))

    def judge(path):
        r, m = path.value
        return [(isinstance(r, tuple) and r[0] == "built from" and r[1] is m, "the registered class does not get to build the module")]

    lab.obligation("registered-is-used", fn, where, lambda ctx: lab.call(D), judge, )


def misc(lab):
    where = lab.fwhere(lab.fn("convert", "continual"))
    D = lab.driver(CLS, mod="convert", name="duck")
    lab.obligation("already-continual", "module with the streaming interface", where, lambda ctx: lab.call(D), lambda p: [(p.value is True, "it is not passed through")], )
    F = lab.driver(CLS, mod="convert", name="function")

    def judge(p):
        o, f = p.value
        return [(isinstance(o, Inst) and o.cls is lab.cls("Lambda"), f"a function becomes {clsname(o)}, not a Lambda"), (isinstance(o, Inst) and f in o.attrs.values(), "the Lambda does not hold the function")]

    lab.obligation("counterpart", "function", where, lambda ctx: lab.call(F), judge, )


def tree(o):
    """Nested (name, class, identity, children) of a container."""
    ks = [(k, tree(v)) for k, v in named_children(o)] if clsname(o) == "Sequential" else []
    return (clsname(o), o, ks)


def named_children(o):
    m = o.modules
    return [(k, v) for k, v in m.pairs] if m is not None else []


def nested(lab, fn):
    D, go = lab.driver(NEST, mod="convert", name=fn), lab.driver(NEST, mod="convert", name="conv")
    where = lab.where(lab.cls("Sequential"), "build_from")

    def thunk(ctx):
        m = lab.call(D)
        before = tree(m)
        o = lab.call(go, m)
        return before, tree(o), {id(x): ident(lab, x) for x in leaves(before) + leaves(tree(o))}

    def judge(path):
        a, b, ids = path.value
        out = []

        def cmp(x, y, at):
            (xn, xo, xk), (yn, yo, yk) = x, y
            out.append((xn == yn, f"{at}: {xn} becomes {yn}"))
            if [k for k, _ in xk] != [k for k, _ in yk]:
                out.append((False, f"{at}: the elements {[k for k, _ in xk]} become {[k for k, _ in yk]}"))
                return
            if xn == "Sequential":
                out.append((isinstance(yo, Inst) and yo.cls is lab.cls("Sequential"), f"{at}: the nested sequence stays unconverted"))
            elif not xk:
                out.append((same(ids[id(xo)], ids[id(yo)]), f"{at}: {ids[id(xo)]} becomes {ids[id(yo)]}"))
            for (k, p), (_, q) in zip(xk, yk):
                cmp(p, q, f"{at}.{k}")

        cmp(a, b, "net")
        return out

    lab.obligation("recursion", f"Sequential ({fn})", where, thunk, judge, )


def leaves(t):
    return [t[1]] if not t[2] else [x for _, c in t[2] for x in leaves(c)]


def ident(lab, o):
    for a in ("in_channels", "in_features"):
        v = lab.attr(o, a, None)
        v = lab.fz(v)
        if isinstance(v, (int, tuple)):
            return (clsname(o), a, v[0] if isinstance(v, tuple) and len(v) == 1 else v)
    return (clsname(o),)


BUILD = {
    "Sequential": "def mk():\n    return Sequential(nn.Conv1d(2, 3, 3), nn.ReLU(), Conv1d(5, 5, 1))\n",
    "Sequential(named)": "def mk():\n    return Sequential(OrderedDict([('a', nn.Conv1d(2, 3, 3)), ('b', nn.ReLU()), ('c', Conv1d(5, 5, 1))]))\n",
    "Sequential.append": "def mk():\n    m = Sequential(nn.Conv1d(2, 3, 3))\n    m.append(nn.ReLU())\n    m.append(Conv1d(5, 5, 1))\n    return m\n",
    "Sequential.append(later)": "def mk():\n    m = Sequential(nn.Conv1d(2, 3, 3), nn.ReLU())\n    r = m.append(nn.Conv1d(5, 5, 1))\n    return r\n",
    "Sequential.append(first)": "def mk():\n    m = Sequential()\n    for e in (nn.Conv1d(2, 3, 3), nn.ReLU(), nn.Conv1d(5, 5, 1)):\n        m = m.append(e)\n    return m\n",
    "Sequential.add_module": "def mk():\n    m = Sequential()\n    m.add_module('a', nn.Conv1d(2, 3, 3))\n    m.add_module('b', nn.ReLU())\n    m.add_module('c', Conv1d(5, 5, 1))\n    return m\n",
    "BroadcastReduce": "def mk():\n    return BroadcastReduce(nn.Conv1d(2, 3, 1), nn.ReLU(), Conv1d(5, 5, 1), reduce='sum')\n",
    "BroadcastReduce(named)": "def mk():\n    return BroadcastReduce(OrderedDict([('a', nn.Conv1d(2, 3, 1)), ('b', nn.ReLU()), ('c', Conv1d(5, 5, 1))]), reduce='sum')\n",
    "Parallel": "def mk():\n    return Parallel(nn.Conv1d(2, 3, 1), nn.ReLU(), Conv1d(5, 5, 1))\n",
    "Parallel(named)": "def mk():\n    return Parallel(OrderedDict([('a', nn.Conv1d(2, 3, 1)), ('b', nn.ReLU()), ('c', Conv1d(5, 5, 1))]))\n",
    "Conditional": "def mk():\n    return Conditional(lambda m, x: True, nn.Conv1d(2, 3, 1), nn.ReLU())\n",
    "Conditional(one)": "def mk():\n    return Conditional(lambda m, x: True, nn.Conv1d(2, 3, 1))\n",
}


def built(lab, name, src):
    mk = lab.driver(src, mod="container", name="mk")
    where = lab.fwhere(lab.fn("container", "co_add_module")) if "Conditional" not in name else lab.where(lab.cls("Conditional"), "__init__")

    def thunk(ctx):
        o = lab.call(mk)
        return [(k, clsname(v), bool(isinstance(v, Inst) and v.cls is lab.cls("Conv1d")) if clsname(v) == "Conv1d" else None, ident(lab, v)) for k, v in named_children(o)]

    def judge(path):
        got = path.value
        names = list("abc") if "named" in name or "add_module" in name else list("012")
        want = [("Conv1d", 2), ("ReLU",), ("Conv1d", 5)]
        if "Conditional" in name:
            want = want[:1 if "one" in name else 2]
        names = names[:len(want)]
        g = [(k, c) for k, c, _, _ in got]
        res = [(g == [(n, w[0]) for n, w in zip(names, want)], f"the elements are {g}")]
        for (k, c, ok, i), w in zip(got, want):
            if c == "Conv1d" and w[0] == c:
                res.append((ok, f"element {k} stays an unconverted nn.Conv1d"))
                res.append((i[2] == w[1], f"element {k} is another element's module"))
        return res

    lab.obligation("elements", name, where, thunk, judge, )


def run(lab, tier):
    for tn, args in MAPPED.items():
        lab.job(lookup, tn, args, tn)
        lab.job(subclassed, tn, args)
    for tn in LIFTED:
        lab.job(lookup, tn, LIFT_ARGS.get(tn, ""), None)
        lab.job(lifted, tn)
    for d in (1, 2, 3):
        for af in (True, False):
            for tr in (True, False):
                lab.job(norms, d, af, tr)
    for tn in REFUSED:
        lab.job(unknown, tn)
    lab.job(subclassed, "ReLU", "")
    lab.job(subclassed, "BatchNorm1d", "ci")
    lab.job(subclassed, "Sequential", "")
    for subj in S.leaves() + S.mha_subjects() + S.container_subjects():
        lab.job(already, subj)
    for n in ("Good", "NoBuild", "NoStep", "NoSteps", "NoForward", "NoClean", "NoGet", "NoSet", "NoDelay", "NoField", "Other"):
        lab.job(registration, n)
    lab.job(used, "convert_mine")
    lab.job(used, "override")
    lab.job(misc)
    for fn in ("plain", "named", "odd", "mixed", "shared"):
        lab.job(nested, fn)
    for name, src in BUILD.items():
        lab.job(built, name, src)
