"""P20: flattened checkpoint names map one-to-one; nothing is overwritten; unflattened naming is untouched."""
from coan.interp import Inst, Opq, PDict, PyRaise
from coan.lab import same
from coan.terms import T, show, sym
from . import subjects as S

SRC = """
class Own(nn.Module):
    def __init__(self, *children):
        super().__init__()
        self.weight = nn.Parameter(torch.zeros(3))
        self.register_buffer("mean", torch.zeros(3))
        self.register_buffer("scratch", torch.zeros(3), persistent=False)
        for i, c in enumerate(children):
            self.add_module(str(i), c)

class Plain(nn.Module):
    def __init__(self, **children):
        super().__init__()
        for k, c in children.items():
            self.add_module(k, c)

def L():
    return Linear(2, 3)

def put(seq, name, m):
    nn.Module.add_module(seq, name, m)
    return seq

NETS = {
    "one": lambda: Sequential(L()),
    "two unnamed": lambda: Sequential(L(), L()),
    "named": lambda: Sequential(OrderedDict([("a", L()), ("b", L())])),
    "named over unnamed": lambda: Sequential(OrderedDict([("a", Sequential(L())), ("b", Sequential(Sequential(L())))])),
    "unnamed over named": lambda: Sequential(Sequential(OrderedDict([("a", L()), ("b", L())]))),
    "mixed": lambda: Sequential(Sequential(OrderedDict([("a", L())])), Sequential(OrderedDict([("b", L())])), L()),
    "collision below a name": lambda: Sequential(OrderedDict([("a", Sequential(L(), L())), ("b", L())])),
    "collision across levels": lambda: Sequential(Sequential(OrderedDict([("a", L())])), Sequential(OrderedDict([("a", L())]))),
    "same name at different depth": lambda: Sequential(OrderedDict([("a", Sequential(OrderedDict([("a", L())]))), ("b", L())])),
    "names with digits": lambda: Sequential(OrderedDict([("layer1", L()), ("layer2", L()), ("2nd", L()), ("conv_3", Sequential(L()))])),
    "parameter next to a numbered child": lambda: put(Sequential(), "net", Own(L())),
    "parameters and buffers": lambda: put(put(Sequential(OrderedDict([("x", L())])), "net", Own()), "3", Own()),
    "broadcast-reduce": lambda: BroadcastReduce(OrderedDict([("a", L()), ("b", Sequential(L()))])),
    "broadcast-reduce, unnamed": lambda: BroadcastReduce(L(), L()),
    "parallel": lambda: Parallel(OrderedDict([("a", L()), ("b", Sequential(L()))])),
    "conditional": lambda: Conditional(lambda m, x: True, Sequential(OrderedDict([("a", L())])), Sequential(OrderedDict([("b", L())]))),
    "conditional, unnamed": lambda: Conditional(lambda m, x: True, L(), L()),
    "deep": lambda: Sequential(OrderedDict([("enc", Sequential(BroadcastReduce(OrderedDict([("l", L()), ("r", Sequential(L()))])))), ("dec", Conditional(lambda m, x: True, L()))])),
    "parent module": lambda: Plain(head=L(), body=Sequential(L(), Sequential(OrderedDict([("a", L())])))),
    "more than ten": lambda: Sequential(*[Sequential(OrderedDict([("n" + str(i), L())])) if i % 3 else L() for i in range(12)]),
    "more than ten branches": lambda: BroadcastReduce(*[Sequential(L(), Own()) for i in range(12)]),
    "empty": lambda: Sequential(),
}

def make(name):
    return NETS[name]()

def raw(m):
    return nn.Module.state_dict(m)

def save(m, how, *a, **k):
    if how == "arg":
        return m.state_dict(flatten=True, *a, **k)
    if how == "attr":
        m.flatten_state_dict = True
        r = m.state_dict(*a, **k)
        m.flatten_state_dict = False
        return r
    if how == "scope":
        with flat_state_dict:
            return m.state_dict(*a, **k)
    if how == "nested scope":
        with flat_state_dict:
            with flat_state_dict:
                pass
            return m.state_dict(*a, **k)
    return m.state_dict(*a, **k)

def load(m, sd, how, **k):
    if how == "arg":
        return m.load_state_dict(sd, flatten=True, **k)
    if how == "attr":
        m.flatten_state_dict = True
        r = m.load_state_dict(sd, **k)
        m.flatten_state_dict = False
        return r
    if how in ("scope", "nested scope"):
        with flat_state_dict:
            return m.load_state_dict(sd, **k)
    return m.load_state_dict(sd, **k)
"""
NETS = """one|two unnamed|named|named over unnamed|unnamed over named|mixed|collision below a name|collision across levels|same name at different depth|names with digits|parameter next to a numbered child
parameters and buffers|broadcast-reduce|broadcast-reduce, unnamed|parallel|conditional|conditional, unnamed|deep|empty""".replace("\n", "|").split("|")
HOW = ("arg", "attr", "scope", "nested scope")
SHUFFLE = "def go(d):\n    return OrderedDict(reversed(list(d.items())))\n"


def short(k):
    return ".".join(x for x in k.split(".") if not x.isdigit())


def pairs(lab, d):
    return [(k, lab.fz(v)) for k, v in d.pairs] if isinstance(d, PDict) else None


def net(lab, name, how):
    f = {n: lab.driver(IMPORTS + SRC, mod="container", name=n) for n in ("make", "raw", "save", "load")}
    where = lab.fwhere(lab.fn("utils", "state_dict"))
    lwhere = lab.fwhere(lab.fn("utils", "load_state_dict"))

    def saving(ctx):
        m = lab.call(f["make"], name)
        a = pairs(lab, lab.call(f["raw"], m))
        b = lab.call(f["save"], m, how)
        return a, pairs(lab, b), pairs(lab, lab.call(f["raw"], m))

    def judge(path):
        a, b, c = path.value
        if b is None:
            return [(None, "the checkpoint is not a plain mapping")]
        want = [(short(k), v) for k, v in a] if how != "off" else a
        res = [(a == c, "saving changes the module's own names")]
        if len({k for k, _ in want}) == len(want):
            res.append(([k for k, _ in b] == [k for k, _ in want], f"the saved names are {[k for k, _ in b]}, expected {[k for k, _ in want]}"))
            db = dict(b)
            for k, v in want:
                if k in db:
                    res.append((same(db[k], v, path.facts), f"{k} holds {show(db[k])[:60]}, not {show(v)[:60]}"))
        else:
            kept = len(b) == len(a) and all(any(v == w for _, w in b) for _, v in a)
            res.append((kept, f"of {len(a)} entries only {len(b)} are saved: colliding names overwrite each other"))
            da = dict(a)
            for k, v in b:
                if k in da:
                    res.append((same(v, da[k], path.facts), f"{k} holds another parameter's value"))
        return res

    lab.obligation(f"save-{how}", name, where, saving, judge)

    def loading(strict, order):
        def thunk(ctx):
            m = lab.call(f["make"], name)
            a = pairs(lab, lab.call(f["raw"], m))
            sd = lab.call(f["save"], m, how)
            sd = PDict([[k, sym(f"value of {show(lab.fz(v))}")] for k, v in sd.pairs])
            if order:
                sd = PDict(list(reversed(sd.pairs)))
            before = [tuple(p) for p in sd.pairs]
            n0 = len(ctx.events)
            lab.call(f["load"], m, sd, how, strict=strict)
            ev = [e for e in ctx.events[n0:] if e.kind == "extmethod" and e.method == "load_state_dict"]
            got = []
            for e in ev:
                d = e.args[0] if e.args else e.kwargs.get("state_dict")
                st = e.args[1] if len(e.args) > 1 else e.kwargs.get("strict", True)
                got.append((e.obj is m, pairs(lab, d), lab.fz(st)))
            want = {k: sym(f"value of {show(v)}") for k, v in a}
            return got, want, before == [tuple(p) for p in sd.pairs]

        def judge(path):
            got, want, kept = path.value
            res = [(len(got) == 1 and got[0][0], f"the parameters are loaded {len(got)} times"), (kept, "the checkpoint passed in is changed")]
            for _, d, st in got:
                if d is None:
                    res.append((None, "the checkpoint loaded is not a plain mapping"))
                    continue
                res.append((sorted(k for k, _ in d) == sorted(want), f"the names loaded are {[k for k, _ in d]}, the module's are {list(want)}"))
                for k, v in d:
                    if k in want:
                        res.append((same(v, want[k], path.facts), f"{k} is loaded with {show(v)[:70]}, saved was {show(want[k])[:70]}"))
                res.append((same(st, lab.fz(strict), path.facts), "the strict flag is not passed on"))
            return res

        lab.obligation(f"load-{how}-strict={show(strict) if not isinstance(strict, bool) else strict}{'-reordered' if order else ''}", name, lwhere, thunk, judge)

    for strict in (True, False):
        for order in (False, True):
            loading(strict, order)

    def foreign(strict):
        """One entry of the checkpoint belongs to another network."""
        def thunk(ctx):
            m = lab.call(f["make"], name)
            a = pairs(lab, lab.call(f["raw"], m))
            if not a or how == "off" or len({short(k) for k, _ in a}) != len(a):
                return None
            sd = PDict([[short(k), sym(f"value of {show(v)}")] for k, v in a[:-1]] + [["foreign.key", sym("other")]])
            n0 = len(ctx.events)
            try:
                lab.call(f["load"], m, sd, how, strict=strict)
            except PyRaise as e:
                return "raised", e.name, None
            ev = [e for e in ctx.events[n0:] if e.kind == "extmethod" and e.method == "load_state_dict"]
            d = pairs(lab, ev[0].args[0] if ev[0].args else ev[0].kwargs.get("state_dict")) if ev else None
            return "loaded", d, {k: sym(f"value of {show(v)}") for k, v in a[:-1]}

        def judge(path):
            if path.value is None:
                return [(True, "")]
            r, d, want = path.value
            if r == "raised":
                return [(strict, f"a checkpoint with an entry of another network cannot be loaded with strict=False ({d})")]
            if d is None:
                return [(None, "the parameters are not loaded")]
            got = dict(d)
            return [(all(got.get(k) == v for k, v in want.items()), f"of {list(want)} only {[k for k in want if got.get(k) == want[k]]} are loaded")]

        lab.obligation(f"load-{how}-foreign-strict={strict}", name, lwhere, thunk, judge)

    foreign(False)

    def prefixed(ctx):
        m = lab.call(f["make"], name)
        a = pairs(lab, lab.call(f["raw"], m))
        b = lab.call(f["save"], m, how, prefix="net.")
        return a, pairs(lab, b)

    def pjudge(path):
        a, b = path.value
        if b is None:
            return [(None, "not a plain mapping")]
        want = ["net." + (short(k) if how != "off" else k) for k, _ in a]
        if len(set(want)) != len(want):
            return [(len(b) == len(a), "entries are lost")]
        return [([k for k, _ in b] == want, f"with prefix 'net.' the names are {[k for k, _ in b]}, expected {want}")]

    lab.obligation(f"prefix-{how}", name, where, prefixed, pjudge)


IMPORTS = ""


def parent(lab, how):
    """A plain parent collects the entries of its container children completely."""
    f = {n: lab.driver(IMPORTS + SRC, mod="container", name=n) for n in ("make", "save", "raw")}

    def thunk(ctx):
        m = lab.call(f["make"], "parent module")
        a = pairs(lab, lab.call(f["save"], m, "off"))
        return a, pairs(lab, lab.call(f["save"], m, how))

    def judge(path):
        a, b = path.value
        if a is None or b is None:
            return [(None, "not a plain mapping")]
        return [(len(a) == len(b) and all(any(v == w for _, w in b) for _, v in a), f"the parent's checkpoint has {len(b)} of {len(a)} entries"), (a[0][0] == "head.weight", f"{a[0][0]}")]

    lab.obligation(f"parent-{how}", "nn.Module around containers", lab.fwhere(lab.fn("utils", "state_dict")), thunk, judge)


def destination(lab, how):
    f = {n: lab.driver(IMPORTS + SRC, mod="container", name=n) for n in ("make", "save", "raw")}

    def thunk(ctx):
        m = lab.call(f["make"], "named")
        d = PDict()
        b = lab.call(f["save"], m, how, destination=d)
        return pairs(lab, d), pairs(lab, b), pairs(lab, lab.call(f["raw"], m))

    def judge(path):
        d, b, a = path.value
        return [(d == a, f"the destination passed in receives {[k for k, _ in d]}"), (b == a, "the result is not the filled destination")]

    lab.obligation(f"destination-{how}", "named", lab.fwhere(lab.fn("utils", "state_dict")), thunk, judge)


def run(lab, tier):
    for n in NETS:
        for h in ("off",) + HOW:
            lab.job(net, n, h)
    for h in ("off", "scope"):
        lab.job(parent, h)
        lab.job(destination, h)
