"""P16: the wiring of exported models, for every nesting of state declarations."""
from coan.interp import Opq, PDict, PList, Ten
from coan.lab import verdict
from coan.terms import T, show, sym
from . import subjects as S
from .p15 import flat, nest

STUB = """
class Stub:
    def _forward_step(self, input, prev_state=None):
        self.seen_input = input
        self.seen_state = prev_state
        return self.ret
"""


def shapes(tier):
    """Nested declarations: (name, shape, dynamic flags)."""
    out = [0, 1, 2, 3, 6, [], [1], [0, 3], [3, 0], [3, 2], [2, [3, 1]], [[3], [3, 2]], [[0, [2]], 1], [[[1], []], [0, 2], 3], [4, 0, 0, 1], 12, [[4, 3], [3, 2]], [1, [10, 2]]]
    if tier != "quick":
        out += [[i, j] for i in range(4) for j in range(4)] + [[[i, j], k] for i in range(3) for j in range(3) for k in range(3)] + [[i, [j, [k, [1]]]] for i in range(3) for j in range(2) for k in range(3)]
    return out


def flags(shape, n0=0):
    """A non-periodic choice of dynamic flags for every declared tensor, in the same nesting."""
    if isinstance(shape, int):
        return [((n0 + i) % 3 != 1) for i in range(shape)], n0 + shape
    r = []
    for s in shape:
        f, n0 = flags(s, n0)
        r.append(f)
    return r, n0


def plist(v):
    return PList([plist(x) for x in v]) if isinstance(v, list) else v


def build(shape, it, leaf=tuple):
    """The state structure for a declaration, leaves taken from the iterator."""
    if isinstance(shape, int):
        return leaf(next(it) for _ in range(shape))
    return [build(s, it, leaf) for s in shape]


def flatten_vals(v):
    if isinstance(v, PList):
        v = v.items
    if isinstance(v, (tuple, list)):
        return [y for x in v for y in flatten_vals(x)]
    return [v]


def shape_like(lab, v, shape):
    """v has exactly the nesting of the declaration (lists and tuples alike)."""
    if isinstance(v, PList):
        v = tuple(v.items)
    if not isinstance(v, (tuple, list)):
        return False
    if isinstance(shape, int):
        return len(v) == shape and not any(isinstance(x, (tuple, list, PList)) for x in v)
    return len(v) == len(shape) and all(shape_like(lab, a, b) for a, b in zip(v, shape))


def wrapper(lab, shape):
    total = sum(flat(shape)) if isinstance(shape, list) else shape

    def thunk(ctx):
        cls = lab.driver(STUB, mod="onnx", name="Stub")
        stub = lab.call(cls)
        stub.attrs["_state_shape"] = plist(shape)
        stub.attrs["_dynamic_state_inds"] = plist(flags(shape)[0])
        ns = [lab.I.fresh_ten(sym(f"n{i}")) for i in range(total)]
        ret = build(shape, iter(ns))
        y = lab.I.fresh_ten(sym("y"))
        stub.attrs["ret"] = (y, plist(ret) if isinstance(ret, list) else ret)
        o = lab.new("OnnxWrapper", stub)
        ins = [lab.I.fresh_ten(sym(f"in{i}")) for i in range(total)]
        x = lab.I.fresh_ten(sym("x"))
        out = lab.m(o, "forward", x, *ins)
        names = [flatten_vals(lab.attr(o, a)) for a in ("state_input_names", "state_output_names")]
        seen = stub.attrs.get("seen_state")
        return (lab.fz(stub.attrs.get("seen_input")), shape_like(lab, seen, shape), [lab.fz(v) for v in flatten_vals(seen)], [lab.fz(v) for v in flatten_vals(out)], names, isinstance(out, tuple))

    def judge(path):
        x, like, seen, out, (inn, outn), tup = path.value
        r = [verdict(x, sym("x"), "the model is stepped with another input", path.facts),
             (like, f"the state handed to the model does not have the declared nesting {shape}")]
        want = [sym(f"in{i}") for i in range(total)]
        r.append((seen == want, f"the model receives the states {[show(v) for v in seen][:8]} for the inputs {[show(v) for v in want][:8]}"))
        want = [sym("y")] + [sym(f"n{i}") for i in range(total)]
        r.append((out == want, f"the wrapper returns {[show(v) for v in out][:8]} instead of the output followed by the states in order"))
        r.append((len(inn) == total and len(outn) == total, f"{len(inn)} input and {len(outn)} output names for {total} state tensors"))
        r.append((len(set(inn + outn)) == 2 * total, f"state names are not distinct: {inn + outn}"))
        return r

    lab.obligation("wrapper", f"state {shape}", lab.where(lab.cls("OnnxWrapper"), "forward", "state_input_names", "state_output_names"), thunk, judge, unroll=60, max_rec=24)


OPTS = ("export_params", "verbose", "training", "operator_export_type", "opset_version", "do_constant_folding", "keep_initializers_as_inputs", "custom_opsets")


def export(lab, shape, names):
    total = sum(flat(shape)) if isinstance(shape, list) else shape
    dyn = flags(shape)[0]

    def thunk(ctx):
        m = S.opaque("m", _state_shape=plist(shape), _dynamic_state_inds=plist(dyn))
        kw = {o: Opq("opt_" + o, "value") for o in OPTS}
        if names:
            kw["input_names"] = PList(list(names[0]))
            kw["output_names"] = PList(list(names[1]))
        args, f = Opq("args", "value"), Opq("file", "value")
        lab.call(lab.fn("onnx", "export"), m, args, f, **kw)
        ev = [e for e in ctx.events if e.kind == "extcall" and e.fn == "torch.onnx.export"]
        if len(ev) != 1:
            return len(ev)
        e = ev[0]
        k = dict(e.kwargs)
        for n, a in zip(("model", "args", "f"), e.args):
            k.setdefault(n, a)
        w = k.get("model")
        inner = lab.attr(w, "model", None)
        sin = flatten_vals(lab.attr(w, "state_input_names"))
        sout = flatten_vals(lab.attr(w, "state_output_names"))
        axes = k.get("dynamic_axes")
        ax = {n: {a: b for a, b in d.pairs} for n, d in axes.pairs} if isinstance(axes, PDict) else None
        return dict(same={o: k.get(o) is kw[o] for o in OPTS}, args=k.get("args") is args, f=k.get("f") is f,
                    model=inner is m, inn=flatten_vals(k.get("input_names")), outn=flatten_vals(k.get("output_names")), sin=sin, sout=sout, ax=ax)

    def judge(path):
        v = path.value
        if isinstance(v, int):
            return [(False, f"export calls the exporter {v} times")]
        r = [(v["args"], "the example arguments are not handed on"), (v["f"], "the file is not handed on"), (v["model"], "the exported wrapper does not wrap the model")]
        for o, ok in v["same"].items():
            r.append((ok, f"option {o} does not reach the exporter"))
        ui, uo = names or (("input",), ("output",))
        if names:
            r.append((v["inn"] == list(ui) + v["sin"], f"input names {v['inn']} for inputs {ui} and states {v['sin']}"))
            r.append((v["outn"] == list(uo) + v["sout"], f"output names {v['outn']} for outputs {uo} and states {v['sout']}"))
        else:
            r.append((v["inn"][1:] == v["sin"], f"input names {v['inn']}"))
            r.append((v["outn"][1:] == v["sout"], f"output names {v['outn']}"))
            ui, uo = v["inn"][:1], v["outn"][:1]
        r.append((len(set(v["inn"] + v["outn"])) == len(v["inn"] + v["outn"]), f"names are not distinct: {v['inn'] + v['outn']}"))
        if v["ax"] is None:
            return r + [(None, "dynamic axes unknown")]
        want = {n for n in list(ui) + list(uo)}
        fd = flat(dyn)
        for a, b, d in zip(v["sin"], v["sout"], fd):
            if d:
                want |= {a, b}
        r.append((set(v["ax"]) == want, f"dynamic axes are given for {sorted(v['ax'])} instead of {sorted(want)} (flags {fd})"))
        r.append((all(set(d) == {0} for d in v["ax"].values()), f"dynamic axes other than the batch: {v['ax']}"))
        return r

    lab.obligation("export" + ("-named" if names else ""), f"state {shape}", lab.fwhere(lab.fn("onnx", "export")), thunk, judge, unroll=60, max_rec=24)


def refused(lab):
    def thunk(ctx):
        lab.call(lab.fn("onnx", "export"), Opq("plain", "torchmodule"), Opq("args", "value"), Opq("file", "value"))
        return True

    paths = lab.obligation("refusal", "a module that is not continual", lab.fwhere(lab.fn("onnx", "export")), thunk,
                           lambda p: [(False, "a module that is not continual is exported")], need_return=False)


def batch(lab, shs):
    for sh in shs:
        wrapper(lab, sh)
        export(lab, sh, None)
        export(lab, sh, (("a", "b"), ("c",)))


def run(lab, tier):
    lab.job(refused)
    L = shapes(tier)
    for i in range(0, len(L), 4):
        lab.job(batch, L[i:i + 4])
