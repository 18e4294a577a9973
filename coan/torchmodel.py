"""Abstract semantics of Python builtins, the standard library and torch.

Nothing here calls torch: every torch operation denotes an uninterpreted term,
classified as a view (shares the storage), a fresh value, or an in-place update.
"""
import ast

from .interp import (
    module_output,
    BoundM, BoundOpq, BoundV, Builtin, ClassInfo, Decor, EnumMember, EXC_PARENTS, ExtClass, ExtMethod,
    ExtRef, Fn, Inst, Lazy, MISSING, MULTIVIEW, ModRef, Opq, Partial, PRED, PyRaise, Raised, Star, Static,
    Type_, VIEW, VIEW_IDENT, dim_term, kindlabel, length_term, neg, numel_term, size_term, tensor_binop,
)
from .shapes import shape_of
from .terms import (
    POSITIVE, SHAPES, PDict, PList, PSet, Slice, T, Ten, eq0, ge0, is_num, p_add, p_floordiv, p_max, p_min,
    p_mod, p_mul, p_neg, p_sub, show,
)

INT_OPS = {"poly", "len", "size", "mod", "floordiv", "dim", "numel", "rangelen", "range_i"}
NUMERIC_LABELS = {"int", "Number", "Integral", "Real"}
SEQ_LABELS = {"Sequence", "Iterable", "Collection", "Sized", "Container"}

# canonical parameter order of torch functions (keyword arguments are made positional)
SIGS = {
    "stack": ["tensors", "dim"], "cat": ["tensors", "dim"], "concat": ["tensors", "dim"],
    "roll": ["input", "shifts", "dims"], "sum": ["input", "dim", "keepdim"], "mean": ["input", "dim", "keepdim"],
    "softmax": ["input", "dim"], "bmm": ["input", "mat2"], "matmul": ["input", "other"],
    "unsqueeze": ["input", "dim"], "squeeze": ["input", "dim"], "transpose": ["input", "dim0", "dim1"],
    "permute": ["input", "dims"], "index_select": ["input", "dim", "index"], "remainder": ["input", "other"],
    "movedim": ["input", "source", "destination"], "select": ["input", "dim", "index"],
    "narrow": ["input", "dim", "start", "length"], "unbind": ["input", "dim"], "chunk": ["input", "chunks", "dim"],
    "split": ["tensor", "split_size_or_sections", "dim"], "reshape": ["input", "shape"], "flatten": ["input", "start_dim", "end_dim"],
    "add": ["input", "other"], "sub": ["input", "other"], "mul": ["input", "other"], "div": ["input", "other"],
    "exp": ["input"], "abs": ["input"], "repeat_interleave": ["input", "repeats", "dim"], "flip": ["input", "dims"],
    "gather": ["input", "dim", "index"], "where": ["condition", "input", "other"], "max": ["input", "dim", "keepdim"],
    "min": ["input", "dim", "keepdim"], "maximum": ["input", "other"], "minimum": ["input", "other"], "full": ["size", "fill_value"],
    "full_like": ["input", "fill_value"], "zeros_like": ["input"], "ones_like": ["input"], "empty_like": ["input"],
    "clone": ["input"], "arange": ["start", "end", "step"], "dropout": ["input", "p", "training", "inplace"],
}
# functions whose call is canonicalised to sorted keywords with defaults filled in
KSIGS = {
    "conv1d": [("input",), ("weight",), ("bias", None), ("stride", 1), ("padding", 0), ("dilation", 1), ("groups", 1)],
    "avg_pool1d": [("input",), ("kernel_size",), ("stride", None), ("padding", 0), ("ceil_mode", False), ("count_include_pad", True)],
    "avg_pool2d": [("input",), ("kernel_size",), ("stride", None), ("padding", 0), ("ceil_mode", False), ("count_include_pad", True), ("divisor_override", None)],
    "max_pool1d": [("input",), ("kernel_size",), ("stride", None), ("padding", 0), ("dilation", 1), ("ceil_mode", False), ("return_indices", False)],
    "linear": [("input",), ("weight",), ("bias", None)],
    "pad": [("input",), ("pad",), ("mode", "constant"), ("value", None)],
    "adaptive_avg_pool1d": [("input",), ("output_size",)],
    "adaptive_max_pool1d": [("input",), ("output_size",), ("return_indices", False)],
}
KSIGS["conv2d"] = KSIGS["conv3d"] = KSIGS["conv1d"]
KSIGS["avg_pool3d"] = KSIGS["avg_pool2d"]
KSIGS["max_pool2d"] = KSIGS["max_pool3d"] = KSIGS["max_pool1d"]
KSIGS["adaptive_avg_pool2d"] = KSIGS["adaptive_avg_pool3d"] = KSIGS["adaptive_avg_pool1d"]
KSIGS["adaptive_max_pool2d"] = KSIGS["adaptive_max_pool3d"] = KSIGS["adaptive_max_pool1d"]

DROP_KW = {"device", "memory_format", "non_blocking", "pin_memory", "layout", "requires_grad"}
METHOD_ALIAS = {
    "swapaxes": "transpose", "swapdims": "transpose", "moveaxis": "movedim", "view": "reshape",
    "multiply": "mul", "subtract": "sub", "divide": "div", "true_divide": "div", "concatenate": "cat",
    "concat": "cat", "absolute": "abs", "fmod": "fmod", "mod": "remainder",
}
ARITH = {"add": "Add", "sub": "Sub", "mul": "Mult", "div": "Div", "remainder": "Mod", "floor_divide": "FloorDiv", "pow": "Pow"}
COMPARE = {"ge": "GtE", "gt": "Gt", "le": "LtE", "lt": "Lt", "eq": "Eq", "ne": "NotEq"}


def distinct(pairs):
    """torch's children(): an object registered twice is listed once, None never."""
    out = []
    for k, m in pairs:
        if m is not None and not any(m is x for _, x in out):
            out.append((k, m))
    return out


# ------------------------------------------------------------------- builtins
def labels_of(I, v):
    """Set of class labels the value certainly has, or None when undetermined."""
    if v is None:
        return {"NoneType"}
    if isinstance(v, bool):
        return {"bool", "int"} | NUMERIC_LABELS
    if isinstance(v, int):
        return set(NUMERIC_LABELS)
    if isinstance(v, float):
        return {"float", "Number", "Real"}
    if isinstance(v, str):
        return {"str"} | SEQ_LABELS
    if isinstance(v, tuple):
        return {"tuple", "Hashable"} | SEQ_LABELS
    if isinstance(v, PList):
        if v.kind == "gen":
            return {"generator", "Iterable", "Iterator"}
        if v.kind == "range":
            return {"range"} | SEQ_LABELS
        return {"list", "MutableSequence"} | SEQ_LABELS
    if isinstance(v, PDict):
        k = getattr(v, "kind", "dict")
        return {"dict", k, "Mapping", "MutableMapping", "Iterable", "Collection"}
    if isinstance(v, PSet):
        return {"set", "Set", "Iterable", "Collection"}
    if isinstance(v, Ten):
        return {"Tensor"}
    if isinstance(v, (Fn, BoundM)):
        return {"FunctionType", "Callable", "function"} if isinstance(v, Fn) else {"MethodType", "Callable"}
    if isinstance(v, Partial):
        return {"partial", "Callable"}
    if isinstance(v, EnumMember):
        return {v.cls.name, "Enum"}
    if isinstance(v, Inst):
        if isinstance(v.cls, ClassInfo):
            s = {c.name for c in v.cls.mro}
        else:
            s = {c.name for c in v.cls.mro}
        s.add("Callable")
        return s
    if isinstance(v, (Lazy,)):
        return {"Iterable", "Iterator", "generator"}
    if isinstance(v, (Builtin, ExtRef, BoundV, BoundOpq, ExtMethod)):
        return {"Callable", "builtin_function_or_method"}
    if isinstance(v, (ClassInfo, ExtClass)):
        return {"type", "Callable"}
    if isinstance(v, T):
        if v.op in INT_OPS or v in POSITIVE:
            return set(NUMERIC_LABELS)
        if v.op in ("max", "min") and v.args and all("int" in (labels_of(I, a) or ()) for a in v.args):
            return set(NUMERIC_LABELS)
        if v.op in PRED:
            return {"bool", "int"}
        if v.op == "list":
            return {"list"} | SEQ_LABELS
        if v.op in ("range",):
            return {"range"} | SEQ_LABELS
        if v.op == "rep":
            return {"list"} | SEQ_LABELS
        if v.op in ("sel", "set", "upd", "call", "vw"):
            return {"Tensor"}
        if v.op == "fstr":
            return {"str"} | SEQ_LABELS
    return None


OPQ_LABELS = {
    "comodule": {"CoModule": True, "Module": True, "Tensor": False, "RNNBase": False, "Sequential": False, "list": False,
                 "OrderedDict": False, "Broadcast": False, "Parallel": False, "tuple": False, "Delay": False, "dict": False,
                 "partial": False, "str": False, "int": False, "Callable": True, "RNN": False, "LSTM": False, "GRU": False},
    "torchmodule": {"CoModule": False, "Module": True, "Tensor": False, "list": False, "OrderedDict": False, "Broadcast": False,
                    "Parallel": False, "partial": False, "Callable": True, "str": False, "dict": False},
    "function": {"CoModule": False, "Module": False, "Tensor": False, "Callable": True, "partial": False},
    "object": {},
}


def isinst1(I, v, c):
    lab = kindlabel(c)
    if lab is None:
        if isinstance(c, (tuple, PList)):
            return isinst(I, v, c)
        return I.unk("isinstance class")
    if lab == "object":
        return True
    if isinstance(v, Opq):
        if lab in v.isa:
            return v.isa[lab]
        d = OPQ_LABELS.get(v.kind, {})
        if lab in d:
            return d[lab]
        return T("kind", I.freeze(v), lab)
    ls = labels_of(I, v)
    if ls is not None:
        return lab in ls
    if isinstance(v, T):
        r = I.read(v)
        ls = labels_of(I, r) if isinstance(r, T) else None
        if ls is not None:
            return lab in ls
        k = I.ctx.facts.kind.get(v)
        if k is not None and k != lab and lab in SEQ_LABELS:
            return k in ("list", "tuple", "str")
        if k is not None and lab in ("Number",) :
            return k in ("int", "float", "bool")
        return T("kind", v, lab)
    return I.unk("isinstance value")


def isinst(I, v, c):
    if isinstance(c, (tuple, PList)):
        items = list(c) if isinstance(c, tuple) else c.items
        for x in items:
            if I.truth(isinst1(I, v, x)):
                return True
        return False
    return isinst1(I, v, c)


def type_of(I, v):
    if isinstance(v, Inst):
        return v.cls
    if isinstance(v, EnumMember):
        return v.cls
    if isinstance(v, Opq):
        if "type" in v.isa:
            return v.isa["type"]
        return T("typeof", I.freeze(v))
    if v is None:
        return Type_("NoneType")
    if isinstance(v, bool):
        return Type_("bool")
    if isinstance(v, int):
        return Type_("int")
    if isinstance(v, float):
        return Type_("float")
    if isinstance(v, str):
        return Type_("str")
    if isinstance(v, tuple):
        return Type_("tuple")
    if isinstance(v, PList):
        return Type_("list")
    if isinstance(v, PDict):
        return Type_(getattr(v, "kind", "dict"))
    if isinstance(v, PSet):
        return Type_("set")
    if isinstance(v, Ten):
        return Type_("Tensor")
    if isinstance(v, Fn):
        return Type_("FunctionType")
    if isinstance(v, BoundM):
        return Type_("MethodType")
    if isinstance(v, Partial):
        return Type_("partial")
    if isinstance(v, T):
        r = I.read(v)
        ls = labels_of(I, r) if isinstance(r, T) else None
        if ls:
            for x in ("Tensor", "int", "list", "str", "bool"):
                if x in ls:
                    return Type_(x)
        return T("typeof", v)
    if isinstance(v, (ClassInfo, ExtClass)):
        return Type_("type")
    if type(v).__name__ == "Prop":
        return Type_("property")
    return Type_(type(v).__name__)


def has_attr(I, o, name):
    if isinstance(o, (T,)) and not I.looks_tensor(o) and (I.freeze(o), name) not in I.ctx.objs:
        return T("hasattr", I.freeze(o), name)
    if isinstance(o, Opq):
        if name in o.attrs:
            from .interp import Absent

            return not isinstance(o.attrs[name], Absent)
        if name == "__len__":
            return bool(o.isa.get("len", False))
        if o.kind == "comodule":
            return True
        return T("hasattr", I.freeze(o), name)
    if isinstance(o, (PList, tuple, PDict, PSet, str)):
        return hasattr([], name) if isinstance(o, PList) else hasattr({}, name) if isinstance(o, PDict) else hasattr(o, name)
    if o is None or isinstance(o, (int, float)):
        return hasattr(o, name)
    if isinstance(o, Inst):
        saved = len(I.ctx.events)
        try:
            r = I.getattr0(o, name, None)
        except PyRaise:
            r = MISSING
        return r is not MISSING
    try:
        r = I.getattr0(o, name, None)
    except PyRaise:
        return False
    return r is not MISSING


def is_callable(I, v):
    if v is None or isinstance(v, (bool, int, float, str, tuple, PList, PDict, PSet, Ten, Slice)):
        return False
    if isinstance(v, Opq):
        if "callable" in v.isa:
            return v.isa["callable"]
        return True
    if isinstance(v, EnumMember):
        return False
    if isinstance(v, Inst):
        if isinstance(v.cls, (ClassInfo, ExtClass)):
            own, m = v.cls.find("__call__")
            return m is not None
        return True
    if isinstance(v, T):
        return T("kind", v, "callable")
    return True


def call_builtin(I, name, args, kwargs, node):
    ctx = I.ctx
    a = args
    if name == "len":
        o = a[0]
        if o is None or isinstance(o, (int, float)):
            raise PyRaise("TypeError", node)
        if isinstance(o, Inst) and isinstance(o.cls, ClassInfo) and not o.opaque:
            own, m = o.cls.find("__len__")
            if isinstance(m, Fn):
                return I.call(BoundM(m, o), [], {}, node)
        if isinstance(o, Lazy):
            return len(list(o.gen))
        return I.len_of(o)
    if name == "range":
        xs = [I.num(x) for x in a]
        if any(x is None for x in xs):
            return I.unk("range", node)
        lo, hi, st = (0, xs[0], 1) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(xs) > 2 else 1)
        if all(is_num(x) for x in (lo, hi, st)):
            return PList(list(range(lo, hi, st)), "range")
        return T("range", lo, hi, st)
    if name == "enumerate":
        start = a[1] if len(a) > 1 else kwargs.get("start", 0)

        def gen():
            i = start
            for x in I.iterate(a[0], node):
                yield (i, x)
                i = p_add(i, 1)

        return Lazy(gen())
    if name == "zip":
        def genz():
            its = [I.iterate(x, node) for x in a]
            while True:
                row = []
                for it in its:
                    try:
                        row.append(next(it))
                    except StopIteration:
                        return
                yield tuple(row)

        return Lazy(genz())
    if name == "map":
        def genm():
            its = [I.iterate(x, node) for x in a[1:]]
            while True:
                row = []
                for it in its:
                    try:
                        row.append(next(it))
                    except StopIteration:
                        return
                yield I.call(a[0], row, {}, node)

        return Lazy(genm())
    if name == "filter":
        def genf():
            for x in I.iterate(a[1], node):
                if I.truth(x if a[0] is None else I.call(a[0], [x], {}, node), node):
                    yield x

        return Lazy(genf())
    if name == "isinstance":
        return isinst(I, a[0], a[1])
    if name == "issubclass":
        c, b = a[0], a[1]
        labs = [kindlabel(x) for x in (b if isinstance(b, tuple) else (b,))]
        if isinstance(c, (ClassInfo, ExtClass)):
            return any(x.name in labs for x in c.mro)
        if isinstance(c, (T, ExtRef)):
            return T("issub", I.freeze(c), tuple(labs))
        raise PyRaise("TypeError", node)
    if name == "callable":
        return is_callable(I, a[0])
    if name == "getattr":
        n = a[1]
        if not isinstance(n, str):
            return I.unk("getattr name", node)
        o = a[0]
        if len(a) > 2:
            if isinstance(o, T) and not I.looks_tensor(o) and (I.freeze(o), n) not in ctx.objs:
                h = T("hasattr", I.freeze(o), n)
                if not ctx.decide(h, node):
                    return a[2]
            elif isinstance(o, Opq) and o.kind != "comodule" and n not in o.attrs:
                if not I.truth(has_attr(I, o, n), node):
                    return a[2]
            elif isinstance(o, Opq) and n == "__len__":
                return a[2]
            elif o is None or isinstance(o, (int, float)):
                return a[2]
            try:
                r = I.getattr0(o, n, node)
            except PyRaise as e:
                if e.name != "AttributeError":
                    raise
                r = MISSING
            return a[2] if r is MISSING else r
        return I.getattr_(o, n, node)
    if name == "hasattr":
        return has_attr(I, a[0], a[1])
    if name == "setattr":
        I.setattr_(a[0], a[1], a[2], node)
        return None
    if name == "delattr":
        I.delattr_(a[0], a[1], node)
        return None
    if name == "type":
        if len(a) == 1:
            return type_of(I, a[0])
        return I.unk("dynamic class", node)
    if name in ("int", "float", "bool"):
        if not a:
            return {"int": 0, "float": 0.0, "bool": False}[name]
        v = a[0]
        if name == "float" and isinstance(v, (str, int)):
            try:
                return float(v)
            except ValueError:
                raise PyRaise("ValueError", node)
        if name == "bool":
            if isinstance(v, T) and v.op in PRED:
                return v
            if isinstance(v, Ten):
                c = I.read(v)
                if isinstance(c, T) and c.op in PRED:
                    return c
            return I.truth(v, node)
        if name == "int":
            if isinstance(v, str):
                try:
                    return int(v)
                except ValueError:
                    raise PyRaise("ValueError", node)
            if isinstance(v, float):
                return int(v)
            n = I.num(v)
            if n is None:
                raise PyRaise("TypeError", node)
            if isinstance(n, T) and n.op in PRED:
                q = ctx.facts.query(n)
                return int(q) if q is not None else T("int", n)
            return n
        n = I.num(v)
        return n if n is not None else I.unk("float", node)
    if name in ("str", "repr", "format"):
        v = a[0] if a else ""
        if isinstance(v, str):
            return v if name != "repr" else repr(v)
        if isinstance(v, int):
            return str(v)
        return T("fstr", I.freeze(v))
    if name in ("list", "tuple", "set", "frozenset", "sorted"):
        if not a:
            return {"list": PList(), "tuple": (), "set": PSet(), "frozenset": PSet()}.get(name, PList())
        v = a[0]
        if v is None:
            raise PyRaise("TypeError", node)
        if isinstance(v, T) and v.op not in ("list", "unbind", "splitlist", "rep", "range") and name in ("list", "tuple"):
            return v
        if isinstance(v, T) and v.op in ("rep", "range", "unbind", "splitlist") and name in ("list", "tuple"):
            return v
        if name == "sorted":
            items = I.items(v, node)
            fz = [I.freeze(x) for x in items]
            if len(items) <= 1:
                return PList(items)
            key, rev = kwargs.get("key"), kwargs.get("reverse", False)
            keys = fz if key is None else [I.freeze(I.call(key, [x], {}, node)) for x in items]

            def plain(k):
                return isinstance(k, (int, str)) or isinstance(k, tuple) and all(map(plain, k))

            if all(map(plain, keys)) and isinstance(rev, bool):
                try:
                    order = sorted(range(len(items)), key=lambda i: keys[i], reverse=rev)
                except TypeError:
                    raise PyRaise("TypeError", node)
                return PList([items[i] for i in order])
            return T("sorted", tuple(fz), I.freeze(kwargs.get("key")))
        if isinstance(v, T) and name in ("set", "frozenset"):
            return T("setof", I.freeze(v))
        items = I.items(v, node)
        if name == "list":
            return PList(items)
        if name == "tuple":
            return tuple(items)
        return PSet(items)
    if name == "dict":
        d = PDict()
        if a:
            I.dict_update(d, a[0] if not isinstance(a[0], Lazy) else PList(I.items(a[0], node)), node)
        for k, v in kwargs.items():
            if k == "**":
                d.rest = v
            else:
                d.set(k, v)
        return d
    if name in ("max", "min"):
        xs = a
        if len(a) == 1:
            v = a[0]
            if isinstance(v, T) and v.op == "rep":
                return v.args[0]
            xs = I.items(v, node)
        if not xs:
            if "default" in kwargs:
                return kwargs["default"]
            raise PyRaise("ValueError", node)
        if "key" in kwargs:
            if len(xs) == 1:
                return xs[0]
            return I.unk("max key", node)
        ns = [x if isinstance(x, float) else I.num(x) for x in xs]
        if any(n is None for n in ns):
            return I.unk(name, node)
        if all(isinstance(n, (int, float)) for n in ns):
            return max(ns) if name == "max" else min(ns)
        return p_max(ns) if name == "max" else p_min(ns)
    if name == "sum":
        acc = a[1] if len(a) > 1 else kwargs.get("start", 0)
        if isinstance(a[0], T) and a[0].op == "rep":
            return p_mul(a[0].args[0], a[0].args[1])
        for x in I.iterate(a[0], node):
            acc = x if (is_num(acc) and acc == 0 and isinstance(x, (T, Ten))) else I.binop("Add", acc, x, node)
        return acc
    if name == "any":
        if isinstance(a[0], T) and a[0].op == "rep":
            return I.truth(ge0(p_sub(a[0].args[1], 1)), node) and I.truth(a[0].args[0], node)
        for x in I.iterate(a[0], node):
            if I.truth(x, node):
                return True
        return False
    if name == "all":
        if isinstance(a[0], T) and a[0].op == "rep":
            return (not I.truth(ge0(p_sub(a[0].args[1], 1)), node)) or I.truth(a[0].args[0], node)
        for x in I.iterate(a[0], node):
            if not I.truth(x, node):
                return False
        return True
    if name == "iter":
        return a[0] if isinstance(a[0], Lazy) else Lazy(I.iterate(a[0], node))
    if name == "next":
        v = a[0]
        if isinstance(v, Lazy):
            try:
                return next(v.gen)
            except StopIteration:
                if len(a) > 1:
                    return a[1]
                raise PyRaise("StopIteration", node)
        if isinstance(v, PList) and v.kind == "gen":
            if v.items:
                return v.items.pop(0)
            if len(a) > 1:
                return a[1]
            raise PyRaise("StopIteration", node)
        return I.unk("next", node)
    if name == "reversed":
        v = a[0]
        if isinstance(v, T) and v.op == "range":
            lo, hi, st = v.args
            if st == 1:
                return T("range", p_sub(hi, 1), p_sub(lo, 1), -1)
        return PList(list(reversed(I.items(v, node))))
    if name == "abs":
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        return T("abs", I.freeze(v))
    if name == "object":
        if I.ctx.stack:
            return T("sentinel", "local", I.newid())
        I.sentinels = getattr(I, "sentinels", 0) + 1
        return T("sentinel", "module", I.sentinels)
    if name in ("print", "vars"):
        return None if name == "print" else I.unk(name, node)
    if name in ("id", "hash"):
        return T(name, I.freeze(a[0]))
    if name == "slice":
        xs = list(a)
        if len(xs) == 1:
            return Slice(None, xs[0], None)
        return Slice(xs[0], xs[1], xs[2] if len(xs) > 2 else None)
    if name == "divmod":
        x, y = I.num(a[0]), I.num(a[1])
        return (p_floordiv(x, y), p_mod(x, y))
    if name == "pow":
        return I.binop("Pow", a[0], a[1], node)
    if name == "round":
        return a[0] if isinstance(a[0], int) else T("round", I.freeze(a[0]))
    if name in EXC_PARENTS or name.endswith(("Error", "Exception", "Warning", "Iteration")):
        return Raised(name, tuple(a))
    if name == "staticmethod":
        return Static(a[0])
    if name == "property":
        from .interp import Prop

        return Prop(a[0], a[1] if len(a) > 1 else None)
    return I.unk("builtin " + name, node)


# ---------------------------------------------------------------- torch.nn classes
def ext_params(cls):
    """(parameter list, varargs, kwargs) of an external class's __init__."""
    own, m = cls.find("__init__")
    if not isinstance(m, ast.FunctionDef):
        return [], True, True
    a = m.args
    ps = [x.arg for x in a.posonlyargs + a.args][1:]
    nd = len(a.defaults)
    out = []
    for i, p in enumerate(ps):
        di = i - (len(ps) - nd)
        out.append((p, a.defaults[di] if di >= 0 else None))
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        out.append((p.arg, d))
    return out, a.vararg is not None, a.kwarg is not None


def bind_ext(I, cls, args, kwargs, node=None):
    ps, va, kw = ext_params(cls)
    out = {}
    names = [p for p, _ in ps]
    for i, x in enumerate(args):
        if isinstance(x, Star):
            out["*"] = x
            break
        if i < len(names):
            out[names[i]] = x
        elif not va:
            raise PyRaise("TypeError", node)
        else:
            out["*%d" % i] = x
    for k, v in kwargs.items():
        if k in out or (k not in names and not kw and k != "**"):
            raise PyRaise("TypeError", node)
        out[k] = v
    for p, d in ps:
        if p not in out:
            if d is None:
                if "*" not in out and "**" not in kwargs:
                    raise PyRaise("TypeError", node)
                continue
            if isinstance(d, ast.Constant):
                out[p] = d.value
            elif isinstance(d, ast.UnaryOp) and isinstance(d.operand, ast.Constant):
                out[p] = -d.operand.value
            else:
                out[p] = T("default", cls.name, p)
    return out


HOOKS = ("_backward_hooks", "_forward_hooks", "_forward_pre_hooks", "_backward_pre_hooks")


def module_base_init(I, inst):
    inst.modules = PDict()
    inst.attrs.setdefault("training", T("truth", T("attr", T("obj", inst.name), "training")))
    for h in HOOKS:
        inst.attrs[h] = PDict() if not I.ctx.opts.get("hooks") else T("attr", T("obj", inst.name), h)


def is_torch_module(cls):
    return any(c.name == "Module" and c.node is not None for c in cls.mro)


def ext_parameters(cls):
    """Names a torch.nn class may register as parameters (True) or persistent buffers, from its source."""
    if not hasattr(cls, "_extparams"):
        out = []

        def isparam(e):
            return isinstance(e, ast.Call) and (getattr(e.func, "attr", None) or getattr(e.func, "id", "")) in ("Parameter", "UninitializedParameter")

        for c in reversed(cls.mro):
            m = c.methods.get("__init__") if isinstance(c, ExtClass) else None
            if not isinstance(m, ast.FunctionDef):
                continue
            for n in ast.walk(m):
                nm = None
                if isinstance(n, ast.Assign) and isparam(n.value) and isinstance(n.targets[0], ast.Attribute):
                    nm = n.targets[0].attr
                elif isinstance(n, ast.AnnAssign) and n.value is not None and isparam(n.value) and isinstance(n.target, ast.Attribute):
                    nm = n.target.attr
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("register_parameter", "register_buffer") and n.args and isinstance(n.args[0], ast.Constant):
                    if not any(k.arg == "persistent" and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords):
                        nm = n.args[0].value
                if nm is not None and nm not in out:
                    out.append(nm)
        cls._extparams = out
    return cls._extparams


def module_entries(I, o, node):
    """(name, value) of the parameters and persistent buffers an instance itself holds."""
    out = []
    names = list(ext_parameters(o.cls))
    mha = getattr(o, "mha_bound", None)
    if mha is not None:
        names = ["in_proj_weight", "in_proj_bias"]
        out += [(f"out_proj.{k}", T("attr", T("attr", I.freeze(o), "out_proj"), k)) for k in ("weight", "bias")]
    if "_flat_weights" in o.attrs and isinstance(o.attrs["_flat_weights"], PList):
        out += [(f"flat_weight{i}", v) for i, v in enumerate(o.attrs["_flat_weights"].items)]
    for k, v in o.attrs.items():
        if k in o.buffers:
            continue
        if k in o.params and k not in names:
            names.append(k)
    for k in names:
        if k in o.buffers:
            continue
        v = I.getattr0(o, k, node)
        if v is MISSING:
            continue
        c = I.is_(v, None)
        if isinstance(c, T):
            c = I.ctx.facts.query(c)
        if c is not True:  # (an optional parameter counts as present)
            out.append((k, v))
    for k, p in o.buffers.items():
        if p is True and k in o.attrs and o.attrs[k] is not None:
            out.append((k, o.attrs[k]))
    return out


def ext_init(I, inst, cls, args, kwargs, node):
    if is_torch_module(cls):
        module_base_init(I, inst)
    own, m = cls.find("__init__")
    if not isinstance(m, ast.FunctionDef):
        return
    bound = bind_ext(I, cls, args, kwargs, node)
    I.event("extinit", node, cls=cls.name, obj=inst, bound=bound)
    direct = direct_assigns(cls)
    if cls.name == "MultiheadAttention" and bound.get("kdim") is None and bound.get("vdim") is None and bound.get("bias", True) is True and bound.get("add_bias_kv", False) is False:
        inst.mha_bound = True  # the plain form: one joint projection with bias
    if cls.name in ("RNN", "LSTM", "GRU"):
        order = ("input_size", "hidden_size", "num_layers") + (("nonlinearity",) if cls.name == "RNN" else ()) + ("bias", "batch_first", "dropout", "bidirectional", "proj_size")
        for i, nm in enumerate(order):
            if "*%d" % i in bound:
                bound[nm] = bound.pop("*%d" % i)
        inst.attrs["dropout"] = bound.get("dropout", 0.0)
    if cls.name in ("RNN", "LSTM", "GRU") and isinstance(bound.get("num_layers", 1), int):
        # the flat list of parameters, layer by layer (two weights, two biases, a projection)
        n = bound.get("num_layers", 1) * (2 + (2 if bound.get("bias", True) is True else 0) + (1 if bound.get("proj_size", 0) != 0 else 0))
        inst.attrs["_flat_weights"] = PList([I.fresh_ten(T("attr", I.freeze(inst), f"_flat_weights[{i}]")) for i in range(n)])
        if cls.name == "RNN":
            inst.attrs["nonlinearity"] = bound.get("nonlinearity", "tanh")
    for k, v in bound.items():
        for attr in direct.get(k, ()):
            inst.attrs[attr] = v
    for k, v in kwargs.items():
        if k not in bound:
            for attr in direct.get(k, ()):
                inst.attrs[attr] = v


def direct_assigns(cls):
    """param -> attributes assigned verbatim from it, anywhere in the ext MRO's __init__."""
    if not hasattr(cls, "_direct"):
        d = {}
        for c in cls.mro:
            m = c.methods.get("__init__")
            if not isinstance(m, ast.FunctionDef):
                continue
            params = {x.arg for x in m.args.args + m.args.kwonlyargs}
            counts = {}
            for n in ast.walk(m):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                            counts[t.attr] = counts.get(t.attr, 0) + 1
            for n in ast.walk(m):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in params:
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and counts[t.attr] == 1:
                            d.setdefault(n.value.id, set()).add(t.attr)
        cls._direct = d
    return cls._direct


def construct_ext(I, cls, args, kwargs, node):
    if any(c.name in ("Exception", "BaseException") for c in cls.mro):
        return Raised(cls.name, tuple(args))
    if cls.node is None:
        return T("new", cls.name, tuple(I.freeze(a) for a in args), I.newid())
    inst = Inst(cls, f"{cls.name}#{I.newid()}")
    bound = bind_ext(I, cls, args, kwargs, node)
    inst.ctor = bound
    I.event("new", node, cls=cls.name, obj=inst, bound=bound, args=tuple(args), kwargs=dict(kwargs))
    module_base_init(I, inst)
    for k, v in bound.items():
        for attr in direct_assigns(cls).get(k, ()):
            inst.attrs[attr] = v
    if cls.name == "LayerNorm" and isinstance(bound.get("normalized_shape"), int):
        inst.attrs["normalized_shape"] = (bound["normalized_shape"],)
    if cls.name == "Sequential":
        if len(args) == 1 and isinstance(args[0], PDict):
            for k, v in args[0].pairs:
                inst.modules.set(k, v)
        else:
            for i, v in enumerate(args):
                inst.modules.set(str(i), v)
    return inst


def call_ext_method(I, em, args, kwargs, node):
    self = em.self_
    if self is None:
        if not args:
            raise PyRaise("TypeError", node)
        self, args = args[0], list(args[1:])
    n = em.name
    if n == "__init__":
        if isinstance(self, Inst):
            ext_init(I, self, em.cls, args, kwargs, node)
        return None
    if isinstance(self, Inst):
        def arg(i, name, default=None):
            return args[i] if i < len(args) else kwargs.get(name, default)

        if n in ("add_module", "register_module"):
            nm = arg(0, "name")
            if self.modules is None:
                raise PyRaise("AttributeError", node)
            self.modules.set(nm, arg(1, "module"))
            I.event("add_module", node, obj=self, name=nm, module=arg(1, "module"))
            return None
        if n == "register_buffer":
            nm, v, p = arg(0, "name"), arg(1, "tensor"), arg(2, "persistent", True)
            old = self.attrs.get(nm, MISSING)
            self.attrs[nm] = v
            self.buffers[nm] = p
            I.event("register_buffer", node, obj=self, attr=nm, value=v, persistent=p)
            I.event("setattr", node, obj=self, attr=nm, old=old, value=v)
            return None
        if n == "register_parameter":
            nm, v = arg(0, "name"), arg(1, "param")
            self.attrs[nm] = v
            self.params.add(nm)
            I.event("register_parameter", node, obj=self, attr=nm, value=v)
            return None
        if n in ("__setattr__",):
            I.setattr_(self, args[0], args[1], node)
            return None
        if n in ("__call__", "_call_impl", "_wrapped_call_impl"):
            I.event("extdispatch", node, obj=self)
            pre, post = self.attrs.get("_forward_pre_hooks"), self.attrs.get("_forward_hooks")
            for h in ([p[1] for p in pre.pairs] if isinstance(pre, PDict) else ()):
                r = I.call(h, [self, tuple(args)], {}, node)
                if I.is_(r, None) is not True and not I.truth(I.is_(r, None), node):
                    args = list(r) if isinstance(r, tuple) else [r]
            out = I.call(I.getattr_(self, "forward", node), args, kwargs, node)
            for h in ([p[1] for p in post.pairs] if isinstance(post, PDict) else ()):
                r = I.call(h, [self, tuple(args), out], {}, node)
                if I.is_(r, None) is not True and not I.truth(I.is_(r, None), node):
                    out = r
            return out
        if n == "state_dict" and "@state_dict" in self.attrs:
            I.event("ext_state_dict", node, obj=self, args=tuple(args), kwargs=dict(kwargs))
            return PDict([list(p) for p in self.attrs["@state_dict"].pairs])
        if n == "state_dict" and self.modules is not None:
            I.event("ext_state_dict", node, obj=self, args=tuple(args), kwargs=dict(kwargs))
            dest, prefix, keep = arg(0, "destination"), arg(1, "prefix", ""), arg(2, "keep_vars", False)
            dest = PDict() if dest is None else dest
            if not isinstance(dest, PDict) or not isinstance(prefix, str):
                return I.unk("state_dict into an unknown destination", node)
            for k, v in module_entries(I, self, node):
                dest.set(prefix + k, v)
            for k, c in list(self.modules.pairs):
                if c is None:
                    continue
                if isinstance(c, Opq):
                    dest.set(prefix + k + ".@" + c.name, T("attr", I.freeze(c), "@parameters"))
                else:
                    I.call(I.getattr_(c, "state_dict", node), [], {"destination": dest, "prefix": prefix + k + ".", "keep_vars": keep}, node)
            return dest
        if n == "__len__" and self.modules is not None:
            return len(self.modules.pairs)
        if n == "__iter__" and self.modules is not None:
            return Lazy(iter([p[1] for p in self.modules.pairs]))
        if n == "__getitem__" and self.modules is not None:
            return I.getitem(self, args[0], node)
        if n in ("children",) and self.modules is not None:
            return PList([m for _, m in distinct(self.modules.pairs)])
        if n in ("named_children",) and self.modules is not None:
            return PList(distinct(self.modules.pairs))
        if n in ("train", "eval", "to", "cuda", "cpu", "float", "double", "half", "requires_grad_"):
            if n in ("train", "eval"):
                self.attrs["training"] = (n == "train") if not args else args[0]
            return self
        if n == "append" and self.modules is not None:
            self.modules.set(str(len(self.modules.pairs)), args[0])
            return self
    if n == "forward" and em.cls.name in ("RNN", "LSTM", "GRU"):  # forward(input, hx=None)
        args = list(args) + [kwargs[k] for k in ("input", "hx")[len(args):] if k in kwargs]
        args += [None] * (2 - len(args))
        kwargs = {k: v for k, v in kwargs.items() if k not in ("input", "hx")}
    if n == "forward" and em.cls.name == "MultiheadAttention":
        names = ("query", "key", "value", "key_padding_mask", "need_weights", "attn_mask")
        if all(k in kwargs for k in names[len(args):3]):
            default = {"need_weights": True}
            kwargs = dict(kwargs)
            args = list(args) + [kwargs.pop(k, default.get(k)) for k in names[len(args):]]
    fa = tuple(I.freeze(x) for x in args)
    fk = tuple(sorted((k, I.freeze(v)) for k, v in kwargs.items()))
    r = T("call", em.cls.name + "." + n, (I.freeze(self),) + fa, fk)
    e = I.event("extmethod", node, cls=em.cls.name, method=n, obj=self, args=tuple(args), kwargs=dict(kwargs), result=r)
    I.maybe_raise(T("extm", n, len(I.ctx.events)), node)
    if n in ("load_state_dict", "extra_repr", "zero_grad", "apply"):
        e.data["result"] = r
    if n == "forward" and em.cls.name in ("RNN", "LSTM", "GRU"):
        sel = lambda c, i: T("sel", c, 0, i)
        h = sel(r, 1)
        h = (I.fresh_ten(sel(h, 0)), I.fresh_ten(sel(h, 1))) if em.cls.name == "LSTM" else I.fresh_ten(h)
        return (I.fresh_ten(sel(r, 0)), h)
    return r


# ------------------------------------------------------------------ torch functions
def canon_args(I, name, args, kwargs):
    """Positional arguments of a known signature; returns (args, kwargs)."""
    sig = SIGS.get(name)
    kwargs = {k: v for k, v in kwargs.items() if k not in DROP_KW}
    if not sig or not kwargs:
        return list(args), kwargs
    args = list(args)
    while len(args) < len(sig):
        k = sig[len(args)]
        if k in kwargs:
            args.append(kwargs.pop(k))
        elif k == "input" and "x" in kwargs:
            args.append(kwargs.pop("x"))
        else:
            break
    return args, kwargs


def seqarg(I, args):
    """(dims,) given either as one sequence or spread."""
    if len(args) == 1 and isinstance(args[0], (tuple, PList)):
        return tuple(args[0]) if isinstance(args[0], tuple) else tuple(args[0].items)
    return tuple(args)


def one(I, v):
    v = I.freeze(v)
    if isinstance(v, tuple) and len(v) == 1:
        return v[0]
    if isinstance(v, T) and v.op == "list" and len(v.args) == 1:
        return v.args[0]
    return v


def view(I, v, name, args, kwargs, node):
    t = I.as_ten(v)
    name = METHOD_ALIAS.get(name, name)
    a, kw = canon_args(I, name, [t] + list(args), kwargs)
    a = a[1:]
    if name in VIEW_IDENT or name in ("long", "int"):
        return t
    if name in ("permute", "reshape", "expand"):
        a = seqarg(I, a)
        if kw.get("dims") is not None:
            a = seqarg(I, [kw.pop("dims")])
    fa = [I.freeze(x) for x in a]
    if name == "transpose" and len(fa) == 2 and all(is_num(x) for x in fa):
        fa = sorted(fa) if all(x >= 0 for x in fa) else fa
    if name == "select" and len(fa) == 2:
        return I.sel(t, fa[0], fa[1])
    if name == "narrow" and len(fa) == 3 and is_num(fa[0]):
        sh = shape_of(I.read(t))
        d = fa[0] + len(sh) if fa[0] < 0 and sh is not None else fa[0]
        if d >= 0 and (not is_num(fa[1]) or fa[1] >= 0):
            return I.getitem_ten(t, (Slice(None, None, None),) * d + (Slice(fa[1], p_add(fa[1], fa[2]), None),), node)
    for k in sorted(kw):
        fa.append((k, I.freeze(kw[k])))
    if t.scalar and name in ("squeeze",):
        return t
    return Ten(t.cell, t.view + (T("v", name, *(tuple(fa) if name not in ("permute", "reshape", "expand") else (tuple(fa),))),))


def tensor_call(I, name, args, kwargs, node):
    """Result of a fresh-value torch function `torch.<name>`."""
    out = kwargs.pop("out", None) if "out" in kwargs else None
    args, kwargs = canon_args(I, name, args, kwargs)
    if name in ("tensor", "as_tensor"):
        x = args[0] if args else kwargs.get("data")
        if name == "as_tensor" and isinstance(x, Ten):
            return x
        if isinstance(x, Ten):
            return I.fresh_ten(I.read(x), scalar=x.scalar)
        if isinstance(x, bool):
            x = int(x)
        if is_num(x) or isinstance(x, T) and x.op not in ("range", "list", "rep", "aslist"):
            return I.fresh_ten(I.read(x) if isinstance(x, T) else x, scalar=True)
        if isinstance(x, float):
            return I.fresh_ten(x, scalar=True)
        if isinstance(x, PList) and x.kind == "range":
            x = PList(x.items)
        return I.fresh_ten(T("call", "torch.tensor", (I.freeze(x),), ()))
    if name == "clone":
        x = args[0]
        if isinstance(x, T) and x.op in ("poly", "mod", "floordiv"):
            return I.fresh_ten(I.read(x), scalar=True)
        return I.fresh_ten(I.read(x), scalar=isinstance(x, Ten) and x.scalar)
    if name in ("zeros_like", "ones_like", "full_like") and args and (
            isinstance(args[0], Ten) and args[0].scalar or is_num(args[0]) or isinstance(args[0], T) and args[0].op in ("poly", "mod", "floordiv")):
        v = {"zeros_like": 0, "ones_like": 1}.get(name)
        v = I.freeze(args[1] if len(args) > 1 else kwargs.get("fill_value")) if v is None else v
        return I.fresh_ten(v, scalar=True)
    if name in ("zeros", "ones", "full"):
        size = kwargs.get("size", args[0] if args else None)
        if size == () or isinstance(size, PList) and size.kind in ("list", "tuple") and not size.items:
            v = {"zeros": 0, "ones": 1}.get(name)
            v = I.freeze(args[1] if len(args) > 1 else kwargs.get("fill_value")) if v is None else v
            return I.fresh_ten(v, scalar=True)
    if name in ARITH and len(args) >= 2:
        a, b = args[0], args[1]
        if not kwargs and len(args) == 2:
            ta = isinstance(a, Ten) and not a.scalar
            tb = isinstance(b, Ten) and not b.scalar
            ta = ta or any(isinstance(x, T) and (I.looks_tensor(x) or SHAPES.get(x) or module_output(x)) for x in (a, b))
            if ta or tb:
                fa, fb = I.freeze(a), I.freeze(b)
                if name == "remainder":
                    return I.fresh_ten(T("call", "torch.remainder", (fa, fb), ()))
                r = I.fresh_ten(tensor_binop(ARITH[name], fa, fb))
            else:
                c = I.binop_content(ARITH[name], I.freeze(a), I.freeze(b))
                r = I.fresh_ten(c, scalar=True) if isinstance(a, Ten) or isinstance(b, Ten) else c
            if out is not None:
                I.mutate(out, "out", [], node, new=I.freeze(r))
                return out
            return r
    if name in COMPARE and len(args) == 2:
        return I.compare(COMPARE[name], args[0], args[1], node)
    if name == "roll":
        fa = (I.read(args[0]),) + tuple(one(I, x) for x in args[1:])
    elif name in ("stack", "cat"):
        dim = args[1] if len(args) > 1 else kwargs.pop("dim", 0)
        lst = args[0]
        if isinstance(lst, (tuple, Lazy)):
            lst = PList(I.items(lst, node))
        fa = (I.freeze(lst), I.freeze(dim))
    elif name in ("zeros", "ones", "empty", "rand", "randn", "full"):
        if name != "full" and not (len(args) == 1 and isinstance(args[0], (tuple, PList))) and "size" not in kwargs:
            args = [tuple(args)]
        if "size" in kwargs:
            args = [kwargs.pop("size")] + list(args)
        a0 = tuple(args[0].items) if isinstance(args[0], PList) else args[0]
        fa = (I.freeze(a0),) + tuple(I.freeze(x) for x in args[1:])
    else:
        fa = tuple(I.freeze(x) for x in args)
    kw = tuple(sorted((k, I.freeze(v)) for k, v in kwargs.items() if k != "inplace"))
    c = T("call", "torch." + name, fa, kw)
    if out is not None:
        I.mutate(out, "out", [], node, new=c)
        return out
    if kwargs.get("inplace") is True and args:
        I.mutate(args[0], name, args[1:], node, new=c)
        return args[0]
    return I.fresh_ten(c)


def kw_call(I, name, args, kwargs, node):
    sig = KSIGS[name]
    d = {}
    for i, x in enumerate(args):
        d[sig[i][0]] = x
    d.update(kwargs)
    for s in sig:
        if s[0] not in d and len(s) > 1:
            d[s[0]] = s[1]
    inplace = d.pop("inplace", None)
    c = T("call", "F." + name, (), tuple(sorted((k, I.freeze(v)) for k, v in d.items())))
    return I.fresh_ten(c)


def call_ext(I, dotted, args, kwargs, node):
    last = dotted.rsplit(".", 1)[-1]
    root = dotted.split(".", 1)[0]
    if last == "partial":
        return Partial(args[0], tuple(args[1:]), dict(kwargs))
    if last == "reduce" and root in ("functools", "reduce"):
        fn, seq = args[0], args[1]
        it = I.iterate(seq, node)
        if len(args) > 2:
            acc = args[2]
        else:
            try:
                acc = next(it)
            except StopIteration:
                raise PyRaise("TypeError", node)
        for x in it:
            acc = I.call(fn, [acc, x], {}, node)
        return acc
    if last in ("wraps",):
        return Decor(lambda f: f)
    if last in ("update_wrapper",):
        return args[0]
    if last in ("lru_cache", "cache"):
        return args[0] if args and isinstance(args[0], (Fn, BoundM)) else Decor(lambda f: f)
    if last == "OrderedDict":
        d = PDict()
        d.kind = "OrderedDict"
        if args:
            v = args[0]
            if isinstance(v, Lazy):
                v = PList(I.items(v, node))
            if isinstance(v, T):
                d.rest = v
            else:
                I.dict_update(d, v, node)
        for k, v in kwargs.items():
            d.set(k, v)
        return d
    if last == "defaultdict":
        return PDict()
    if last == "chain" or last == "from_iterable":
        def gen():
            for x in (args if last == "chain" else I.iterate(args[0], node)):
                yield from I.iterate(x, node)

        return Lazy(gen())
    if last == "accumulate":
        def acc_gen():
            acc = None
            for x in I.iterate(args[0], node):
                acc = x if acc is None else (I.call(args[1], [acc, x], {}, node) if len(args) > 1 else I.binop("Add", acc, x, node))
                yield acc

        return Lazy(acc_gen())
    if dotted in ("math.prod", "numpy.prod"):
        acc = 1
        for x in I.iterate(args[0], node):
            acc = I.binop("Mult", acc, x, node)
        return acc
    if last == "product" and root == "itertools":
        return I.unk("itertools.product", node)
    if root == "operator" and last in ARITH:
        return I.binop(ARITH[last], args[0], args[1], node)
    if last == "_get_tracing_state" or last in ("is_tracing", "is_scripting"):
        if I.ctx.opts.get("tracing") == "sym":
            return T("truth", T("ext", "tracing"))
        return bool(I.ctx.opts.get("tracing", False))
    if last in ("getLogger", "TypeVar", "NewType", "getsource", "signature"):
        return T("ext", dotted + "()")
    if last in ("deepcopy", "copy") and root == "copy":
        v = args[0]
        if isinstance(v, Ten):
            return I.fresh_ten(I.read(v), scalar=v.scalar)
        if isinstance(v, PList):
            return PList(v.items)
        if isinstance(v, PDict):
            d = PDict(v.pairs)
            d.rest = v.rest
            return d
        return v if isinstance(v, (tuple, int, str, T)) or v is None else I.unk("copy", node)
    if last in ("_ntuple",):
        n = args[0]
        return Partial(Builtin("@ntuple"), (n,), {})
    if last in ("_single", "_pair", "_triple", "_quadruple"):
        return ntuple(I, {"_single": 1, "_pair": 2, "_triple": 3, "_quadruple": 4}[last], args[0], node)
    if last == "_reverse_repeat_tuple":
        return reverse_repeat(I, args[0], args[1], node)
    if root == "math":
        fa = [I.freeze(x) for x in args]
        if all(isinstance(x, (int, float)) for x in fa):
            import math

            try:
                return getattr(math, last)(*fa)
            except Exception:
                pass
        return T("call", dotted, tuple(fa), ())
    if root == "warnings" or root == "logging":
        return None
    if root == "torch":
        if dotted.startswith("torch.nn.init"):
            return args[0] if args else None
        if last == "no_grad" or last in ("enable_grad", "inference_mode", "set_grad_enabled"):
            return T("ext", dotted)
        if dotted.startswith("torch.Tensor."):
            return call_value_method(I, args[0], last, list(args[1:]), kwargs, node)
        if dotted.startswith("torch.nn.functional.") or dotted.startswith("torch.functional."):
            I.event("extcall", node, fn=dotted, args=tuple(args), kwargs=dict(kwargs))
            I.maybe_raise(T("ext", dotted, len(I.ctx.events)), node)
            if last in KSIGS:
                return kw_call(I, last, args, kwargs, node)
            if kwargs.get("inplace") is True:
                I.mutate(args[0], last, args[1:], node)
                return args[0]
            if last in ("softmax",):
                return tensor_call(I, last, args, kwargs, node)
            if last.endswith("_") and not last.startswith("_"):
                I.mutate(args[0], last, args[1:], node)
                return args[0]
            if last in ("_in_projection_packed", "_in_projection"):
                fa = tuple(I.freeze(x) for x in args)
                fk = tuple(sorted((k, I.freeze(v)) for k, v in kwargs.items()))
                c = T("call", "F." + last, fa, fk)
                return tuple(I.fresh_ten(T("item", c, i)) for i in range(3))
            fa = tuple(I.freeze(x) for x in args)
            fk = tuple(sorted((k, I.freeze(v)) for k, v in kwargs.items() if k != "inplace"))
            return I.fresh_ten(T("call", "F." + last, fa, fk))
        if dotted.count(".") == 1:
            name = METHOD_ALIAS.get(last, last)
            I.event("extcall", node, fn=dotted, args=tuple(args), kwargs=dict(kwargs))
            I.maybe_raise(T("ext", dotted, len(I.ctx.events)), node)
            if name in ("is_tensor",):
                return isinst1(I, args[0], ExtRef("torch.Tensor"))
            if name in KSIGS:
                return kw_call(I, name, args, kwargs, node)
            if (name in VIEW or name in MULTIVIEW) and args and name not in ("long", "int", "float"):
                return call_value_method(I, args[0], name, list(args[1:]), kwargs, node)
            if name == "Size":
                return args[0]
            if name.endswith("_") and not name.startswith("_"):
                I.mutate(args[0], name, args[1:], node)
                return args[0]
            if name in ("float", "long", "int", "bool", "device", "dtype"):
                return T("ext", dotted)
            return tensor_call(I, name, list(args), dict(kwargs), node)
        r = T("app", T("ext", dotted), tuple(I.freeze(a) for a in args), tuple(sorted((k, I.freeze(v)) for k, v in kwargs.items())))
        I.event("extcall", node, fn=dotted, args=tuple(args), kwargs=dict(kwargs))
        I.maybe_raise(T("ext", dotted, len(I.ctx.events)), node)
        return r
    I.event("extcall", node, fn=dotted, args=tuple(args), kwargs=dict(kwargs))
    return T("app", T("ext", dotted), tuple(I.freeze(a) for a in args), tuple(sorted((k, I.freeze(v)) for k, v in kwargs.items())))


def ntuple(I, n, v, node):
    """torch.nn.modules.utils._ntuple: sequences pass through, scalars are repeated."""
    if isinstance(v, tuple):
        return v
    if isinstance(v, PList):
        return tuple(v.items)
    if isinstance(v, (int, float)):
        return (v,) * n if is_num(n) else I.unk("ntuple", node)
    if isinstance(v, T) and (v.op in INT_OPS or v in POSITIVE):
        return (v,) * n if is_num(n) else I.unk("ntuple", node)
    if isinstance(v, T) and I.ctx.facts.query(T("kind", v, "int")) is True:
        return (v,) * n if is_num(n) else I.unk("ntuple", node)
    if isinstance(v, T) and is_num(n):
        return tuple(T("nt", v, n, i) for i in range(n))
    return I.unk("ntuple", node)


def reverse_repeat(I, t, n, node):
    if isinstance(t, tuple) and is_num(n):
        return tuple(x for x in reversed(t) for _ in range(n))
    return T("call", "_reverse_repeat_tuple", (I.freeze(t), I.freeze(n)), ())


def opaque_ext_call(I, fterm, args, kwargs, node):
    fa = tuple(I.freeze(x) for x in args)
    kw = tuple(sorted((k, I.freeze(v)) for k, v in kwargs.items()))
    I.event("extcall", node, fn=fterm, args=tuple(args), kwargs=dict(kwargs))
    return I.fresh_ten(T("call", fterm, fa, kw))


# --------------------------------------------------------------- value methods
def call_value_method(I, v, name, args, kwargs, node):
    if isinstance(v, PList):
        return list_method(I, v, name, args, kwargs, node)
    if isinstance(v, PDict):
        return dict_method(I, v, name, args, kwargs, node)
    if isinstance(v, PSet):
        if name == "add":
            if not any(type(x) is type(args[0]) and x == args[0] for x in v.items):
                v.items.append(args[0])
            return None
        if name in ("union", "update"):
            r = PSet(v.items + [y for x in args for y in I.items(x, node)])
            if name == "update":
                v.items = r.items
                return None
            return r
        return I.unk("set." + name, node)
    if isinstance(v, str):
        fa = [I.freeze(x) if not isinstance(x, (PList, Lazy)) else x for x in args]
        if name == "join":
            parts = [I.freeze(x) for x in I.items(args[0], node)] if not isinstance(args[0], T) else None
            if parts is not None and all(isinstance(p, str) for p in parts):
                return v.join(parts)
            return T("fstr", v, "join", tuple(parts) if parts is not None else I.freeze(args[0]))
        if all(isinstance(x, (str, int, tuple)) for x in fa) and hasattr(v, name) and not kwargs:
            try:
                r = getattr(v, name)(*fa)
            except Exception:
                return I.unk("str." + name, node)
            return PList(r) if isinstance(r, list) else r
        return T("strm", v, name, tuple(I.freeze(x) for x in args))
    if isinstance(v, tuple):
        if name == "index" and all(not isinstance(x, (T, Ten)) for x in v):
            try:
                return v.index(args[0])
            except ValueError:
                raise PyRaise("ValueError", node)
        if name == "count":
            return sum(1 for x in v if I.truth(I.equal(x, args[0], node)))
        if name == "copy":
            raise PyRaise("AttributeError", node)
        return I.unk("tuple." + name, node)
    if is_num(v) and not isinstance(v, bool) and METHOD_ALIAS.get(name, name) in VIEW:
        # arithmetic on 0-dimensional tensors is folded to its value
        return view(I, I.fresh_ten(v, scalar=True), name, args, kwargs, node)
    if isinstance(v, Lazy) or isinstance(v, (int, float)):
        if name == "bit_length":
            return I.unk(name, node)
        return I.unk("method " + name, node)
    # tensors and unknown values
    if isinstance(v, T) and name in ("items", "keys", "values") and not I.looks_tensor(v):
        return T(name, I.freeze(v))
    if isinstance(v, T) and v.op in ("fstr", "strm", "item", "param") and name in ("lower", "upper", "replace", "split", "strip", "isdigit", "startswith", "endswith", "join", "rpartition", "format", "rsplit", "partition", "find"):
        if name == "isdigit":
            return T("truth", T("strm", I.freeze(v), name))
        return T("strm", I.freeze(v), name, tuple(I.freeze(x) for x in args))
    if isinstance(v, T) and v.op == "attr" and name in ("items", "keys", "values", "get", "pop", "update", "append", "extend"):
        r = T("app", T("boundv", I.freeze(v), name), tuple(I.freeze(x) for x in args), ())
        I.event("callfn", node, fn=T("boundv", I.freeze(v), name), args=tuple(args), kwargs=dict(kwargs), result=r)
        return r
    return tensor_method(I, v, name, list(args), dict(kwargs), node)


def tensor_method(I, v, name, args, kwargs, node):
    name = METHOD_ALIAS.get(name, name)
    t = I.as_ten(v)
    if name in ("warning", "info", "error", "debug"):
        I.event("log", node, obj=v, args=tuple(args))
        return None
    if name in ("register_hook", "setup_input_hook", "setup_output_hook", "state_dict", "load_state_dict"):
        r = T("app", T("boundv", I.freeze(v), name), tuple(I.freeze(x) for x in args), tuple(sorted((k, I.freeze(x)) for k, x in kwargs.items())))
        I.event("callfn", node, fn=T("boundv", I.freeze(v), name), args=tuple(args), kwargs=dict(kwargs), result=r)
        return r
    if t is None:
        return I.unk("method " + name, node)
    if isinstance(v, T) and I.ctx.facts.kind.get(v) == "None":
        raise PyRaise("AttributeError", node)
    if name in ("dim", "ndimension"):
        return dim_term(I.read(t))
    if name == "size":
        d = args[0] if args else kwargs.get("dim")
        if d is None:
            sh = shape_of(I.read(t))
            return sh if sh is not None else T("shape", I.read(t))
        n = I.num(d)
        return size_term(I.read(t), n)
    if name == "numel":
        return numel_term(I.read(t))
    if name in ("item", "tolist"):
        return I.read(t) if name == "item" else T("tolist", I.read(t))
    if name in ("is_contiguous", "is_floating_point", "is_complex"):
        return T("truth", T(name, I.read(t)))
    if name in ("type",) and not args:
        return T("attr", I.read(t), "type")
    if name in ("get_device", "element_size"):
        return T("attr", I.read(t), name)
    if name == "requires_grad_":
        return t
    if name == "index_select":
        args, kwargs = canon_args(I, "index_select", [t] + args, kwargs)
        c = T("call", "torch.index_select", tuple(I.freeze(x) for x in args), tuple(sorted((k, I.freeze(x)) for k, x in kwargs.items())))
        return I.fresh_ten(c)
    if name in ("copy_", "fill_", "zero_", "set_"):
        new = 0 if name == "zero_" else I.freeze(args[0])
        if name == "zero_":
            new = T("call", "torch.zeros_like", (I.read(t),), ()) if not t.scalar else 0
        elif name == "fill_":
            new = T("call", "torch.full_like", (I.read(t), new), ()) if not t.scalar else new
        elif name == "copy_" and args:
            new = I.freeze(args[0])
        I.mutate(t, name, args, node, new=new)
        return t
    if name.endswith("_") and not name.endswith("__"):
        base = name[:-1]
        new = None
        if base in ARITH and args and len(args) == 1:
            a, b = I.read(t), I.freeze(args[0])
            new = I.binop_content(ARITH[base], a, b) if t.cell.scalar else tensor_binop(ARITH[base], a, b)
        if base in ("squeeze", "unsqueeze", "transpose", "t", "requires_grad", "detach"):
            if base in ("requires_grad", "detach"):
                return t
            I.mutate(t, name, args, node)
            return t
        I.mutate(t, name, args, node, new=new)
        return t
    if name in MULTIVIEW:
        if name == "unbind":
            d = args[0] if args else kwargs.get("dim", 0)
            r = T("unbind", I.read(t), I.freeze(d))
            I.ctx.objs[("unbindsrc", r)] = t
            return r
        a, kw = canon_args(I, name, [t] + args, kwargs)
        d = a[2] if len(a) > 2 else kw.get("dim", 0)
        if name == "split" and len(a) > 1 and is_num(I.freeze(a[1])) and I.freeze(a[1]) == 1:
            return T("splitlist", I.read(t), I.freeze(d))
        return T("pieces", I.read(t), name, I.freeze(a[1]) if len(a) > 1 else None, I.freeze(d))
    if name in VIEW:
        return view(I, t, name, args, kwargs, node)
    if name == "clone":
        c = I.read(t)
        return I.fresh_ten(c, scalar=t.scalar or isinstance(c, T) and c.op in ("mod", "floordiv"))
    if name in ("repeat", "tile"):
        return I.fresh_ten(T("m", "repeat", I.read(t), (tuple(I.freeze(x) for x in seqarg(I, args)),)))
    if name in ("new_zeros", "new_ones", "new_full", "new_tensor", "new_empty"):
        if name in ("new_zeros", "new_ones", "new_full") and (not args or args[0] == () or isinstance(args[0], PList) and not args[0].items):
            return tensor_call(I, name[4:], [()] + args[1:], kwargs, node)
        if name == "new_tensor":
            return tensor_call(I, "tensor", args, kwargs, node)
        return I.fresh_ten(T("call", "torch." + name[4:], (I.freeze(seqarg(I, args[:1]) if name == "new_full" else seqarg(I, args)),) + tuple(I.freeze(x) for x in args[1:] if name == "new_full"), ()))
    if name in ("append", "extend", "update", "get", "pop", "items", "keys", "values"):
        r = T("app", T("boundv", I.freeze(v), name), tuple(I.freeze(x) for x in args), ())
        I.event("callfn", node, fn=T("boundv", I.freeze(v), name), args=tuple(args), kwargs=dict(kwargs), result=r)
        return r
    return tensor_call(I, name, [t] + args, kwargs, node)


def list_method(I, v, name, args, kwargs, node):
    if name == "append":
        v.items.append(args[0])
        return None
    if name == "extend":
        v.items.extend(I.items(args[0], node))
        return None
    if name == "insert":
        n = I.num(args[0])
        if is_num(n):
            v.items.insert(n, args[1])
            return None
        I.unk("insert", node)
        return None
    if name == "pop":
        n = I.num(args[0]) if args else -1
        if not v.items:
            raise PyRaise("IndexError", node)
        if is_num(n):
            try:
                return v.items.pop(n)
            except IndexError:
                raise PyRaise("IndexError", node)
        return I.unk("pop", node)
    if name == "popleft":
        if not v.items:
            raise PyRaise("IndexError", node)
        return v.items.pop(0)
    if name == "copy":
        return PList(v.items)
    if name == "reverse":
        v.items.reverse()
        return None
    if name == "clear":
        v.items.clear()
        return None
    if name == "count":
        return sum(1 for x in v.items if I.truth(I.equal(x, args[0], node)))
    if name == "index":
        for i, x in enumerate(v.items):
            if I.truth(I.equal(x, args[0], node)):
                return i
        raise PyRaise("ValueError", node)
    if name == "remove":
        for i, x in enumerate(v.items):
            if I.truth(I.equal(x, args[0], node)):
                del v.items[i]
                return None
        raise PyRaise("ValueError", node)
    if name == "sort":
        I.unk("sort", node)
        return None
    return I.unk("list." + name, node)


def dict_method(I, v, name, args, kwargs, node):
    if name == "items":
        if v.rest is not None and not v.pairs:
            return T("items", I.freeze(v.rest))
        return PList([(k, x) for k, x in v.pairs])
    if name == "keys":
        if v.rest is not None and not v.pairs:
            return T("keys", I.freeze(v.rest))
        return PList([k for k, _ in v.pairs])
    if name == "values":
        if v.rest is not None and not v.pairs:
            return T("values", I.freeze(v.rest))
        return PList([x for _, x in v.pairs])
    if name in ("get", "setdefault", "pop"):
        if name == "pop" and (not args):
            raise PyRaise("TypeError", node)
        k = args[0]
        if v.rest is None and not isinstance(k, (T, Ten)):
            p = v.find(k)
            if p:
                if name == "pop":
                    v.pairs.remove(p)
                return p[1]
            d = args[1] if len(args) > 1 else kwargs.get("default")
            if name == "pop" and len(args) < 2:
                raise PyRaise("KeyError", node)
            if name == "setdefault":
                v.set(k, d)
            return d
        try:
            if v.rest is not None and v.find(k) is None:
                if len(args) > 1 or name == "get":
                    if not I.ctx.decide(T("in", I.freeze(k), I.freeze(v.rest)), node):
                        return args[1] if len(args) > 1 else None
                return T("item", I.freeze(v.rest), I.freeze(k))
            return I.getitem(v, k, node)
        except PyRaise:
            return args[1] if len(args) > 1 else None
    if name == "update":
        if args:
            I.dict_update(v, args[0], node)
        for k, x in kwargs.items():
            if k == "**":
                v.rest = x
            else:
                v.set(k, x)
        return None
    if name == "copy":
        d = PDict(v.pairs)
        d.rest = v.rest
        if hasattr(v, "kind"):
            d.kind = v.kind
        return d
    if name == "clear":
        v.pairs.clear()
        return None
    if name in ("move_to_end", "popitem"):
        I.unk("dict." + name, node)
        return None
    return I.unk("dict." + name, node)
