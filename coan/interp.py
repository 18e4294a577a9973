"""Path-sensitive abstract interpreter over the Python AST of the analysed program.

Nothing of the analysed program is imported or executed: statements are given an
abstract semantics over the term domain of `terms`. Branches on undetermined
conditions are explored both ways; each explored path keeps the facts it assumed,
the effects it caused (`events`), and its outcome.
"""
import ast
import os

from .prog import AnalysisError, ClassInfo, ExtClass, Program
from .terms import (
    POSITIVE, PRIMITIVE, SHAPES, Cell, Facts, Infeasible, PDict, PList, PSet, Slice, T, Ten, eq0, ge0,
    is_num, p_add, p_floordiv, p_max, p_min, p_mod, p_mul, p_neg, p_sub, show, sym,
)

BUILTINS = {
    "len", "range", "enumerate", "zip", "isinstance", "issubclass", "callable", "getattr",
    "setattr", "hasattr", "delattr", "type", "int", "float", "bool", "str", "list", "tuple",
    "dict", "set", "frozenset", "max", "min", "sum", "any", "all", "next", "iter", "super",
    "reversed", "sorted", "map", "filter", "abs", "print", "repr", "id", "staticmethod",
    "classmethod", "property", "object", "slice", "vars", "divmod", "round", "pow", "hash",
    "Exception", "AssertionError", "AttributeError", "KeyError", "ValueError", "TypeError",
    "RuntimeError", "NotImplementedError", "StopIteration", "IndexError", "BaseException",
    "NotImplemented", "Ellipsis", "format", "ImportError", "UserWarning", "ord", "chr",
    "DeprecationWarning", "ArithmeticError", "LookupError", "NameError", "OSError",
}
EXC_PARENTS = {
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "UnboundLocalError": "NameError", "NameError": "Exception", "AttributeError": "Exception",
    "AssertionError": "Exception", "ValueError": "Exception", "TypeError": "Exception",
    "RuntimeError": "Exception", "NotImplementedError": "RuntimeError", "StopIteration": "Exception",
    "OpaqueError": "Exception", "Exception": "BaseException", "ImportError": "Exception",
    "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
}

VIEW = {
    "view", "permute", "transpose", "swapaxes", "swapdims", "movedim", "moveaxis", "squeeze",
    "unsqueeze", "reshape", "contiguous", "to", "expand", "expand_as", "narrow", "select", "detach",
    "flatten", "unflatten", "t", "view_as", "reshape_as", "diagonal", "as_strided", "unfold",
    "type_as", "float", "double", "half", "long", "int", "cpu", "cuda", "data",
}
VIEW_IDENT = {"contiguous", "to", "detach", "type_as", "float", "double", "cpu", "cuda", "data", "half"}
MULTIVIEW = {"chunk", "split", "unbind", "tensor_split"}
PURE_STR = {
    "items", "keys", "values", "get", "replace", "lower", "upper", "startswith", "endswith",
    "strip", "rstrip", "lstrip", "join", "format", "isdigit", "partition", "rpartition", "count",
    "find", "index", "rsplit", "removeprefix", "removesuffix", "title", "capitalize", "isnumeric",
    "isdecimal", "isalpha", "copy",
}
ADVANCED = {"torch.arange", "torch.remainder", "torch.tensor", "torch.linspace", "torch.randperm", "numpy.arange"}


from .shapes import POINTWISE, dims_view, make_dims, shape_of


class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name, node=None, value=None):
        self.name = name
        self.node = node
        self.value = value

    def __repr__(self):
        return f"PyRaise({self.name})"


class Bail(Exception):
    """Path abandoned (bound exceeded)."""


class Fn:
    def __init__(self, node, mod, env, cls, name):
        self.node = node
        self.mod = mod
        self.env = env
        self.cls = cls
        self.name = name
        self.kind = "def"
        self.ctxmgr = False
        self.defaults = []
        self.kw_defaults = []
        self.locals = None
        self.attrs = {}

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name

    def __repr__(self):
        return f"<fn {self.qual}>"


class BoundM:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn} of {self.self_}>"


class Prop:
    def __init__(self, get, set_=None):
        self.get, self.set_ = get, set_


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClsM:
    def __init__(self, fn):
        self.fn = fn


class Partial:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs

    def __repr__(self):
        return f"<partial {self.fn}>"


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class ExtRef:
    def __init__(self, dotted):
        self.dotted = dotted

    def __eq__(self, o):
        return isinstance(o, ExtRef) and o.dotted == self.dotted

    def __hash__(self):
        return hash(self.dotted)

    def __repr__(self):
        return self.dotted


class ExtMethod:
    def __init__(self, cls, name, self_=None):
        self.cls, self.name, self.self_ = cls, name, self_

    def __repr__(self):
        return f"<{self.cls}.{self.name}>"


class BoundV:
    """Method of an abstract value (tensor, list, str, ...)."""

    def __init__(self, v, name):
        self.v, self.name = v, name

    def __repr__(self):
        return f"<{show(self.v)}.{self.name}>"


class BoundOpq:
    def __init__(self, o, name):
        self.o, self.name = o, name


class ModRef:
    def __init__(self, info):
        self.info = info


class Lazy:
    """A lazily evaluated iterable (enumerate, zip, map, ...)."""

    def __init__(self, gen, length=None):
        self.gen = gen
        self.length = length


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class CtxMgr:
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Raised:
    """An exception instance value."""

    def __init__(self, name, args=()):
        self.name, self.args = name, args


class Inst:
    def __init__(self, cls, name):
        self.cls = cls
        self.name = name
        self.attrs = {}
        self.buffers = {}  # name -> persistent?
        self.params = set()  # names registered as parameters
        self.modules = None  # PDict once nn.Module.__init__ ran
        self.ctor = None  # bound constructor arguments when opaque
        self.opaque = False
        self.open = True  # unknown attributes may exist (external bases)

    def __repr__(self):
        return f"<{self.name}:{getattr(self.cls, 'name', self.cls)}>"


class Opq:
    """An opaque module / object supplied by the user."""

    def __init__(self, name, kind="comodule", attrs=None, isa=None):
        self.name = name
        self.kind = kind
        self.attrs = attrs or {}
        self.isa = isa or {}
        self.ncalls = 0

    def __repr__(self):
        return f"<{self.name}>"


class EnumMember:
    _all = {}

    def __new__(cls, c, name, value):
        key = (c.name, name)
        o = cls._all.get(key)
        if o is None:
            o = object.__new__(cls)
            cls._all[key] = o
        o.cls, o.name, o.value = c, name, value
        return o

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class Env:
    def __init__(self, mod, parent=None, fn=None):
        self.mod, self.parent, self.fn = mod, parent, fn
        self.vars = {}
        self.globals_ = set()
        self.nonlocals = set()


class Event:
    __slots__ = ("kind", "data", "loc", "ncond", "stack")

    def __init__(self, kind, data, loc, ncond, stack=()):
        self.kind, self.data, self.loc, self.ncond, self.stack = kind, data, loc, ncond, stack

    def __getattr__(self, a):
        try:
            return self.data[a]
        except KeyError:
            raise AttributeError(a)

    def __repr__(self):
        return f"{self.kind}({', '.join(f'{k}={show(v)}' for k, v in self.data.items())})@{self.loc}"


class TimeUp(BaseException):
    """The time set aside for an obligation has passed."""


class Ctx:
    def __init__(self, prefix, opts):
        self.prefix = prefix
        self.trace = []
        self.facts = Facts()
        self.conds = []
        self.closing = False
        self.events = []
        self.fresh = 0
        self.cells = {}
        self.objs = {}
        self.stack = []
        self.opts = opts
        self.steps = 0
        self.truncated = False
        self.bounded = False
        self.imprecise = []

    def decide(self, cond, node=None):
        if isinstance(cond, bool):
            return cond
        q = self.facts.query(cond)
        if q is not None:
            return q
        if self.closing:
            self.facts.assume(cond, False)
            self.conds.append((cond, False))
            self.bounded = True
            return False
        i = len(self.trace)
        choice = self.prefix[i] if i < len(self.prefix) else True
        self.trace.append(choice)
        self.facts.assume(cond, choice)
        self.conds.append((cond, choice))
        return choice


class Path:
    def __init__(self, kind, value, ctx, extra=None):
        self.kind, self.value, self.ctx, self.extra = kind, value, ctx, extra
        self.events = ctx.events
        self.facts = ctx.facts
        self.conds = ctx.conds

    def cond_str(self, limit=8):
        cs = [(show(c) if v else f"not({show(c)})") for c, v in self.conds]
        return " & ".join(cs[:limit]) + (" ..." if len(cs) > limit else "")


PRED = {"ge0", "eq0", "eqc", "not", "kind", "truth", "in", "is", "hasattr", "raises", "issub", "pand", "por", "boolof"}


class Interp:
    def __init__(self, root="/repo", pkg="continual"):
        self.prog = Program(root, pkg)
        self.globals = {}  # modname -> dict
        self.loading = set()
        self.class_infos = {}
        self.paths_explored = 0
        self.functions_seen = set()
        self.global_insts = []
        self.ctx = Ctx([], {})
        self.load_errors = []
        for name in sorted(self.prog.modules):
            self.load(name)
        self.snap = [(i, dict(i.attrs), {k: list(v.items) for k, v in i.attrs.items() if isinstance(v, PList)}) for i in self.global_insts]

    # ---------------------------------------------------------------- modules
    def load(self, name):
        if name in self.globals:
            return self.globals[name]
        info = self.prog.modules[name]
        g = self.globals[name] = {"__name__": name}
        info.globals = g
        env = Env(info)
        env.vars = g
        for st in info.tree.body:
            try:
                self.ex(st, env)
            except (PyRaise, Infeasible, Bail, ReturnSig) as e:
                self.load_errors.append((name, getattr(st, "lineno", 0), repr(e)))
        return g

    def import_name(self, modname, attr):
        if modname in self.prog.modules:
            sub = modname + "." + attr
            g = self.load(modname)
            if attr in g:
                return g[attr]
            if sub in self.prog.modules:
                return ModRef(self.prog.modules[sub])
            return ("lazy", modname, attr)
        return self.extname(modname + "." + attr)

    def extname(self, dotted):
        last = dotted.rsplit(".", 1)[-1]
        if dotted.startswith("torch.nn") and last in ExtClass._all and ExtClass._all[last].node is not None:
            return ExtClass(last)
        if dotted in ("enum.Enum", "abc.ABC", "enum.IntEnum"):
            return ExtClass(last)
        return ExtRef(dotted)

    # ------------------------------------------------------------- exploration
    def explore(self, thunk, max_paths=6000, **opts):
        """Run `thunk(ctx)` along every feasible decision sequence."""
        prefix = []
        out = []
        n = 0
        while True:
            ctx = Ctx(prefix, opts)
            self.ctx = ctx
            for inst, attrs, lists in self.snap:
                inst.attrs = dict(attrs)
                for k, items in lists.items():
                    inst.attrs[k] = PList(items)
            try:
                v = thunk(ctx)
                out.append(Path("return", v, ctx))
            except PyRaise as e:
                out.append(Path("raise", e, ctx))
            except Infeasible:
                pass
            except Bail as e:
                out.append(Path("bail", str(e), ctx))
            except RecursionError:
                out.append(Path("bail", "recursion", ctx))
            except TimeUp:
                out.append(Path("bail", "time limit", ctx))
                break
            n += 1
            tr = list(ctx.trace)
            while tr and tr[-1] is False:
                tr.pop()
            if not tr:
                break
            tr[-1] = False
            prefix = tr
            if n >= max_paths:
                out.append(Path("bail", "max paths", ctx))
                break
        self.paths_explored += n
        return out

    # ---------------------------------------------------------------- helpers
    def loc(self, node=None):
        fn = self.ctx.stack[-1] if self.ctx.stack else None
        file = os.path.relpath(fn.mod.path, self.prog.root) if fn else "?"
        return f"{file}:{getattr(node, 'lineno', '?')}:{fn.qual if fn else '<module>'}"

    def event(self, kind, node=None, **data):
        e = Event(kind, data, self.loc(node), len(self.ctx.conds), tuple(f.qual for f in self.ctx.stack))
        self.ctx.events.append(e)
        return e

    def newid(self):
        self.ctx.fresh += 1
        return self.ctx.fresh

    def unk(self, why, node=None):
        self.ctx.imprecise.append((why, self.loc(node)))
        return T("unknown", why, self.newid())

    def fresh_ten(self, content, scalar=False, origin=None):
        return Ten(Cell(content, origin or ("fresh", self.newid()), scalar))

    def cell_of(self, t):
        c = self.ctx.cells.get(t)
        if c is None:
            c = self.ctx.cells[t] = Cell(t, t)
        return c

    def as_ten(self, v):
        if isinstance(v, Ten):
            return v
        if isinstance(v, T):
            return Ten(self.cell_of(v))
        return None

    def read(self, v):
        """Current content of a tensor value, as a term."""
        if isinstance(v, Ten):
            c = v.cell.content
            for vw in v.view:
                c = self.apply_view(c, vw)
            return c
        if isinstance(v, T):
            c = self.ctx.cells.get(v)
            return c.content if c is not None else v
        return v

    def freeze(self, v, d=0):
        if d > 30:
            return T("deep")
        f = lambda x: self.freeze(x, d + 1)
        if isinstance(v, (Ten, T)):
            return self.read(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return v
        if v is Ellipsis:
            return T("ellipsis")
        if isinstance(v, tuple):
            return tuple(f(x) for x in v)
        if isinstance(v, PList):
            return T("list", *[f(x) for x in v.items])
        if isinstance(v, PDict):
            return T("dict", *[(f(k), f(x)) for k, x in v.pairs], *( [f(v.rest)] if v.rest is not None else []))
        if isinstance(v, PSet):
            return T("set", *sorted((f(x) for x in v.items), key=show))
        if isinstance(v, Slice):
            return T("slice", f(v.a), f(v.b), f(v.c))
        if isinstance(v, Inst):
            return T("obj", v.name)
        if isinstance(v, Opq):
            return sym(v.name)
        if isinstance(v, Fn):
            return T("fn", v.mod.name + "." + v.qual, getattr(v.node, "lineno", 0))
        if isinstance(v, BoundM):
            return T("bound", f(v.fn), f(v.self_))
        if isinstance(v, Partial):
            return T("partial", f(v.fn), tuple(f(a) for a in v.args), tuple(sorted((k, f(x)) for k, x in v.kwargs.items())))
        if isinstance(v, ExtRef):
            return T("ext", v.dotted)
        if isinstance(v, Builtin):
            return T("ext", v.name)
        if isinstance(v, ExtClass):
            return T("ext", v.name)
        if isinstance(v, ClassInfo):
            return T("class", v.name)
        if isinstance(v, EnumMember):
            return T("enum", v.cls.name, v.name)
        if isinstance(v, ExtMethod):
            return T("extm", v.cls.name, v.name, f(v.self_))
        if isinstance(v, BoundV):
            return T("boundv", f(v.v), v.name)
        if isinstance(v, BoundOpq):
            return T("boundo", f(v.o), v.name)
        if isinstance(v, ModRef):
            return T("mod", v.info.name)
        if isinstance(v, Lazy):
            return T("lazy", id(v))
        return T("other", type(v).__name__, id(v))

    # --------------------------------------------------------------- numerics
    def num(self, v):
        """Integer-ish view of a value (term or int) or None."""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Ten):
            return self.read(v)
        if isinstance(v, T):
            return self.read(v)
        return None

    def is_scalar(self, v):
        return isinstance(v, (int, float)) or isinstance(v, T) or (isinstance(v, Ten) and v.scalar)

    def truth(self, v, node=None):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, PList):
            return len(v.items) > 0
        if isinstance(v, PSet):
            return len(v.items) > 0
        if isinstance(v, PDict):
            if v.pairs:
                return True
            if v.rest is not None:
                return self.ctx.decide(T("truth", self.freeze(v.rest)), node)
            return False
        if isinstance(v, Ten):
            c = self.read(v)
            if isinstance(c, T) and c.op in PRED:
                return self.ctx.decide(c, node)
            if v.scalar:
                return not self.ctx.decide(eq0(c), node) if not isinstance(c, float) else bool(c)
            return self.ctx.decide(T("truth", c), node)
        if isinstance(v, T):
            v = self.read(v)
            if not isinstance(v, T):
                return self.truth(v, node)
            if v.op == "sentinel":
                return True
            if v.op in PRED:
                return self.ctx.decide(v, node)
            if v.op == "poly" or v.op in ("len", "size", "mod", "max", "min", "floordiv", "dim"):
                return not self.ctx.decide(eq0(v), node)
            return self.ctx.decide(T("truth", v), node)
        if isinstance(v, ExtRef) and v.dotted.rsplit(".", 1)[-1].startswith("_global_"):
            if self.ctx.opts.get("hooks"):
                return self.ctx.decide(T("truth", T("ext", v.dotted)), node)
            return False
        if isinstance(v, Inst) and v.modules is not None and isinstance(v.cls, ClassInfo) and v.cls.isa("Sequential"):
            return len(v.modules.pairs) > 0
        if isinstance(v, Inst) and isinstance(v.cls, ClassInfo) and not v.opaque:
            _, m = v.cls.find("__bool__")
            if isinstance(m, Fn):
                return self.truth(self.call(BoundM(m, v), [], {}, node), node)
        return True

    # -------------------------------------------------------------- statements
    def exec_body(self, stmts, env):
        for st in stmts:
            self.ex(st, env)

    def ex(self, st, env):
        ctx = self.ctx
        ctx.steps += 1
        if ctx.steps > ctx.opts.get("max_steps", 60000):
            raise Bail("step bound")
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            self.unk("statement " + type(st).__name__, st)
            return
        m(st, env)

    def x_Expr(self, st, env):
        self.ev(st.value, env)

    def x_Pass(self, st, env):
        pass

    def x_Import(self, st, env):
        for a in st.names:
            top = a.name.split(".")[0]
            if a.name in self.prog.modules:
                self.load(a.name)
                if a.asname:
                    self.setvar(env, a.asname, ModRef(self.prog.modules[a.name]))
                else:
                    self.setvar(env, top, ModRef(self.prog.modules[top]))
            elif a.asname:
                self.setvar(env, a.asname, ExtRef(a.name))
            else:
                self.setvar(env, top, ExtRef(top))

    def x_ImportFrom(self, st, env):
        mod = st.module or ""
        if st.level:
            base = env.mod.name.split(".")
            if not env.mod.is_pkg:
                base = base[:-1]
            if st.level > 1:
                base = base[: -(st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        for a in st.names:
            if a.name == "*":
                if mod in self.prog.modules:
                    g = self.load(mod)
                    allv = g.get("__all__")
                    names = [x for x in allv.items] if isinstance(allv, PList) else [n for n in g if not n.startswith("_")]
                    for n in names:
                        if n in g:
                            self.setvar(env, n, g[n])
                continue
            self.setvar(env, a.asname or a.name, self.import_name(mod, a.name))

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env, st)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env, st)

    def x_AugAssign(self, st, env):
        t = st.target
        cur = self.ev(ast.copy_location(_load(t), t), env)
        rhs = self.ev(st.value, env)
        op = type(st.op).__name__
        if isinstance(cur, PList) and op == "Add":
            cur.items.extend(self.items(rhs, st))
            return
        if isinstance(cur, PDict) and op == "BitOr" and isinstance(rhs, PDict):
            for k, v in rhs.pairs:
                cur.set(k, v)
            return
        if isinstance(cur, Ten):
            # in-place arithmetic on a tensor storage
            scalar = cur.scalar or cur.cell.scalar
            new = self.binop_content(op, self.read(cur), self.freeze(rhs)) if scalar else tensor_binop(op, self.read(cur), self.freeze(rhs))
            self.mutate(cur, "aug" + op, [rhs], st, new=new)
            if isinstance(t, ast.Name):
                return
            if isinstance(t, ast.Attribute):
                self.assign(t, cur, env, st)
            return
        v = self.binop(op, cur, rhs, st)
        if isinstance(cur, T) and self.ctx.facts.kind.get(cur) == "Tensor":
            self.mutate(self.as_ten(cur), "aug" + op, [rhs], st, new=self.freeze(v))
            return
        self.assign(t, v, env, st)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                self.delattr_(o, t.attr, st)
            elif isinstance(t, ast.Name):
                self.lookup_env(env, t.id).vars.pop(t.id, None) if self.lookup_env(env, t.id) else None
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev(t.slice, env)
                if isinstance(o, PDict):
                    o.pairs = [p for p in o.pairs if p[0] != k]
                elif isinstance(o, PList) and isinstance(k, int):
                    del o.items[k]

    def x_Return(self, st, env):
        raise ReturnSig(self.ev(st.value, env) if st.value is not None else None)

    def x_If(self, st, env):
        if self.truth(self.ev(st.test, env), st.test):
            self.exec_body(st.body, env)
        else:
            self.exec_body(st.orelse, env)

    def x_Assert(self, st, env):
        if not self.truth(self.ev(st.test, env), st.test):
            raise PyRaise("AssertionError", st)

    def x_Raise(self, st, env):
        name, val = "Exception", None
        if st.exc is not None:
            v = self.ev(st.exc, env)
            if isinstance(v, Raised):
                name, val = v.name, v
            elif isinstance(v, Builtin):
                name = v.name
            elif isinstance(v, ClassInfo):
                name = v.name
            elif isinstance(v, Inst):
                name = getattr(v.cls, "name", "Exception")
        else:
            cur = env.vars.get("@exc")
            if cur is not None:
                raise cur
        raise PyRaise(name, st, val)

    def x_For(self, st, env):
        it = self.ev(st.iter, env)
        broke = False
        for item in self.iterate(it, st):
            self.assign(st.target, item, env, st)
            try:
                self.exec_body(st.body, env)
            except BreakSig:
                broke = True
                break
            except ContinueSig:
                continue
        if not broke:
            self.exec_body(st.orelse, env)

    def x_While(self, st, env):
        n = rounds = 0
        while True:
            guesses = len(self.ctx.trace)
            v = self.ev(st.test, env)
            self.ctx.closing = rounds >= self.ctx.opts.get("unroll", 3)  # a loop over an unknown count ends here, like a for loop
            try:
                more = self.truth(v, st.test)
            finally:
                self.ctx.closing = False
            if not more:
                self.exec_body(st.orelse, env)
                return
            rounds += 1
            if len(self.ctx.trace) > guesses:
                n += 1
            if n > self.ctx.opts.get("while_bound", 6):
                self.ctx.bounded = True
                raise Infeasible
            if rounds > 64:
                raise Bail("loop bound")
            try:
                self.exec_body(st.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue

    def x_Break(self, st, env):
        raise BreakSig()

    def x_Continue(self, st, env):
        raise ContinueSig()

    def x_Global(self, st, env):
        env.globals_ |= set(st.names)

    def x_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def x_With(self, st, env):
        self._with(st.items, st.body, env, st)

    def _with(self, items, body, env, st):
        if not items:
            self.exec_body(body, env)
            return
        item, rest = items[0], items[1:]
        cm = self.ev(item.context_expr, env)
        if isinstance(cm, CtxMgr):
            pending = []

            def at_yield(value):
                if item.optional_vars is not None:
                    self.assign(item.optional_vars, value, env, st)
                try:
                    self._with(rest, body, env, st)
                except (ReturnSig, BreakSig, ContinueSig) as s:
                    pending.append(s)

            self.call_fn(cm.fn, cm.args, cm.kwargs, st, at_yield=at_yield)
            if pending:
                raise pending[0]
            return
        if isinstance(cm, Inst) and isinstance(cm.cls, ClassInfo) and not cm.opaque:
            v = self.call(self.getattr_(cm, "__enter__", st), [], {}, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, env, st)
            ex = self.getattr_(cm, "__exit__", st)
            try:
                self._with(rest, body, env, st)
            except PyRaise as e:
                r = self.call(ex, [sym("exc_type"), sym("exc_val"), sym("exc_tb")], {}, st)
                if not self.truth(r, st):
                    raise e
                return
            except (ReturnSig, BreakSig, ContinueSig):
                self.call(ex, [None, None, None], {}, st)
                raise
            self.call(ex, [None, None, None], {}, st)
            return
        # external context manager: no effect on the analysed state
        if item.optional_vars is not None:
            self.assign(item.optional_vars, T("ctxvalue", self.freeze(cm)), env, st)
        self._with(rest, body, env, st)

    def x_Try(self, st, env):
        try:
            try:
                self.exec_body(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if self.exc_match(h, e, env):
                        if h.name:
                            env.vars[h.name] = Raised(e.name)
                        old = env.vars.get("@exc")
                        env.vars["@exc"] = e
                        try:
                            self.exec_body(h.body, env)
                        finally:
                            env.vars["@exc"] = old
                        break
                else:
                    raise
            else:
                self.exec_body(st.orelse, env)
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            self.exec_body(st.finalbody, env)
            raise
        else:
            self.exec_body(st.finalbody, env)

    def exc_match(self, h, e, env):
        if h.type is None:
            return True
        v = self.ev(h.type, env)
        names = []
        for x in v if isinstance(v, tuple) else (v,):
            names.append(getattr(x, "name", None) or getattr(x, "dotted", "?"))
        n = e.name
        while n:
            if n in names:
                return True
            n = EXC_PARENTS.get(n)
        return False

    def x_FunctionDef(self, st, env):
        fn = self.make_fn(st, env, env_cls(env))
        if fn is not None:
            self.setvar(env, st.name, fn)

    x_AsyncFunctionDef = x_FunctionDef

    def make_fn(self, st, env, cls):
        fn = Fn(st, env.mod, env, cls, st.name)
        if cls is not None:
            fn.env = env.parent
        a = st.args
        fn.defaults = [self.ev(d, env) for d in a.defaults]
        fn.kw_defaults = [self.ev(d, env) if d is not None else NODEFAULT for d in a.kw_defaults]
        val = fn
        for d in reversed(st.decorator_list):
            if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
                old = env.vars.get(d.value.id) if isinstance(d.value, ast.Name) else None
                if isinstance(old, Prop):
                    if d.attr == "setter":
                        return Prop(old.get, fn)
                    return old
                continue
            dv = self.ev(d, env)
            if isinstance(dv, Builtin) and dv.name == "property":
                val = Prop(val)
            elif isinstance(dv, Builtin) and dv.name == "staticmethod":
                val = Static(val)
            elif isinstance(dv, Builtin) and dv.name == "classmethod":
                val = ClsM(val)
            elif isinstance(dv, ExtRef) and dv.dotted.endswith("contextmanager"):
                fn.ctxmgr = True
            elif isinstance(dv, ExtRef) and dv.dotted == "typing.overload":
                return None
            elif isinstance(dv, ExtRef):
                pass
            elif isinstance(dv, (Fn, BoundM, Partial)):
                val = self.call(dv, [val], {}, d)
        return val

    def x_ClassDef(self, st, env):
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            v = self.ev(b, env)
            if isinstance(v, (ClassInfo, ExtClass)):
                bases.append(v)
            elif isinstance(v, ExtRef):
                bases.append(ExtClass(v.dotted.rsplit(".", 1)[-1]))
            elif isinstance(v, Builtin) and v.name != "object":
                bases.append(ExtClass(v.name))
        c = ClassInfo(st.name, env.mod, st, bases)
        cenv = Env(env.mod, env, None)
        cenv.cls = c
        for s in st.body:
            try:
                self.ex(s, cenv)
            except PyRaise as e:
                self.load_errors.append((env.mod.name, s.lineno, repr(e)))
        c.members = cenv.vars
        if c.is_enum:
            for k, v in list(c.members.items()):
                if not k.startswith("_") and not isinstance(v, (Fn, Prop, Static, ClsM)):
                    c.members[k] = EnumMember(c, k, v)
        self.class_infos.setdefault(c.name, c)
        val = c
        for d in reversed(st.decorator_list):
            self.ev(d, env)
        self.setvar(env, st.name, val)

    # ------------------------------------------------------------- assignment
    def setvar(self, env, name, v):
        if name in env.globals_:
            env.mod.globals[name] = v
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        env.vars[name] = v

    def lookup_env(self, env, name):
        e = env
        while e is not None:
            if name in e.vars:
                return e
            e = e.parent
        return None

    def assign(self, t, v, env, node):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env, node)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            self.setattr_(o, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            self.setitem(o, k, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, node)

    def unpack(self, elts, v, env, node):
        star = next((i for i, e in enumerate(elts) if isinstance(e, ast.Starred)), None)
        if isinstance(v, (tuple, PList, Lazy, PSet)):
            items = list(self.items(v, node))
            if star is None:
                if len(items) != len(elts):
                    raise PyRaise("ValueError", node)
                for e, i in zip(elts, items):
                    self.assign(e, i, env, node)
            else:
                tail = len(elts) - star - 1
                if len(items) < len(elts) - 1:
                    raise PyRaise("ValueError", node)
                for e, i in zip(elts[:star], items):
                    self.assign(e, i, env, node)
                self.assign(elts[star].value, PList(items[star: len(items) - tail]), env, node)
                for e, i in zip(elts[star + 1:], items[len(items) - tail:]):
                    self.assign(e, i, env, node)
            return
        if v is None:
            raise PyRaise("TypeError", node)
        for i, e in enumerate(elts):
            if isinstance(e, ast.Starred):
                self.assign(e.value, T("rest", self.freeze(v), i), env, node)
            else:
                self.assign(e, self.getitem(v, i, node), env, node)

    # ---------------------------------------------------------------- mutation
    def mutate(self, ten, how, args, node, new=None):
        ten = self.as_ten(ten)
        if ten is None:
            return
        cell = ten.cell
        before = cell.content
        cell.version += 1
        if new is None or ten.view:
            key = tuple(ten.view)
            cell.content = T("upd", before, how, key, *[self.freeze(a) for a in args])
        else:
            cell.content = new
        if cell.scalar and ten.view:
            cell.scalar = False
        self.event("mut", node, cell=cell, origin=cell.origin, how=how, args=tuple(args), before=before, view=tuple(ten.view))

    def setitem(self, o, k, v, node):
        if isinstance(o, PDict):
            if any(p[0] is k for p in o.pairs) or not isinstance(k, Ten):
                o.set(k if not isinstance(k, (PList,)) else self.freeze(k), v)
            else:
                o.pairs.append([k, v])
            self.event("dictset", node, obj=o, key=k, value=v)
            return
        if isinstance(o, PList):
            k2 = self.num(k)
            if is_num(k2):
                try:
                    o.items[k2] = v
                except IndexError:
                    raise PyRaise("IndexError", node)
                return
            for i in range(len(o.items)):
                if self.ctx.decide(eq0(p_sub(k2, i)), node):
                    o.items[i] = v
                    return
            raise PyRaise("IndexError", node)
        if isinstance(o, (Ten, T)):
            ten = self.as_ten(o)
            cell = ten.cell
            before = cell.content
            key = self.freeze(norm_key(k))
            first = key[0] if isinstance(key, tuple) and key else key
            self.check_index(ten, 0, first, node)
            cell.version += 1
            cell.content = T("set", before, tuple(ten.view), key, self.freeze(v))
            self.event("mut", node, cell=cell, origin=cell.origin, how="setitem", args=(k, v), before=before, view=tuple(ten.view), key=key, value=self.freeze(v))
            return
        if isinstance(o, Inst):
            if not o.opaque and isinstance(o.cls, ClassInfo):
                _, m = o.cls.find("__setitem__")
                if isinstance(m, Fn):
                    self.call(BoundM(m, o), [k, v], {}, node)
                    return
        if o is None:
            raise PyRaise("TypeError", node)
        self.event("setitem", node, obj=o, key=k, value=v)

    def setattr_(self, o, name, v, node):
        if isinstance(o, Inst):
            if isinstance(o.cls, ClassInfo) and not o.opaque:
                _, m = o.cls.find(name)
                if isinstance(m, Prop):
                    if m.set_ is None:
                        raise PyRaise("AttributeError", node)
                    self.call(BoundM(m.set_, o), [v], {}, node)
                    return
            old = o.attrs.get(name, MISSING)
            o.attrs[name] = v
            if o.modules is not None and isinstance(v, T) and v.op == "app" and isinstance(v.args[0], T) and v.args[0].op == "ext" and v.args[0].args[0].endswith(".Parameter"):
                o.params.add(name)
                o.buffers.pop(name, None)
            if o.modules is not None and (isinstance(v, Opq) and v.kind in ("comodule", "torchmodule") or isinstance(v, Inst) and v.modules is not None):
                o.modules.set(name, v)
            self.event("setattr", node, obj=o, attr=name, old=old, value=v)
        elif isinstance(o, Opq):
            old = o.attrs.get(name, MISSING)
            o.attrs[name] = v
            self.event("setattr", node, obj=o, attr=name, old=old, value=v)
        elif isinstance(o, Fn):
            o.attrs[name] = v
        elif isinstance(o, (T, Ten)):
            self.ctx.objs[(self.freeze(o), name)] = v
            self.event("setattr", node, obj=o, attr=name, old=MISSING, value=v)
        elif isinstance(o, ModRef):
            o.info.globals[name] = v
        elif isinstance(o, ClassInfo):
            self.event("setclassattr", node, obj=o, attr=name, value=v)
        elif o is None:
            raise PyRaise("AttributeError", node)

    def delattr_(self, o, name, node):
        if isinstance(o, (Inst, Opq)):
            if name not in o.attrs:
                raise PyRaise("AttributeError", node)
            old = o.attrs.pop(name)
            if isinstance(o, Inst):
                o.buffers.pop(name, None)
                o.params.discard(name)
            self.event("delattr", node, obj=o, attr=name, old=old)

    # -------------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("expression " + type(e).__name__, e)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        n = e.id
        en = env
        while en is not None:
            if n in en.vars and not (n in env.globals_):
                v = en.vars[n]
                return self.resolve_lazy(v, en, n)
            if en.fn is not None and n not in en.globals_ and n not in en.nonlocals and n in fn_locals(en.fn):
                raise PyRaise("UnboundLocalError", e)
            en = en.parent
            # class scopes are not visible from functions
            while en is not None and getattr(en, "cls", None) is not None:
                en = en.parent
        g = env.mod.globals
        if n in g:
            return self.resolve_lazy(g[n], g, n)
        if n in BUILTINS:
            return Builtin(n)
        if n in ("__name__", "__file__", "__doc__"):
            return n
        raise PyRaise("NameError", e)

    def resolve_lazy(self, v, holder, n):
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "lazy":
            g = self.load(v[1])
            if v[2] in g:
                r = self.resolve_lazy(g[v[2]], g, v[2])
                if isinstance(holder, Env):
                    holder.vars[n] = r
                else:
                    holder[n] = r
                return r
            return self.unk("unresolved import " + v[2])
        return v

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                its = self.star_items(v, x)
                out.extend(its)
            else:
                out.append(self.ev(x, env))
        return tuple(out)

    def star_items(self, v, node):
        if isinstance(v, T) and not self.known_iter(v):
            return [Star(v)]
        return list(self.items(v, node))

    def known_iter(self, v):
        return isinstance(v, (tuple, PList, PSet, PDict, Lazy, str))

    def e_List(self, e, env):
        return PList(self.e_Tuple(e, env))

    def e_Set(self, e, env):
        return PSet(self.ev(x, env) for x in e.elts)

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                vv = self.ev(v, env)
                self.dict_update(d, vv, e)
            else:
                kk = self.ev(k, env)
                if isinstance(kk, Ten) or (isinstance(kk, tuple) and any(isinstance(x, Ten) for x in kk)):
                    d.pairs.append([kk, self.ev(v, env)])
                else:
                    d.set(kk, self.ev(v, env))
        return d

    def dict_update(self, d, vv, node):
        if isinstance(vv, PDict):
            for a, b in vv.pairs:
                d.set(a, b)
            if vv.rest is not None:
                d.rest = vv.rest
        elif isinstance(vv, T):
            d.rest = vv
        elif isinstance(vv, PList):
            for x in vv.items:
                a, b = self.items(x, node)
                d.set(a, b)
        else:
            d.rest = self.unk("dict update", node)

    def e_Attribute(self, e, env):
        return self.getattr_(self.ev(e.value, env), e.attr, e)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev(e.slice, env), e)

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return Slice(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, env):
        return self.ev(e.value, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v, x)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        op = type(e.op).__name__
        if op == "Not":
            if isinstance(v, T) and v.op in PRED:
                q = self.ctx.facts.query(v)
                return (not q) if q is not None else neg(v)
            return not self.truth(v, e)
        if op == "USub":
            n = v if isinstance(v, float) else (self.num(v) if self.is_scalar(v) else None)
            if isinstance(n, float):
                return -n
            if n is not None:
                return p_neg(n)
            if isinstance(v, Ten):
                return self.fresh_ten(T("neg", self.read(v)))
            return self.unk("neg", e)
        if op == "UAdd":
            return v
        return self.unk("unary " + op, e)

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop_content(self, op, a, b):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        numlike = lambda x: is_num(x) or isinstance(x, T)
        if numlike(a) and numlike(b):
            if op == "Add":
                return p_add(a, b)
            if op == "Sub":
                return p_sub(a, b)
            if op == "Mult":
                return p_mul(a, b)
            if op == "Mod":
                return p_mod(a, b)
            if op == "FloorDiv":
                return p_floordiv(a, b)
            if op == "Pow" and is_num(b) and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = p_mul(r, a)
                return r
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "Pow": lambda: a ** b, "Mod": lambda: a % b, "FloorDiv": lambda: a // b}[op]()
            except Exception:
                pass
        if op in ("BitAnd", "BitOr") and isinstance(a, T) and isinstance(b, T):
            return T("pand" if op == "BitAnd" else "por", a, b)
        return T(op.lower(), a, b)

    def binop(self, op, a, b, node):
        if isinstance(a, (str,)) and isinstance(b, str) and op == "Add":
            return a + b
        if isinstance(a, str) and op == "Mod":
            return T("strfmt", a)
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "Add":
            return a + b
        if isinstance(a, tuple) and isinstance(b, PList) or isinstance(a, PList) and isinstance(b, tuple):
            if op == "Add":
                raise PyRaise("TypeError", node)
        if isinstance(a, PList) and op == "Add":
            if isinstance(b, PList):
                return PList(a.items + b.items)
            if isinstance(b, T):
                return T("concat", self.freeze(a), self.freeze(b))
        if isinstance(b, PList) and op == "Add" and isinstance(a, T):
            return T("concat", self.freeze(a), self.freeze(b))
        if isinstance(a, tuple) and op == "Add" and isinstance(b, T) or isinstance(b, tuple) and op == "Add" and isinstance(a, T):
            return T("concat", self.freeze(a), self.freeze(b))
        if isinstance(a, (PList, tuple)) and op == "Mult" or isinstance(b, (PList, tuple)) and op == "Mult":
            seq, n = (a, b) if isinstance(a, (PList, tuple)) else (b, a)
            n = self.num(n)
            items = list(seq) if isinstance(seq, tuple) else seq.items
            if is_num(n):
                return tuple(items * n) if isinstance(seq, tuple) else PList(items * n)
            if len(items) == 1:
                return T("rep", self.freeze(items[0]), n)
            return self.unk("sequence repeat", node)
        if isinstance(a, PSet) and isinstance(b, PSet):
            if op == "BitOr":
                return PSet(a.items + b.items)
            if op == "Sub":
                return PSet([x for x in a.items if x not in b.items])
        if isinstance(a, PDict) and isinstance(b, PDict) and op == "BitOr":
            d = PDict(a.pairs)
            self.dict_update(d, b, node)
            return d
        for x in (a, b):
            if x is None:
                raise PyRaise("TypeError", node)
        if (isinstance(a, Ten) and not a.scalar) or (isinstance(b, Ten) and not b.scalar):
            return self.fresh_ten(tensor_binop(op, self.freeze(a), self.freeze(b)))
        if any(isinstance(x, T) and (SHAPES.get(x) or module_output(x)) for x in (a, b)):
            return self.fresh_ten(tensor_binop(op, self.freeze(a), self.freeze(b)))
        return self.binop_content(op, self.freeze(a), self.freeze(b))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env)
            res = self.compare(type(op).__name__, left, right, e)
            if i < len(e.ops) - 1:
                if not self.truth(res, e):
                    return False
            left = right
        return res

    def compare(self, op, a, b, node):
        if op in ("Is", "IsNot"):
            r = self.is_(a, b)
            return r if op == "Is" else neg(r)
        if op in ("Eq", "NotEq"):
            r = self.equal(a, b, node)
            return r if op == "Eq" else neg(r)
        if op in ("In", "NotIn"):
            r = self.contains(a, b, node)
            return r if op == "In" else neg(r)
        if isinstance(a, PSet) or isinstance(b, PSet):
            return T("setcmp", op, self.freeze(a), self.freeze(b))
        x, y = self.freeze(a), self.freeze(b)
        if isinstance(x, bool):
            x = int(x)
        if isinstance(y, bool):
            y = int(y)
        if isinstance(x, float) or isinstance(y, float):
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
            return T("truth", T("cmp" + op, x, y))
        if a is None or b is None:
            raise PyRaise("TypeError", node)
        if not ((is_num(x) or isinstance(x, T)) and (is_num(y) or isinstance(y, T))):
            if isinstance(x, tuple) and isinstance(y, tuple):
                return T("truth", T("cmp" + op, x, y))
            return self.unk("comparison", node)
        if op == "Lt":
            r = ge0(p_sub(p_sub(y, x), 1))
        elif op == "LtE":
            r = ge0(p_sub(y, x))
        elif op == "Gt":
            r = ge0(p_sub(p_sub(x, y), 1))
        else:
            r = ge0(p_sub(x, y))
        return r

    def is_(self, a, b):
        if any(isinstance(x, T) and x.op == "sentinel" for x in (a, b)):
            return a is b
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, T):
                c = self.ctx.cells.get(x)
                if x.op in PRED or x.op in ("poly", "len", "size", "mod", "max", "list", "call", "ext", "fn"):
                    return False
                if x.op == "sym" and x in POSITIVE:
                    return False
                return T("kind", x, "None")
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            t, c = (a, b) if isinstance(b, bool) else (b, a)
            if isinstance(t, T):
                return T("eqc", t, c)
            return False
        if isinstance(a, Ten) and isinstance(b, Ten):
            return a is b or (a.cell is b.cell and a.view == b.view)
        if isinstance(a, Type_) or isinstance(b, Type_):
            x, y = (a, b) if isinstance(a, Type_) else (b, a)
            if not (isinstance(y, T) and y.op == "typeof"):
                return kindlabel(a) == kindlabel(b)
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return True
            return T("is", a, b)
        if isinstance(a, T) or isinstance(b, T):
            t, o = (a, b) if isinstance(a, T) else (b, a)
            if t.op == "typeof" and isinstance(o, (ClassInfo, ExtClass, ExtRef, Builtin)):
                return T("kind", t.args[0], kindlabel(o))
            if isinstance(o, (EnumMember, ClassInfo, ExtRef, Builtin, str)):
                return T("eqc", t, self.freeze(o))
            return T("is", self.freeze(a), self.freeze(b))
        if isinstance(a, ExtRef) and isinstance(b, ExtRef) or isinstance(a, Builtin) and isinstance(b, Builtin):
            return repr(a) == repr(b)
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b and type(a) is type(b)
        return a is b

    def equal(self, a, b, node):
        if any(isinstance(x, T) and x.op == "sentinel" for x in (a, b)):
            return a is b
        if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)) and isinstance(a, tuple) == isinstance(b, tuple):
            xa = list(a) if isinstance(a, tuple) else a.items
            xb = list(b) if isinstance(b, tuple) else b.items
            if any(isinstance(z, Star) for z in xa + xb):
                return T("truth", T("eq", self.freeze(a), self.freeze(b)))
            if len(xa) != len(xb):
                return False
            for p, q in zip(xa, xb):
                if not self.truth(self.equal(p, q, node), node):
                    return False
            return True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == "typeof":
                lab = kindlabel(y)
                if lab:
                    return T("kind", x.args[0], lab)
        if isinstance(a, Type_) or isinstance(b, Type_):
            return kindlabel(a) == kindlabel(b)
        simple = (str, EnumMember, ClassInfo, ExtClass, ExtRef, Builtin, Fn)
        if isinstance(a, simple) and isinstance(b, simple):
            if isinstance(a, EnumMember) or isinstance(b, EnumMember):
                return a is b
            if isinstance(a, (ClassInfo, ExtClass, ExtRef, Builtin)) and isinstance(b, (ClassInfo, ExtClass, ExtRef, Builtin)):
                return kindlabel(a) == kindlabel(b)
            return a == b
        if a is None or b is None:
            return self.is_(a, b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        fa, fb = self.freeze(a), self.freeze(b)
        if type(fa) is type(fb) and fa == fb:
            return True
        if isinstance(fa, T) and fa.op in ("list", "dict", "set") or isinstance(fb, T) and fb.op in ("list", "dict", "set"):
            if isinstance(fa, T) and isinstance(fb, T) and fa.op == fb.op == "list":
                if len(fa.args) != len(fb.args):
                    return False
            return T("truth", T("eq", *sorted((fa, fb), key=show)))
        consty = (str, bool)
        for x, y in ((fa, b), (fb, a)):
            if isinstance(x, T) and isinstance(y, consty + (EnumMember, ClassInfo, ExtRef, ExtClass, Builtin, Fn)):
                if x.op in ("poly", "len", "size", "mod", "max") and not isinstance(y, bool):
                    return False
                if isinstance(y, bool) and x.op in PRED:
                    return x if y else neg(x)
                return T("eqc", x, self.freeze(y))
        for x, y in ((fa, fb), (fb, fa)):
            if isinstance(x, (tuple, str, float)) and isinstance(y, (int, str, float, tuple)) and not isinstance(y, T):
                return x == y
            if isinstance(x, (tuple,)) and isinstance(y, T):
                # compare a symbolic sequence with a literal one
                return T("truth", T("eq", y, x))
            if isinstance(x, float) and isinstance(y, T):
                return T("truth", T("eq", y, T("const", x)))
            if isinstance(x, str):
                return False
        if isinstance(fa, bool):
            fa = int(fa)
        if isinstance(fb, bool):
            fb = int(fb)
        if (is_num(fa) or isinstance(fa, T)) and (is_num(fb) or isinstance(fb, T)):
            if (isinstance(a, Ten) and not a.scalar and a.cell.scalar is False and isinstance(b, Ten)):
                return T("truth", T("eq", *sorted((fa, fb), key=show)))
            return eq0(p_sub(fa, fb))
        return T("truth", T("eq", *sorted((fa, fb), key=show)))

    def contains(self, x, c, node):
        if isinstance(c, (PSet, PList, tuple)):
            items = c.items if not isinstance(c, tuple) else list(c)
            for it in items:
                if self.truth(self.equal(x, it, node), node):
                    return True
            return False
        if isinstance(c, PDict):
            for k, _ in c.pairs:
                if self.truth(self.equal(x, k, node), node):
                    return True
            if c.rest is not None:
                return T("in", self.freeze(x), self.freeze(c.rest))
            return False
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, Inst) and isinstance(c.cls, ClassInfo) and not c.opaque:
            _, m = c.cls.find("__contains__")
            if isinstance(m, Fn):
                return self.call(BoundM(m, c), [x], {}, node)
        return T("in", self.freeze(x), self.freeze(c))

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env), e.test) else e.orelse, env)

    def e_Lambda(self, e, env):
        fn = Fn(e, env.mod, env, None, "<lambda>")
        if getattr(env, "cls", None) is not None:
            fn.env = env.parent
        fn.defaults = [self.ev(d, env) for d in e.args.defaults]
        fn.kw_defaults = [self.ev(d, env) if d is not None else NODEFAULT for d in e.args.kw_defaults]
        return fn

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.ev(v.value, env)
                except PyRaise:
                    return T("fstr", e.lineno)
                if isinstance(x, (str, int)) and not isinstance(x, bool) and v.format_spec is None:
                    parts.append(str(x))
                else:
                    parts.append(self.freeze(x))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return T("fstr", *out)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env, e)
        return v

    def e_Starred(self, e, env):
        return Star(self.ev(e.value, env))

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        en = env
        while en is not None and not hasattr(en, "at_yield"):
            en = en.parent
        if en is None:
            return self.unk("yield", e)
        en.at_yield(v)
        return None

    def e_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        en = env
        while en is not None and not hasattr(en, "at_yield"):
            en = en.parent
        if en is None:
            return self.unk("yield from", e)
        for x in self.items(v, e):
            en.at_yield(x)
        return None

    def comp_items(self, e, env, emit):
        def go(gens, en):
            if not gens:
                emit(en)
                return
            g = gens[0]
            it = self.ev(g.iter, en)
            for item in self.iterate(it, g.iter):
                sub = Env(en.mod, en, None)
                self.assign(g.target, item, sub, e)
                if all(self.truth(self.ev(c, sub), c) for c in g.ifs):
                    go(gens[1:], sub)

        go(e.generators, env)

    def _simple_rep(self, e, env):
        """[elt for _ in range(n)] with elt independent of the loop variable."""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        tg = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        used = {n.id for n in ast.walk(e.elt) if isinstance(n, ast.Name)}
        if tg & used:
            return None
        if not (isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "range"):
            return None
        it = self.ev(g.iter, env)
        if isinstance(it, T) and it.op == "range":
            n = p_sub(it.args[1], it.args[0])
            if is_num(n) or it.args[2] != 1:
                return None
            return T("rep", self.freeze(self.ev(e.elt, env)), n)
        return None

    def e_ListComp(self, e, env):
        r = self._simple_rep(e, env)
        if r is not None:
            return r
        out = []
        self.comp_items(e, env, lambda en: out.append(self.ev(e.elt, en)))
        return PList(out)

    def e_GeneratorExp(self, e, env):
        r = self._simple_rep(e, env)
        if r is not None:
            return r

        def gen():
            # lazily, so that any()/all()/next() short-circuit
            def go(gens, en):
                if not gens:
                    yield self.ev(e.elt, en)
                    return
                g = gens[0]
                it = self.ev(g.iter, en)
                for item in self.iterate(it, g.iter):
                    sub = Env(en.mod, en, None)
                    self.assign(g.target, item, sub, e)
                    if all(self.truth(self.ev(c, sub), c) for c in g.ifs):
                        yield from go(gens[1:], sub)

            yield from go(e.generators, env)

        return Lazy(gen())

    def e_SetComp(self, e, env):
        out = []
        self.comp_items(e, env, lambda en: out.append(self.ev(e.elt, en)))
        return PSet(out)

    def e_DictComp(self, e, env):
        d = PDict()
        self.comp_items(e, env, lambda en: d.set(self.ev(e.key, en), self.ev(e.value, en)))
        return d

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.star_items(self.ev(a.value, env), a))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, PDict):
                    for kk, vv in v.pairs:
                        kwargs[kk if isinstance(kk, str) else show(kk)] = vv
                    if v.rest is not None:
                        kwargs["**"] = v.rest
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if isinstance(f, Builtin) and f.name == "super":
            return self.make_super(args, env)
        return self.call(f, args, kwargs, e)

    def make_super(self, args, env):
        if args:
            return Super(args[0], args[1])
        en = env
        while en is not None and en.fn is None:
            en = en.parent
        fn = en.fn
        first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
        return Super(fn.cls, en.vars[first])

    # --------------------------------------------------------------- iteration
    def items(self, v, node):
        return list(self.iterate(v, node))

    def iterate_list(self, v):
        return list(self.iterate(v, None))

    def iterate(self, v, node):
        if isinstance(v, tuple):
            yield from v
        elif isinstance(v, PList):
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
        elif isinstance(v, PSet):
            yield from list(v.items)
        elif isinstance(v, PDict):
            yield from [p[0] for p in v.pairs]
        elif isinstance(v, Lazy):
            yield from v.gen
        elif isinstance(v, str):
            yield from v
        elif isinstance(v, Inst) and v.modules is not None and isinstance(v.cls, ClassInfo) and not isinstance(v.cls.find("__iter__")[1], Fn) and not v.opaque:
            for p in list(v.modules.pairs):
                yield p[1]
        elif isinstance(v, Inst) and isinstance(v.cls, ClassInfo) and not v.opaque:
            _, m = v.cls.find("__iter__")
            if not isinstance(m, Fn):
                raise PyRaise("TypeError", node)
            yield from self.iterate(self.call(BoundM(m, v), [], {}, node), node)
        elif isinstance(v, ClassInfo) and v.is_enum:
            for m in v.members.values():
                if isinstance(m, EnumMember):
                    yield m
        elif isinstance(v, T) and v.op == "range":
            a, b, s = v.args
            if s == 1:
                yield from self._counted(p_sub(b, a), lambda k: p_add(a, k), node)
            elif s == -1:
                yield from self._counted(p_sub(a, b), lambda k: p_sub(a, k), node)
            else:
                n = T("rangelen", a, b, s)
                yield from self._counted(n, lambda k: p_add(a, p_mul(s, k)), node)
        elif isinstance(v, T) and v.op == "rep":
            el, n = v.args

            def mk(k):
                return self.fresh_ten(el) if isinstance(el, T) else el

            yield from self._counted(n, mk, node)
        elif isinstance(v, T) and v.op == "unbind":
            base, dim = v.args
            yield from self._counted(size_term(base, dim), lambda k: self.getitem_sel(v, k), node)
        elif isinstance(v, T) and v.op == "splitlist":
            base, dim = v.args
            yield from self._counted(size_term(base, dim), lambda k: T("narrow1", base, dim, k), node)
        elif isinstance(v, T) and v.op == "list":
            yield from v.args
        elif isinstance(v, Ten):
            yield from self._counted(self.len_of(v), lambda k: self.getitem(v, k, node), node)
        elif v is None or isinstance(v, (int, float, bool)):
            raise PyRaise("TypeError", node)
        elif isinstance(v, T):
            yield from self._counted(self.len_of(v), lambda k: self.getitem(v, k, node), node)
        else:
            self.unk("iteration over " + type(v).__name__, node)

    def getitem_sel(self, v, k):
        base, dim = v.args
        return self.ctx.objs.get(("unbindsrc", v), None) and self.sel(self.ctx.objs[("unbindsrc", v)], dim, k) or T("sel", base, dim, k)

    def sel(self, ten, dim, k, node=None):
        t = self.as_ten(ten)
        k = self.freeze(k)
        self.check_index(t, dim, k, node)
        return Ten(t.cell, t.view + (T("vsel", dim, k),))

    def check_index(self, t, dim, k, node):
        """A concrete index outside a dimension of known size raises."""
        if is_num(k) and isinstance(k, int) and not isinstance(k, bool) and is_num(dim):
            n = size_term(self.read(t), dim)
            if is_num(n) and not -n <= k < n:
                raise PyRaise("IndexError", node)

    def _counted(self, n, mk, node):
        ctx = self.ctx
        bound = ctx.opts.get("unroll", 3)
        k = 0
        while True:
            more = ge0(p_sub(p_sub(n, 1), k))
            if k >= bound and not isinstance(more, bool):
                q = ctx.facts.query(more)
                if q is None:
                    ctx.facts.assume(more, False)
                    ctx.conds.append((more, False))
                    ctx.bounded = True
                    return
                if q is True:
                    ctx.truncated = True
                    self.event("truncated", node, n=n)
                    return
                return
            if k > 64:
                raise Bail("loop bound")
            if not ctx.decide(more, node):
                return
            yield mk(k)
            k += 1

    # ----------------------------------------------------------------- len etc
    def len_of(self, v):
        if isinstance(v, (tuple, str)):
            if isinstance(v, tuple) and any(isinstance(x, Star) for x in v):
                n = 0
                for x in v:
                    n = p_add(n, T("len", self.freeze(x.v))) if isinstance(x, Star) else p_add(n, 1)
                return n
            return len(v)
        if isinstance(v, (PList, PSet)):
            return len(v.items) if not isinstance(v, PSet) else self.set_len(v)
        if isinstance(v, PDict):
            return len(v.pairs) if v.rest is None else p_add(len(v.pairs), T("len", self.freeze(v.rest)))
        if isinstance(v, Inst) and v.modules is not None:
            return len(v.modules.pairs)
        if isinstance(v, (Ten, T)):
            return length_term(self.read(v))
        return T("len", self.freeze(v))

    def set_len(self, s):
        if all(not isinstance(self.freeze(x), T) for x in s.items):
            return len(s.items)
        if len(s.items) <= 1:
            return len(s.items)
        # symbolic elements: decide pairwise equality
        distinct = []
        for x in s.items:
            if any(self.truth(self.equal(x, y, None)) for y in distinct):
                continue
            distinct.append(x)
        return len(distinct)

    # ------------------------------------------------------------------ getattr
    def getattr_(self, o, name, node, default=None, has_default=False):
        r = self.getattr0(o, name, node)
        if r is MISSING:
            if has_default:
                return default
            raise PyRaise("AttributeError", node)
        return r

    def bind(self, m, o, owner=None):
        if isinstance(m, Fn):
            return BoundM(m, o)
        if isinstance(m, Static):
            return m.fn
        if isinstance(m, ClsM):
            return BoundM(m.fn, o.cls if isinstance(o, Inst) else o)
        if isinstance(m, Prop):
            return self.call(BoundM(m.get, o), [], {}, None)
        return m

    def getattr0(self, o, name, node):
        ctx = self.ctx
        if name == "__class__" and not isinstance(o, (Super, ModRef, ExtRef)):
            from .torchmodel import type_of

            return type_of(self, o)
        if isinstance(o, Inst):
            if name == "_modules" and o.modules is not None:
                return o.modules
            if name == "__dict__":
                return PDict([[k, v] for k, v in o.attrs.items()])
            if o.opaque:
                if name in o.attrs:
                    return o.attrs[name]
                if isinstance(o.cls, ClassInfo):
                    own, m = o.cls.find(name)
                    if isinstance(m, Fn):
                        return BoundOpq(o, name)
                return T("attr", self.freeze(o), name)
            cls = o.cls
            own, m = cls.find(name) if isinstance(cls, (ClassInfo,)) else (None, None)
            if isinstance(m, Prop):
                return self.bind(m, o)
            if name in o.attrs:
                v = o.attrs[name]
                self.event("read", node, obj=o, attr=name)
                return v
            if o.modules is not None and o.modules.find(name):
                return o.modules.find(name)[1]
            if m is not None:
                if isinstance(own, ExtClass):
                    if isinstance(m, ast.FunctionDef):
                        if any(isinstance(d, ast.Name) and d.id == "property" for d in m.decorator_list):
                            return T("attr", self.freeze(o), name)
                        return ExtMethod(own, name, o)
                    if name in ("__call__",):
                        return ExtMethod(own, name, o)
                    return self.ext_class_attr(own, name, o)
                return self.bind(m, o)
            if isinstance(cls, ExtClass):
                own, m = cls.find(name)
                if isinstance(m, ast.FunctionDef):
                    return ExtMethod(own, name, o)
                if m is None and not name.startswith("__") and all(c.node is not None for c in cls.mro) and name not in self.ext_assigned(cls):
                    return MISSING
                return T("attr", self.freeze(o), name)
            if name in self.repo_assigned(cls):
                ext = any(isinstance(c, ExtClass) for c in cls.mro)
                if name not in self.ext_assigned(cls):
                    self.event("readmissing", node, obj=o, attr=name)
                    return MISSING
            if any(isinstance(c, ExtClass) and c.node is not None for c in cls.mro) and name in self.ext_assigned(cls):
                v = T("attr", self.freeze(o), name)
                self.event("read", node, obj=o, attr=name)
                return v
            return MISSING
        if isinstance(o, Opq):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Absent):
                    return MISSING
                return v
            if name in OPQ_METHODS or o.kind == "object":
                return BoundOpq(o, name)
            if o.kind == "torchmodule" and name in ("forward", "state_dict"):
                return BoundOpq(o, name)
            return T("attr", sym(o.name), name)
        if isinstance(o, ModRef):
            g = self.load(o.info.name)
            if name in g:
                return self.resolve_lazy(g[name], g, name)
            sub = o.info.name + "." + name
            if sub in self.prog.modules:
                self.load(sub)
                return ModRef(self.prog.modules[sub])
            return MISSING
        if isinstance(o, ExtRef):
            return self.extname(o.dotted + "." + name)
        if isinstance(o, ClassInfo):
            if name == "__name__":
                return o.name
            if name == "__mro__":
                return tuple(o.mro)
            own, m = o.find(name)
            if m is None:
                return MISSING
            if isinstance(own, ExtClass):
                return ExtMethod(own, name, None)
            if isinstance(m, Static):
                return m.fn
            if isinstance(m, ClsM):
                return BoundM(m.fn, o)
            return m
        if isinstance(o, ExtClass):
            if name == "__name__":
                return o.name
            own, m = o.find(name)
            if o.node is None and o.name not in ("Enum",):
                return ExtRef(o.name + "." + name)
            if m is None:
                return MISSING
            return ExtMethod(own, name, None)
        if isinstance(o, EnumMember):
            if name == "value":
                return o.value
            if name == "name":
                return o.name
            m = o.cls.members.get(name)
            return m if m is not None else MISSING
        if isinstance(o, Super):
            inst = o.self_
            if isinstance(inst, Inst) and isinstance(inst.cls, ClassInfo):
                own, m = inst.cls.find_after(o.cls, name)
                if m is None:
                    if name == "__init__":
                        return ExtMethod(ExtClass("object"), "__init__", inst)
                    return MISSING
                if isinstance(own, ExtClass):
                    return ExtMethod(own, name, inst)
                return self.bind(m, inst)
            if isinstance(inst, ClassInfo):
                own, m = inst.find_after(o.cls, name)
                if isinstance(m, (ClsM, Static)):
                    return self.bind(m, inst)
                return m if m is not None else MISSING
            return self.unk("super", node)
        if isinstance(o, Partial):
            if name == "func":
                return o.fn
            if name == "args":
                return tuple(o.args)
            if name == "keywords":
                return PDict([[k, v] for k, v in o.kwargs.items()])
            return MISSING
        if isinstance(o, (Fn, BoundM)):
            f = o if isinstance(o, Fn) else o.fn
            if name in ("__name__", "__qualname__"):
                return getattr(f, "name", "fn")
            if name in f.attrs:
                return f.attrs[name]
            if name == "__wrapped__" or name.startswith("__"):
                return T("attr", self.freeze(o), name)
            return MISSING
        if isinstance(o, (Ten, T)):
            if isinstance(o, T) and (self.freeze(o), name) in ctx.objs:
                return ctx.objs[(self.freeze(o), name)]
            if isinstance(o, T) and o.op == "enumof":
                cls = self.class_infos.get(o.args[0])
                if name == "value":
                    return T("enumval", *o.args)
                if cls and name in cls.members:
                    return cls.members[name]
            if name == "shape":
                sh = shape_of(self.read(o))
                if sh is not None:
                    return sh
                return T("shape", self.read(o))
            if name == "ndim":
                return dim_term(self.read(o))
            if name in ("device", "dtype", "grad_fn", "is_cuda", "requires_grad", "layout"):
                return T("attr", self.read(o), name)
            if isinstance(o, Ten):
                if name in ("data",):
                    return Ten(o.cell, o.view + (T("v", "data"),))
                if name in ("T", "mT"):
                    return Ten(o.cell, o.view + (T("v", "T"),))
                return BoundV(o, name)
            if name in METHODISH or name.endswith("_") and not name.startswith("_"):
                return BoundV(o, name)
            if name == "data":
                return self.as_ten(o)
            t = T("attr", self.freeze(o), name)
            self.event("readT", node, base=self.freeze(o), attr=name)
            return t
        if isinstance(o, (PList, PDict, PSet, tuple, str, int, float, Lazy)) or o is None and False:
            return BoundV(o, name)
        if isinstance(o, Slice):
            return {"start": o.a, "stop": o.b, "step": o.c}.get(name, MISSING)
        if o is None:
            return MISSING
        if isinstance(o, ExtMethod):
            return T("attr", self.freeze(o), name)
        if isinstance(o, Raised):
            return T("attr", sym("exc"), name)
        if isinstance(o, (BoundOpq, BoundV, Builtin)):
            return T("attr", self.freeze(o), name)
        return self.unk(f"attribute {name} of {type(o).__name__}", node)

    def ext_class_attr(self, own, name, o):
        m = own.methods.get(name)
        if isinstance(m, (ast.Assign, ast.AnnAssign)) and isinstance(m.value, ast.Constant):
            return m.value.value
        return T("attr", self.freeze(o), name)

    def repo_assigned(self, cls):
        """attribute names assigned on self in repository methods of the MRO."""
        if not hasattr(cls, "_assigned"):
            out = set()
            for c in cls.mro:
                if isinstance(c, ClassInfo):
                    for n in ast.walk(c.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == "self":
                            out.add(n.attr)
            cls._assigned = out
        return cls._assigned

    def ext_assigned_of(self, cls):
        return self.ext_assigned(cls)

    def ext_assigned(self, cls):
        if not hasattr(cls, "_extassigned"):
            out = set()
            for c in cls.mro:
                if isinstance(c, ExtClass) and c.node is not None:
                    for n in ast.walk(c.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self" and isinstance(n.ctx, ast.Store):
                            out.add(n.attr)
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                            out.add(n.target.id)
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("register_parameter", "register_buffer") and n.args and isinstance(n.args[0], ast.Constant):
                            out.add(n.args[0].value)
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__setattr__" and n.args and isinstance(n.args[0], ast.Constant):
                            out.add(n.args[0].value)
            cls._extassigned = out
        return cls._extassigned

    # ------------------------------------------------------------------ getitem
    def getitem(self, o, k, node):
        if isinstance(o, (tuple, PList)):
            items = list(o) if isinstance(o, tuple) else o.items
            if isinstance(k, Slice):
                a, b, c = (self.num(x) if x is not None else None for x in (k.a, k.b, k.c))
                if all(x is None or is_num(x) for x in (a, b, c)) and not any(isinstance(x, Star) for x in items):
                    r = items[a:b:c]
                    return tuple(r) if isinstance(o, tuple) else PList(r)
                if isinstance(items, list) and any(isinstance(x, Star) for x in items) and b is None and c is None and is_num(a) and a >= 0 and not any(isinstance(x, Star) for x in items[:a]):
                    r = items[a:]
                    return tuple(r) if isinstance(o, tuple) else PList(r)
                fo = self.freeze(tuple(items))
                return T("getslice", fo, *(self.freeze(x) for x in (k.a, k.b, k.c)))
            n = self.num(k)
            if is_num(n):
                try:
                    v = items[n]
                except IndexError:
                    raise PyRaise("IndexError", node)
                pre = items[: n + 1] if n >= 0 else items[n:]
                if any(isinstance(x, Star) for x in pre):
                    return T("item", self.freeze(o), n)
                return v
            if n is None:
                return self.unk("index", node)
            for i in range(len(items)):
                if self.ctx.decide(eq0(p_sub(n, i)), node):
                    return items[i]
            raise PyRaise("IndexError", node)
        if isinstance(o, PDict):
            kk = k
            for p in o.pairs:
                if isinstance(p[0], Ten) or isinstance(kk, Ten):
                    # tensors hash by identity
                    if isinstance(p[0], Ten) and isinstance(kk, Ten) and p[0].cell is kk.cell:
                        return p[1]
                    continue
                if isinstance(p[0], tuple) and isinstance(kk, tuple):
                    ok = len(p[0]) == len(kk)
                    if ok:
                        for x, y in zip(p[0], kk):
                            if isinstance(x, Ten) or isinstance(y, Ten):
                                if not (isinstance(x, Ten) and isinstance(y, Ten) and x.cell is y.cell):
                                    ok = False
                                    break
                            elif not self.truth(self.equal(x, y, node), node):
                                ok = False
                                break
                    if ok:
                        return p[1]
                    continue
                if not isinstance(kk, (T, Ten)) and not isinstance(p[0], (T, Ten)):
                    if type(p[0]) is type(kk) and p[0] == kk or kindlabel(p[0]) and kindlabel(p[0]) == kindlabel(kk):
                        return p[1]
                    if isinstance(p[0], (bool, int)) and isinstance(kk, (bool, int)) and p[0] == kk:
                        return p[1]
            if isinstance(kk, T) and all(not isinstance(p[0], (T, Ten, tuple)) for p in o.pairs) and o.pairs:
                return T("select", kk, *[Pair(p[0], p[1]) for p in o.pairs])
            if any(isinstance(p[0], T) for p in o.pairs) or isinstance(kk, T):
                for p in o.pairs:
                    if self.truth(self.equal(p[0], kk, node), node):
                        return p[1]
            if o.rest is not None:
                return T("item", self.freeze(o.rest), self.freeze(k))
            raise PyRaise("KeyError", node)
        if isinstance(o, str):
            if isinstance(k, Slice):
                a, b, c = (self.num(x) if x is not None else None for x in (k.a, k.b, k.c))
                if all(x is None or is_num(x) for x in (a, b, c)):
                    return o[a:b:c]
            n = self.num(k)
            if is_num(n):
                return o[n]
            return T("item", o, self.freeze(k))
        if isinstance(o, Inst) and o.modules is not None and not o.opaque:
            if isinstance(k, str):
                p = o.modules.find(k)
                if p:
                    return p[1]
                raise PyRaise("KeyError", node)
            vals = [p[1] for p in o.modules.pairs]
            n = self.num(k) if not isinstance(k, Slice) else None
            if is_num(n):
                return vals[n]
            if isinstance(k, Slice):
                return self.getitem(PList(vals), k, node)
            return self.getitem(PList(vals), k, node)
        if isinstance(o, Inst) and isinstance(o.cls, ClassInfo) and not o.opaque:
            _, m = o.cls.find("__getitem__")
            if isinstance(m, Fn):
                return self.call(BoundM(m, o), [k], {}, node)
        if isinstance(o, T):
            c = self.read(o)
            if isinstance(c, T) and c.op == "shape":
                n = self.num(k) if not isinstance(k, Slice) else None
                if is_num(n):
                    return size_term(c.args[0], n)
                if isinstance(k, Slice):
                    return T("shapeslice", c.args[0], *(self.freeze(x) for x in (k.a, k.b, k.c)))
            if isinstance(c, T) and c.op == "unbind":
                return self.getitem_sel(c, self.freeze(k))
            if isinstance(c, T) and c.op == "list":
                return self.getitem(PList(c.args), k, node)
            if isinstance(c, tuple):
                return self.getitem(c, k, node)
            if isinstance(c, T) and c.op in ("param", "sizes", "seqsym") or c in SEQ_TERMS:
                if isinstance(k, Slice):
                    return T("getslice", c, *(self.freeze(x) for x in (k.a, k.b, k.c)))
                return T("item", c, self.freeze(k))
            if self.ctx.facts.kind.get(o) == "Tensor":
                return self.getitem_ten(self.as_ten(o), k, node)
            nk = norm_key(k)
            if isinstance(nk, tuple) or isinstance(nk, Slice) and self.looks_tensor(o):
                return self.getitem_ten(self.as_ten(o), k, node)
            if isinstance(nk, Slice):
                if c.op == "getslice" and c.args[3] is None and nk.c is None:
                    pass
                return T("getslice", c, *(self.freeze(x) for x in (nk.a, nk.b, nk.c)))
            if self.looks_tensor(o):
                return self.getitem_ten(self.as_ten(o), k, node)
            return T("item", c, self.freeze(k))
        if isinstance(o, Ten):
            return self.getitem_ten(o, k, node)
        if isinstance(o, (ClassInfo, ExtRef, ExtClass, Builtin)):
            if isinstance(o, ClassInfo) and o.is_enum and isinstance(k, str):
                m = o.members.get(k)
                if m is None:
                    raise PyRaise("KeyError", node)
                return m
            return o  # typing subscript
        if o is None:
            raise PyRaise("TypeError", node)
        if isinstance(o, Opq):
            return T("item", sym(o.name), self.freeze(k))
        return self.unk("subscript of " + type(o).__name__, node)

    def looks_tensor(self, t):
        t = self.read(t)
        return isinstance(t, T) and t.op in ("sel", "upd", "set", "call", "m", "vw", "add", "sub", "mult", "div")

    def getitem_ten(self, o, k, node):
        k = norm_key(k)
        if isinstance(k, tuple) and k and all(full_slice(x) for x in k[:-1]) and not isinstance(k[-1], (Slice, PList, tuple)) and k[-1] is not None and k[-1] is not Ellipsis:
            last = k[-1]
            if not advanced_index(self, last):
                return self.sel(o, len(k) - 1, last, node)
        if not isinstance(k, (tuple, Slice, PList)) and k is not None and k is not Ellipsis:
            if not advanced_index(self, k):
                return self.sel(o, 0, k, node)
        keys = k if isinstance(k, tuple) else (k,)
        cut = [i for i, x in enumerate(keys) if not full_slice(x)]
        if len(cut) == 1 and isinstance(keys[cut[0]], Slice) and keys[cut[0]].c in (None, 1):
            r = self.plain_slice(o, cut[0], keys[cut[0]], node)
            if r is not None:
                return r
        if any(isinstance(x, PList) or (not isinstance(x, Slice) and advanced_index(self, x)) for x in keys):
            return self.fresh_ten(T("gather", self.read(o), self.freeze(k)))
        return Ten(o.cell, o.view + (T("vslice", self.freeze(k)),))

    def plain_slice(self, o, d, s, node):
        """Normal form of the slice `s` of dimension `d`: everything, one entry, or the tail."""
        a, b = self.freeze(s.a), self.freeze(s.b)
        a = None if a == 0 and is_num(a) else a
        c = self.read(o)
        sh = shape_of(c)
        n = sh[d] if sh is not None and d < len(sh) else None
        if b is not None and n is not None and p_sub(n, b) == 0:
            b = None
        if a is None and b is None:
            return o
        k = None
        if a is None or is_num(a) and a >= 0 or not is_num(a):
            if b is not None and (is_num(a) or a is None or n is not None) and p_sub(b, a or 0) == 1:
                k = a or 0
        elif a == -1 and b is None:
            k = -1
        if k is not None:
            n = size_term(c, d) if n is None else n
            inside = lambda x: x >= 0 if is_num(x) else self.ctx.facts.query(ge0(x)) is True
            if inside(p_sub(n, 1)) if k == -1 else inside(p_sub(p_sub(n, k), 1)) and inside(k):
                r = self.sel(o, d, k, node)
                return Ten(r.cell, r.view + (T("v", "unsqueeze", d),))
        if (a, b) == (s.a, s.b):
            return None
        key = tuple(Slice(None, None, None) for _ in range(d)) + (Slice(a, b, None),)
        return Ten(o.cell, o.view + (T("vslice", self.freeze(key)),))

    def apply_view(self, c, v):
        if v.op == "vsel":
            return sel_term(c, v.args[0], v.args[1])
        if v.op == "vslice":
            nf = dims_view(c, "slice", v.args)
            if nf is not None:
                return nf
            return T("vw", c, "slice", v.args[0])
        name = v.args[0]
        if name in VIEW_IDENT:
            return c
        if isinstance(c, T):
            nf = dims_view(c, name, v.args[1:])
            if nf is not None:
                return nf
        if isinstance(c, T) and c.op == "vw" and name == "squeeze" and c.args[1] == "unsqueeze" and c.args[2:] == v.args[1:]:
            return c.args[0]
        if isinstance(c, T) and c.op == "narrow1" and name == "squeeze" and v.args[1:] and v.args[1][:1] == (c.args[1],):
            return sel_term(c.args[0], c.args[1], c.args[2])
        return T("vw", c, *v.args)

    # --------------------------------------------------------------------- call
    def call(self, f, args, kwargs, node):
        from . import torchmodel as tm

        ctx = self.ctx
        if len(ctx.stack) > 60:
            raise Bail("call depth")
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, node)
        if isinstance(f, BoundM):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + args, kwargs, node)
            return self.call(f.fn, [f.self_] + args, kwargs, node)
        if isinstance(f, Partial):
            return self.call(f.fn, list(f.args) + args, {**f.kwargs, **kwargs}, node)
        if isinstance(f, Builtin):
            if f.name == "@ntuple":
                return tm.ntuple(self, args[0], args[1], node)
            return tm.call_builtin(self, f.name, args, kwargs, node)
        if isinstance(f, ClassInfo):
            return self.construct(f, args, kwargs, node)
        if isinstance(f, ExtClass):
            return tm.construct_ext(self, f, args, kwargs, node)
        if isinstance(f, ExtRef):
            return tm.call_ext(self, f.dotted, args, kwargs, node)
        if isinstance(f, ExtMethod):
            return tm.call_ext_method(self, f, args, kwargs, node)
        if isinstance(f, BoundV):
            return tm.call_value_method(self, f.v, f.name, args, kwargs, node)
        if isinstance(f, BoundOpq):
            return self.call_opq(f.o, f.name, args, kwargs, node)
        if isinstance(f, (Opq,)):
            return self.call_opq(f, "__call__", args, kwargs, node)
        if isinstance(f, Inst):
            if isinstance(f.cls, ExtClass) and not f.opaque and isinstance(f.attrs.get("forward"), (Fn, BoundM)):
                # torch.nn.Module.__call__ runs the forward the repository has put on the instance
                return tm.call_ext_method(self, ExtMethod(f.cls, "__call__", f), args, kwargs, node)
            if isinstance(f.cls, ExtClass) and f.cls.name == "Sequential" and not f.opaque and len(args) == 1 and not kwargs and f.modules is not None and f.modules.pairs:
                x = args[0]
                for _, child in list(f.modules.pairs):
                    x = self.call(child, [x], {}, node)
                return x
            if f.opaque or isinstance(f.cls, ExtClass):
                return self.call_opq(f, "__call__", args, kwargs, node)
            own, m = f.cls.find("__call__")
            if isinstance(m, Fn):
                return self.call_fn(m, [f] + args, kwargs, node)
            if isinstance(own, ExtClass):
                return tm.call_ext_method(self, ExtMethod(own, "__call__", f), args, kwargs, node)
            raise PyRaise("TypeError", node)
        if isinstance(f, Static):
            return self.call(f.fn, args, kwargs, node)
        if isinstance(f, T):
            if f.op == "select":
                opts = f.args[1:]
                if all(isinstance(p.v, (ExtRef, ExtClass)) for p in opts):
                    return tm.opaque_ext_call(self, self.freeze(f), args, kwargs, node)
                for p in opts[:-1]:
                    if self.ctx.decide(key_cond(self, f.args[0], p.k), node):
                        return self.call(p.v, args, kwargs, node)
                self.ctx.facts.assume(key_cond(self, f.args[0], opts[-1].k), True)
                return self.call(opts[-1].v, args, kwargs, node)
            if f.op == "attr" and f.args[1] in METHODISH:
                return tm.call_value_method(self, f.args[0], f.args[1], args, kwargs, node)
            return self.call_unknown(f, args, kwargs, node)
        if f is None:
            raise PyRaise("TypeError", node)
        if isinstance(f, Decor):
            return f.apply(args[0])
        if isinstance(f, (bool, int, float, str, tuple, PList, PDict)):
            raise PyRaise("TypeError", node)
        return self.unk("call of " + type(f).__name__, node)

    def maybe_raise(self, label, node):
        if self.ctx.opts.get("raises"):
            if self.ctx.decide(T("raises", label), node) is True:
                raise PyRaise("OpaqueError", node)

    def call_unknown(self, f, args, kwargs, node):
        ff = self.freeze(f)
        fa = tuple(self.freeze(a) for a in args)
        fk = tuple(sorted((k, self.freeze(v)) for k, v in kwargs.items()))
        r = T("app", ff, fa, fk)
        self.event("callfn", node, fn=ff, args=tuple(args), kwargs=dict(kwargs), result=r)
        self.maybe_raise(T("callfn", ff, len(self.ctx.events)), node)
        return r

    def call_opq(self, o, method, args, kwargs, node):
        n = self.newid()
        mode = None
        if method == "__call__":
            cm = o.attrs.get("call_mode")
            mode = self.mode_label(cm) if cm is not None else "own"
        e = self.event("call", node, obj=o, method=method, mode=mode, args=tuple(args), kwargs=dict(kwargs), n=n,
                       fargs=tuple(self.freeze(a) for a in args), fkwargs={k: self.freeze(v) for k, v in kwargs.items()})
        e.data["ctxmode"] = self.context_mode()
        self.maybe_raise(T("call", self.freeze(o), n), node)
        base = self.freeze(o)
        if method in ("clean_state", "set_state", "append", "add_module", "eval", "train"):
            r = None
        elif method == "_forward_step":
            r = (T("out", base, method, n), T("nstate", base, n))
        elif method in ("parameters", "children", "modules"):
            r = T("m:" + method, base)
        else:
            label = mode if method == "__call__" else method
            if getattr(o, "kind", "torchmodule") in ("function", "torchmodule") and method in ("__call__", "forward"):
                # a stateless collaborator: its result is a function of its arguments
                r = T("out", base, label, T("args", e.fargs, tuple(sorted(e.fkwargs.items()))))
                c = self.ctx.cells.get(r)
                if c is not None and c.content is not r:
                    del self.ctx.cells[r]
            else:
                r = T("out", base, label, n)
            if isinstance(o, Inst) and isinstance(o.cls, ExtClass) and o.cls.name in POINTWISE and isinstance(r, T):
                self.ctx.facts.assume(T("kind", r, "Tensor"), True)
        e.data["result"] = r
        return r

    def context_mode(self):
        g = self.globals.get("continual.module", {})
        cm = g.get("call_mode")
        if isinstance(cm, Inst):
            return tuple(sorted((k, show(self.freeze(v))) for k, v in cm.attrs.items()))
        return None

    def mode_label(self, v):
        if isinstance(v, str):
            return v.lower()
        table = self.globals.get("continual.module", {}).get("CALL_MODES")
        if isinstance(table, PDict):
            for k, x in table.pairs:
                if isinstance(v, Ten) and isinstance(x, Ten) and (x.cell is v.cell or self.read(x) == self.read(v)):
                    return k
                if not isinstance(v, (Ten,)) and self.freeze(v) == self.freeze(x):
                    return k
        return show(self.freeze(v))

    def bind_args(self, fn, args, kwargs, node):
        """Bind call arguments; returns {param: value} (defaults included)."""
        a = fn.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        args = list(args)
        kwargs = dict(kwargs)
        unknown_kw = kwargs.pop("**", None)
        extra = []
        i = 0
        starunk = None
        for x in args:
            if isinstance(x, Star):
                starunk = x
                extra.append(x)
                continue
            if starunk is None and i < len(pos):
                out[pos[i]] = x
                i += 1
            else:
                extra.append(x)
        if extra and a.vararg is None and starunk is None:
            raise PyRaise("TypeError", node)
        if a.vararg is not None:
            out[a.vararg.arg] = tuple(extra)
        elif starunk is not None:
            j = 0
            for p in pos[i:]:
                if p not in kwargs:
                    out[p] = T("item", self.freeze(starunk.v), j)
                    j += 1
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kwargs.items():
            if k in pos and k not in posonly or k in kwonly:
                if k in out:
                    raise PyRaise("TypeError", node)
                out[k] = v
            else:
                rest[k] = v
        if rest and a.kwarg is None:
            raise PyRaise("TypeError", node)
        if a.kwarg is not None:
            d = PDict([[k, v] for k, v in rest.items()])
            d.rest = unknown_kw
            out[a.kwarg.arg] = d
        nd = len(fn.defaults)
        for j, p in enumerate(pos):
            if p not in out:
                di = j - (len(pos) - nd)
                if di >= 0:
                    out[p] = fn.defaults[di]
                    if unknown_kw is not None and a.kwarg is None:
                        out[p] = T("kwget", self.freeze(unknown_kw), p, self.freeze(fn.defaults[di]))
                elif unknown_kw is not None:
                    out[p] = T("kwget", self.freeze(unknown_kw), p)
                else:
                    raise PyRaise("TypeError", node)
        for p, d in zip(kwonly, fn.kw_defaults):
            if p not in out:
                if d is NODEFAULT:
                    raise PyRaise("TypeError", node)
                out[p] = d
        return out

    def call_fn(self, fn, args, kwargs, node, at_yield=None):
        ctx = self.ctx
        if fn.ctxmgr and at_yield is None:
            return CtxMgr(fn, args, kwargs)
        hook = ctx.opts.get("intercept")
        if hook is not None:
            r = hook(self, fn, args, kwargs, node)
            if r is not NotImplemented:
                return r
        if len(ctx.stack) > 60:
            raise Bail("call depth")
        rec = sum(1 for f in ctx.stack if f is fn)
        if rec > ctx.opts.get("max_rec", 8):
            raise Bail("recursion " + fn.qual)
        bound = self.bind_args(fn, args, kwargs, node)
        env = Env(fn.mod, fn.env, fn)
        env.vars.update(bound)
        gen = at_yield is None and is_generator(fn)
        collected = []
        if at_yield is not None:
            env.at_yield = at_yield
        elif gen:
            env.at_yield = collected.append
        ctx.stack.append(fn)
        self.functions_seen.add(fn.mod.name + "." + fn.qual)
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fn.node.body, env)
            try:
                self.exec_body(fn.node.body, env)
            except ReturnSig as r:
                if gen:
                    return PList(collected, "gen")
                return r.v
            if gen:
                return PList(collected, "gen")
            return None
        finally:
            ctx.stack.pop()

    # ---------------------------------------------------------------- construct
    def construct(self, cls, args, kwargs, node):
        if cls.is_enum:
            return self.enum_lookup(cls, args[0], node)
        if any(b.name in ("Exception", "BaseException") for b in cls.mro if b is not cls):
            return Raised(cls.name, tuple(args))
        ctx = self.ctx
        opaque = ctx.opts.get("opaque_new")
        inst = Inst(cls, f"{cls.name}#{self.newid()}")
        own, init = cls.find("__init__")
        if opaque is not None and opaque(cls):
            inst.opaque = True
            bound = {}
            if isinstance(init, Fn):
                bound = self.bind_args(init, [inst] + args, kwargs, node)
                first = (init.node.args.posonlyargs + init.node.args.args)[0].arg
                bound.pop(first, None)
            elif isinstance(own, ExtClass):
                from . import torchmodel as tm

                bound = tm.bind_ext(self, own, args, kwargs)
            inst.ctor = bound
            inst.args = (tuple(args), dict(kwargs))
            self.event("new", node, cls=cls.name, obj=inst, bound=bound, args=tuple(args), kwargs=dict(kwargs))
            return inst
        self.event("new", node, cls=cls.name, obj=inst, bound={}, args=tuple(args), kwargs=dict(kwargs))
        if isinstance(init, Fn):
            self.call_fn(init, [inst] + args, kwargs, node)
        elif isinstance(own, ExtClass):
            from . import torchmodel as tm

            tm.ext_init(self, inst, own, args, kwargs, node)
        if not ctx.prefix and not ctx.trace and not ctx.stack and not hasattr(self, "snap"):
            self.global_insts.append(inst)
        return inst

    def enum_lookup(self, cls, v, node):
        if isinstance(v, EnumMember):
            if v.cls is cls:
                return v
            raise PyRaise("ValueError", node)
        if isinstance(v, T):
            if v.op == "enumof" and v.args[0] == cls.name:
                return v
            return T("enumof", cls.name, v)
        for m in cls.members.values():
            if isinstance(m, EnumMember) and m.value == v:
                return m
        raise PyRaise("ValueError", node)


class Pair:
    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return f"{self.k!r}->{self.v!r}"

    def __hash__(self):
        return hash(repr(self.k))

    def __eq__(self, o):
        return isinstance(o, Pair) and repr(o.k) == repr(self.k) and (o.v is self.v or repr(o.v) == repr(self.v))


class Decor:
    def __init__(self, apply):
        self.apply = apply


class Star:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "*" + show(self.v)

    def __hash__(self):
        return hash(repr(self.v))

    def __eq__(self, o):
        return isinstance(o, Star) and repr(o.v) == repr(self.v)


class Type_:
    """type(x) of a value of known kind."""

    def __init__(self, label):
        self.label = label

    def __repr__(self):
        return f"type:{self.label}"


class Absent:
    pass


class _Missing:
    def __repr__(self):
        return "<absent>"


MISSING = _Missing()
NODEFAULT = object()
SEQ_TERMS = set()
OPQ_METHODS = {
    "forward", "forward_step", "forward_steps", "_forward_step", "clean_state", "get_state", "set_state",
    "state_dict", "load_state_dict", "named_parameters", "parameters", "modules", "children", "append",
    "add_module", "build_from", "warm_up", "eval", "train", "_call_impl", "named_modules", "extra_repr",
}
METHODISH = (
    VIEW | MULTIVIEW | PURE_STR
    | {
        "clone", "sum", "mean", "size", "dim", "numel", "repeat", "index_select", "gather", "add", "sub", "mul", "div",
        "exp", "softmax", "max", "min", "roll", "bmm", "matmul", "append", "extend", "pop", "update", "item", "type",
        "register_hook", "setup_input_hook", "setup_output_hook", "warning", "info", "error", "debug", "is_floating_point",
        "new_zeros", "new_ones", "new_full", "new_tensor", "new_empty", "masked_fill", "where", "eq", "abs", "any", "all",
        "tolist", "isdigit", "setdefault", "fill_", "copy_", "zero_", "add_", "mul_", "sub_", "insert", "remainder",
        "repeat_interleave", "cumsum", "state_dict", "pad", "flip", "sort", "index_fill", "index_copy", "element_size", "tile",
        "register_buffer", "is_contiguous", "requires_grad_", "broadcast_to", "get_device", "bool", "ge", "gt", "lt", "le",
    }
) - {"data"}


def _load(t):
    import copy

    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def neg(c):
    if isinstance(c, bool):
        return not c
    if isinstance(c, T):
        if c.op == "not":
            return c.args[0]
        if c.op == "ge0":
            return ge0(p_sub(p_neg(c.args[0]), 1))
        return T("not", c)
    return c


def env_cls(env):
    return getattr(env, "cls", None)


def fn_locals(fn):
    if fn.locals is None:
        s = set()
        node = fn.node
        glob = set()

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    # comprehension variables are local to the comprehension
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    s.add(c.id)
                if isinstance(c, (ast.Import, ast.ImportFrom)):
                    for a in c.names:
                        s.add((a.asname or a.name).split(".")[0])
                if isinstance(c, (ast.Global, ast.Nonlocal)):
                    glob.update(c.names)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    s.add(c.name)
                walk(c)

        if not isinstance(node, ast.Lambda):
            for st in node.body:
                walk(ast.Module(body=[st], type_ignores=[]))
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            s.add(x.arg)
        if a.vararg:
            s.add(a.vararg.arg)
        if a.kwarg:
            s.add(a.kwarg.arg)
        fn.locals = s - glob
    return fn.locals


def is_generator(fn):
    if isinstance(fn.node, ast.Lambda):
        return False
    if not hasattr(fn.node, "_isgen"):
        r = False
        st = list(fn.node.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            st.extend(ast.iter_child_nodes(n))
        fn.node._isgen = r
    return fn.node._isgen


def kindlabel(c):
    if isinstance(c, Type_):
        return c.label
    if isinstance(c, Builtin):
        return c.name
    if isinstance(c, ExtRef):
        last = c.dotted.rsplit(".", 1)[-1]
        return last
    if isinstance(c, (ClassInfo, ExtClass)):
        return c.name
    return None


def key_cond(I, key, k):
    if isinstance(k, bool):
        if isinstance(key, T) and key.op in PRED:
            return key if k else neg(key)
        return T("truth", key) if k else neg(T("truth", key))
    if isinstance(k, int):
        return eq0(p_sub(key, k))
    return T("eqc", key, I.freeze(k))


def norm_key(k):
    return k


def full_slice(x):
    return isinstance(x, Slice) and x.a is None and x.b is None and x.c is None


def advanced_index(I, x):
    """Does indexing with x copy (tensor/list/mask) rather than view?"""
    if isinstance(x, PList):
        return True
    if isinstance(x, bool):
        return True
    if isinstance(x, (int, type(None))) or x is Ellipsis:
        return False
    f = I.freeze(x)
    if isinstance(f, T):
        seen = [f]
        while seen:
            t = seen.pop()
            if isinstance(t, T):
                if t.op == "call" and t.args and t.args[0] in ADVANCED and t.args[0] != "torch.remainder":
                    return True
                if t.op in ("list", "range"):
                    return True
                if t.op in ("poly", "mod", "call", "add", "sub", "mult", "floordiv"):
                    seen.extend(a for a in t.args if isinstance(a, (T, tuple)))
            elif isinstance(t, tuple):
                seen.extend(t)
    return False


def module_output(x):
    """An output of an element-wise torch.nn module: a tensor."""
    if x.op == "call" and isinstance(x.args[0], str) and x.args[0].endswith(".forward"):
        return x.args[0][:-8] in POINTWISE
    return x.op == "out" and isinstance(x.args[0], T) and x.args[0].op == "obj" and str(x.args[0].args[0]).partition("#")[0] in POINTWISE


def tensor_binop(op, a, b):
    n = op.lower()
    if n == "matmult":
        return T("call", "torch.matmul", (a, b), ())
    if n in ("add", "mult"):
        a, b = sorted((a, b), key=show)
    if n == "mod" and isinstance(a, T) and a.op == "add":
        # (x % n + y) % n == (x + y) % n
        x, y = (v.args[0] if isinstance(v, T) and v.op == "mod" and len(v.args) == 2 and v.args[1] == b else v for v in a.args)
        if (x, y) != a.args:
            return tensor_binop(op, tensor_binop("Add", x, y), b)
    return T(n, a, b)


def sel_term(c, dim, k):
    if isinstance(c, T) and is_num(dim) and dim < 0:
        sh = shape_of(c)
        if sh is not None and dim + len(sh) >= 0:
            dim += len(sh)
    if isinstance(c, T) and is_num(dim) and is_num(k) and k < 0:
        sh = shape_of(c)
        if sh is not None and 0 <= dim < len(sh) and is_num(sh[dim]) and k + sh[dim] >= 0:
            k += sh[dim]
    if isinstance(c, T) and c.op == "vw" and c.args[1] == "dims" and is_num(dim) and 0 <= dim < len(c.args[2]):
        base, sp = c.args[0], c.args[2]
        src = sp[dim]
        rest = sp[:dim] + sp[dim + 1:]
        if src is None:
            if k in (0, -1) and is_num(k):
                return make_dims(base, rest)
        else:
            b2 = sel_term(base, src, k)
            if shape_of(b2) is not None:
                return make_dims(b2, tuple(None if i is None else (i - 1 if i > src else i) for i in rest))
    if isinstance(c, T) and c.op == "set" and not c.args[1]:
        old, _, key, val = c.args
        kk = key
        wdim, widx = None, None
        if not isinstance(kk, tuple):
            if not (isinstance(kk, T) and kk.op in ("slice", "list")):
                wdim, widx = 0, kk
        else:
            if all(isinstance(x, T) and x.op == "slice" and x.args == (None, None, None) for x in kk[:-1]):
                wdim, widx = len(kk) - 1, kk[-1]
        if wdim == dim and widx is not None:
            if widx == k and type(widx) is type(k):
                return val
            if is_num(widx) and is_num(k) and (widx >= 0) == (k >= 0) and widx != k:
                return sel_term(old, dim, k)
    if isinstance(c, T) and c.op == "call" and c.args[0] == "torch.stack" and is_num(k):
        lst = c.args[1][0] if c.args[1] else None
        kd = dict(c.args[2]).get("dim", c.args[1][1] if len(c.args[1]) > 1 else 0)
        if isinstance(lst, T) and lst.op == "list" and kd == dim and -len(lst.args) <= k < len(lst.args):
            return lst.args[k]
        if isinstance(lst, T) and lst.op == "rep" and kd == dim:
            return lst.args[0]
    if isinstance(c, T) and c.op == "vw" and c.args[1] in ("movedim", "moveaxis", "transpose", "swapaxes", "swapdims") and isinstance(c.args[2], tuple) and len(c.args[2]) == 2:
        a, b = c.args[2]
        if c.args[1] in ("movedim", "moveaxis"):
            if b == dim == 0 and is_num(a):
                return T("sel", c.args[0], a, k)
    if isinstance(c, T) and is_num(dim) and is_num(k) and k in (0, -1):
        sh = shape_of(c)
        if sh is not None and 0 <= dim < len(sh) and is_num(sh[dim]) and sh[dim] == 1:
            return make_dims(c, tuple(i for i in range(len(sh)) if i != dim))
    return T("sel", c, dim, k)


def size_term(c, n):
    if isinstance(c, T) and is_num(n):
        sh = shape_of(c)
        if sh is not None and -len(sh) <= n < len(sh):
            return sh[n]
    if isinstance(c, T):
        if c.op == "any" and n == 0 and len(c.args) == 3:
            return c.args[1]
        if c.op in ("set", "upd"):
            return size_term(c.args[0], n)
        if c.op == "call" and c.args[0] == "torch.stack" and is_num(n) and n >= 0:
            lst = c.args[1][0] if c.args[1] else None
            kd = dict(c.args[2]).get("dim", c.args[1][1] if len(c.args[1]) > 1 else 0)
            if isinstance(lst, T) and lst.op == "list" and kd == n:
                return len(lst.args)
        if n == 0 and c.op == "call":
            r = length_term(c)
            if not (isinstance(r, T) and r.op == "len"):
                return r
    return T("size", c, n)


def dim_term(c):
    sh = shape_of(c)
    if sh is not None:
        return len(sh)
    if isinstance(c, T) and c.op == "any" and len(c.args) == 3:
        return c.args[2]
    if isinstance(c, T) and c.op in ("set", "upd"):
        return dim_term(c.args[0])
    if isinstance(c, T) and c.op == "call" and c.args[0] == "torch.tensor":
        a = c.args[1][0] if c.args[1] else None
        if isinstance(a, T) and a.op == "list":
            return 1
    if isinstance(c, T) and c.op == "call" and c.args[0] == "torch.stack":
        return T("dimstack", c)
    return T("dim", c)


def numel_term(c):
    """Number of elements: exact for concrete shapes, otherwise the length times a positive number (frames are not empty)."""
    sh = shape_of(c)
    if sh is not None and all(isinstance(x, int) for x in sh):
        n = 1
        for x in sh:
            n *= x
        return n
    if sh is not None and not sh:
        return 1
    return p_mul(length_term(c), T("elems", c))


def length_term(c):
    """len(x) of a content term."""
    if isinstance(c, tuple):
        return len(c)
    sh = shape_of(c)
    if sh:
        return sh[0]
    if isinstance(c, T):
        if c.op == "any" and len(c.args) == 3:
            return c.args[1]
        if c.op in ("set", "upd"):
            return length_term(c.args[0])
        if c.op == "shape":
            return dim_term(c.args[0])
        if c.op == "list":
            return len(c.args)
        if c.op == "rep":
            return c.args[1]
        if c.op == "unbind":
            return size_term(c.args[0], c.args[1])
        if c.op == "range":
            a, b, s = c.args
            if s == 1:
                return p_sub(b, a)
        if c.op == "call":
            fn, a, kw = c.args[0], c.args[1], dict(c.args[2])
            if fn == "torch.tensor" and a and isinstance(a[0], T) and a[0].op == "list":
                return len(a[0].args)
            if fn == "torch.tensor" and a and isinstance(a[0], T) and a[0].op == "range":
                return length_term(a[0])
            if fn == "torch.stack":
                lst = a[0] if a else kw.get("tensors")
                dim = kw.get("dim", a[1] if len(a) > 1 else 0)
                if dim == 0 and lst is not None:
                    return length_term(lst)
            if fn in ("torch.zeros", "torch.ones", "torch.empty", "torch.full"):
                s = a[0] if a else kw.get("size")
                if isinstance(s, T) and s.op == "list":
                    s = s.args
                if isinstance(s, tuple) and s:
                    return s[0]
                if is_num(s) or isinstance(s, T):
                    return s
            if fn in ("torch.zeros_like", "torch.ones_like", "torch.empty_like", "torch.full_like", "torch.clone") and a:
                return length_term(a[0])
        if c.op == "m":
            name, x, a = c.args[0], c.args[1], c.args[2]
            if name in ("repeat", "expand", "new_zeros", "new_ones", "new_full"):
                s = a[0] if a else None
                if isinstance(s, T) and s.op == "list":
                    s = s.args
                first = s[0] if isinstance(s, tuple) and s else s
                if first is not None:
                    return first
            if name in ("clone",):
                return length_term(x)
        if c.op == "vw" and c.args[1] in ("expand",):
            s = c.args[2]
            if isinstance(s, tuple) and s:
                s = s[0]
                if isinstance(s, T) and s.op == "list":
                    s = s.args[0]
                return s
        if c.op == "concat":
            return p_add(length_term(c.args[0]), length_term(c.args[1]))
    return T("len", c)
