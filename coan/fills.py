"""Canonical form of constant tensors: T("fill", value, shape).

`torch.zeros_like(x)`, `torch.zeros(x.shape)`, `x.new_zeros(...)`, `torch.full_like(x, 0)`,
`-torch.ones_like(x) * inf` and the like denote the same filler frame; the rules that compare
fillers rewrite both sides with `canon` first.
"""
import math
from .shapes import shape_of
from .terms import T, is_num, p_add, p_mul, p_sub, show

LIKE = {"torch.zeros_like": 0, "torch.ones_like": 1}
SIZED = {"torch.zeros": 0, "torch.ones": 1}
NEW = {"new_zeros": 0, "new_ones": 1}
INF = {"inf": math.inf, "-inf": -math.inf}


def value(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, (int, float)):
        return v
    if isinstance(v, T):
        if v.op in ("sym", "ext", "call", "attr", "poly", "neg", "float"):
            return v
    return None


def number(v):
    """Concrete numbers of the usual spellings of infinity."""
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        return v
    if isinstance(v, T):
        s = show(v)
        if s in ("torch.inf", "math.inf", "np.inf", "float('inf')", "ext:torch.inf", "ext:math.inf"):
            return math.inf
        if v.op in ("neg",) and number(v.args[0]) is not None:
            return -number(v.args[0])
    return None


def size_args(a):
    if len(a) == 1:
        s = a[0]
        if isinstance(s, T) and s.op == "list":
            s = s.args
        if isinstance(s, T) and s.op == "shape":
            return shape_of(s.args[0])
        return s if isinstance(s, tuple) else ((s,) if is_num(s) or isinstance(s, T) and s.op in ("sym", "poly") else None)
    return tuple(a)


def fill(v, shape):
    n = number(v)
    return T("fill", n if n is not None else v, shape)


def arith(op, a, b):
    if not (is_num(a) or isinstance(a, float)) or not (is_num(b) or isinstance(b, float)):
        return None
    try:
        return {"add": lambda: a + b, "sub": lambda: a - b, "mult": lambda: a * b, "div": lambda: a / b}[op]()
    except (KeyError, ZeroDivisionError, ArithmeticError):
        return None


def canon(v, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, tuple):
        return tuple(canon(x, memo) for x in v)
    if not isinstance(v, T):
        return v
    if v in memo:
        return memo[v]
    r = memo[v] = _canon(v, memo)
    return r


def _canon(v, memo):
    args = tuple(canon(x, memo) for x in v.args)
    r = v if args == v.args else T(v.op, *args)
    sh = lambda x: shape_of(x) if not (isinstance(x, T) and x.op == "fill") else x.args[1]
    if r.op == "call" and isinstance(r.args[0], str):
        fn, a, kw = v.args[0], v.args[1], dict(v.args[2])
        x = a[0] if a else kw.get("input")
        if fn in LIKE and shape_of(x) is not None:
            return fill(LIKE[fn], shape_of(x))
        if fn == "torch.full_like" and shape_of(x) is not None:
            val = a[1] if len(a) > 1 else kw.get("fill_value")
            return fill(val, shape_of(x))
        if fn in SIZED:
            s = size_args(a) if a else size_args((kw.get("size"),))
            if s is not None:
                return fill(SIZED[fn], s)
        if fn == "torch.full":
            s = size_args(a[:1]) if a else size_args((kw.get("size"),))
            val = a[1] if len(a) > 1 else kw.get("fill_value")
            if s is not None:
                return fill(val, s)
    if r.op == "m" and isinstance(r.args[0], str):
        name, a = v.args[0], v.args[2]
        if name in NEW:
            s = size_args(a)
            if s is not None:
                return fill(NEW[name], s)
        if name == "new_full" and a:
            s = size_args(a[:1])
            if s is not None and len(a) > 1:
                return fill(a[1], s)
    if r.op == "neg" and isinstance(r.args[0], T) and r.args[0].op == "fill":
        n = number(r.args[0].args[0])
        if n is not None:
            return fill(-n, r.args[0].args[1])
    if r.op in ("add", "sub", "mult", "div") and len(r.args) == 2:
        a, b = r.args
        fa = isinstance(a, T) and a.op == "fill"
        fb = isinstance(b, T) and b.op == "fill"
        if fa and (fb and a.args[1] == b.args[1] or not fb):
            n = arith(r.op, number(a.args[0]), number(b.args[0] if fb else b)) if number(a.args[0]) is not None and number(b.args[0] if fb else b) is not None else None
            if n is not None:
                return fill(n, a.args[1])
        elif fb and number(a) is not None and number(b.args[0]) is not None:
            n = arith(r.op, number(a), number(b.args[0]))
            if n is not None:
                return fill(n, b.args[1])
    if r.op in ("sel", "vw"):
        b = r.args[0]
        if isinstance(b, T) and b.op == "fill":
            s = shape_of(v)
            if s is not None:
                return fill(b.args[0], s)
    return r
