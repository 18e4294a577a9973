"""Shapes of content terms (tuples of dimension terms) and rank-aware view normal form."""
from .terms import Facts, exact_quotient, SHAPES, T, is_num, p_add, p_mul, p_sub

SAME1 = {
    "torch.zeros_like", "torch.ones_like", "torch.empty_like", "torch.full_like", "torch.clone", "torch.roll", "torch.flip",
    "torch.exp", "torch.softmax", "F.softmax", "F.relu", "F.dropout", "F.gelu", "torch.relu", "torch.sigmoid", "torch.tanh",
    "torch.abs", "torch.neg", "torch.sqrt", "torch.log",
}
ELEM2 = {"add", "sub", "mult", "div", "mod", "pow", "floordiv"}
DIMS = {"permute", "transpose", "movedim", "unsqueeze", "squeeze", "t"}


# torch.nn modules whose output has the shape of their input
POINTWISE = {"ReLU", "ReLU6", "LeakyReLU", "Sigmoid", "Tanh", "GELU", "SiLU", "ELU", "Softplus", "Hardtanh", "Identity", "Dropout", "Dropout1d", "Dropout2d", "Dropout3d",
             "BatchNorm1d", "BatchNorm2d", "BatchNorm3d", "LayerNorm"}


def vec(v, n):
    """An operator option as a vector of n plain numbers (None when it is not)."""
    if isinstance(v, T) and v.op == "list":
        v = v.args
    if is_num(v):
        v = (v,)
    if not isinstance(v, tuple) or not all(is_num(x) for x in v):
        return None
    return v * n if len(v) == 1 else (v if len(v) == n else None)


def axis(d, rank):
    if not is_num(d):
        return None
    if d < 0:
        d += rank
    return d if 0 <= d < rank else None


def shape_of(c, depth=0):
    """Tuple of dimension terms, or None when the rank is unknown."""
    if depth > 60 or not isinstance(c, T):
        return None
    if c in SHAPES:
        return SHAPES[c]
    r = _shape(c, depth + 1)
    return r


def _shape(c, depth):
    op = c.op
    f = lambda x: shape_of(x, depth)
    if op == "any":
        return c.args[1] if isinstance(c.args[1], tuple) else None
    if op in ("set", "upd"):
        return f(c.args[0])
    if op == "sel":
        r = c.args[0]
        if isinstance(r, T) and r.op == "call" and r.args[0] == "MultiheadAttention.forward" and c.args[1:] == (0, 0):
            return f(r.args[1][1]) if len(r.args[1]) > 1 else None
        if isinstance(r, T) and r.op == "call" and r.args[0] in ("RNN.forward", "LSTM.forward", "GRU.forward") and c.args[1:] == (0, 0):
            s = f(r.args[1][1]) if len(r.args[1]) > 1 else None
            return s[:-1] + (T("size", c, len(s) - 1),) if s else None
        if isinstance(r, T) and c.args[1] == 0:
            q = r if r.op == "call" and c.args[2] == 1 else r.args[0] if r.op == "sel" and r.args[1:] == (0, 1) else None
            if isinstance(q, T) and q.op == "call" and q.args[0] in ("RNN.forward", "LSTM.forward", "GRU.forward"):
                if q is r and q.args[0] == "LSTM.forward":
                    return None
                s = f(q.args[1][1]) if len(q.args[1]) > 1 else None
                return (T("size", c, 0), s[0], T("size", c, 2)) if s and len(s) == 3 else None
        s = f(c.args[0])
        if s is None:
            return None
        a = axis(c.args[1], len(s))
        return None if a is None else s[:a] + s[a + 1:]
    if op == "out" and isinstance(c.args[0], T) and c.args[0].op == "obj" and len(c.args) > 2:
        kind = str(c.args[0].args[0]).partition("#")[0]
        a = c.args[2]
        if kind not in POINTWISE and kind != "Embedding":
            return None
        s = f(a.args[0][0]) if isinstance(a, T) and a.op == "args" and len(a.args[0]) == 1 else None
        return s if s is None or kind != "Embedding" else s + (T("size", c, len(s)),)
    if op == "vw":
        s = () if is_num(c.args[0]) else f(c.args[0])
        if s is None:
            if c.args[1] == "reshape" and isinstance(c.args[2], tuple):
                return resized(c, c.args[2])
            return None
        name = c.args[1]
        if name == "dims":
            return tuple(1 if i is None else s[i] for i in c.args[2])
        if name in ("reshape", "expand") and isinstance(c.args[2], tuple):
            return resized(c, c.args[2], s if name == "expand" else None, s)
        if name == "slice":
            return sliced(c, s, c.args[2])
        if name == "narrow" and len(c.args) == 5:
            d = axis(c.args[2], len(s))
            return None if d is None else s[:d] + (c.args[4],) + s[d + 1:]
        if name in DIMS:
            sp = dims_spec(name, c.args[2:], s)
            return None if sp is None else tuple(1 if i is None else s[i] for i in sp)
        return None
    if op in ELEM2:
        a, b = c.args[0], c.args[1]
        num = lambda v: isinstance(v, (int, float)) or isinstance(v, T) and (v.op in ELEM2 and num(v.args[0]) and num(v.args[1]) or v.op in ("sym", "poly", "attr") and v not in SHAPES or v.op == "call" and v.args[0].startswith("math."))
        sa, sb = f(a), f(b)
        if sa is not None and (num(b) or sb == ()):
            return sa
        if sb is not None and (num(a) or sa == ()):
            return sb
        if sa is None or sb is None:
            return None
        n = max(len(sa), len(sb))
        sa, sb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
        out = []
        for i, (x, y) in enumerate(zip(sa, sb)):
            out.append(x if x == y or y == 1 else (y if x == 1 else T("size", c, i)))
        return tuple(out)
    if op == "neg":
        return f(c.args[0])
    if op == "gather":
        return gathered(c, f)
    if op == "attr" and len(c.args) == 2 and c.args[1] in ("bias", "in_proj_bias"):
        return (T("size", c, 0),)
    if op == "call":
        fn, a, kw = c.args[0], c.args[1], dict(c.args[2])
        x = a[0] if a else kw.get("input")
        if fn in SAME1:
            return f(x)
        if fn in ("torch.zeros", "torch.ones", "torch.empty", "torch.full", "torch.rand", "torch.randn"):
            s = a[0] if a else kw.get("size")
            if isinstance(s, T) and s.op == "list":
                s = s.args
            if isinstance(s, tuple):
                return s
            if is_num(s):
                return (s,)
            return None
        if fn == "torch.stack" and a:
            lst, dim = a[0], (a[1] if len(a) > 1 else 0)
            if isinstance(lst, T) and lst.op in ("list", "rep") and lst.args:
                s = f(lst.args[0])
                n = len(lst.args) if lst.op == "list" else lst.args[1]
                if s is None or not is_num(dim):
                    return None
                d = dim if dim >= 0 else dim + len(s) + 1
                return s[:d] + (n,) + s[d:]
            return None
        if fn == "torch.cat" and a:
            lst, dim = a[0], (a[1] if len(a) > 1 else 0)
            if isinstance(lst, T) and lst.op == "list" and lst.args:
                ss = [f(x) for x in lst.args]
                if any(s is None for s in ss) or len({len(s) for s in ss}) != 1:
                    return None
                d = axis(dim, len(ss[0]))
                if d is None:
                    return None
                tot = 0
                for s in ss:
                    tot = p_add(tot, s[d])
                return ss[0][:d] + (tot,) + ss[0][d + 1:]
            return None
        if fn in ("torch.bmm", "torch.matmul") and len(a) == 2:
            sa, sb = f(a[0]), f(a[1])
            if sa and sb and len(sa) == len(sb) == 3:
                return (sa[0], sa[1], sb[2])
            return None
        if fn in ("torch.sum", "torch.mean", "torch.amax", "torch.amin"):
            s = f(x)
            d = kw.get("dim", a[1] if len(a) > 1 else None)
            if s is None:
                return None
            if d is None:
                return ()
            d = axis(d, len(s))
            if d is None:
                return None
            return s[:d] + ((1,) if kw.get("keepdim", a[2] if len(a) > 2 else False) is True else ()) + s[d + 1:]
        if not isinstance(fn, str):
            return None
        if fn.startswith("F.conv"):
            s = f(kw.get("input", x))
            if s is None:
                return None
            w = SHAPES.get(kw.get("weight", a[1] if len(a) > 1 else None))
            out = [T("size", c, i) for i in range(1, len(s))]
            if w is not None and len(w) == len(s):
                out[0] = w[0]
                n = len(s) - 2
                opt = [vec(kw.get(o, a[i] if len(a) > i else d), n) for o, i, d in (("stride", 3, 1), ("padding", 4, 0), ("dilation", 5, 1))]
                if None not in opt:
                    for i, (l, q, st, p, d) in enumerate(zip(s[2:], w[2:], *opt)):
                        if is_num(l) and is_num(q):
                            out[i + 1] = (l + 2 * p - d * (q - 1) - 1) // st + 1
            return (s[0],) + tuple(out)
        if fn.startswith("F.avg_pool") or fn.startswith("F.max_pool"):
            s = f(kw.get("input", x))
            if s is None:
                return None
            return (s[0],) + tuple(T("size", c, i) for i in range(1, len(s)))
        if fn.endswith("Pool1d.forward") or fn.endswith("Pool2d.forward") or fn.endswith("Pool3d.forward"):
            s = f(a[1]) if len(a) > 1 else None
            return s[:2] + tuple(T("size", c, i) for i in range(2, len(s))) if s and len(s) > 2 else None
        if fn.endswith(".forward") and fn[:-8] in POINTWISE:
            return f(a[1]) if len(a) > 1 else None
        if fn == "F.pad":
            s = f(kw.get("input", x))
            pad = kw.get("pad", a[1] if len(a) > 1 else None)
            if isinstance(pad, T) and pad.op == "list":
                pad = pad.args
            if s is None or not isinstance(pad, tuple) or len(pad) % 2 or len(pad) > 2 * len(s):
                return None
            out = list(s)
            for j in range(len(pad) // 2):
                out[len(s) - 1 - j] = p_add(out[len(s) - 1 - j], p_add(pad[2 * j], pad[2 * j + 1]))
            return tuple(out)
        if fn == "F.linear":
            s = f(kw.get("input", x))
            w = SHAPES.get(kw.get("weight", a[1] if len(a) > 1 else None))
            return None if s is None else s[:-1] + (w[0] if w is not None and len(w) == 2 else T("size", c, len(s) - 1),)
        if fn == "torch.arange" and len(a) == 1:
            return (a[0],)
        if fn == "torch.arange" and len(a) in (2, 3):
            st = a[2] if len(a) == 3 else 1
            n = p_sub(a[1], a[0]) if is_num(st) and st == 1 else (p_sub(a[0], a[1]) if is_num(st) and st == -1 else None)
            return None if n is None else (n,)
        if fn == "torch.remainder" and len(a) == 2:
            return f(a[0])
        return None
    if op == "item" and isinstance(c.args[0], T) and c.args[0].op == "call" and c.args[0].args[0] in ("F._in_projection_packed", "F._in_projection"):
        qkv = c.args[0].args[1]
        s = f(qkv[c.args[1]]) if is_num(c.args[1]) and len(qkv) > 2 else None
        if s is not None and c.args[0].args[0] == "F._in_projection":
            w = f(qkv[3 + c.args[1]]) if len(qkv) > 5 else None
            s = s[:-1] + ((w[0],) if w else (T("size", c, len(s) - 1),))
        return s
    if op == "m":
        name, x, a = c.args[0], c.args[1], c.args[2]
        if name in ("clone", "contiguous", "to", "detach", "float"):
            return f(x)
        if name == "repeat":
            reps = a[0] if len(a) == 1 else a
            if isinstance(reps, T) and reps.op == "list":
                reps = reps.args
            s = f(x)
            if s is None or not isinstance(reps, tuple) or len(reps) < len(s):
                return None
            s = (1,) * (len(reps) - len(s)) + s
            return tuple(p_mul(d, n) if (is_num(d) or isinstance(d, T)) and (is_num(n) or isinstance(n, T)) else T("size", c, i) for i, (d, n) in enumerate(zip(s, reps)))
        if name in ("sum", "mean") and a and is_num(a[0]):
            s = f(x)
            d = None if s is None else axis(a[0], len(s))
            return None if d is None else s[:d] + s[d + 1:]
    return None


def gathered(c, f):
    """Shape of advanced indexing with index vectors (None when the key is not understood)."""
    s, key = f(c.args[0]), c.args[1]
    if s is None:
        return None
    key = key if isinstance(key, tuple) else (key,)
    if len(key) > len(s):
        return None
    out, adv, n, prev = [], [], None, None
    for i, x in enumerate(key):
        if isinstance(x, T) and x.op == "slice":
            if x.args != (None, None, None):
                return None
            out.append(s[i])
            continue
        if isinstance(x, T) and x.op in ("list", "range"):
            sx = (len(x.args),) if x.op == "list" else None
        elif isinstance(x, T):
            sx = f(x)
        else:
            return None
        if sx is None or len(sx) != 1 or n is not None and sx[0] != n:
            return None
        n = sx[0]
        adv.append(i)
    if not adv:
        return None
    at = adv[0] if adv == list(range(adv[0], adv[-1] + 1)) else 0
    out += list(s[len(key):])
    return tuple(out[:at]) + (n,) + tuple(out[at:])


def resized(c, shape, base=None, src=None):
    out = []
    if base is None and src is not None and sum(1 for d in shape if is_num(d) and d == -1) == 1:
        rest = numel(d for d in shape if not (is_num(d) and d == -1))
        tot = numel(src)
        q = 1 if tot == rest else (tot if rest == 1 else (tot // rest if is_num(tot) and is_num(rest) and rest and tot % rest == 0 else exact_quotient(tot, rest)))
        if q is not None:
            shape = tuple(q if is_num(d) and d == -1 else d for d in shape)
    for i, d in enumerate(shape):
        if isinstance(d, T) and d.op == "list":
            return None
        if d == -1 and is_num(d):
            out.append(base[i - len(shape) + len(base)] if base is not None and 0 <= i - len(shape) + len(base) < len(base) else T("size", T("vw", *c.args), i))
        else:
            out.append(d)
    return tuple(out)


def sliced(c, s, key):
    key = key if isinstance(key, tuple) else (key,)
    out, i = [], 0
    n = sum(1 for k in key if k is not None and not (isinstance(k, T) and k.op == "ellipsis"))
    for k in key:
        if k is None:
            out.append(1)
            continue
        if isinstance(k, T) and k.op == "ellipsis":
            m = len(s) - n
            out.extend(s[i:i + m])
            i += m
            continue
        if i >= len(s):
            return None
        if isinstance(k, T) and k.op == "slice":
            a, b, st = k.args
            if (a, b, st) == (None, None, None):
                out.append(s[i])
            else:
                out.append(slice_len(c, s[i], a, b, st, len(out)))
            i += 1
        else:
            i += 1
    return tuple(out) + s[i:]


def slice_len(c, n, a, b, st, i):
    if st is None and b is None and is_num(a):
        if a >= 0 and not is_num(n):
            return T("max", p_sub(n, a), 0) if a else n
        if is_num(n):
            return max(0, n - a) if a >= 0 else min(n, -a)
    if is_num(n) and (a is None or is_num(a)) and (b is None or is_num(b)) and (st is None or is_num(st)):
        return len(range(n)[slice(a, b, st)])
    return T("size", c, i)


def dims_spec(name, args, s):
    """Output dimension spec of a pure dimension view: source index or None (new size-1 dim)."""
    r = len(s)
    if name == "permute":
        order = args[0] if len(args) == 1 and isinstance(args[0], tuple) else args
        if isinstance(order, T) and order.op == "list":
            order = order.args
        sp = [axis(d, r) for d in order]
        if None in sp or sorted(sp) != list(range(r)):
            return None
        return tuple(sp)
    if name in ("transpose", "t"):
        if name == "t":
            args = (0, 1)
        if len(args) != 2:
            return None
        a, b = axis(args[0], r), axis(args[1], r)
        if a is None or b is None:
            return None
        sp = list(range(r))
        sp[a], sp[b] = sp[b], sp[a]
        return tuple(sp)
    if name == "movedim":
        if len(args) != 2:
            return None
        a, b = axis(args[0], r), axis(args[1], r)
        if a is None or b is None:
            return None
        sp = [i for i in range(r) if i != a]
        sp.insert(b, a)
        return tuple(sp)
    if name == "unsqueeze":
        d = args[0][1] if args and isinstance(args[0], tuple) else (args[0] if args else None)
        if not is_num(d):
            return None
        if d < 0:
            d += r + 1
        sp = list(range(r))
        sp.insert(d, None)
        return tuple(sp)
    if name == "squeeze":
        d = args[0][1] if args and isinstance(args[0], tuple) else (args[0] if args else None)
        d = axis(d, r)
        if d is None:
            return None
        if s[d] == 1 and is_num(s[d]):
            return tuple(i for i in range(r) if i != d)
        if is_num(s[d]) or atleast2(s[d]):
            return tuple(range(r))
        return None
    return None


def atleast2(v):
    """A dimension term that is certainly not 1 (generic extent, assumed >= 2)."""
    if not isinstance(v, T):
        return False
    return Facts().bounds(v)[0] >= 2


def numel(s):
    n = 1
    for d in s:
        n = p_mul(n, d)
    return n


def compose(outer, inner):
    """Spec of applying `outer` to a view with spec `inner`."""
    return tuple(None if i is None else inner[i] for i in outer)


def dims_view(c, name, args):
    """Normal form of a dimension view of c, or None when the rank is unknown."""
    if name == "slice":
        key = args[0]
        if not (isinstance(key, tuple) and any(k is None for k in key)):
            return None
        if not all(k is None or isinstance(k, T) and (k.op == "ellipsis" or k.op == "slice" and k.args == (None, None, None)) for k in key):
            return None
        s = shape_of(c)
        if s is None:
            return None
        sp, i = [], 0
        n = sum(1 for k in key if k is not None and k.op != "ellipsis")
        for k in key:
            if k is None:
                sp.append(None)
            elif k.op == "ellipsis":
                for _ in range(len(s) - n):
                    sp.append(i)
                    i += 1
            else:
                sp.append(i)
                i += 1
        sp.extend(range(i, len(s)))
    elif name in DIMS:
        s = shape_of(c)
        if s is None:
            return None
        sp = dims_spec(name, args, s)
        if sp is None:
            return None
    else:
        return None
    return make_dims(c, tuple(sp))


def make_dims(c, sp):
    base = c
    if isinstance(c, T) and c.op == "vw" and c.args[1] == "dims":
        base = c.args[0]
        sp = compose(sp, c.args[2])
    s = shape_of(base)
    # dropping and re-adding a unit dimension in place is the identity
    if s is not None and len(sp) == len(s):
        fix = list(sp)
        for i, d in enumerate(sp):
            if d is None and is_num(s[i]) and s[i] == 1 and i not in sp:
                fix[i] = i
        sp = tuple(fix)
    if s is not None and sp == tuple(range(len(s))):
        return base
    return T("vw", base, "dims", sp)
