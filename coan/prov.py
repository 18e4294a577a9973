"""Provenance domain: which input elements, parameters and constants make up each output element.

A frozen content term is evaluated at small extents into an array whose elements are formal sums
of products of *atoms* (an element of an input frame, an entry of a parameter) with rational
coefficients - a multiset of contributions.  Sums, products, convolutions, averages and
attention are exact in this domain, maxima are sets of contributions, exponentials and
reciprocals are opaque functions of the contributions below them.  Index arithmetic, ring
buffers, rolls and reshapes are executed on the element grid, so an output that picks up a frame
twice, one frame too old, or with the weight of another age has another value.

Nothing of the analysed program or of torch runs: the input is the term the dataflow analysis
derived from the source.
"""
import math
from fractions import Fraction

from .terms import T, is_num, show


class Unsupported(Exception):
    pass


class OutOfRange(Unsupported):
    """An index outside its dimension: the program fails there."""


def failed(e):
    """Verdict of an evaluation that could not be completed."""
    return False if isinstance(e, OutOfRange) else None


_atoms, _names = {}, []


def atom(*name):
    i = _atoms.get(name)
    if i is None:
        i = _atoms[name] = len(_names)
        _names.append(name)
    return i


class Poly:
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = frozenset(self.d.items())
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(self.key)

    @property
    def const(self):
        """The number this is, or None."""
        if not self.d:
            return 0
        if len(self.d) == 1 and () in self.d:
            return self.d[()]
        return None


ZERO = Poly({})


def num(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, float) and not math.isinf(v):
        f = Fraction(v).limit_denominator(10 ** 9)
        if f.denominator > 1000:
            w = Fraction(v * v).limit_denominator(1000)
            if w and abs(float(w) - v * v) < 1e-12 * v * v:
                return mul(num(1 if v > 0 else -1), root(w))
        v = f
    if v == 0:
        return ZERO
    return Poly({(): v})


def root(q):
    """Square root of a positive rational: a rational times the root of a square-free number."""
    q = Fraction(q)
    n, k, i = q.numerator * q.denominator, 1, 2
    while i * i <= n:
        while n % (i * i) == 0:
            n, k = n // (i * i), k * i
        i += 1
    k = Fraction(k, q.denominator)
    return Poly({() if n == 1 else (atom("sqrt", n),): k})


def var(*name):
    return Poly({(atom(*name),): 1})


def add(a, b, k=1):
    if not b.d:
        return a
    if not a.d and k == 1:
        return b
    ca, cb = a.const, b.const
    if isinstance(ca, float) or isinstance(cb, float):  # an infinity
        inf = ca if isinstance(ca, float) else cb * k
        if isinstance(ca, float) and isinstance(cb, float) and ca != cb * k:
            raise Unsupported("inf - inf")
        return num(inf)
    d = dict(a.d)
    for m, c in b.d.items():
        v = d.get(m, 0) + k * c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return Poly(d)


def mul(a, b):
    if not a.d or not b.d:
        for o in (a, b):
            if isinstance(o.const, float):
                raise Unsupported("0 * inf")
        return ZERO
    d = {}
    for m, c in a.d.items():
        for n, e in b.d.items():
            q = reduce_(m + n) if m and n else (m or n, 1)
            v = d.get(q[0], 0) + c * e * q[1]
            if v == 0:
                d.pop(q[0], None)
            else:
                d[q[0]] = v
    return Poly(d)


def reduce_(m):
    """Sorted monomial; an atom and its reciprocal cancel."""
    m = sorted(m)
    for i in m:
        n = _names[i]
        if n[0] == "inv" and n[1] in m:
            m.remove(i)
            m.remove(n[1])
            return reduce_(m)
        if n[0] == "sqrt" and isinstance(n[1], int) and m.count(i) > 1:
            m.remove(i)
            m.remove(i)
            r, c = reduce_(m)
            return r, c * n[1]
    return tuple(m), 1


def inv(a):
    c = a.const
    if c is not None:
        if c == 0:
            raise Unsupported("division by zero")
        return num(Fraction(1) / c if not isinstance(c, float) else 0)
    if len(a.d) == 1:
        (m, c), = a.d.items()
        r = num(Fraction(1) / c)
        for i in m:
            n = _names[i]
            if n[0] == "sqrt" and isinstance(n[1], int):
                r = mul(r, Poly({(i,): Fraction(1, n[1])}))
                continue
            r = mul(r, Poly({(n[1],): 1}) if n[0] == "inv" else Poly({(atom("inv", i),): 1}))
        return r
    return Poly({(atom("inv", atom("poly", a.key)),): 1})


def fn(name, *ps):
    """An opaque function of its contributions."""
    if name == "exp" and ps[0].const == 0:
        return num(1)
    if name == "exp" and ps[0].const == -math.inf:
        return ZERO
    if name == "relu" and ps[0].const is not None:
        return num(max(0, ps[0].const))
    return Poly({(atom(name, *[p.key for p in ps]),): 1})


def maxi(ps):
    items, best = set(), None
    for p in ps:
        c = p.const
        if c is not None:
            best = c if best is None else max(best, c)
            continue
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1 and _names[m[0]][0] == "max":
                n = _names[m[0]]
                items |= n[1]
                if n[2] is not None:
                    best = n[2] if best is None else max(best, n[2])
                continue
        items.add(p.key)
    if best == -math.inf:
        best = None
        if not items:
            return num(-math.inf)
    if not items:
        return num(best)
    if len(items) == 1 and best is None:
        return Poly(dict(next(iter(items))))
    return Poly({(atom("max", frozenset(items), best),): 1})


def describe(p, depth=0):
    if not isinstance(p, Poly):
        return str(p)

    def at(i):
        n = _names[i]
        if n[0] == "max":
            return "max{" + ", ".join(describe(Poly(dict(k)), depth + 1) for k in sorted(n[1], key=str)[:4]) + (f", {n[2]}" if n[2] is not None else "") + "}"
        if n[0] == "inv":
            return "1/" + at(n[1])
        if n[0] == "poly":
            return "(" + describe(Poly(dict(n[1])), depth + 1) + ")" if depth < 2 else "(..)"
        if isinstance(n[0], str) and len(n) == 2 and isinstance(n[1], tuple):
            return f"{n[0]}{list(n[1])}".replace(" ", "")
        return f"{n[0]}(..)" if depth > 1 else f"{n[0]}({', '.join(describe(Poly(dict(k)), depth + 1) if isinstance(k, frozenset) else str(k) for k in n[1:])})"

    out = []
    terms = p.d.items()
    if len(p.d) > 16:
        terms = sorted(terms, key=str)[:5]
    # independent of the order in which the analysis met the operands
    for s, c in sorted(("*".join(sorted(at(i) for i in m)), c) for m, c in terms)[:5]:
        out.append(s if c == 1 and s else (f"{c}*{s}" if s else str(c)))
    if len(p.d) > 5:
        out.append(f"... {len(p.d)} terms")
    return " + ".join(out) or "0"


# ------------------------------------------------------------------------------------ arrays
class Arr:
    __slots__ = ("shape", "data")

    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), data
        assert len(data) == size(self.shape), (self.shape, len(data))

    def __eq__(self, o):
        return isinstance(o, Arr) and self.shape == o.shape and self.data == o.data

    def at(self, idx):
        return self.data[flat(self.shape, idx)]


def size(shape):
    n = 1
    for d in shape:
        n *= d
    return n


def flat(shape, idx):
    o = 0
    for d, i in zip(shape, idx):
        o = o * d + i
    return o


def grid(shape):
    if not shape:
        yield ()
        return
    for i in range(shape[0]):
        for r in grid(shape[1:]):
            yield (i,) + r


def build(shape, f):
    return Arr(shape, [f(i) for i in grid(shape)])


def const(shape, v):
    return Arr(shape, [num(v)] * size(shape))


def leaf(name, shape):
    return build(shape, lambda i: var(name, i))


def ax(d, r):
    if not is_num(d) or not -r <= d < r:
        raise Unsupported(f"dimension {d} of rank {r}")
    return d % r


def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for dims in zip(*[(1,) * (n - len(s)) + tuple(s) for s in shapes]):
        m = {d for d in dims if d != 1}
        if len(m) > 1:
            raise Unsupported(f"shapes {shapes} do not broadcast")
        out.append(m.pop() if m else 1)
    return tuple(out)


def broadcast(a, shape):
    if a.shape == tuple(shape):
        return a
    pad = len(shape) - len(a.shape)
    if pad < 0 or bshape(a.shape, shape) != tuple(shape):
        raise Unsupported(f"{a.shape} does not broadcast to {shape}")
    return build(shape, lambda i: a.at(tuple(0 if d == 1 else j for d, j in zip(a.shape, i[pad:]))))


def zip2(a, b, f):
    s = bshape(a.shape, b.shape)
    a, b = broadcast(a, s), broadcast(b, s)
    return Arr(s, [f(x, y) for x, y in zip(a.data, b.data)])


def fmap(a, f):
    return Arr(a.shape, [f(x) for x in a.data])


def permute(a, order):
    shape = tuple(a.shape[i] for i in order)

    def src(i):
        r = [0] * len(order)
        for j, o in zip(i, order):
            r[o] = j
        return a.at(tuple(r))

    return build(shape, src)


def dims(a, spec):
    """Output dimensions by source index, None for a new unit dimension; dropped ones are units."""
    kept = [i for i in spec if i is not None]
    for i, d in enumerate(a.shape):
        if i not in kept and d != 1:
            raise Unsupported("dropped dimension is not a unit")
    shape = tuple(1 if i is None else a.shape[i] for i in spec)

    def src(idx):
        r = [0] * len(a.shape)
        for j, o in zip(idx, spec):
            if o is not None:
                r[o] = j
        return a.at(tuple(r))

    return build(shape, src)


def reshape(a, shape):
    shape = list(shape)
    if -1 in shape:
        i = shape.index(-1)
        rest = size(shape[:i] + shape[i + 1:])
        if not rest or size(a.shape) % rest:
            raise Unsupported("reshape")
        shape[i] = size(a.shape) // rest
    if size(shape) != size(a.shape):
        raise Unsupported(f"reshape {a.shape} to {tuple(shape)}")
    return Arr(shape, a.data)


def index(a, key):
    """Basic and vector indexing."""
    key = list(key) if isinstance(key, tuple) else [key]
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    full = []
    for k in key:
        if k is Ellipsis:
            full += [slice(None)] * (len(a.shape) - n)
        else:
            full.append(k)
    n = sum(1 for k in full if k is not None)
    if n > len(a.shape):
        raise Unsupported("too many indices")
    full += [slice(None)] * (len(a.shape) - n)
    sel, vec, d = [], [], 0
    for k in full:
        if k is None:
            sel.append(("new", 1))
            continue
        m = a.shape[d]
        if isinstance(k, slice):
            sel.append(("s", list(range(m))[k]))
        elif isinstance(k, int):
            if not -m <= k < m:
                raise OutOfRange(f"index {k} out of range {m}")
            sel.append(("i", k % m))
        elif isinstance(k, Arr):
            if not len(k.shape) == 1:
                raise Unsupported("index tensor")
            js = [asint(x) for x in k.data]
            if any(not -m <= j < m for j in js):
                raise OutOfRange("index out of range")
            sel.append(("v", [j % m for j in js]))
            vec.append(len(sel) - 1)
        else:
            raise Unsupported(f"index {k!r}")
        d += 1
    L = None
    if vec:
        L = max(len(sel[v][1]) for v in vec)
        if any(len(sel[v][1]) not in (1, L) for v in vec):
            raise Unsupported("index lengths")
        # integers next to index vectors are broadcast with them (their place is that of the first)
        ints = [i for i, x in enumerate(sel) if x[0] == "i"]
        allv = sorted(vec + ints)
        first = allv[0] if allv == list(range(allv[0], allv[-1] + 1)) else -1
        for i in ints:
            sel[i] = ("v", [sel[i][1]])
        vec = allv
    shape, roles = [], []
    if vec and first == -1:
        shape.append(L)
        roles.append("v")
    for i, (kind, v) in enumerate(sel):
        if kind == "v":
            if i == first:
                shape.append(L)
                roles.append("v")
        elif kind == "s":
            shape.append(len(v))
            roles.append(i)
        elif kind == "new":
            shape.append(1)
            roles.append("n")

    def src(idx):
        vi, pos = None, {}
        for r, j in zip(roles, idx):
            if r == "v":
                vi = j
            elif r != "n":
                pos[r] = j
        out = []
        for i, (kind, v) in enumerate(sel):
            if kind == "new":
                continue
            if kind == "i":
                out.append(v)
            elif kind == "v":
                out.append(v[vi if len(v) > 1 else 0])
            else:
                out.append(v[pos[i]])
        return a.at(tuple(out))

    return build(tuple(shape), src)


def asint(p):
    if isinstance(p, Arr):
        if len(p.data) != 1:
            raise Unsupported("not a scalar")
        p = p.data[0]
    if isinstance(p, bool):
        return int(p)
    if isinstance(p, int):
        return p
    c = p.const if isinstance(p, Poly) else None
    if c is None or isinstance(c, float) or Fraction(c).denominator != 1:
        raise Unsupported("not an integer")
    return int(c)


def reduce_dim(a, d, f, keep=False):
    if isinstance(d, (tuple, list)):
        ds = sorted({ax(x, len(a.shape)) for x in d}, reverse=True)
        order = [i for i in range(len(a.shape)) if i not in ds] + sorted(ds)
        b = permute(a, order)
        n = size([a.shape[i] for i in ds])
        b = reshape(b, b.shape[:len(a.shape) - len(ds)] + (n,))
        r = reduce_dim(b, -1, f)
        return reshape(r, [1 if i in ds else a.shape[i] for i in range(len(a.shape))]) if keep else r
    d = ax(d, len(a.shape))
    shape = a.shape[:d] + a.shape[d + 1:]
    r = build(shape, lambda i: f([a.at(i[:d] + (j,) + i[d:]) for j in range(a.shape[d])]))
    return reshape(r, a.shape[:d] + (1,) + a.shape[d + 1:]) if keep else r


def total(ps):
    d = {}
    for p in ps:
        for m, c in p.d.items():
            if isinstance(c, float):
                raise Unsupported("sum with inf")
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    return Poly(d)


def mean(ps):
    return mul(total(ps), num(Fraction(1, len(ps))))


def roll(a, shift, d):
    d = ax(d, len(a.shape))
    n = a.shape[d]
    return build(a.shape, lambda i: a.at(i[:d] + ((i[d] - shift) % n,) + i[d + 1:]))


def cat(arrs, d):
    d = ax(d, len(arrs[0].shape))
    for x in arrs:
        if x.shape[:d] + x.shape[d + 1:] != arrs[0].shape[:d] + arrs[0].shape[d + 1:]:
            raise Unsupported("cat shapes")
    where = [(x, j) for x in arrs for j in range(x.shape[d])]
    shape = arrs[0].shape[:d] + (len(where),) + arrs[0].shape[d + 1:]
    return build(shape, lambda i: where[i[d]][0].at(i[:d] + (where[i[d]][1],) + i[d + 1:]))


def stack(arrs, d):
    d = ax(d, len(arrs[0].shape) + 1)
    return cat([reshape(x, x.shape[:d] + (1,) + x.shape[d:]) for x in arrs], d)


def tup(v, n):
    if isinstance(v, int):
        return (v,) * n
    v = tuple(v)
    if len(v) == 1:
        return v * n
    if len(v) != n:
        raise Unsupported("option tuple")
    return v


def conv(x, w, b, stride, padding, dilation, groups):
    n = len(x.shape) - 2
    stride, padding, dilation = tup(stride, n), tup(padding, n), tup(dilation, n)
    K = w.shape[2:]
    co, cig = w.shape[:2]
    if len(w.shape) != n + 2 or co % groups or x.shape[1] != cig * groups:
        raise Unsupported("convolution channels")
    osz = []
    for L, p, d, k, s in zip(x.shape[2:], padding, dilation, K, stride):
        o = (L + 2 * p - d * (k - 1) - 1) // s + 1
        if o < 1:
            raise Unsupported("empty convolution output")
        osz.append(o)
    cog = co // groups

    def el(i):
        bt, o, pos = i[0], i[1], i[2:]
        g = o // cog
        out = []
        for c in range(cig):
            for t in grid(K):
                src = tuple(q * s - p + j * d for q, s, p, j, d in zip(pos, stride, padding, t, dilation))
                if all(0 <= a < L for a, L in zip(src, x.shape[2:])):
                    out.append(mul(w.at((o, c) + t), x.at((bt, g * cig + c) + src)))
        if b is not None:
            out.append(b.at((o,)))
        return total(out)

    return build((x.shape[0], co) + tuple(osz), el)


def pool(x, kind, k, stride, padding, dilation=1, ceil=False, include_pad=True, divisor=None, n=None):
    n = n or len(x.shape) - 2
    lead = x.shape[:len(x.shape) - n]
    k = tup(k, n)
    stride = k if stride is None or stride == () else tup(stride, n)
    padding, dilation = tup(padding, n), tup(dilation, n)
    L = x.shape[len(lead):]
    osz = []
    for l, p, d, q, s in zip(L, padding, dilation, k, stride):
        e = l + 2 * p - d * (q - 1) - 1
        if e < 0:
            raise Unsupported("empty pooling output")
        o = (-(-e // s) if ceil else e // s) + 1
        if ceil and (o - 1) * s >= l + p:
            o -= 1
        osz.append(o)

    def el(i):
        pre, pos = i[:len(lead)], i[len(lead):]
        out, cnt = [], 1
        for q, s, p, kk, l in zip(pos, stride, padding, k, L):
            a = q * s - p
            e = min(a + kk, l + p)
            if include_pad:
                cnt *= e - a
            else:
                cnt *= min(e, l) - max(a, 0)
        for t in grid(k):
            src = tuple(q * s - p + j * d for q, s, p, j, d in zip(pos, stride, padding, t, dilation))
            if all(0 <= a < l for a, l in zip(src, L)):
                out.append(x.at(pre + src))
        if kind == "max":
            return maxi(out) if out else num(-math.inf)
        return mul(total(out), num(Fraction(1, divisor or cnt)))

    return build(lead + tuple(osz), el)


def adaptive(x, kind, out):
    n = len(out)
    lead, L = x.shape[:-n], x.shape[-n:]
    out = tuple(l if o is None else o for o, l in zip(out, L))

    def el(i):
        pre, pos = i[:len(lead)], i[len(lead):]
        rs = [range(q * l // o, -(-(q + 1) * l // o)) for q, l, o in zip(pos, L, out)]
        idx = [()]
        for r in rs:
            idx = [a + (j,) for a in idx for j in r]
        items = [x.at(pre + a) for a in idx]
        return maxi(items) if kind == "max" else mean(items)

    return build(lead + out, el)


def padding(x, pad, mode="constant", value=0):
    n = len(pad) // 2
    lo = [pad[2 * (n - 1 - j)] for j in range(n)]
    hi = [pad[2 * (n - 1 - j) + 1] for j in range(n)]
    r = len(x.shape) - n
    shape = x.shape[:r] + tuple(l + a + b for l, a, b in zip(x.shape[r:], lo, hi))

    def el(i):
        src = []
        for j, (q, a, l) in enumerate(zip(i[r:], lo, x.shape[r:])):
            q -= a
            if not 0 <= q < l:
                if mode == "constant":
                    return num(value or 0)
                if mode == "replicate":
                    q = min(max(q, 0), l - 1)
                elif mode == "circular":
                    q %= l
                elif mode == "reflect":
                    q = -q if q < 0 else 2 * (l - 1) - q
                else:
                    raise Unsupported(f"padding mode {mode}")
            src.append(q)
        return x.at(i[:r] + tuple(src))

    return build(shape, el)


def matmul(a, b):
    if len(a.shape) == 2 and len(b.shape) == 2:
        return build((a.shape[0], b.shape[1]), lambda i: total([mul(a.at((i[0], j)), b.at((j, i[1]))) for j in range(a.shape[1])]))
    if len(a.shape) == 3 and len(b.shape) == 3 and a.shape[0] == b.shape[0] and a.shape[2] == b.shape[1]:
        return build((a.shape[0], a.shape[1], b.shape[2]), lambda i: total([mul(a.at((i[0], i[1], j)), b.at((i[0], j, i[2]))) for j in range(a.shape[2])]))
    raise Unsupported(f"matmul {a.shape} {b.shape}")


def linear(x, w, b):
    if w.shape[1] != x.shape[-1]:
        raise Unsupported("linear shapes")

    def el(i):
        ps = [mul(x.at(i[:-1] + (j,)), w.at((i[-1], j))) for j in range(w.shape[1])]
        if b is not None:
            ps.append(b.at((i[-1],)))
        return total(ps)

    return build(x.shape[:-1] + (w.shape[0],), el)


def recurrence(kind, label, layers, hidden, x, state, proj=0):
    """Outputs and last state of a recurrent torch module over (B, T, C), batch first.

    Every cell is an opaque function of its input and previous state; a missing state is zeros.
    """
    B, T_, C = x.shape
    if T_ == 0:
        raise OutOfRange("a recurrent module is run over an empty sequence")
    out = proj or hidden
    names = ("h", "c") if kind == "LSTM" else ("h",)
    if state is None:
        state = [const((layers, B, out if n == "h" else hidden), 0) for n in names]
    if len(state) != len(names):
        raise Unsupported("recurrent state of another form")
    st = {}
    for n, a in zip(names, state):
        if a.shape != (layers, B, out if n == "h" else hidden):
            raise OutOfRange(f"recurrent state of shape {a.shape}")
        for l in range(layers):
            for b in range(B):
                st[n, l, b] = [a.at((l, b, i)) for i in range(a.shape[2])]
    rows = {}
    for t in range(T_):
        for b in range(B):
            v = [x.at((b, t, i)) for i in range(C)]
            for l in range(layers):
                prev = [p for n in names for p in st[n, l, b]]
                for n in names:
                    st[n, l, b] = [fn(f"{kind}:{label}:{l}:{n}:{i}", *v, *prev) for i in range(len(st[n, l, b]))]
                v = st["h", l, b]
            rows[b, t] = v
    y = build((B, T_, out), lambda i: rows[i[0], i[1]][i[2]])
    last = [build((layers, B, out if n == "h" else hidden), lambda i, n=n: st[n, i[0], i[1]][i[2]]) for n in names]
    return y, tuple(last) if kind == "LSTM" else last[0]


def layernorm(x, label):
    """An opaque function, per module and element, of the last axis."""
    return build(x.shape, lambda i: fn(f"{label}[{i[-1]}]", *[x.at(i[:-1] + (j,)) for j in range(x.shape[-1])]))


def softmax(x, d):
    d = ax(d, len(x.shape))
    e = fmap(x, lambda p: fn("exp", p))
    s = reduce_dim(e, d, lambda ps: inv(total(ps)), keep=True)
    return zip2(e, s, mul)


# ------------------------------------------------------------------------------------ evaluation
POINTWISE = {"torch.exp": "exp", "torch.relu": "relu", "F.relu": "relu", "torch.tanh": "tanh", "torch.sigmoid": "sigmoid", "F.gelu": "gelu"}


class Eval:
    """Evaluates frozen terms; `env` maps extents and numbers, `leaves` tensors to their shapes."""

    last = None  # the evaluation made last

    def __init__(self, env, leaves, resolve=None):
        Eval.last = self
        self.env, self.leaves, self.resolve = env, leaves, resolve
        self.memo = {}

    def __call__(self, v):
        if isinstance(v, T):
            r = self.memo.get(v)
            if r is None:
                r = self.memo[v] = self.ev(v)
            return r
        if isinstance(v, tuple):
            return tuple(self(x) for x in v)
        return v

    def arr(self, v):
        r = self(v)
        if isinstance(r, Arr):
            return r
        if isinstance(r, (int, float, Fraction, Poly)):
            return Arr((), [num(r)])
        raise Unsupported(f"not a tensor: {show(v)[:80]}")

    def opt(self, v):
        """A tensor that may be absent."""
        return None if v is None or self(v) is None else self.arr(v)

    def num(self, v):
        r = self(v)
        if isinstance(r, Arr):
            return asint(r)
        if isinstance(r, Poly):
            return asint(r)
        return r

    def seq(self, v):
        if isinstance(v, T) and v.op in ("list", "tuple"):
            return list(v.args)
        if isinstance(v, T) and v.op == "rep":
            return [v.args[0]] * self.num(v.args[1])
        if isinstance(v, tuple):
            return list(v)
        raise Unsupported(f"sequence {show(v)[:80]}")

    def ints(self, v):
        if v is None:
            return None
        if isinstance(v, (tuple, T)) and not (isinstance(v, T) and v.op not in ("list", "tuple", "rep", "shape")):
            if isinstance(v, T) and v.op == "shape":
                return self.arr(v.args[0]).shape
            return tuple(None if x is None else self.num(x) for x in self.seq(v))
        return self.num(v)

    def key(self, k):
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if k is None or isinstance(k, int):
            return k
        if isinstance(k, T):
            if k.op == "slice":
                return slice(*[None if a is None else self.num(a) for a in k.args])
            if k.op == "ellipsis":
                return Ellipsis
            if k.op == "list":
                return Arr((len(k.args),), [num(self.num(a)) for a in k.args])
            if k.op == "range":
                r = range(*[self.num(a) for a in k.args])
                return Arr((len(r),), [num(i) for i in r])
            r = self(k)
            if isinstance(r, Arr):
                return asint(r) if r.shape == () else r
            if isinstance(r, Poly):
                return asint(r)
            if isinstance(r, int):
                return r
        raise Unsupported(f"index {show(k)[:80]}")

    def view(self, a, v):
        """Apply one view step (as recorded by the interpreter) to an array."""
        if v.op == "vsel":
            d, k = v.args
            return index(a, (slice(None),) * ax(self.num(d), len(a.shape)) + (self.num(k),))
        if v.op == "vslice":
            return index(a, self.key(v.args[0]))
        if v.op == "vw":
            return self.vw(a, v.args[0], v.args[1:])
        return self.vw(a, v.args[0], v.args[1:])

    def vw(self, a, name, args):
        r = len(a.shape)
        flatargs = self.seq(args[0]) if len(args) == 1 and isinstance(args[0], (tuple,)) or len(args) == 1 and isinstance(args[0], T) and args[0].op == "list" else list(args)
        if args and isinstance(args[0], tuple) and len(args[0]) == 2 and isinstance(args[0][0], str):
            flatargs = [x[1] for x in args]
        if name == "dims":
            return dims(a, args[0])
        if name == "slice":
            return index(a, self.key(args[0]))
        if name in ("reshape", "view"):
            return reshape(a, [self.num(x) for x in flatargs])
        if name == "expand":
            s = [self.num(x) for x in flatargs]
            base = (1,) * (len(s) - r) + a.shape
            return broadcast(a, tuple(b if x == -1 else x for x, b in zip(s, base)))
        if name == "permute":
            return permute(a, [ax(self.num(x), r) for x in flatargs])
        if name in ("transpose", "swapaxes"):
            o = list(range(r))
            x, y = (ax(self.num(q), r) for q in flatargs)
            o[x], o[y] = o[y], o[x]
            return permute(a, o)
        if name == "t":
            return permute(a, [1, 0]) if r == 2 else a
        if name in ("movedim", "moveaxis"):
            x, y = (ax(self.num(q), r) for q in flatargs)
            o = [i for i in range(r) if i != x]
            o.insert(y, x)
            return permute(a, o)
        if name == "unsqueeze":
            d = ax(self.num(flatargs[0]), r + 1)
            return reshape(a, a.shape[:d] + (1,) + a.shape[d:])
        if name == "squeeze":
            if not flatargs:
                return reshape(a, [d for d in a.shape if d != 1])
            d = ax(self.num(flatargs[0]), r)
            return reshape(a, a.shape[:d] + a.shape[d + 1:]) if a.shape[d] == 1 else a
        if name == "flatten":
            s = ax(self.num(flatargs[0]) if flatargs else 0, r)
            e = ax(self.num(flatargs[1]) if len(flatargs) > 1 else -1, r)
            return reshape(a, a.shape[:s] + (-1,) + a.shape[e + 1:])
        raise Unsupported(f"view {name}")

    def ev(self, v):
        if v in self.env:
            return self.env[v]
        if v in self.leaves:
            sh = self.leaves[v]
            return None if sh is None else leaf(show(v), sh)
        m = getattr(self, "op_" + v.op, None)
        if m is None:
            raise Unsupported(f"operation {v.op}: {show(v)[:100]}")
        return m(v)

    def op_sym(self, v):
        raise Unsupported(f"unknown {show(v)}")

    def op_poly(self, v):
        out, tensors = 0, False
        for mono, c in v.args[0]:
            t = c
            for a in mono:
                x = self(a)
                if isinstance(x, Arr) and x.shape != ():
                    tensors = True
                    break
                t = t * self.num(a)
            if tensors:
                break
            out += t
        if not tensors:
            return out
        out = None
        for mono, c in v.args[0]:
            t = Arr((), [num(c)])
            for a in mono:
                t = zip2(t, self.arr(a), mul)
            out = t if out is None else zip2(out, t, add)
        return out

    def op_size(self, v):
        a = self.arr(v.args[0])
        return a.shape[self.num(v.args[1])]

    def op_len(self, v):
        return self.arr(v.args[0]).shape[0]

    def op_dim(self, v):
        return len(self.arr(v.args[0]).shape)

    def op_shape(self, v):
        return self.arr(v.args[0]).shape

    def binary(self, v, f, g):
        a, b = self(v.args[0]), self(v.args[1])
        plain = (int, float, Fraction)
        if isinstance(a, plain) and isinstance(b, plain):
            return f(a, b)
        return zip2(self.arr(v.args[0]), self.arr(v.args[1]), g)

    def op_add(self, v):
        return self.binary(v, lambda a, b: a + b, add)

    def op_sub(self, v):
        return self.binary(v, lambda a, b: a - b, lambda a, b: add(a, b, -1))

    def op_mult(self, v):
        return self.binary(v, lambda a, b: a * b, mul)

    def op_div(self, v):
        return self.binary(v, lambda a, b: Fraction(a) / Fraction(b), lambda a, b: mul(a, inv(b)))

    def op_mod(self, v):
        return self.binary(v, lambda a, b: a % b, lambda a, b: num(asint(a) % asint(b)))

    def op_floordiv(self, v):
        return self.binary(v, lambda a, b: a // b, lambda a, b: num(asint(a) // asint(b)))

    def op_neg(self, v):
        a = self(v.args[0])
        return fmap(a, lambda p: mul(p, num(-1))) if isinstance(a, Arr) else -a

    def op_max(self, v):
        return max(self.num(a) for a in v.args)

    def op_min(self, v):
        return min(self.num(a) for a in v.args)

    def op_vw(self, v):
        return self.vw(self.arr(v.args[0]), v.args[1], v.args[2:])

    def op_pieces(self, v):
        """split / chunk / tensor_split / unbind of a tensor."""
        x, name, k, d = self.arr(v.args[0]), v.args[1], v.args[2], v.args[3]
        d = ax(self.num(d), len(x.shape))
        n = x.shape[d]
        k = self.ints(k)
        if name == "unbind":
            return tuple(index(x, (slice(None),) * d + (i,)) for i in range(n))
        if name == "chunk":
            w = -(-n // k)
            cuts = list(range(0, n, w)) + [n]
        elif name == "tensor_split" and isinstance(k, int):
            cuts = [0]
            for i in range(k):
                cuts.append(cuts[-1] + n // k + (1 if i < n % k else 0))
        elif name == "split" and isinstance(k, int):
            cuts = list(range(0, n, k)) + [n]
        elif name == "split":
            cuts = [0]
            for w in k:
                cuts.append(cuts[-1] + w)
        else:
            raise Unsupported(f"pieces of {name}")
        return tuple(index(x, (slice(None),) * d + (slice(a, b),)) for a, b in zip(cuts, cuts[1:]))

    def op_sel(self, v):
        c = v.args[0]
        if isinstance(c, T) and (c.op == "call" and isinstance(c.args[0], str) and c.args[0].endswith(".forward") or c.op == "sel"):
            r = self(c)
            if isinstance(r, tuple):
                return r[self.num(v.args[2])]
        a = self.arr(v.args[0])
        d = ax(self.num(v.args[1]), len(a.shape))
        k = self.key(v.args[2])
        if isinstance(k, Arr):  # a tensor of positions
            r = index(a, (slice(None),) * d + (Arr((len(k.data),), k.data),))
            return reshape(r, a.shape[:d] + tuple(k.shape) + a.shape[d + 1:])
        return index(a, (slice(None),) * d + (k,))

    def op_gather(self, v):
        return index(self.arr(v.args[0]), self.key(v.args[1]))

    def op_set(self, v):
        base, path, key, val = v.args
        a = self.arr(base)
        ids = Arr(a.shape, list(range(len(a.data))))
        for p in path:
            ids = self.view(ids, p)
        ids = index(ids, self.key(key))
        x = broadcast(self.arr(val), ids.shape) if len(self.arr(val).shape) <= len(ids.shape) else reshape(self.arr(val), ids.shape)
        data = list(a.data)
        for i, e in zip(ids.data, x.data):
            data[i] = e
        return Arr(a.shape, data)

    def op_upd(self, v):
        base, how, path = v.args[:3]
        a = self.arr(base)
        ids = Arr(a.shape, list(range(len(a.data))))
        for p in path:
            ids = self.view(ids, p)
        cur = Arr(ids.shape, [a.data[i] for i in ids.data])
        name = str(how).rstrip("_")
        args = list(v.args[3:])
        ops = {"add": add, "iadd": add, "sub": lambda x, y: add(x, y, -1), "mul": mul, "mult": mul, "div": lambda x, y: mul(x, inv(y))}
        if name == "zero":
            new = const(ids.shape, 0)
        elif name == "fill" or name == "copy":
            new = broadcast(self.arr(args[0]), ids.shape)
        elif name in ops and args:
            new = broadcast(zip2(cur, self.arr(args[0]), ops[name]), ids.shape)
        else:
            raise Unsupported(f"in-place {how}")
        data = list(a.data)
        for i, e in zip(ids.data, new.data):
            data[i] = e
        return Arr(a.shape, data)

    def op_item(self, v):
        c, k = v.args
        if isinstance(c, T) and c.op == "call" and c.args[0] in ("F._in_projection_packed", "F._in_projection"):
            return self.projection(c)[self.num(k)]
        r = self(c)
        if isinstance(r, tuple):
            return r[self.num(k)]
        raise Unsupported(f"item of {show(c)[:80]}")

    def projection(self, c):
        if c in self.memo:
            return self.memo[c]
        a = list(c.args[1])
        if c.args[0] == "F._in_projection_packed":
            q, k, v, w = (self.arr(x) for x in a[:4])
            b = self.opt(a[4]) if len(a) > 4 else None
            n = w.shape[0] // 3
            part = lambda t, i: None if t is None else index(t, slice(i * n, (i + 1) * n))
            r = tuple(linear(x, part(w, i), part(b, i)) for i, x in enumerate((q, k, v)))
        else:
            x = [self.opt(y) for y in a]
            x += [None] * (9 - len(x))
            r = tuple(linear(x[i], x[3 + i], x[6 + i]) for i in range(3))
        self.memo[c] = r
        return r

    def op_list(self, v):
        return tuple(self(x) for x in v.args)

    op_tuple = op_list

    def op_attr(self, v):
        if v.args[1] in ("dtype", "device"):
            return v
        if v.args[1] == "T":
            a = self.arr(v.args[0])
            return permute(a, list(range(len(a.shape)))[::-1])
        raise Unsupported(f"unknown {show(v)}")

    def op_const(self, v):
        return v.args[0]

    def op_out(self, v):
        base, args = v.args[0], v.args[2]
        if self.resolve is not None and isinstance(args, T) and args.op == "args":
            r = self.resolve(self, base, list(args.args[0]), dict(args.args[1]))
            if r is not None:
                return r
        raise Unsupported(f"module call {show(base)}")

    def op_m(self, v):
        name, x, a = v.args[0], v.args[1], list(v.args[2])
        if name in ("clone", "contiguous", "to", "detach", "float", "type_as", "type"):
            return self(x)
        if name in ("new_zeros", "new_ones", "new_full"):
            s = self.ints(a[0]) if len(a) == 1 or name == "new_full" else tuple(self.num(q) for q in a)
            return const(s if isinstance(s, tuple) else (s,), {"new_zeros": 0, "new_ones": 1}.get(name, self.num(a[-1])))
        if name == "repeat":
            X = self.arr(x)
            reps = self.ints(a[0]) if len(a) == 1 and not isinstance(a[0], int) else tuple(self.num(q) for q in a)
            X = reshape(X, (1,) * (len(reps) - len(X.shape)) + X.shape)
            return build(tuple(d * r for d, r in zip(X.shape, reps)), lambda i: X.at(tuple(j % d for j, d in zip(i, X.shape))))
        if name in ("sum", "mean", "roll", "matmul", "bmm", "softmax", "exp", "relu", "index_select", "div", "add", "sub", "mul", "amax", "flip"):
            return self.apply("torch." + name, [x] + a, {})
        if name in ("item", "long", "int"):
            return self.num(x)
        raise Unsupported(f"method {name}")

    def op_call(self, v):
        return self.apply(v.args[0], list(v.args[1]), dict(v.args[2]))

    def apply(self, f, a, kw):
        if not isinstance(f, str):
            raise Unsupported(f"call of {show(f)[:60]}")
        arr, ints = self.arr, self.ints

        def arg(i, *names, default=None):
            if i is not None and i < len(a):
                return a[i]
            for n in names:
                if n in kw:
                    return kw[n]
            return default

        if f in ("F.conv1d", "F.conv2d", "F.conv3d"):
            b = arg(2, "bias")
            return conv(arr(arg(0, "input")), arr(arg(1, "weight")), None if self(b) is None else arr(b), ints(arg(3, "stride", default=1)), ints(arg(4, "padding", default=0)),
                        ints(arg(5, "dilation", default=1)), self.num(arg(6, "groups", default=1)))
        if f[:-2] in ("F.avg_pool", "F.max_pool"):
            n = int(f[-2])
            x = arr(arg(0, "input"))
            if f.startswith("F.avg"):
                dv = arg(6, "divisor_override")
                return pool(x, "avg", ints(arg(1, "kernel_size")), ints(arg(2, "stride")), ints(arg(3, "padding", default=0)), ceil=self(arg(4, "ceil_mode", default=False)),
                            include_pad=self(arg(5, "count_include_pad", default=True)), divisor=None if dv is None else self.num(dv), n=n)
            return pool(x, "max", ints(arg(1, "kernel_size")), ints(arg(2, "stride")), ints(arg(3, "padding", default=0)), ints(arg(4, "dilation", default=1)),
                        self(arg(5, "ceil_mode", default=False)), n=n)
        if f[:-2] in ("F.adaptive_avg_pool", "F.adaptive_max_pool"):
            n = int(f[-2])
            return adaptive(arr(arg(0, "input")), f[11:14], tup(ints(arg(1, "output_size")), n))
        if f == "F.pad":
            return padding(arr(arg(0, "input")), ints(arg(1, "pad")), arg(2, "mode", default="constant"), arg(3, "value", default=0))
        if f == "F.linear":
            b = arg(2, "bias")
            return linear(arr(arg(0, "input")), arr(arg(1, "weight")), None if self(b) is None else arr(b))
        if f in ("torch.zeros_like", "torch.ones_like"):
            return const(arr(arg(0, "input")).shape, int(f == "torch.ones_like"))
        if f == "torch.full_like":
            return const(arr(arg(0, "input")).shape, self.infnum(arg(1, "fill_value")))
        if f in ("torch.zeros", "torch.ones"):
            s = ints(arg(0, "size")) if len(a) < 2 else tuple(self.num(x) for x in a)
            return const(s if isinstance(s, tuple) else (s,), int(f == "torch.ones"))
        if f == "torch.full":
            s = ints(arg(0, "size"))
            return const(s if isinstance(s, tuple) else (s,), self.infnum(arg(1, "fill_value")))
        if f in ("torch.clone", "torch.Tensor.contiguous"):
            return arr(arg(0, "input"))
        if f in ("torch.dropout", "F.dropout"):
            p = arg(1, "p")
            if p in (0, 0.0) or kw.get("training", arg(2, "train")) is False:
                return arr(arg(0, "input"))
        if f == "torch.arange":
            r = range(*[self.num(x) for x in a])
            return Arr((len(r),), [num(i) for i in r])
        if f == "torch.tensor":
            return self.tensor(a[0])
        if f == "torch.remainder":
            return zip2(arr(a[0]), arr(arg(1, "other")), lambda x, y: num(asint(x) % asint(y)))
        if f in ("torch.sum", "torch.mean", "torch.amax", "torch.amin"):
            x = arr(arg(0, "input"))
            d, keep = arg(1, "dim", "axis"), bool(kw.get("keepdim", a[2] if len(a) > 2 else False))
            g = {"torch.sum": total, "torch.mean": mean, "torch.amax": maxi}.get(f)
            if g is None:
                raise Unsupported(f)
            if d is None:
                return reduce_dim(reshape(x, (size(x.shape),)), 0, g)
            return reduce_dim(x, ints(d), g, keep)
        if f == "torch.max" and arg(1, "dim") is None:
            x = arr(a[0])
            return reduce_dim(reshape(x, (size(x.shape),)), 0, maxi)
        if f == "torch.max" and isinstance(arg(1, "dim"), int):
            x = arr(a[0])
            r = reduce_dim(x, a[1] if len(a) > 1 else kw["dim"], maxi, bool(kw.get("keepdim")))
            return (r, None)
        if f in ("torch.max", "torch.maximum"):
            return zip2(arr(a[0]), arr(arg(1, "other")), lambda x, y: maxi([x, y]))
        if f == "torch.stack":
            return stack([arr(x) for x in self.seq(arg(0, "tensors"))], self.num(arg(1, "dim", default=0)))
        if f in ("torch.cat", "torch.concat"):
            return cat([arr(x) for x in self.seq(arg(0, "tensors"))], self.num(arg(1, "dim", default=0)))
        if f == "torch.roll":
            s, d = ints(arg(1, "shifts")), ints(arg(2, "dims"))
            x = arr(arg(0, "input"))
            for q, e in zip(s if isinstance(s, tuple) else (s,), d if isinstance(d, tuple) else (d,)):
                x = roll(x, q, e)
            return x
        if f == "torch.flip":
            d = ints(arg(1, "dims"))
            x = arr(arg(0, "input"))
            for e in d if isinstance(d, tuple) else (d,):
                x = index(x, (slice(None),) * ax(e, len(x.shape)) + (Arr((x.shape[e],), [num(i) for i in range(x.shape[e])][::-1]),))
            return x
        if f == "torch.index_select":
            x, d = arr(arg(0, "input")), self.num(arg(1, "dim"))
            i = arr(arg(2, "index"))
            return index(x, (slice(None),) * ax(d, len(x.shape)) + (i,))
        if f in ("torch.bmm", "torch.matmul"):
            return matmul(arr(a[0]), arr(a[1]))
        if f == "torch.baddbmm":
            return zip2(arr(a[0]), matmul(arr(a[1]), arr(a[2])), add)
        if f in ("torch.softmax", "F.softmax"):
            return softmax(arr(arg(0, "input")), self.num(arg(1, "dim")))
        if f in POINTWISE:
            return fmap(arr(arg(0, "input")), lambda p: fn(POINTWISE[f], p))
        if f == "math.sqrt":
            q = self.num(a[0])
            if not isinstance(q, (int, Fraction)) or q <= 0:
                return 0 if q == 0 and is_num(q) else Poly({(atom("sqrt", q),): 1})
            r = root(q)
            return r.const if r.const is not None and Fraction(r.const).denominator == 1 else r
        if f in ("torch.add", "torch.sub", "torch.mul", "torch.div") and len(a) == 2:
            g = {"add": add, "sub": lambda x, y: add(x, y, -1), "mul": mul, "div": lambda x, y: mul(x, inv(y))}[f[6:]]
            return zip2(arr(a[0]), arr(a[1]), g)
        if f.endswith(".forward") and self.resolve is not None and isinstance(a[0], T) and not kw:
            r = self.resolve(self, a[0], a[1:], {}, f[:-8])
            if r is not None:
                return r
        raise Unsupported(f"function {f}")

    def infnum(self, v):
        from .fills import number
        n = number(v)
        return n if n is not None else self.num(v)

    def tensor(self, v):
        if isinstance(v, T) and v.op in ("list", "tuple", "rep"):
            xs = [self.tensor(x) for x in self.seq(v)]
            return stack(xs, 0) if xs else Arr((0,), [])
        if isinstance(v, T) and v.op == "range":
            r = range(*[self.num(x) for x in v.args])
            return Arr((len(r),), [num(i) for i in r])
        return self.arr(v)


SIZES = {"size", "len", "dim", "shape", "dimstack", "numel"}


def mentions_size(c):
    if isinstance(c, tuple):
        return any(mentions_size(x) for x in c)
    return isinstance(c, T) and (c.op in SIZES or any(mentions_size(x) for x in c.args if isinstance(x, (T, tuple))))


def holds(ev, c):
    if isinstance(c, bool):
        return c
    try:
        if c.op == "ge0":
            return ev.num(c.args[0]) >= 0
        if c.op == "eq0":
            return ev.num(c.args[0]) == 0
        if c.op == "not":
            q = holds(ev, c.args[0])
            return None if q is None else not q
        if c.op == "truth" and isinstance(c.args[0], T) and c.args[0].op in ("eq", "ne"):
            a, b = (ev.ints(x) if isinstance(x, tuple) or isinstance(x, T) and x.op in ("shape", "list", "tuple") else ev.num(x) for x in c.args[0].args)
            return (a == b) == (c.args[0].op == "eq")
    except (Unsupported, ArithmeticError, TypeError, KeyError, IndexError, AssertionError):
        pass
    return None


def settle(ev, conds):
    """Whether the path is the one taken at the extents at hand (None: not known)."""
    r = True
    for c, v in conds:
        q = holds(ev, c)
        if q is not None and q != v:
            return False
        if q is None and mentions_size(c):
            r = None
    return r
