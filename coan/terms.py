"""Abstract values of the analyser.

Everything the analysed program could compute is represented by
 - plain Python constants (None, bool, int, float, str, Ellipsis),
 - `T` terms: hash-consed uninterpreted terms (the value-numbering domain).
   Integer arithmetic is kept in a canonical polynomial normal form,
 - structured values (tuple, PList, PDict, PSet, Slice),
 - tensors: `Ten` = a storage cell plus a chain of view operations,
 - program objects (functions, classes, instances), see `interp`.
"""
import itertools

_intern = {}
_uid = itertools.count()


class T:
    __slots__ = ("op", "args", "uid")

    def __new__(cls, op, *args):
        key = (op, tuple((type(a), a) for a in args))
        t = _intern.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args, t.uid = op, args, next(_uid)
            _intern[key] = t
        return t

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return show(self)


def sym(name):
    return T("sym", name)


def _tupshow(items):
    return ", ".join(show(i) for i in items)


def show(v, depth=0):
    if isinstance(v, T):
        if v.op == "sym":
            return str(v.args[0])
        if v.op == "poly":
            out = []
            for mono, c in v.args[0]:
                m = "*".join(show(a) for a in mono)
                if not mono:
                    out.append(str(c))
                elif c == 1:
                    out.append(m)
                elif c == -1:
                    out.append("-" + m)
                else:
                    out.append(f"{c}*{m}")
            return "(" + " + ".join(out).replace("+ -", "- ") + ")"
        if v.op == "attr":
            return f"{show(v.args[0])}.{v.args[1]}"
        if v.op == "item":
            return f"{show(v.args[0])}[{show(v.args[1])}]"
        if v.op == "tuple":
            return "(" + _tupshow(v.args) + ")"
        if v.op == "list":
            return "[" + _tupshow(v.args) + "]"
        if v.op == "ge0":
            return f"{show(v.args[0])} >= 0"
        if v.op == "eq0":
            return f"{show(v.args[0])} == 0"
        if v.op == "const":
            return repr(v.args[0])
        return f"{v.op}({_tupshow(v.args)})"
    if isinstance(v, tuple):
        return "(" + _tupshow(v) + ")"
    if isinstance(v, (str, int, float, bool)) or v is None:
        return repr(v)
    return repr(v)


def subterms(v, seen=None):
    """All T subterms of v (v may be any frozen value)."""
    if seen is None:
        seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.args)
        elif isinstance(x, (tuple, list, frozenset)):
            stack.extend(x)


def mentions(v, pred):
    return any(pred(t) for t in subterms(v))


def unknown(v):
    return mentions(v, lambda t: t.op == "unknown")


def subst(v, mapping, cache=None):
    """Replace terms in v by mapping (bottom-up, re-normalising polynomials)."""
    if cache is None:
        cache = {}
    if isinstance(v, T):
        if v in mapping:
            return mapping[v]
        if v in cache:
            return cache[v]
        if v.op == "poly":
            acc = 0
            for mono, c in v.args[0]:
                term = c
                for a in mono:
                    term = p_mul(term, subst(a, mapping, cache))
                acc = p_add(acc, term)
            r = acc
        else:
            args = tuple(subst(a, mapping, cache) for a in v.args)
            r = v if args == v.args else renorm(v.op, args)
        cache[v] = r
        return r
    if isinstance(v, tuple):
        return tuple(subst(a, mapping, cache) for a in v)
    return v


def renorm(op, args):
    if op == "mod":
        return p_mod(*args)
    if op == "floordiv":
        return p_floordiv(*args)
    if op == "max":
        return p_max(args)
    if op == "min":
        return p_min(args)
    if op == "vw" and len(args) == 3 and args[1] == "dims" and isinstance(args[0], T) and args[0].op == "vw":
        from .shapes import make_dims
        return make_dims(args[0], args[2])
    if op == "sel" and isinstance(args[0], T) and args[0].op in ("vw", "set"):
        from .interp import sel_term
        return sel_term(*args)
    return T(op, *args)


# --------------------------------------------------------------- polynomials
def is_num(v):
    return isinstance(v, int) and not isinstance(v, bool)


def p_dict(v):
    if isinstance(v, bool):
        return {(): int(v)} if v else {}
    if isinstance(v, int):
        return {(): v} if v else {}
    if isinstance(v, T) and v.op == "poly":
        return dict(v.args[0])
    return {(v,): 1}


def _akey(a):
    return a.uid if isinstance(a, T) else hash(a)


def p_make(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return c
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple(_akey(a) for a in mc[0])))
    return T("poly", items)


def p_add(a, b, k=1):
    d = dict(p_dict(a))
    for m, c in p_dict(b).items():
        d[m] = d.get(m, 0) + k * c
    return p_make(d)


def p_sub(a, b):
    return p_add(a, b, -1)


def p_neg(a):
    return p_sub(0, a)


def p_mul(a, b):
    d = {}
    for m1, c1 in p_dict(a).items():
        for m2, c2 in p_dict(b).items():
            m = tuple(sorted(m1 + m2, key=_akey))
            d[m] = d.get(m, 0) + c1 * c2
    return p_make(d)


def p_mod(a, b):
    if is_num(a) and is_num(b) and b != 0:
        return a % b
    if is_num(a) and a == 0:
        return 0
    if isinstance(a, T) and a.op == "mod" and a.args[1] == b:
        return a
    if b == 1 or exact_quotient(a, b) is not None:
        return 0
    return T("mod", a, b)


def exact_quotient(a, b):
    """a / b when b is a single positive monomial dividing every monomial of a, else None."""
    if is_num(b) or not isinstance(a, T):
        return None
    db = p_dict(b)
    if len(db) != 1:
        return None
    (mb, cb), = db.items()
    if cb != 1 or () == mb or any(not (isinstance(x, T) and POSITIVE.get(x, 0) >= 1) for x in mb):
        return None
    out = {}
    for m, c in p_dict(a).items():
        m = list(m)
        for x in mb:
            if x not in m:
                return None
            m.remove(x)
        out[tuple(m)] = c
    return p_make(out)


def p_floordiv(a, b):
    if is_num(a) and is_num(b) and b != 0:
        return a // b
    if b == 1:
        return a
    q = exact_quotient(a, b)
    if q is not None:
        return q
    return T("floordiv", a, b)


def _flat(op, args):
    out = []
    for a in args:
        if isinstance(a, T) and a.op == op:
            out.extend(a.args)
        else:
            out.append(a)
    return out


def p_max(args):
    args = _flat("max", args)
    nums = [a for a in args if is_num(a)]
    rest = sorted({a for a in args if not is_num(a)}, key=_akey)
    if nums:
        rest = rest + [max(nums)]
    if len(rest) > 1 and len(rest) <= 6:
        F = Facts()
        keep = []
        for i, a in enumerate(rest):
            # dropped when another maximand is at least as large whatever the values
            if not any(b is not a and F.query_ge0(p_sub(b, a)) is True and not (j > i and F.query_ge0(p_sub(a, b)) is True) for j, b in enumerate(rest)):
                keep.append(a)
        rest = keep or rest
    if len(rest) == 1:
        return rest[0]
    return T("max", *rest)


def p_min(args):
    args = _flat("min", args)
    nums = [a for a in args if is_num(a)]
    rest = sorted({a for a in args if not is_num(a)}, key=_akey)
    if nums:
        rest = rest + [min(nums)]
    if len(rest) == 1:
        return rest[0]
    return T("min", *rest)


def ge0(p):
    if is_num(p):
        return p >= 0
    return T("ge0", p)


def eq0(p):
    if is_num(p):
        return p == 0
    d = p_dict(p)
    first = min(d.items(), key=lambda mc: (len(mc[0]) == 0, tuple(_akey(a) for a in mc[0])))
    if first[1] < 0:
        p = p_neg(p)
    return T("eq0", p)


# --------------------------------------------------------------------- facts
INF = float("inf")
NONNEG = {"len", "size", "numel", "dim"}


class Infeasible(Exception):
    pass


def simp(v, facts, cache=None):
    """Rewrite mod terms the facts decide: mod(a, b) = a when 0 <= a < b."""
    cache = {} if cache is None else cache
    if isinstance(v, tuple):
        return tuple(simp(x, facts, cache) for x in v)
    if not isinstance(v, T):
        return v
    if v in cache:
        return cache[v]
    if not mentions(v, lambda t: t.op == "mod"):
        cache[v] = v
        return v
    if v.op == "poly":
        r = 0
        for mono, c in v.args[0]:
            term = c
            for a in mono:
                term = p_mul(term, simp(a, facts, cache))
            r = p_add(r, term)
    else:
        args = tuple(simp(x, facts, cache) if isinstance(x, (T, tuple)) else x for x in v.args)
        r = renorm(v.op, args)
    if isinstance(r, T) and r.op == "mod":
        a, b = r.args
        if facts.query(ge0(a)) is True and facts.query(ge0(p_sub(p_sub(b, a), 1))) is True:
            r = a
        else:
            # inner reductions modulo the same modulus are redundant
            d = p_dict(a) if not is_num(a) else None
            if d is not None and any(len(m) == 1 and isinstance(m[0], T) and m[0].op == "mod" and m[0].args[1] is b for m in d):
                na = 0
                for m, k in d.items():
                    if len(m) == 1 and isinstance(m[0], T) and m[0].op == "mod" and m[0].args[1] is b:
                        na = p_add(na, p_mul(k, m[0].args[0]))
                    else:
                        na = p_add(na, p_make({m: k}))
                r = p_mod(na, b)
                if isinstance(r, T) and r.op == "mod" and facts.query(ge0(r.args[0])) is True and facts.query(ge0(p_sub(p_sub(b, r.args[0]), 1))) is True:
                    r = r.args[0]
    cache[v] = r
    return r


class Facts:
    """Path facts: intervals over linear forms, kinds, equalities, atoms."""

    def __init__(self):
        self.lin = {}  # form -> [lo, hi]
        self.ne = {}  # form -> set of excluded values
        self.atoms = {}  # other atom -> bool
        self.eqc = {}  # term -> constant
        self.nec = {}  # term -> set of excluded constants
        self.kind = {}  # term -> kind label known
        self.nkind = {}  # term -> set of excluded kind labels

    def copy(self):
        f = Facts()
        f.lin = {k: list(v) for k, v in self.lin.items()}
        f.ne = {k: set(v) for k, v in self.ne.items()}
        f.atoms = dict(self.atoms)
        f.eqc = dict(self.eqc)
        f.nec = {k: set(v) for k, v in self.nec.items()}
        f.kind = dict(self.kind)
        f.nkind = {k: set(v) for k, v in self.nkind.items()}
        return f

    # -- linear part
    @staticmethod
    def _split(p):
        d = dict(p_dict(p))
        c = d.pop((), 0)
        if not d:
            return None, 1, c
        first = min(d, key=lambda m: tuple(_akey(a) for a in m))
        s = 1 if d[first] > 0 else -1
        if s < 0:
            d = {m: -k for m, k in d.items()}
        form = tuple(sorted(d.items(), key=lambda mc: tuple(_akey(a) for a in mc[0])))
        return form, s, c

    def interval(self, form):
        lo, hi = self.lin.get(form, (-INF, INF))
        # bounds through the individual monomials
        slo = shi = 0
        for mono, k in form:
            mlo, mhi = self._mono(mono)
            if k < 0:
                mlo, mhi = mhi, mlo
            slo += k * mlo if abs(mlo) != INF else (-INF)
            shi += k * mhi if abs(mhi) != INF else INF
        lo, hi = max(lo, slo), min(hi, shi)
        if any(len(mono) > 1 for mono, _ in form):
            plo, phi = self._shifted(form)
            lo, hi = max(lo, plo), min(hi, phi)
        return lo, hi

    def _shifted(self, form):
        """Bounds of a polynomial after substituting every atom by lower bound + rest >= 0."""
        atoms = {a for mono, _ in form for a in mono}
        if len(atoms) > 6:
            return -INF, INF
        low = {a: self._atom(a)[0] for a in atoms}
        if any(abs(v) == INF for v in low.values()):
            return -INF, INF
        d = {}
        for mono, k in form:
            part = {(): k}
            for a in mono:
                new = {}
                for m, c in part.items():
                    new[m] = new.get(m, 0) + c * low[a]
                    m2 = tuple(sorted(m + (a,), key=_akey))
                    new[m2] = new.get(m2, 0) + c
                part = new
            for m, c in part.items():
                d[m] = d.get(m, 0) + c
        const = d.pop((), 0)
        lo = const if all(c >= 0 for c in d.values()) else -INF
        hi = const if all(c <= 0 for c in d.values()) else INF
        return lo, hi

    def _mono(self, mono):
        lo = hi = 1
        for a in mono:
            alo, ahi = self._atom(a)
            if alo < 0 or lo < 0:
                if len(mono) == 1:
                    return alo, ahi
                return -INF, INF
            lo = lo * alo
            hi = INF if INF in (hi, ahi) else hi * ahi
        return lo, hi

    def _atom(self, a):
        form = (((a,), 1),)
        lo, hi = self.lin.get(form, (-INF, INF))
        if isinstance(a, T):
            if a.op in NONNEG:
                lo = max(lo, 0)
            elif a.op == "elems":
                lo = max(lo, 1)
            elif a.op == "sym" and a in POSITIVE:
                lo = max(lo, POSITIVE[a])
            elif a.op in ("attr", "item") and a in POSITIVE:
                lo = max(lo, POSITIVE[a])
            elif a.op == "mod":
                lo = max(lo, 0)
            elif a.op == "max":
                for x in a.args:
                    lo = max(lo, self.bounds(x)[0])
        return lo, hi

    def bounds(self, p):
        form, s, c = self._split(p)
        if form is None:
            return c, c
        lo, hi = self.interval(form)
        if s > 0:
            return lo + c, hi + c
        return -hi + c, -lo + c

    def query_ge0(self, p):
        lo, hi = self.bounds(p)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        # max(...) - x >= 0 when x is one of the maximands
        d = p_dict(p)
        for mono, k in d.items():
            if len(mono) == 1 and k == 1 and isinstance(mono[0], T) and mono[0].op == "max":
                rest = p_sub(p, mono[0])
                for x in mono[0].args:
                    l2, _ = self.bounds(p_add(rest, x))
                    if l2 >= 0:
                        return True
        return None

    def query_eq0(self, p):
        lo, hi = self.bounds(p)
        if lo == hi == 0:
            return True
        if lo > 0 or hi < 0:
            return False
        form, s, c = self._split(p)
        if form is not None and (-c * s) in self.ne.get(form, ()):
            return False
        # difference of two terms bound to constants
        return None

    def assume_ge0(self, p):
        form, s, c = self._split(p)
        if form is None:
            if c < 0:
                raise Infeasible
            return
        iv = self.lin.setdefault(form, [-INF, INF])
        if s > 0:
            iv[0] = max(iv[0], -c)
        else:
            iv[1] = min(iv[1], c)
        self._tighten(form)

    def _tighten(self, form):
        lo, hi = self.interval(form)
        ne = self.ne.get(form, ())
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            raise Infeasible
        self.lin[form] = [lo, hi]

    def consistent(self):
        """False when the bounds of some form contradict each other (an impossible path)."""
        for form in self.lin:
            lo, hi = self.interval(form)
            if lo > hi:
                return False
        return self._consistent_fixed()

    def _consistent_fixed(self):
        """The same after putting in the values of the quantities the path pins to a single number."""
        pinned = {}
        f = self
        for _ in range(4):
            new = {}
            for form in f.lin:
                if len(form) == 1 and len(form[0][0]) == 1 and isinstance(form[0][0][0], T):
                    lo, hi = f.interval(form)
                    if lo == hi and form[0][0][0].op in ("sym", "attr", "item") and lo % form[0][1] == 0:
                        new[form[0][0][0]] = lo // form[0][1]
            new = {k: v for k, v in new.items() if k not in pinned}
            if not new:
                return True
            pinned.update(new)
            g = Facts()
            try:
                for form, (lo, hi) in self.lin.items():
                    p = subst(p_make(dict(form)), pinned)
                    if abs(lo) != INF:
                        g.assume_ge0(p_sub(p, lo))
                    if abs(hi) != INF:
                        g.assume_ge0(p_sub(hi, p))
                for form, vs in self.ne.items():
                    p = subst(p_make(dict(form)), pinned)
                    for v in vs:
                        g.assume_eq0(p_sub(p, v), False)
            except Infeasible:
                return False
            if not all(lo <= hi for lo, hi in map(g.interval, list(g.lin))):
                return False
            f = g
        return True

    def assume_eq0(self, p, val):
        form, s, c = self._split(p)
        if form is None:
            if (c == 0) != val:
                raise Infeasible
            return
        v = -c * s
        if val:
            lo, hi = self.interval(form)
            if not (lo <= v <= hi) or v in self.ne.get(form, ()):
                raise Infeasible
            self.lin[form] = [v, v]
        else:
            self.ne.setdefault(form, set()).add(v)
            self.lin.setdefault(form, [-INF, INF])
            self._tighten(form)

    # -- generic atoms
    def query(self, c):
        if isinstance(c, bool):
            return c
        if c.op == "ge0":
            return self.query_ge0(c.args[0])
        if c.op == "eq0":
            return self.query_eq0(c.args[0])
        if c.op == "not":
            q = self.query(c.args[0])
            return None if q is None else not q
        if c.op == "eqc":
            x, k = c.args
            if x in self.eqc:
                return self.eqc[x] == k
            if k in self.nec.get(x, ()):
                return False
            if self.kind.get(x) == "None":
                return False
            return None
        if c.op == "kind":
            x, k = c.args
            known = self.kind.get(x)
            if known is not None:
                if known == k:
                    return True
                if known in PRIMITIVE and k in PRIMITIVE:
                    return False
                if known in PRIMITIVE and k not in PRIMITIVE:
                    return False
            if k in self.nkind.get(x, ()):
                return False
            if k == "None" and x in self.eqc:
                return False
            return None
        if c.op == "truth":
            x = c.args[0]
            if self.kind.get(x) == "None":
                return False
            return self.atoms.get(c)
        return self.atoms.get(c)

    def assume(self, c, val):
        q = self.query(c)
        if q is not None:
            if q != val:
                raise Infeasible
            return
        if c.op == "ge0":
            self.assume_ge0(c.args[0] if val else p_sub(p_neg(c.args[0]), 1))
        elif c.op == "eq0":
            self.assume_eq0(c.args[0], val)
        elif c.op == "not":
            self.assume(c.args[0], not val)
        elif c.op == "eqc":
            x, k = c.args
            if val:
                self.eqc[x] = k
            else:
                self.nec.setdefault(x, set()).add(k)
        elif c.op == "kind":
            x, k = c.args
            if val:
                self.kind[x] = k
            else:
                self.nkind.setdefault(x, set()).add(k)
        else:
            if c.op == "truth" and val:
                self.nkind.setdefault(c.args[0], set()).add("None")
            self.atoms[c] = val


SHAPES = {}  # tensor symbol -> tuple of dimension terms
POSITIVE = {}  # terms with declared integer lower bounds
PRIMITIVE = {
    "None", "Tensor", "list", "tuple", "int", "float", "str", "dict", "bool",
    "module", "callable",
}


class Slice:
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def __repr__(self):
        f = lambda x: "" if x is None else show(x)
        return f"{f(self.a)}:{f(self.b)}" + (f":{f(self.c)}" if self.c is not None else "")


class PList:
    """A mutable list (or generator) of known length."""

    def __init__(self, items=(), kind="list"):
        self.items = list(items)
        self.kind = kind

    def __repr__(self):
        return "[" + _tupshow(self.items) + "]"


class PDict:
    def __init__(self, pairs=()):
        self.pairs = [list(p) for p in pairs]
        self.rest = None  # unknown remaining mapping (a term)

    def find(self, k):
        for p in self.pairs:
            if type(p[0]) is type(k) and p[0] == k:
                return p
        return None

    def set(self, k, v):
        p = self.find(k)
        if p:
            p[1] = v
        else:
            self.pairs.append([k, v])

    def __repr__(self):
        return "{" + ", ".join(f"{show(k)}: {show(v)}" for k, v in self.pairs) + "}"


class PSet:
    def __init__(self, items=()):
        self.items = []
        for i in items:
            if not any(type(i) is type(j) and i == j for j in self.items):
                self.items.append(i)

    def __repr__(self):
        return "{" + _tupshow(self.items) + "}"


class Cell:
    """A tensor storage."""

    def __init__(self, content, origin, scalar=False):
        self.content = content
        self.origin = origin  # hashable label of where the storage comes from
        self.scalar = scalar
        self.version = 0

    def __repr__(self):
        return f"<{show(self.origin)}>"


class Ten:
    def __init__(self, cell, view=()):
        self.cell = cell
        self.view = view

    @property
    def scalar(self):
        return self.cell.scalar and not self.view

    def __repr__(self):
        return f"Ten({self.cell.origin!r}{''.join('.' + str(v) for v in self.view)})"
