"""Laboratory: drivers, subjects, snapshots and obligation bookkeeping for the rules.

A rule states its obligation as a small *driver* (Python text that is parsed and
abstractly interpreted together with the analysed classes, never executed) plus a
judgement over the resulting path summaries (terms, facts, events).
"""
import ast
import contextlib
import os
import signal
import textwrap
import time

from .interp import (
    BoundM, Bail, Cell, Env, ExtClass, Fn, Inst, Interp, MISSING, Opq, Path, PDict, PList, PSet,
    PyRaise, Raised, Ten, TimeUp,
)
from . import prov
from .shapes import shape_of
from .prog import AnalysisError, ClassInfo
from .terms import (
    Facts, Infeasible, POSITIVE, T, ge0, eq0, is_num, mentions, p_add, p_neg, p_sub, show, subterms, simp, sym,
    unknown,
)


class FakeMod:
    def __init__(self, g):
        self.name = "driver"
        self.path = "/verif/driver"
        self.globals = g


@contextlib.contextmanager
def limit(seconds):
    """Raise TimeUp in the block after the given time."""
    def up(*_):
        raise TimeUp()

    old = signal.signal(signal.SIGALRM, up)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, 0.05))
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Lab:
    deadline = None  # end of the whole run
    budget = 150  # seconds for one obligation

    def __init__(self, root=None):
        self.root = root or os.environ.get("COAN_ROOT", "/repo")
        self.I = Interp(self.root)
        self.obls = []  # (rule, subject, status, detail)
        self.jobs = []
        self.tier = "quick"
        self.classes = {}
        for modname, g in self.I.globals.items():
            for k, v in g.items():
                if isinstance(v, ClassInfo) and v.module.name == modname:
                    self.classes.setdefault(v.name, v)

    # ------------------------------------------------------------ program access
    def cls(self, name):
        c = self.classes.get(name)
        if c is None:
            raise AnalysisError(f"class {name} not found in the analysed package")
        return c

    def fn(self, mod, name):
        g = self.I.globals.get("continual." + mod)
        if g is None or name not in g:
            raise AnalysisError(f"continual.{mod}.{name} not found")
        return g[name]

    def has(self, mod, name):
        return name in self.I.globals.get("continual." + mod, {})

    def comodules(self):
        out = []
        for c in self.classes.values():
            if c.name != "CoModule" and c.isa("CoModule"):
                out.append(c)
        return sorted(out, key=lambda c: c.name)

    def where(self, cls, *methods):
        """file:line Class.method of the definitions that implement `methods` for cls."""
        out = []
        for m in methods:
            own, f = cls.find(m)
            g = getattr(f, "fn", None) or getattr(f, "get", None) or f
            if isinstance(g, Fn):
                out.append(f"{os.path.relpath(g.mod.path, self.root)}:{g.node.lineno} {g.qual}")
            elif isinstance(own, ClassInfo):
                out.append(f"{os.path.relpath(own.module.path, self.root)} {own.name}.{m}")
            elif isinstance(own, ExtClass):
                out.append(f"torch {own.name}.{m}")
        return ", ".join(out) or f"{os.path.relpath(cls.module.path, self.root)} {cls.name}"

    def fwhere(self, f):
        f = getattr(f, "fn", f)
        if isinstance(f, Fn):
            return f"{os.path.relpath(f.mod.path, self.root)}:{getattr(f.node, 'lineno', '?')} {f.qual}"
        return str(f)

    # ------------------------------------------------------------ driver code
    def driver(self, src, mod="module", name=None):
        """Parse driver source; its globals are those of an analysed module plus the package's."""
        g = dict(self.I.globals.get("continual", {}))
        for m in self.I.globals:
            for k, v in self.I.globals[m].items():
                if not k.startswith("__"):
                    g.setdefault(k, v)
        g.update(self.I.globals.get("continual." + mod, {}))
        tree = ast.parse(textwrap.dedent(src))
        fake = FakeMod(g)
        env = Env(fake)
        env.vars = g
        saved = self.I.ctx
        for st in tree.body:
            self.I.ex(st, env)
        self.I.ctx = saved
        return g[name or next(s.name for s in tree.body if isinstance(s, ast.FunctionDef))]

    # ------------------------------------------------------------ shorthands inside thunks
    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k, None)

    def m(self, o, name, *a, **k):
        return self.I.call(self.I.getattr_(o, name, None), list(a), k, None)

    def attr(self, o, name, default=MISSING):
        r = self.I.getattr0(o, name, None)
        if r is MISSING:
            if default is MISSING:
                raise PyRaise("AttributeError", None)
            return default
        return r

    def fz(self, v):
        return settled(self.I.freeze(v), self.I.ctx.facts)

    def new(self, clsname, *a, **k):
        return self.I.call(self.cls(clsname), list(a), k, None)

    # ------------------------------------------------------------ heap snapshots
    def _reach(self, roots):
        insts, cells, seen = [], [], set()
        stack = list(roots)
        while stack:
            v = stack.pop()
            if isinstance(v, (Inst, Opq)):
                if id(v) in seen:
                    continue
                seen.add(id(v))
                insts.append(v)
                stack.extend(v.attrs.values())
                if isinstance(v, Inst) and v.modules is not None:
                    stack.extend(x for _, x in v.modules.pairs)
            elif isinstance(v, Ten):
                if id(v.cell) not in seen:
                    seen.add(id(v.cell))
                    cells.append(v.cell)
            elif isinstance(v, (tuple, list)):
                stack.extend(v)
            elif isinstance(v, PList):
                stack.extend(v.items)
            elif isinstance(v, PDict):
                stack.extend(x for _, x in v.pairs)
            elif isinstance(v, BoundM):
                stack.append(v.self_)
        return insts, cells

    def snapshot(self, *roots):
        I = self.I
        roots = list(roots)
        for g in I.global_insts:
            roots.append(g)
        insts, cells = self._reach(roots)
        cells = cells + [c for c in I.ctx.cells.values() if not any(c is d for d in cells)]

        def cp(v):
            if isinstance(v, PList):
                return ("L", v, list(v.items))
            if isinstance(v, PDict):
                return ("D", v, [list(p) for p in v.pairs])
            return ("V", v, None)

        return (
            [(i, {k: cp(v) for k, v in i.attrs.items()},
              [list(p) for p in i.modules.pairs] if isinstance(i, Inst) and i.modules is not None else None) for i in insts],
            [(c, c.content, c.scalar) for c in cells],
            dict(I.ctx.cells), dict(I.ctx.objs), I.ctx.fresh,
        )

    def restore(self, snap):
        I = self.I
        for i, attrs, mods in snap[0]:
            i.attrs.clear()
            for k, (kind, v, old) in attrs.items():
                if kind == "L":
                    v.items[:] = old
                elif kind == "D":
                    v.pairs[:] = [list(p) for p in old]
                i.attrs[k] = v
            if mods is not None:
                i.modules.pairs[:] = [list(p) for p in mods]
        for c, content, scalar in snap[1]:
            c.content, c.scalar = content, scalar
        I.ctx.cells = dict(snap[2])
        for c, content, scalar in snap[1]:
            pass
        I.ctx.objs = dict(snap[3])
        I.ctx.fresh = snap[4]

    # ------------------------------------------------------------ obligations
    def obligation(self, name, subject, where, thunk, judge, raises_ok=True, max_paths=4000, need_return=True, **opts):
        """Explore `thunk`; `judge(path)` returns a list of (ok, message) with ok in {True, False, None}.

        A False on a path whose evidence is exact is a violation; None (or evidence with
        unknown terms) leaves the obligation undetermined.
        """
        opts.setdefault("unroll", 2 if self.tier == "quick" else 3)
        only = os.environ.get("COAN_ONLY")  # while developing: just the obligations that contain this
        if only and only not in f"{name}@{subject}":
            return []
        secs = self.budget if self.deadline is None else min(self.budget, self.deadline - time.time())
        if secs <= 0:
            self.record(name, subject, "undetermined", "time limit of the run", 0)
            return []
        t0 = time.time()
        try:
            with limit(0.7 * secs):
                paths = self.I.explore(thunk, max_paths=max_paths, **opts)
        except TimeUp:
            self.record(name, subject, "undetermined", "time limit", 0)
            return []
        except AnalysisError:
            raise
        except Exception as e:  # the interpreter met something it has no model for
            if os.environ.get("COAN_DEBUG"):
                raise
            self.record(name, subject, "undetermined", f"{type(e).__name__}: {e}", 0)
            return []
        nret = 0
        und = None
        bad = []
        raised = {}
        paths = [p for p in paths if p.facts.consistent()]
        try:
            with limit(t0 + secs - time.time()):
                for p in paths:
                    if p.kind == "bail":
                        und = und or f"bound: {p.value}"
                        continue
                    if p.kind == "raise":
                        raised.setdefault(self.describe_raise(p), p)
                        if raises_ok is True:
                            continue
                    else:
                        nret += 1
                    try:
                        prov.Eval.last = None
                        res = list(judge(p) or ())
                        if prov.Eval.last is not None and p.conds and any(ok is False for ok, _ in res):
                            q = prov.settle(prov.Eval.last, p.conds)
                            if q is not True:
                                # another path is taken at these extents, or that is not known
                                res = [] if q is False else [(None if ok is False else ok, msg) for ok, msg in res]
                    except AnalysisError:
                        raise
                    except Exception as e:
                        if os.environ.get("COAN_DEBUG"):
                            raise
                        und = und or f"judge {type(e).__name__}: {e}"
                        continue
                    if any(ok is False for ok, _ in res) and assumed_empty(p):
                        res = [(None if ok is False else ok, msg) for ok, msg in res]
                    for ok, msg in res:
                        if ok is None:
                            und = und or (msg or "imprecise")
                        elif ok is False:
                            bad.append((msg, p))
        except TimeUp:
            und = und or "time limit"
        if need_return and nret == 0 and not bad:
            if raised and not und:
                k, p = next(iter(raised.items()))
                if self.crash_is_definite(p):
                    bad.append((f"every path raises: {k}", p))
                else:
                    und = "no path returns: " + k
            else:
                und = und or ("no path returns: " + "; ".join(raised)[:200])
        if bad:
            msgs = []
            for m, p in bad:
                if m not in msgs:
                    msgs.append(m)
            p = bad[0][1]
            detail = "; ".join(msgs[:3])
            cond = p.cond_str(6)
            self.record(name, subject, "violated", detail + (f" [path: {cond[:300]}]" if cond else ""), len(paths), where)
        elif und:
            self.record(name, subject, "undetermined", und[:300], len(paths), where)
        else:
            self.record(name, subject, "holds", "", len(paths), where)
        return paths

    def describe_raise(self, p):
        e = p.value
        node = getattr(e, "node", None)
        line = getattr(node, "lineno", "?")
        return f"{e.name} at line {line}"

    def crash_is_definite(self, p):
        return not p.ctx.imprecise

    def job(self, fn, *args):
        """Queue independent work; the runner executes the queue in forked workers."""
        self.jobs.append((fn, args))

    def record(self, rule, subject, status, detail="", npaths=0, where=""):
        self.obls.append(dict(rule=rule, subject=subject, status=status, detail=detail, paths=npaths, where=where))

    def check(self, rule, subject, ok, detail, where="", npaths=1):
        st = "holds" if ok is True else ("violated" if ok is False else "undetermined")
        self.record(rule, subject, st, "" if ok is True else detail, npaths, where)


def assumed_empty(p):
    """The path assumes that a computed tensor of unknown shape has no entries: nothing definite follows from it."""
    computed = lambda t: isinstance(t, T) and t.op in ("call", "vw", "set", "upd", "add", "sub", "mult", "div") and shape_of(t) is None
    for c, _ in p.conds:
        for t in subterms(c):
            if isinstance(t, T) and t.op in ("len", "size") and computed(t.args[0]) and p.facts.query(ge0(p_neg(t))) is True:
                return True
    return False


# ---------------------------------------------------------------- term comparison
def settled(v, facts):
    """`v` with the terms the path has found to be None replaced by None."""
    if isinstance(v, tuple):
        return tuple(settled(x, facts) for x in v)
    if isinstance(v, T) and facts.kind.get(v) == "None":
        return None
    return v


def same(a, b, facts=None):
    """True / False / None (undetermined) equality of two frozen values."""
    if facts is not None and a != b:
        try:
            a, b = simp(a, facts), simp(b, facts)
        except RecursionError:
            return None
        return _same(a, b, facts)
    return _same(a, b, facts)


def _same(a, b, facts=None):
    if a is b or (type(a) is type(b) and a == b):
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            s = _same(x, y, facts)
            if s is False:
                return False
            if s is None:
                r = None
        return r
    if isinstance(a, (bool, type(None), str)) and isinstance(b, (bool, type(None), str)):
        return a == b
    if isinstance(a, T) and a.op == "list" and isinstance(b, T) and b.op == "list":
        return _same(a.args, b.args, facts)
    num = lambda v: is_num(v) or isinstance(v, T)
    if num(a) and num(b):
        if is_num(a) and is_num(b):
            return a == b
        numericish = lambda v: is_num(v) or v.op in ("poly", "mod", "sym", "len", "size", "max", "min", "floordiv", "attr", "item", "dim")
        if facts is not None and numericish(a) and numericish(b):
            d = p_sub(a, b)
            q = facts.query(eq0(d)) if not is_num(d) else d == 0
            if q is True:
                return True
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and len(a.args) == len(b.args) and a.op != "poly":
            r = True
            for x, y in zip(a.args, b.args):
                s = _same(x, y, facts)
                if s is True:
                    continue
                if s is None:
                    r = None
                    continue
                r = False
                break
            if r is True:
                return True
    if unknown(a) or unknown(b):
        return None
    return False


def verdict(a, b, msg, facts=None):
    r = same(a, b, facts)
    return (r, "" if r else f"{msg}: {show(a)[:160]} vs {show(b)[:160]}")
