"""Program model: parsed modules of /repo/continual and the torch.nn class table."""
import ast
import glob
import os


class AnalysisError(Exception):
    """The analysed tree lacks something the analysis is anchored on."""


def find_torch():
    cands = sorted(glob.glob("/opt/venv/lib/python3*/site-packages/torch/nn/modules"))
    cands += sorted(glob.glob("/usr/lib/python3*/site-packages/torch/nn/modules"))
    for c in cands:
        if os.path.exists(os.path.join(c, "module.py")):
            return c
    raise AnalysisError("torch.nn sources not found")


class ExtClass:
    """A class outside the repository, known by name (and, for torch.nn, by source)."""

    _all = {}

    def __new__(cls, name):
        if name in cls._all:
            return cls._all[name]
        o = object.__new__(cls)
        o.name = name
        o.node = None
        o.bases = []
        o.methods = {}
        o._mro = None
        cls._all[name] = o
        return o

    def __repr__(self):
        return self.name

    @property
    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def find(self, name):
        for c in self.mro:
            if name in c.methods:
                return c, c.methods[name]
        return None, None


def c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError(f"inconsistent MRO for {cls.name}")
            out.append(h)
            seqs = [[x for x in s if x is not h] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    return [cls] + merge([b.mro for b in cls.bases] + [list(cls.bases)])


def load_torch():
    d = find_torch()
    nodes = {}
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        with open(os.path.join(d, f)) as fh:
            tree = ast.parse(fh.read())
        for n in tree.body:
            if isinstance(n, ast.ClassDef):
                nodes.setdefault(n.name, n)
    for name, n in nodes.items():
        c = ExtClass(name)
        c.node = n
        c.methods = {
            m.name: m
            for m in n.body
            if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef))
            and not any(
                (isinstance(d, ast.Name) and d.id == "overload")
                or (isinstance(d, ast.Attribute) and d.attr in ("_overload_method",))
                or (isinstance(d, ast.Name) and d.id == "_overload_method")
                for d in m.decorator_list
            )
        }
        # class-level aliases such as __call__ = _wrapped_call_impl
        for m in n.body:
            if isinstance(m, (ast.Assign, ast.AnnAssign)):
                tgts = m.targets if isinstance(m, ast.Assign) else [m.target]
                for t in tgts:
                    if isinstance(t, ast.Name) and m.value is not None:
                        c.methods.setdefault(t.id, m)
    for name, n in nodes.items():
        c = ExtClass(name)
        for b in n.bases:
            bn = b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else None)
            if bn and bn != "object" and bn in nodes:
                c.bases.append(ExtClass(bn))
    if "Module" not in nodes or "Conv1d" not in nodes:
        raise AnalysisError("unexpected torch.nn layout")
    return nodes


class ModuleInfo:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path) as fh:
            src = fh.read()
        self.tree = ast.parse(src, filename=path)
        self.globals = None
        self.is_pkg = os.path.basename(path) == "__init__.py"

    def __repr__(self):
        return f"<module {self.name}>"


class ClassInfo:
    def __init__(self, name, module, node, bases):
        self.name = name
        self.module = module
        self.node = node
        self.bases = bases
        self.members = {}
        self._mro = None
        self.is_enum = any(getattr(b, "name", "") in ("Enum", "IntEnum") or getattr(b, "is_enum", False) for b in bases)

    def __repr__(self):
        return f"<class {self.name}>"

    @property
    def mro(self):
        if self._mro is None:
            self._mro = c3(self)
        return self._mro

    def isa(self, name):
        return any(c.name == name for c in self.mro)

    def find(self, name):
        """(owner, member) through the MRO; ext owners give (ExtClass, ast)."""
        for c in self.mro:
            if isinstance(c, ClassInfo):
                if name in c.members:
                    return c, c.members[name]
            elif name in c.methods:
                return c, c.methods[name]
        return None, None

    def find_after(self, after, name):
        mro = self.mro
        i = mro.index(after)
        for c in mro[i + 1:]:
            if isinstance(c, ClassInfo):
                if name in c.members:
                    return c, c.members[name]
            elif name in c.methods:
                return c, c.methods[name]
        return None, None


class Program:
    def __init__(self, root="/repo", pkg="continual"):
        self.root = root
        self.pkg = pkg
        load_torch()
        self.modules = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisError(f"{base} is missing")
        for dp, dn, fn in os.walk(base):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(".py"):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    self.modules[rel] = ModuleInfo(rel, p)
        self.classes = {}
