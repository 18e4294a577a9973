#!/usr/bin/env python3
"""Mutation sweep (development aid; no check uses it): which changes that pass the tests does no check report?

mutate.py N SEED WORKERS OUT.jsonl [file ...]
"""
import ast, json, multiprocessing as mp, os, random, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = "P16 P17 P10 P08 P28 P18 P26 P30 P24 P20 P06 P09 P12 P21 P14 P05 P25 P29 P03 P27 P13 P31 P32 P33 P19 P04 P07 P15".split()
FILES = "container conv convert delay linear module onnx pooling positional_encoding rnn shape skip transformer utils closure multihead_attention/mha_base multihead_attention/single_output_mha multihead_attention/retroactive_mha".split()
CMP = {"<": "<=", "<=": "<", ">": ">=", ">=": ">", "==": "!=", "!=": "==", "is": "is not", "is not": "is"}
OPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not"}


class G(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.fn = src, [], []
        self.off = [0]
        for l in src.splitlines(True):
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, z = self.span(n)
        return self.b[a:z].decode()

    def add(self, n, new, what):
        a, z = self.span(n)
        self.out.append((a, z, new, what, n.lineno, ".".join(self.fn)))

    def visit_ClassDef(self, n):
        self.fn.append(n.name)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_FunctionDef(self, n):
        if n.name in ("__repr__", "extra_repr", "_get_name", "_ensure_", "co_warnings"):
            return
        self.fn.append(n.name)
        for d in n.args.defaults + [k for k in n.args.kw_defaults if k]:
            self.visit(d)
        for i, s in enumerate(n.body):
            if i == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)
        self.fn.pop()

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Assert(self, n):
        self.add(n, "pass", "drop assert")
        self.visit(n.test)

    def visit_Raise(self, n):
        self.add(n, "pass", "drop raise")

    def visit_JoinedStr(self, n):
        pass

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(self.fn) > 1 or self.fn:
            self.add(n, "pass", "drop assignment")
        self.visit(n.value)

    visit_AugAssign = visit_Assign

    def visit_If(self, n):
        self.add(n.test, "True", "if True")
        self.add(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, f"({self.text(n.body)})", "ifexp body")
        self.add(n, f"({self.text(n.orelse)})", "ifexp else")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1 and type(n.ops[0]) in OPS:
            o = OPS[type(n.ops[0])]
            self.add(n, f"{self.text(n.left)} {CMP[o]} {self.text(n.comparators[0])}", f"{o} to {CMP[o]}")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        sw = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "+", ast.Div: "*"}
        if type(n.op) in sw:
            self.add(n, f"({self.text(n.left)} {sw[type(n.op)]} {self.text(n.right)})", "binop")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + o.join(f"({self.text(v)})" for v in n.values) + ")", "boolop")
        for v in n.values:
            self.add(n, self.text(v), "boolop one side")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, f"({self.text(n.operand)})", "drop unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "flip bool")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "const+1")
            if n.value > 0:
                self.add(n, str(n.value - 1), "const-1")

    def visit_Call(self, n):
        for k in n.keywords:
            if k.arg:
                a, z = self.span(k)
                rest = self.b[z:z + 1]
                self.out.append((a, z + (1 if rest == b"," else 0), "", f"drop keyword {k.arg}", n.lineno, ".".join(self.fn)))
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]):
            a, _ = self.span(n.args[0])
            _, z = self.span(n.args[1])
            self.out.append((a, z, f"{self.text(n.args[1])}, {self.text(n.args[0])}", "swap args", n.lineno, ".".join(self.fn)))
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("clone", "detach", "transpose", "permute", "flip", "contiguous", "squeeze", "unsqueeze"):
            self.add(n, self.text(n.func.value), f"drop .{n.func.attr}")
        attrs = [(k, k.value) for k in n.keywords if isinstance(k.value, ast.Attribute) and isinstance(k.value.value, ast.Name) and k.value.value.id in ("self", "module")]
        for (k, v), (k2, v2) in zip(attrs, attrs[1:]):
            self.add(v, self.text(v2), f"{k.arg} gets {k2.arg}")
        self.generic_visit(n)


def mutants(root, files):
    res = []
    for f in files:
        p = f"continual/{f}.py"
        src = open(os.path.join(root, p)).read()
        g = G(src)
        g.visit(ast.parse(src))
        for m in g.out:
            res.append((p,) + m)
    return res


def work(args):
    k, (p, a, z, new, what, line, fn), out, ids = args
    tmp = tempfile.mkdtemp(prefix="mt", dir="/tmp/w/mt")
    rec = dict(k=k, file=p, line=line, fn=fn, what=what)
    try:
        r = tmp + "/r"
        subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        q = os.path.join(r, p)
        b = open(q, "rb").read()
        nb = b[:a] + new.encode() + b[z:]
        try:
            compile(nb, q, "exec")
        except SyntaxError:
            rec["res"] = "syntax"
            return rec
        open(q, "wb").write(nb)
        rec["diff"] = "\n".join(l for l in subprocess.run(["git", "diff", "-U0"], cwd=r, capture_output=True, text=True).stdout.splitlines() if l[:1] in "+-" and l[:3] not in ("+++", "---"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0", PYTHONPATH=f"/opt/vp/plugins:{r}")
        try:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "seed_each_test", "-p", "no:cacheprovider", "--timeout=120", "-m", "not skip_cicd"], cwd=r, env=env, capture_output=True, timeout=400)
            if t.returncode:
                rec["res"] = "tests"
                return rec
        except subprocess.TimeoutExpired:
            rec["res"] = "tests"
            return rec
        rec["odd"] = []
        for pid in ids:
            c = subprocess.run(["python3", "check.py", pid, "--root", r], cwd=HERE, capture_output=True, text=True, env=dict(os.environ, COAN_JOBS="1", COAN_DEADLINE="2500"), timeout=3000)
            if c.returncode == 1:
                rec["res"], rec["by"] = "caught", pid
                rec["msg"] = next((l for l in c.stdout.splitlines() if "@" in l and "KNOWN" not in l), "")[:200]
                return rec
            if c.returncode:
                rec["odd"].append((pid, c.stdout[-200:]))
        rec["res"] = "SURVIVED"
        return rec
    except Exception as e:
        rec["res"] = f"error {e!r}"[:300]
        return rec
    finally:
        shutil.rmtree(tmp)
        with open(out, "a") as fh:
            fh.write(json.dumps(rec) + "\n")


if __name__ == "__main__":
    n, seed, workers, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:] or FILES
    ms = mutants("/repo", files)
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants; taking", n)
    ids = [i for i in ORDER if os.path.exists(f"{HERE}/rules/{i.lower()}.py")]
    with mp.Pool(workers) as pool:
        for r in pool.imap_unordered(work, [(k, m, out, ids) for k, m in enumerate(ms[:n])]):
            pass
