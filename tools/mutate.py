#!/usr/bin/env python3
"""Mutation testing of the checks: random single-token mutants of the library's source, each run against the quick
checks of the properties its file serves, in a scratch clone (never in /repo).

usage: mutate.py FILE[:func] N SEED [Cxx ...]      prints KILLED/SURVIVED per mutant"""
import ast, os, random, shutil, subprocess, sys, tempfile

VERIF = os.environ.get("MUT_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = "/tmp/mutants"
CHECKS = {
    "cartesian.py": ["C11"], "complete_poly.py": ["C13", "C14", "C17"], "splines/hermite.py": ["C12"],
    "splines/basis_splines.py": ["C18"], "smolyak/grid.py": ["C15", "C16", "C17"], "smolyak/interp.py": ["C16"],
    "smolyak/util.py": ["C15", "C16"], "splines/splines.py": ["C09", "C17", "C01", "C05", "C11"],
    "splines/multilinear.py": ["C09", "C01", "C11"], "splines/multilinear_numba.py": ["C01"],
    "multilinear/mlinterp.py": ["C07"], "multilinear/fungen.py": ["C07"],
    "splines/filter_cubic.py": ["C03", "C06"], "splines/prefilter_cubic.py": ["C03"],
    "splines/eval_splines.py": ["C06", "C02", "C05", "C01"], "splines/codegen.py": ["C02", "C05", "C04", "C06"],
    "splines/eval_cubic.py": ["C10"], "splines/eval_cubic_numba.py": ["C10"], "splines/option_types.py": ["C02"],
    "splines/__init__.py": ["C17", "C11"], "compat.py": ["C01"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not",
       ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.Pow: ("**", "*"),
       ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//"), ast.MatMult: ("@", "*")}


def mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0])
    dead = set()
    for n in ast.walk(tree):           # code after __main__ guards or in tests
        if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test):
            dead |= set(ast.walk(n))
        if isinstance(n, ast.FunctionDef) and (n.name.startswith("test") or n.name in ("__repr__", "plot")):
            dead |= set(ast.walk(n))

    def add(s, e, new, what, n):
        out.append((s, e, new.encode(), what, n.lineno))
    for n in ast.walk(tree):
        if n in dead:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            s, e = pos(n.left)[1], pos(n.comparators[0])[0]
            add(s, e, f" {CMP[type(n.ops[0])]} ", "cmp", n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            s, e = pos(n.left)[1], pos(n.right)[0]
            mid = b[s:e].decode()
            o, r = BIN[type(n.op)]
            if mid.count(o) >= 1:
                add(s, e, mid.replace(o, r, 1), "bin", n)
        elif isinstance(n, ast.BoolOp):
            s, e = pos(n.values[0])[1], pos(n.values[1])[0]
            mid = b[s:e].decode()
            o, r = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            if o in mid:
                add(s, e, mid.replace(o, r, 1), "bool", n)
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            s, e = pos(n)
            add(s, e, repr(n.value + 1), "const+1", n)
            if n.value:
                add(s, e, repr(n.value - 1), "const-1", n)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(*pos(n), repr(not n.value), "flip", n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            s, e = pos(n)
            add(s, pos(n.operand)[0], "", "unary", n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "ravel", "flatten") \
                and not n.args:
            add(pos(n.func.value)[1], pos(n)[1], "", "drop." + n.func.attr, n)
        elif isinstance(n, ast.Call) and n.args and isinstance(n.func, (ast.Name, ast.Attribute)) and \
                ast.unparse(n.func).split(".")[-1] in ("ascontiguousarray", "asarray", "array", "abs", "sorted", "list",
                                                       "sqrt", "tuple", "atleast_2d"):
            s, e = pos(n.args[0])
            add(*pos(n), b[s:e].decode(), "unwrap", n)
        elif isinstance(n, (ast.AugAssign, ast.Assign, ast.Raise, ast.Expr)) and n not in doc:
            if isinstance(n, ast.Assign) and (n.col_offset == 0 or not isinstance(n.targets[0], (ast.Subscript, ast.Attribute))):
                continue
            if n.col_offset:
                add(*pos(n), "pass", "drop-stmt", n)
        elif isinstance(n, ast.If) and n.col_offset:
            add(*pos(n.test), "False", "if-false", n)
            add(*pos(n.test), "True", "if-true", n)
    return b, out


def main():
    target, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    lo = hi = None
    if ":" in target:
        target, r = target.split(":")
        lo, hi = map(int, r.split("-"))
    checks = sys.argv[4:] or CHECKS[target]
    rel = "interpolation/" + target
    src = open("/repo/" + rel, newline="").read()
    b, ms = mutants(src)
    if lo:
        ms = [m for m in ms if lo <= m[4] <= hi]
    rng = random.Random(seed)
    rng.shuffle(ms)
    print(f"# {target}: {len(ms)} mutants, running {min(N, len(ms))}", flush=True)
    for s, e, new, what, line in ms[:N]:
        d = tempfile.mkdtemp(dir=ROOT) if os.path.isdir(ROOT) else (os.makedirs(ROOT), tempfile.mkdtemp(dir=ROOT))[1]
        try:
            subprocess.run(["git", "clone", "-q", "/repo", d + "/r"], check=True)
            m = b[:s] + new + b[e:]
            try:
                compile(m, "x", "exec")
            except SyntaxError:
                continue
            open(d + "/r/" + rel, "wb").write(m)
            res = "SURVIVED"
            for c in checks:
                p = subprocess.run([VERIF + "/check", c, "quick"], capture_output=True, text=True, cwd=VERIF,
                                   env=dict(os.environ, VERIF_REPO=d + "/r", VERIF_EVIDENCE=d + "/ev"))
                if p.returncode == 1 and "VIOLATION" in p.stdout:
                    res = "KILLED " + c
                    break
                if p.returncode not in (0, 1):
                    res = f"rc={p.returncode} {c} " + (p.stdout + p.stderr)[-200:].replace("\n", " ")
                    break
            ls = b.decode().splitlines()[line - 1].strip()
            print(res, f"{target}:{line}", what, repr(b[s:e].decode()[:40]), "->", repr(new.decode()[:40]), "|", ls[:90], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
