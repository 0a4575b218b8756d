"""Mutation campaign: mutate.py FILE PROPS [--range a-b] [--jobs n] [--every k]
Small syntactic changes of one package file, one at a time, in scratch copies;
each runs the quick checks of PROPS (comma separated) until one reports.
Prints the survivors (equivalent mutants are for a human to tell)."""
import ast
import concurrent.futures as cf
import copy
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def sites(tree):
    out = []
    for node in ast.walk(tree):
        if isinstance(node, ast.BinOp) and type(node.op) in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv):
            out.append((node, "binop"))
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            out.append((node, "cmp"))
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
            out.append((node, "const"))
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            out.append((node, "bool"))
        elif isinstance(node, ast.If):
            out.append((node, "ifnot"))
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and not (
                isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            out.append((node, "del"))
        elif isinstance(node, ast.BoolOp):
            out.append((node, "boolop"))
    return out


def apply(node, kind):
    if kind == "binop":
        node.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
                   ast.FloorDiv: ast.Div}[type(node.op)]()
    elif kind == "cmp":
        m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
             ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        node.ops = [m[type(node.ops[0])]()]
    elif kind == "const":
        node.value += 1
    elif kind == "bool":
        node.value = not node.value
    elif kind == "ifnot":
        node.test = ast.UnaryOp(ast.Not(), node.test)
    elif kind == "boolop":
        node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()


class Del(ast.NodeTransformer):
    def __init__(self, line, col):
        self.p = (line, col)

    def visit(self, n):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and (n.lineno, n.col_offset) == self.p:
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)


def run(fn, src, i, props, count):
    tree = ast.parse(src)
    node, kind = sites(tree)[i]
    if kind == "del":
        tree = Del(node.lineno, node.col_offset).visit(tree)
    else:
        apply(node, kind)
    ast.fix_missing_locations(tree)
    new = ast.unparse(tree)
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(os.path.join(REPO, "allantools"), d + "/allantools", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "allantools", fn), "w").write(new)
        for p in props:
            env = dict(os.environ, VSIM_REPO=d, VSIM_OUT=d + "/out", VSIM_WORKERS="2", VSIM_NOMIN="1", VSIM_CPU="20")
            if count:
                env["VSIM_COUNT"] = str(count)
            r = subprocess.run([V + "/vs", "check", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = r.stdout.decode(errors="replace")
            if r.returncode == 1 and "VIOLATION" in t:
                return i, kind, node.lineno, "caught " + p
            if r.returncode != 0:
                return i, kind, node.lineno, "ERROR %s %d %s" % (p, r.returncode, t[-300:])
        return i, kind, node.lineno, "SURVIVED"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    fn, props = sys.argv[1], sys.argv[2].split(",")
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    src = open(os.path.join(REPO, "allantools", fn)).read()
    ss = sites(ast.parse(src))
    lo, hi = map(int, opt.get("--range", "0-999999").split("-"))
    todo = [i for i, (n, k) in enumerate(ss) if lo <= n.lineno <= hi][int(opt.get("--from", 0))::int(opt.get("--every", 1))]
    lines = src.split("\n")
    n = {"caught": 0, "SURVIVED": 0, "ERROR": 0}
    with cf.ThreadPoolExecutor(int(opt.get("--jobs", 3))) as ex:
        for i, kind, ln, res in ex.map(lambda i: run(fn, src, i, props, opt.get("--count")), todo):
            n[res.split()[0]] += 1
            if not res.startswith("caught"):
                node = ss[i][0]
                print("%s:%d %s [%s] %s | %s" % (fn, ln, kind, ast.unparse(node)[:80].replace("\n", " "), res, lines[ln - 1].strip()[:90]))
                sys.stdout.flush()
    print(fn, props, n)


main()
