"""Mutation analysis of the checks (development only): python3 tools/mutate.py OUT.jsonl [--files REGEX] [--n CASES] [--every K]

Makes small syntactic changes to compas_cem in scratch copies, drops the ones the repository's tests notice, and runs
the checks' cases (reduced counts) on the rest.  What survives is either equivalent or a gap to look at.
"""
import argparse
import ast
import copy
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
WORK = "/tmp/mut"
SKIP = re.compile(r"plotters/proxy|ghpython/(install|uninstall|register)|mesh\.py|/register\.py|__init__|viewers/viewer\.py$^")
ENV = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONWARNINGS": "ignore", "VERIF_CHILD": "1"}

CORE = "P01 P03 P02 P05 P06 P04 P11 P12 P13"
TOPO = "P07 P08 P09 P10 P15 P14 P16 P13 P04 P11 P06 P01 P05"
OPT = "P19 P20 P21 P22 P23 P24 P18 P17"
ORDER = [(r"equilibrium/", CORE + " " + OPT), (r"diagrams/topology/mesh", "P25"), (r"diagrams/", TOPO + " P03 P25 P26 P29 P28 P27"),
         (r"elements/|loads/|supports/|data/", "P15 P13 P16 P07 P14 P27"),
         (r"optimization/constraints", "P18 P17 P19 P24 P27"), (r"optimization/parameters", "P17 P21 P23 P19 P24 P27"),
         (r"optimization/", "P20 P22 P23 P21 P19 P24 P17 P18 P27"), (r"plotters/", "P26"), (r"viewers/", "P29"),
         (r"ghpython/artists", "P28 P27"), (r"ghpython/", "P27 P28"), (r"", "P26 P27 P29 P24 P15")]


class Sites(ast.NodeVisitor):
    """Lists (description, mutate(tree copy node)) pairs; nodes are found again by their number in a walk."""
    def __init__(self, tree):
        self.tree = tree
        self.out = []
        for i, n in enumerate(ast.walk(tree)):
            self.visit_node(i, n)

    def add(self, i, n, what, f):
        self.out.append((i, getattr(n, "lineno", 0), what, f))

    def visit_node(self, i, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            table = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
                     ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
            for new in table.get(type(n.ops[0]), []):
                self.add(i, n, "cmp -> " + new.__name__, lambda m, new=new: m.ops.__setitem__(0, new()))
        if isinstance(n, ast.BinOp):
            table = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            new = table.get(type(n.op))
            if new and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                self.add(i, n, "op -> " + new.__name__, lambda m, new=new: setattr(m, "op", new()))
        if isinstance(n, ast.AugAssign):
            table = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in table:
                self.add(i, n, "aug", lambda m, new=table[type(n.op)]: setattr(m, "op", new()))
        if isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            self.add(i, n, "bool -> " + new.__name__, lambda m, new=new: setattr(m, "op", new()))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                self.add(i, n, "const {} -> {}".format(v, not v), lambda m, v=v: setattr(m, "value", not v))
            elif isinstance(v, (int, float)):
                for w in ({0: [1], 1: [0, 2], -1: [1]}.get(v, [v * 10, v + 1]) if v < 1e9 else []):
                    w = float(w) if isinstance(v, float) else int(w)
                    self.add(i, n, "const {} -> {}".format(v, w), lambda m, w=w: setattr(m, "value", w))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            self.add(i, n, "drop " + type(n.op).__name__,
                     lambda m: setattr(m, "op", ast.UAdd() if isinstance(m.op, ast.USub) else m.op) if isinstance(m.op, ast.USub)
                     else setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not (isinstance(n.test, ast.Compare) and "__name__" in ast.dump(n.test)):
            if not isinstance(n, ast.While):
                self.add(i, n, "if True", lambda m: setattr(m, "test", ast.Constant(True)))
                self.add(i, n, "if False", lambda m: setattr(m, "test", ast.Constant(False)))
        if isinstance(n, ast.Call):
            for j, k in enumerate(n.keywords):
                self.add(i, n, "drop keyword {}".format(k.arg), lambda m, j=j: m.keywords.pop(j))
            if len(n.args) >= 2:
                self.add(i, n, "swap args", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]]))
            if isinstance(n.func, ast.Name) and n.func.id in ("fabs", "abs", "float", "list", "tuple", "sorted", "set", "normalize_vector", "str", "int") and len(n.args) == 1:
                self.add(i, n, "drop call " + n.func.id, lambda m: (setattr(m, "func", ast.Lambda(ast.arguments([], [ast.arg("_x")], None, [], [], None, []), ast.Name("_x", ast.Load())))))
            if isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                self.add(i, n, "drop copy", lambda m: (setattr(m, "args", [m.func.value]), setattr(m, "func", ast.Lambda(ast.arguments([], [ast.arg("_x")], None, [], [], None, []), ast.Name("_x", ast.Load())))))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
        for field in ("body", "orelse", "finalbody"):
            body = getattr(n, field, None)
            if isinstance(body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for j, s in enumerate(body):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Assert, ast.Delete, ast.Raise)):
                        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and getattr(s.value.func, "id", "") == "print":
                            continue
                        self.add(i, s, "drop " + type(s).__name__, lambda m, f=field, j=j: getattr(m, f).__setitem__(j, ast.Pass()))
                    if isinstance(s, ast.Return) and s.value is not None:
                        self.add(i, s, "return None", lambda m, f=field, j=j: setattr(getattr(m, f)[j], "value", ast.Constant(None)))


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    # leave __main__ blocks out
    tree.body = [b for b in tree.body if not (isinstance(b, ast.If) and "__main__" in ast.dump(b.test))]
    base = ast.unparse(tree)
    seen = {base}
    for i, line, what, f in Sites(tree).out:
        t = copy.deepcopy(tree)
        node = list(ast.walk(t))[i]
        try:
            f(node)
            text = ast.unparse(ast.fix_missing_locations(t))
            compile(text, path, "exec")
        except Exception:
            continue
        if text in seen:
            continue
        seen.add(text)
        yield line, what, text, base


RUN = r"""
import sys, time, importlib, json, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, %r)
import core
core.CASE_TIMEOUT = 20
core.install_importer()
out, t0 = [], time.time()
for p in %r:
    m = importlib.import_module("props." + p.lower())
    for i in range(%d):
        if time.time() - t0 > %d:
            break
        ctx, verdict, _ = core.run_case(m, 1, "quick", i)
        if verdict:
            out.append([p, i, verdict[:200]])
            break
    if out:
        break
print("RESULT " + json.dumps(out))
"""


def sh(cmd, env, timeout, cwd):
    e = dict(os.environ, **ENV)
    e.update(env)
    try:
        r = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--n", type=int, default=120)
    ap.add_argument("--budget", type=int, default=120)
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    args = ap.parse_args()
    root = "/repo/src/compas_cem"
    jobs = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            if f.endswith(".py") and re.search(args.files, rel) and not SKIP.search("/" + rel):
                for k, (line, what, text, base) in enumerate(mutants(p)):
                    if k % args.every == 0:
                        jobs.append((rel, line, what, text))
    done = set()
    if os.path.exists(args.out):
        done = {tuple(json.loads(l)["key"]) for l in open(args.out)}
    jobs = [j for j in jobs if (j[0], j[1], j[2]) not in done]
    print(len(jobs), "mutants")
    free = list(range(args.jobs))
    for i in free:
        w = "{}/w{}".format(WORK, i)
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(WORK, exist_ok=True)
        shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "docs"))
    log = open(args.out, "a")

    def one(job):
        rel, line, what, text = job
        i = free.pop()
        w = "{}/w{}".format(WORK, i)
        p = os.path.join(w, "src/compas_cem", rel)
        orig = open(p).read()
        t0 = time.time()
        try:
            open(p, "w").write(text)
            rc, _ = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], {"PYTHONPATH": w + "/src"}, 120, w)
            if rc:
                res = "tests"
            else:
                props = []
                for r, ps in ORDER:
                    if re.search(r, rel):
                        props = ps.split()
                        break
                rc, o = sh([PY, "-B", "-c", RUN % (V + "/harness", props, args.n, args.budget)], {"VERIF_REPO": w, "VERIF_NOEVIDENCE": "1"}, args.budget + 120, V)
                m = re.findall("^RESULT (.*)$", o, re.M)
                res = json.loads(m[-1]) if m else "died: {} {}".format(rc, o[-200:])
        finally:
            open(p, "w").write(orig)
            free.append(i)
        log.write(json.dumps({"key": [rel, line, what], "result": res, "s": round(time.time() - t0, 1)}) + "\n")
        log.flush()
        return res
    with ThreadPoolExecutor(args.jobs) as ex:
        res = list(ex.map(one, jobs))
    print("tests", sum(r == "tests" for r in res), "checks", sum(r != "tests" and bool(r) for r in res), "survived", sum(r == [] for r in res))
    shutil.rmtree(WORK, ignore_errors=True)


main()
