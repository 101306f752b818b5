"""Mutation sweep (a development tool): small syntactic changes of /repo/src, one at a time, in
scratch copies; each is run against the checks of its file until one reports it.

tools/mutate.py [--files a,b] [--sample N] [--seed S] [-j N] [--out FILE] [--more]
Prints the mutants no check reported (equivalent ones among them)."""

import argparse
import ast
import concurrent.futures
import copy
import json
import os
import pathlib
import random
import shutil
import subprocess
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
SRC = pathlib.Path("/repo/src/hyperelastic")
ap = argparse.ArgumentParser()
ap.add_argument("--files", default="")
ap.add_argument("--sample", type=int, default=0)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("-j", type=int, default=7)
ap.add_argument("--out", default="/tmp/mutants.json")
ap.add_argument("--more", action="store_true")
args = ap.parse_args()

ORDER = {
    "spaces": "C03 C04 C01 C06 C18 C25 C02 C17 C16 C14 C19".split(),
    "math": "C12 C13 C01 C02 C03 C08 C14 C26 C28".split(),
    "frameworks": "C01 C02 C15 C18 C08 C11 C16 C14 C19".split(),
    "models": "C09 C11 C10 C01 C02 C18 C15 C26 C28".split(),
    "lab": "C20 C21 C22 C28 C26 C27".split(),
}


class Mutator(ast.NodeTransformer):
    "Applies mutation number ``which``; counts them all."

    def __init__(self, which):
        self.which, self.n, self.what, self.fun = which, -1, None, []

    def hit(self, node, what):
        self.n += 1
        if self.n == self.which:
            self.what = f"{getattr(node, 'lineno', '?')}: {what}"
            return True
        return False

    def body(self, stmts):
        out = []
        for i, s in enumerate(stmts):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                out.append(s)
                continue
            if isinstance(s, (ast.AugAssign, ast.Expr)) or (isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Subscript, ast.Attribute))):
                if self.hit(s, "delete " + ast.unparse(s)[:70]):
                    out.append(ast.copy_location(ast.Pass(), s))
                    continue
            out.append(self.visit(s))
        return out

    def visit_FunctionDef(self, node):
        node.body = self.body(node.body)
        for k, d in enumerate(node.args.defaults):
            node.args.defaults[k] = self.visit(d)
        for k, d in enumerate(node.args.kw_defaults):
            if d is not None:
                node.args.kw_defaults[k] = self.visit(d)
        return node

    def visit_If(self, node):
        if self.hit(node, "if True: " + ast.unparse(node.test)[:60]):
            node.test = ast.copy_location(ast.Constant(True), node.test)
        elif self.hit(node, "if False: " + ast.unparse(node.test)[:60]):
            node.test = ast.copy_location(ast.Constant(False), node.test)
        else:
            node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse) if node.orelse else []
        return node

    def visit_For(self, node):
        node.iter = self.visit(node.iter)
        node.body = self.body(node.body)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}
        t = swap.get(type(node.op))
        if t and self.hit(node, f"{type(node.op).__name__}->{t.__name__} {ast.unparse(node)[:60]}"):
            node.op = t()
            return node
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            if self.hit(node, f"left of {ast.unparse(node)[:60]}"):
                return node.left
        return node

    def visit_AugAssign(self, node):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        t = swap.get(type(node.op))
        if t and self.hit(node, f"{type(node.op).__name__}= -> {t.__name__}="):
            node.op = t()
            return node
        node.value = self.visit(node.value)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        swap = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.Gt: ast.GtE, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        t = swap.get(type(node.ops[0]))
        if t and self.hit(node, f"{type(node.ops[0]).__name__}->{t.__name__} {ast.unparse(node)[:60]}"):
            node.ops[0] = t()
        return node

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if self.hit(node, f"and<->or {ast.unparse(node)[:60]}"):
            node.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.USub, ast.Not, ast.Invert)) and self.hit(node, f"drop {type(node.op).__name__} {ast.unparse(node)[:50]}"):
            return node.operand
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, bool):
            if self.hit(node, f"{node.value} -> {not node.value}"):
                return ast.copy_location(ast.Constant(not node.value), node)
        elif isinstance(node.value, (int, float)):
            if self.hit(node, f"{node.value} -> {node.value + 1}"):
                return ast.copy_location(ast.Constant(node.value + 1), node)
        elif isinstance(node.value, str) and "..." in node.value:
            for old, new in (("IJ", "JI"), ("ik", "ki"), ("jl", "lj"), ("iJ", "Ji")):
                if old in node.value and self.hit(node, f"{node.value} {old}->{new} (first)"):
                    return ast.copy_location(ast.Constant(node.value.replace(old, new, 1)), node)
        return node

    def visit_List(self, node):
        self.generic_visit(node)
        self._pairs(node)
        return node

    def visit_Tuple(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            self._pairs(node)
        return node

    def _pairs(self, node):
        if len(node.elts) > 1 and len(node.elts) < 30:
            for k in range(len(node.elts) - 1):
                if ast.dump(node.elts[k]) != ast.dump(node.elts[k + 1]) and self.hit(node, f"swap {k},{k + 1} of {ast.unparse(node)[:50]}"):
                    node.elts[k], node.elts[k + 1] = node.elts[k + 1], node.elts[k]
                    return

    def visit_Call(self, node):
        self.generic_visit(node)
        for k, kw in enumerate(node.keywords):
            if kw.arg in ("out", "determinant", "dtype", "fun", "axis", "label", "lw", "ax", "nstatevars", "parallel", "finalize", "force", "area",
                          "create_graph", "retain_graph", "numpy", "detF", "invC"):
                if self.hit(node, f"drop keyword {kw.arg} of {ast.unparse(node)[:60]}"):
                    node.keywords.pop(k)
                    break
        if len(node.args) == 2 and ast.dump(node.args[0]) != ast.dump(node.args[1]) and not any(isinstance(a, ast.Starred) for a in node.args):
            if self.hit(node, f"swap arguments of {ast.unparse(node)[:60]}"):
                node.args.reverse()
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "sum", "detach") and self.hit(node, f"drop .{node.func.attr}()"):
            return node.func.value
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "np" and node.args:
            if node.func.attr in ("asarray", "sqrt", "broadcast_to", "abs") and self.hit(node, f"drop np.{node.func.attr} of {ast.unparse(node)[:60]}"):
                return node.args[0]
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        pairs = {"dWdI1": "dWdI2", "dWdI2": "dWdI3", "dI1dC": "dI2dC", "Sb": "S", "Cu": "C", "I10": "I20", "c1": "c2", "c2": "c1", "C10": "C01",
                 "C20": "C30", "force": "area", "area": "force", "x": "y", "y": "x"}
        if isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == "self" and node.attr in pairs:
            if self.hit(node, f"self.{node.attr} -> self.{pairs[node.attr]}"):
                node.attr = pairs[node.attr]
        return node


def mutants():
    files = sorted(SRC.rglob("*.py"))
    for f in files:
        rel = str(f.relative_to(SRC))
        if f.name == "__init__.py" or f.name == "__about__.py" or (args.files and not any(x in rel for x in args.files.split(","))):
            continue
        tree = ast.parse(f.read_text())
        k = 0
        while True:
            t = copy.deepcopy(tree)
            m = Mutator(k)
            t.body = m.body(t.body) if False else [m.visit(s) for s in t.body]
            if m.what is None:
                break
            ast.fix_missing_locations(t)
            code = ast.unparse(t)
            yield rel, k, m.what, code
            k += 1


def run(item):
    rel, k, what, code = item
    root = pathlib.Path(tempfile.mkdtemp(prefix="mutant-"))
    try:
        shutil.copytree("/repo/src", root / "src", ignore=shutil.ignore_patterns("__pycache__"))
        (root / "src" / "hyperelastic" / rel).write_text(code)
        res = {}
        order = ORDER[rel.split("/")[0]]
        if args.more:
            order = [f"C{i:02d}" for i in range(1, 29) if f"C{i:02d}" not in order]
        for c in order:
            env = dict(os.environ, VMON_REPO=str(root), VERIF_SEED="1", VMON_EVIDENCE=str(root / "ev"), VERIF_TIER="quick")
            try:
                p = subprocess.run(["./run.sh", c, "quick"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=600)
                res[c] = p.returncode
            except subprocess.TimeoutExpired:
                res[c] = "timeout"
            if res[c] == 1:
                break
        return rel, k, what, res
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    items = list(mutants())
    if args.more:
        old = json.load(open(args.out))
        left = {(r, k) for r, k, w, res in old if 1 not in res.values()}
        items = [i for i in items if (i[0], i[1]) in left]
        args.out = args.out.replace(".json", "-more.json")
    if args.sample:
        random.Random(args.seed).shuffle(items)
        items = items[: args.sample]
    print(len(items), "mutants", flush=True)
    out = []
    with concurrent.futures.ThreadPoolExecutor(args.j) as ex:
        for r in ex.map(run, items):
            out.append(r)
            odd = {c: v for c, v in r[3].items() if v not in (0, 1)}
            if 1 not in r[3].values():
                print("SURVIVED", *r, flush=True)
            elif odd:
                print("odd", *r, flush=True)
            json.dump(out, open(args.out, "w"))
    print(sum(1 in r[3].values() for r in out), "of", len(out), "reported")
