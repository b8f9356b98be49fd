"""Rewrites all code in a scratch copy without changing its behaviour and runs the checks on it.

    python3 -W ignore tools/refactor.py [TRANSFORM...] [--checks C01 C02] [--keep]

Every check has to stay quiet. Transforms: see TRANSFORMS; "rounding" changes results by rounding errors.
"""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = [f"C{i:02}" for i in range(1, 31)]


def files(root):
    for folder, folders, names in os.walk(root):
        folders[:] = [d for d in folders if not d.startswith(".") and d != "__pycache__"]
        for name in names:
            if name.endswith(".py"):
                yield os.path.relpath(os.path.join(folder, name), root)


def is_test(path):
    return path.endswith("_test.py") or "/test" in "/" + path or os.path.basename(path) == "conftest.py"


class Same(ast.NodeTransformer):
    """Nothing but another layout."""


class Statements(ast.NodeTransformer):
    """A statement without effect at the start of every function, results kept in a variable first."""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        first = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body[first:first] = ast.parse("_unused = None").body
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None:
            return node
        return [ast.Assign([ast.Name("result_of_call", ast.Store())], node.value), ast.Return(ast.Name("result_of_call", ast.Load()))]


class Branches(ast.NodeTransformer):
    """Negated conditions with exchanged branches, reversed comparisons, loops instead of comprehensions."""

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            node.test, node.body, node.orelse = ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test, node.body, node.orelse = ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        swap = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(node.ops) == 1 and type(node.ops[0]) in swap:
            return ast.Compare(node.comparators[0], [swap[type(node.ops[0])]()], [node.left])
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])


class Helpers(ast.NodeTransformer):
    """The body of every method moves to a helper."""

    count = 0

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        body = []
        for f in node.body:
            body.append(f)
            if not isinstance(f, ast.FunctionDef) or f.decorator_list or not f.args.args or f.args.args[0].arg != "self":
                continue
            if f.name.startswith("__") and f.name not in ("__call__", "__init__"):
                continue
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars") and not n.args for n in ast.walk(f)):
                continue
            Helpers.count += 1
            name = f"_carry_out_{f.name.strip('_')}_{Helpers.count}"
            helper = ast.FunctionDef(name, f.args, f.body, [], None)
            call = ast.Call(
                ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()),
                [ast.Name(a.arg, ast.Load()) for a in f.args.args[1:]] + ([ast.Starred(ast.Name(f.args.vararg.arg, ast.Load()), ast.Load())] if f.args.vararg else []),
                [ast.keyword(a.arg, ast.Name(a.arg, ast.Load())) for a in f.args.kwonlyargs] + ([ast.keyword(None, ast.Name(f.args.kwarg.arg, ast.Load()))] if f.args.kwarg else []),
            )
            body[-1] = ast.FunctionDef(f.name, f.args, [ast.Return(call)], [], f.returns)
            body.append(helper)
        node.body = body
        return node


class Order(ast.NodeTransformer):
    """Methods in another order."""

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        places = [i for i, f in enumerate(node.body) if isinstance(f, ast.FunctionDef) and not f.decorator_list]
        for i, f in zip(places, [node.body[i] for i in reversed(places)]):
            node.body[i] = f
        return node


class Locals(ast.NodeTransformer):
    """Other names for local variables."""

    def visit_FunctionDef(self, node):
        inner = [n for n in ast.walk(node) if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not node]
        if inner or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(node)):
            return node
        args = {a.arg for a in node.args.args + node.args.kwonlyargs} | {a.arg for a in (node.args.vararg, node.args.kwarg) if a}
        local = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("locals", "vars", "eval") for n in ast.walk(node)):
            return node
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in local:
                n.id += "_renamed"
        return node


class Rounding(ast.NodeTransformer):
    """Operations in another order; results change by rounding."""

    def visit_BinOp(self, node):
        self.generic_visit(node)
        text = any(isinstance(n, (ast.Constant, ast.JoinedStr)) and not isinstance(getattr(n, "value", 0), (int, float)) for n in ast.walk(node))
        lists = any(isinstance(n, (ast.List, ast.ListComp, ast.Tuple, ast.Call, ast.Starred)) for n in (node.left, node.right))
        if text or lists:
            return node
        if isinstance(node.op, ast.Mult):
            return ast.BinOp(node.right, ast.Mult(), node.left)
        if isinstance(node.op, ast.Pow) and isinstance(node.right, ast.Constant) and node.right.value == 2:
            return ast.BinOp(node.left, ast.Mult(), node.left)
        if isinstance(node.op, ast.Div) and isinstance(node.left, ast.BinOp) and isinstance(node.left.op, ast.Mult):
            # (a * b) / c = a * (b / c)
            return ast.BinOp(node.left.left, ast.Mult(), ast.BinOp(node.left.right, ast.Div(), node.right))
        if isinstance(node.op, ast.Sub) and isinstance(node.left, ast.BinOp) and isinstance(node.left.op, ast.Add):
            # (a + b) - c = a + (b - c)
            return ast.BinOp(node.left.left, ast.Add(), ast.BinOp(node.left.right, ast.Sub(), node.right))
        if isinstance(node.op, ast.Add) and isinstance(node.left, ast.BinOp) and isinstance(node.left.op, ast.Add):
            return ast.BinOp(node.left.left, ast.Add(), ast.BinOp(node.left.right, ast.Add(), node.right))
        return node


TRANSFORMS = {"layout": Same, "statements": Statements, "branches": Branches, "helpers": Helpers, "order": Order, "locals": Locals, "rounding": Rounding, "private": None}


def private(root):
    """Other names for private attributes and methods, in tests as well."""
    trees = {p: ast.parse(open(os.path.join(root, p)).read()) for p in files(root)}
    hidden = lambda name: name.startswith("_") and not name.startswith("__") and len(name) > 2
    own = set()
    for tree in trees.values():
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and hidden(n.name):
                own.add(n.name)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and hidden(n.attr):
                own.add(n.attr)
            elif isinstance(n, ast.ClassDef):
                own |= {m.target.id for m in n.body if isinstance(m, ast.AnnAssign) and hidden(m.target.id)}
                own |= {t.id for m in n.body if isinstance(m, ast.Assign) for t in m.targets if isinstance(t, ast.Name) and hidden(t.id)}
    own -= {n for c in (argparse.ArgumentParser, argparse.Action, argparse.HelpFormatter) for n in dir(c)} | KEEP
    for p, tree in trees.items():
        for n in ast.walk(tree):
            if isinstance(n, ast.FunctionDef) and n.name in own:
                n.name += "_now"
            elif isinstance(n, ast.Attribute) and n.attr in own:
                n.attr += "_now"
            elif isinstance(n, ast.Name) and n.id in own:
                n.id += "_now"
            elif isinstance(n, ast.keyword) and n.arg in own:
                n.arg += "_now"
            elif isinstance(n, ast.Constant) and n.value in own:
                n.value += "_now"
        open(os.path.join(root, p), "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n")


KEEP = set()


def rewrite(root, names):
    for name in names:
        if name == "private":
            private(root)
            continue
        for p in list(files(root)):
            if is_test(p):
                continue
            path = os.path.join(root, p)
            tree = TRANSFORMS[name]().visit(ast.parse(open(path).read()))
            open(path, "w").write(ast.unparse(ast.fix_missing_locations(tree)) + "\n# the end\n")


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("transforms", nargs="*")
    parser.add_argument("--checks", nargs="*", default=ALL)
    parser.add_argument("--seed", default="1")
    parser.add_argument("--keep", action="store_true")
    options = parser.parse_args()
    for names in [[t] for t in TRANSFORMS] if not options.transforms else [t.split("+") for t in options.transforms]:
        scratch = tempfile.mkdtemp(prefix="refactor-", dir="/tmp")
        root = os.path.join(scratch, "repo")
        shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        rewrite(root, names)
        environment = {**os.environ, "PYTHONPATH": root, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
        tests = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--maxfail=30", "-p", "no:cacheprovider"], cwd=root, env=environment, capture_output=True, text=True)
        print("+".join(names), "tests:", tests.stdout.strip().splitlines()[-1] if tests.stdout.strip() else tests.stderr[-300:], flush=True)
        if tests.returncode not in (0,):
            print("\n".join(line for line in tests.stdout.splitlines() if line.startswith(("FAILED", "ERROR", "E  ")))[:1500])
        for check in options.checks:
            r = subprocess.run(
                [sys.executable, "run.py", check, "--seed", options.seed], cwd=VERIF, capture_output=True, text=True,
                env={**os.environ, "VERIF_REPO": root, "VERIF_EVIDENCE": os.path.join(scratch, "evidence")},
            )
            if r.returncode:
                print(f"  {check}: exit {r.returncode}", *[line[:400] for line in (r.stdout + r.stderr).splitlines() if "KNOWN" not in line][-3:], sep="\n    ", flush=True)
        if options.keep:
            print("  kept", scratch)
        else:
            shutil.rmtree(scratch)


main()
