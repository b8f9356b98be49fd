#!/usr/bin/env python3
"""Development helper: systematic mutation of the sources.

    mutate.py OUT.jsonl [--workers N] [--sample N] [--seed N] [--files PATTERN] [--minutes M] [--limit-checks C01,C02]

Each mutant (one small change of one expression or statement) which compiles and passes the stable tests is judged by the
quick checks until one reports a violation. OUT.jsonl collects the verdicts; mutants listed there already are left out.
Nothing registered in MANIFEST.json uses this file.
"""
import argparse
import ast
import fnmatch
import json
import os
import random
import shutil
import subprocess
import sys
import threading
import time
from collections import Counter, defaultdict
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import warnings

import trial

warnings.simplefilter("ignore")

SKIP = ("benchmark/", "test/", "command/test.py", "command/parameter_variation_test.py", "command/help.py", "profiler.py")
PAIRS = [
    ("left", "right"), ("height", "discharge"), ("maximum", "minimum"), ("max", "min"), ("amax", "amin"), ("velocity", "discharge"),
    ("_h", "_q"), ("start", "end"), ("fine", "coarse"), ("initial", "exact"),
]
COMPARE = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BINARY = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.Mod: ["//"]}


# checks which may have an opinion on a file (others are asked with --every)
RELATED = [
    ("command/animate", "C22"), ("command/plot", "C22 C18"), ("command/generate_data", "C19 C21"), ("command/error.py", "C20 C18"),
    ("command/error_evolution", "C27 C20 C18"), ("command/train_network", "C21"), ("command/print_network", "C21 C18"), ("command/analyze", "C24"),
    ("command/delete_curvature", "C24"), ("command/", "C18 C22 C27 C19 C20"), ("parser", "C18"), ("defaults", "C18 C19 C22 C08"),
    ("finite_element/", "C10 C03 C01 C29 C30 C28 C26 C25 C05 C23 C14 C17 C18"), ("finite_volume/scalar", "C08 C03 C01 C29 C30 C26 C18 C07"),
    ("finite_volume/shallow_water/solver/reduced", "C21 C08 C24 C18"),
    ("finite_volume/shallow_water/solver/coarse", "C12 C14 C18 C26 C01"),
    ("finite_volume/shallow_water", "C08 C28 C04 C02 C09 C07 C01 C30 C26 C18 C14 C19 C22"),
    ("finite_volume/", "C08 C14 C18 C09 C05 C03 C19 C01 C23 C12"),
    ("core/ode_solver", "C06 C26 C14 C23"), ("core/time_stepping", "C05 C23 C18"), ("core/discrete_solution", "C13 C12 C26 C14 C05"),
    ("core/boundary", "C09 C08 C07 C04 C30 C26"), ("core/quadrature", "C11 C10 C26"), ("core/interpolate", "C11 C26 C22 C20 C19"), ("core/norm", "C11 C20 C26"),
    ("core/mesh", "C12 C11 C10 C26"), ("core/system", "C25 C10 C26"), ("core/solver", "C18 C05 C23 C14 C06"), ("core/riemann", "C08 C03 C04 C29 C30 C26"),
    ("core/vector", "C12 C26 C13"), ("core/local_bounds", "C03 C10 C26 C29 C30"), ("core/index", "C10 C03 C26"), ("core/function", "C08 C04 C12"), ("core/", "C18 C16 C20 C11 C12 C13 C05"),
]


class Mutants(ast.NodeVisitor):
    def __init__(self, source):
        self.source, self.found = source, []
        self.lines = source.splitlines(keepends=True)
        self.offsets = [0]
        for line in self.lines:
            self.offsets.append(self.offsets[-1] + len(line.encode()))
        self.raw = source.encode()

    def at(self, line, column):
        return self.offsets[line - 1] + column

    def span(self, node):
        return self.at(node.lineno, node.col_offset), self.at(node.end_lineno, node.end_col_offset)

    def text(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def add(self, node, new, kind):
        a, b = self.span(node)
        if self.raw[a:b].decode() != new:
            self.found.append((a, b, new, kind, node.lineno))

    def between(self, left, right, options, kind):
        a, b = self.span(left)[1], self.span(right)[0]
        old = self.raw[a:b].decode()
        for option in options:
            core = old.strip(" ()\n")
            if core and "\n" not in core:
                self.found.append((a, b, old.replace(core, option, 1), kind, left.lineno))

    def visit_FunctionDef(self, node):
        # neither annotations nor docstrings
        if node.name in ("__repr__", "as_dict"):
            return
        for default in node.args.defaults + [d for d in node.args.kw_defaults if d]:
            self.visit(default)
        self.body(node)

    def visit_ClassDef(self, node):
        self.body(node)

    def visit_Module(self, node):
        self.body(node)

    def body(self, node):
        for statement in node.body:
            self.visit(statement)

    def visit_AnnAssign(self, node):
        if node.value:
            self.visit(node.value)

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            return
        self.add(node, "pass", "drop statement")
        self.visit(node.value)

    def visit_Assign(self, node):
        if isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(node, "pass", "drop assignment")
        self.visit(node.value)
        for target in node.targets:
            if isinstance(target, ast.Subscript):
                self.visit(target)

    def visit_AugAssign(self, node):
        self.add(node, "pass", "drop assignment")
        text = self.text(node)
        for a, b in (("+=", "-="), ("-=", "+="), ("*=", "/=")):
            if a in text:
                self.add(node, text.replace(a, b, 1), "assignment operator")
                self.add(node, text.replace(a, "=", 1), "assignment operator")
                break
        self.visit(node.value)

    def visit_Compare(self, node):
        for op, left, right in zip(node.ops, [node.left] + node.comparators, node.comparators):
            self.between(left, right, COMPARE.get(type(op), []), "comparison")
        self.generic_visit(node)

    def visit_BinOp(self, node):
        self.between(node.left, node.right, BINARY.get(type(node.op), []), "operator")
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
            self.add(node, self.text(node.left), "drop operand")
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for left, right in zip(node.values, node.values[1:]):
            self.between(left, right, ["and" if isinstance(node.op, ast.Or) else "or"], "bool operator")
        self.add(node, self.text(node.values[0]), "drop condition")
        self.add(node, self.text(node.values[-1]), "drop condition")
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        self.add(node, self.text(node.operand), "drop unary")
        self.generic_visit(node)

    def condition(self, test):
        text = self.text(test)
        self.add(test, "True", "condition")
        self.add(test, "False", "condition")
        self.add(test, f"not ({text})", "condition")

    def visit_If(self, node):
        self.condition(node.test)
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node, self.text(node.body), "condition")
        self.add(node, self.text(node.orelse), "condition")
        self.generic_visit(node)

    def visit_Constant(self, node):
        value = node.value
        if value is True or value is False:
            self.add(node, str(not value), "constant")
        elif isinstance(value, int):
            self.add(node, str(value + 1), "constant")
            if value > 0:
                self.add(node, str(value - 1), "constant")
        elif isinstance(value, float):
            self.add(node, repr(value * 1.001 if value else 1e-3), "constant")
            self.add(node, repr(value * 2 if value else 1.0), "constant")

    def visit_JoinedStr(self, node):
        pass

    def names(self, node, text):
        for a, b in PAIRS + [(b, a) for a, b in PAIRS]:
            if a in text and (len(a) > 3 or text.endswith(a)):
                self.add(node, text.replace(a, b), "name")

    def visit_Name(self, node):
        self.names(node, node.id)

    def visit_Attribute(self, node):
        base, text = self.text(node.value), self.text(node)
        tail = text[len(base):]
        for a, b in PAIRS + [(b, a) for a, b in PAIRS]:
            if a in node.attr and (len(a) > 3 or node.attr in (a, "get_" + a)):
                self.add(node, base + tail.replace(a, b), "name")
        self.visit(node.value)

    def visit_Subscript(self, node):
        text = self.text(node.slice)
        if text == "1:":
            self.add(node.slice, ":-1", "slice")
        if text == ":-1":
            self.add(node.slice, "1:", "slice")
        self.generic_visit(node)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "abs") and not node.args:
            self.add(node, self.text(node.func.value), "drop call")
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("abs", "sign", "sqrt", "array", "absolute") and len(node.args) == 1:
            self.add(node, self.text(node.args[0]), "drop call")
        for first, second in zip(node.args, node.args[1:]):
            if not isinstance(first, ast.Starred) and not isinstance(second, ast.Starred) and self.text(first) != self.text(second):
                a, b = self.span(first)[0], self.span(second)[1]
                middle = self.raw[self.span(first)[1] : self.span(second)[0]].decode()
                self.found.append((a, b, self.text(second) + middle + self.text(first), "swap arguments", first.lineno))
        for keyword in node.keywords:
            if keyword.arg and keyword.arg not in ("help", "metavar", "description", "formatter_class", "title", "desc", "unit", "leave", "fontsize", "linewidth"):
                a, b = self.span(keyword)
                while self.raw[b : b + 1] in (b" ", b"\n"):
                    b += 1
                if self.raw[b : b + 1] == b",":
                    b += 1
                else:
                    while self.raw[a - 1 : a] in (b" ", b"\n"):
                        a -= 1
                    if self.raw[a - 1 : a] == b",":
                        a -= 1
                self.found.append((a, b, "", "drop keyword", keyword.value.lineno))
                self.visit(keyword.value)
        self.visit(node.func)
        for arg in node.args:
            self.visit(arg)

    def visit_Return(self, node):
        if node.value:
            self.visit(node.value)

    def visit_Import(self, node):
        pass

    visit_ImportFrom = visit_Import


def mutants(path):
    source = open(os.path.join("/repo", path)).read()
    visitor = Mutants(source)
    visitor.visit(ast.parse(source))
    seen = set()
    for a, b, new, kind, line in visitor.found:
        text = (visitor.raw[:a] + new.encode() + visitor.raw[b:]).decode()
        if text in seen or text == source:
            continue
        seen.add(text)
        try:
            if ast.dump(ast.parse(text)) == ast.dump(ast.parse(source)):
                continue
        except SyntaxError:
            continue
        yield {"file": path, "line": line, "kind": kind, "old": visitor.raw[a:b].decode(), "new": new, "start": a}, text


MEMO = '''
def _reused(f):
    import numpy as np
    kept = {}

    def sign(x):
        if isinstance(x, np.ndarray):
            return (x.shape, %s)
        return x if isinstance(x, (int, float, str, bool, type(None))) else id(x)

    def call(*args, **kwargs):
        key = tuple(map(sign, args)) + tuple((k, sign(v)) for k, v in kwargs.items())
        if kept.get("key") != key:
            kept["key"], kept["value"] = key, f(*args, **kwargs)
        return kept["value"]

    return call


@_reused
'''
BUFFER = '''
def _reused(f):
    import numpy as np
    kept = {}

    def into(key, value):
        if isinstance(value, tuple):
            return tuple(into((key, i), v) for i, v in enumerate(value))
        if not isinstance(value, np.ndarray) or not value.ndim:
            return value
        if key not in kept or kept[key].shape != value.shape or kept[key].dtype != value.dtype:
            kept[key] = value.copy()
        kept[key][...] = value
        return kept[key]

    def call(*args, **kwargs):
        return into(id(args[0]) if args else 0, f(*args, **kwargs))

    return call


@_reused
'''
STATEFUL = {
    "memo ends": MEMO % "tuple(np.ravel(x)[:2]), tuple(np.ravel(x)[-2:])",
    "memo sum": MEMO % "round(float(np.sum(x)), 9)",
    "memo extrema": MEMO % "float(np.max(x)), float(np.min(x))",
    "memo object": MEMO % "id(x)",
    "buffer": BUFFER,
}


def wrapped(path):
    """Functions which keep results for arguments that look alike, or reuse one array for their results."""
    source = open(os.path.join("/repo", path)).read()
    raw = source.encode()
    starts = [0]
    for line in raw.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))
    for f in ast.walk(ast.parse(source)):
        if not isinstance(f, ast.FunctionDef) or f.decorator_list or f.name in ("__init__", "__repr__", "as_dict"):
            continue
        returns = [n for n in ast.walk(f) if isinstance(n, ast.Return) and n.value is not None]
        arguments = [a.arg for a in f.args.args if a.arg != "self"]
        if not returns or not (arguments or f.args.vararg) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
            continue
        if arguments and arguments[0] in ("parser", "arguments", "parsers"):
            continue
        a = starts[f.lineno - 1]
        for kind, text in STATEFUL.items():
            block = "".join(" " * f.col_offset + line + "\n" if line else "\n" for line in text.strip("\n").split("\n"))
            new = (raw[:a] + block.encode() + raw[a:]).decode()
            yield {"file": path, "line": f.lineno, "kind": kind, "old": "", "new": f"{kind}: {f.name}", "start": a}, new


def renamed(path):
    """Another name of the same scope."""
    source = open(os.path.join("/repo", path)).read()
    visitor = Mutants(source)
    tree = ast.parse(source)
    original = ast.dump(tree)
    for c in [n for n in ast.walk(tree) if isinstance(n, (ast.ClassDef, ast.Module))]:
        called = {id(n.func) for n in ast.walk(c) if isinstance(n, ast.Call)}
        own = [n for n in ast.walk(c) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"] if isinstance(c, ast.ClassDef) else []
        data = {n.attr for n in own if id(n) not in called}
        calls = {n.attr for n in own if id(n) in called}
        for n in own:
            if isinstance(n.ctx, ast.Load):
                for other in (calls if id(n) in called else data) - {n.attr}:
                    visitor.add(n, "self." + other, "attribute")
        for f in [n for n in c.body if isinstance(n, ast.FunctionDef)]:
            names = [n for n in ast.walk(f) if isinstance(n, ast.Name)]
            local = {n.id for n in names if isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args + f.args.kwonlyargs} - {"self"}
            for n in names:
                if isinstance(n.ctx, ast.Load) and n.id in local:
                    for other in local - {n.id}:
                        visitor.add(n, other, "variable")
    for a, b, new, kind, line in visitor.found:
        text = (visitor.raw[:a] + new.encode() + visitor.raw[b:]).decode()
        try:
            if ast.dump(ast.parse(text)) != original:
                yield {"file": path, "line": line, "kind": kind, "old": visitor.raw[a:b].decode(), "new": new, "start": a}, text
        except SyntaxError:
            continue


RARE = '''
import numpy as np

counts = {}


def arrays(scope):
    values = [v for k, v in scope.items() if k != "self"]
    values += list(vars(scope["self"]).values()) if hasattr(scope.get("self"), "__dict__") else []
    for v in values:
        for w in v if isinstance(v, (tuple, list)) else [v]:
            if isinstance(w, (float, np.ndarray)) and np.asarray(w).dtype.kind == "f" and np.size(w):
                yield np.asarray(w)


def hit(condition, site, scope):
    try:
        if condition == "late":
            counts[site] = counts.get(site, 0) + 1
            return counts[site] > 12
        for v in arrays(scope):
            size = np.abs(v)
            if condition == "large" and size.max() > 50: return True
            if condition == "tiny" and 0 < size.min() < 1e-4: return True
            if condition == "zero" and v.ndim and size.min() == 0: return True
            if condition == "equal" and v.ndim and len(v) > 2 and (np.diff(v, axis=0) == 0).any(): return True
            if condition == "negative" and v.ndim and v.size > 2 and v.max() < 0: return True
            if condition == "long" and v.ndim and len(v) > 24: return True
            if condition == "odd" and v.ndim and len(v) % 2 and len(v) > 6: return True
            if condition == "short" and v.ndim and len(v) == 5: return True
    except Exception:
        return False
    return False
'''
CONDITIONS = ("late", "large", "tiny", "zero", "equal", "negative", "long", "odd", "short")


def rare(m, rng):
    """The same change, but only in rare situations: (description, text) or None."""
    source = open(os.path.join("/repo", m["file"])).read()
    raw = source.encode()
    starts = [0]
    for line in raw.splitlines(keepends=True):
        starts.append(starts[-1] + len(line))
    at = lambda node: (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)
    a, b = m["start"], m["start"] + len(m["old"].encode())
    if raw[a:b].decode() != m["old"]:
        return None
    condition = str(rng.choice(CONDITIONS))
    hit = f'__import__("rare_hits").hit("{condition}", {a}, locals())'
    functions = [f for f in ast.walk(ast.parse(source)) if isinstance(f, ast.FunctionDef)]
    inside = [n for f in functions for s in f.body for n in ast.walk(s) if isinstance(n, (ast.expr, ast.stmt)) and at(n)[0] <= a and b <= at(n)[1]]
    if not inside:
        return None
    node = min(inside, key=lambda n: at(n)[1] - at(n)[0])
    if m["new"] == "pass":
        if b"\n" in raw[a:b]:
            return None
        text = raw[:a] + f"if not {hit}: ".encode() + raw[a:]
    else:
        expressions = [n for n in inside if isinstance(n, ast.expr)]
        for node in sorted(expressions, key=lambda n: at(n)[1] - at(n)[0]):
            A, B = at(node)
            new = raw[A:a] + m["new"].encode() + raw[b:B]
            try:
                ast.parse(new.decode().strip(), mode="eval")
                text = raw[:A] + b"((" + new + f") if {hit} else (".encode() + raw[A:B] + b"))" + raw[B:]
                ast.parse(text)
                compile(text, m["file"], "exec")
                break
            except SyntaxError:
                continue
        else:
            return None
    try:
        compile(text, m["file"], "exec")
    except SyntaxError:
        return None
    return {**{k: m[k] for k in ("file", "line", "old", "start")}, "new": m["new"] + " # if " + condition, "kind": m["kind"] + " if " + condition, "was": m["status"]}, text.decode()


def key(m):
    return (m["file"], m["start"], m["old"], m["new"])


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("out")
    parser.add_argument("--workers", type=int, default=8)
    parser.add_argument("--sample", type=int)
    parser.add_argument("--seed", type=int, default=1)
    parser.add_argument("--files", default="*")
    parser.add_argument("--minutes", type=float, default=60)
    parser.add_argument("--checks")
    parser.add_argument("--count", action="store_true")
    parser.add_argument("--generator", choices=("mutants", "wrapped", "renamed"), default="mutants")
    parser.add_argument("--every", action="store_true")
    parser.add_argument("--again", help="judge the survivors of this file again")
    parser.add_argument("--rare", help="make the mutants of this file which were detected take effect in rare situations only")
    options = parser.parse_args()

    files = subprocess.run(["git", "-C", "/repo", "ls-files", "*.py"], capture_output=True, text=True).stdout.split()
    files = [f for f in files if not f.startswith(SKIP) and not f.endswith("_test.py") and fnmatch.fnmatch(f, options.files)]
    work = [m for f in files for m in globals()[options.generator](f)]
    if options.count:
        print(len(work), Counter(m["file"] for m, _ in work).most_common(), Counter(m["kind"] for m, _ in work))
        return
    done, stats = set(), defaultdict(Counter)
    if os.path.exists(options.out):
        for line in open(options.out):
            m = json.loads(line)
            done.add(key(m))
            if m["status"].startswith("C"):
                stats[m["file"]][m["status"]] += 1
    work = [(m, t) for m, t in work if key(m) not in done]
    again = None
    if options.again:
        again = {key(m): m for m in map(json.loads, open(options.again)) if m["status"] == "SURVIVED"}
        work = [(m, t) for m, t in work if key(m) in again]
    if options.rare:
        rng = random.Random(options.seed)
        found = [m for m in map(json.loads, open(options.rare)) if m["status"] != "SURVIVED"]
        work = [r for m in found for r in {w[0]["kind"]: w for w in (rare(m, rng) for _ in range(2)) if w}.values()]
        work = [(m, t) for m, t in work if key(m) not in done]
    random.Random(options.seed).shuffle(work)
    if options.sample:
        work = work[: options.sample]
    lock, stop = threading.Lock(), time.time() + 60 * options.minutes
    pids = options.checks.split(",") if options.checks else trial.checks()
    out = open(options.out, "a")
    copies = [trial.copy() for _ in range(options.workers)]
    if options.rare:
        for _, repo in copies:
            with open(os.path.join(repo, "rare_hits.py"), "w") as f:
                f.write(RARE)

    def judge(m, text):
        if time.time() > stop:
            return
        with lock:
            directory, repo = copies.pop()
        path = os.path.join(repo, m["file"])
        shutil.copy2(path, path + ".keep")
        started = time.time()
        try:
            with open(path, "w") as f:
                f.write(text)
            m["broken"] = []
            if again is None and trial.tests(repo, fast=True):
                m["status"] = "tests"
            else:
                m["status"] = "SURVIVED"
                with lock:
                    related = next((r.split() for f, r in RELATED if m["file"].startswith(f)), pids)
                    if options.every:
                        related = pids
                    order = sorted([p for p in related if p in pids], key=lambda p: -stats[m["file"]][p])
                for pid in order:
                    code, lines = trial.check(repo, pid, VERIF_FAIL_FAST="1", VERIF_WORKERS="1")
                    if code == 1:
                        m["status"] = pid
                        what = [line for line in lines if "what=" in line]
                        m["what"] = what[0].strip()[:200] if what else ""
                        with lock:
                            stats[m["file"]][pid] += 1
                        break
                    if code:
                        m["broken"].append((pid, code, lines[-1][:200] if lines else ""))
        finally:
            os.replace(path + ".keep", path)
            m["seconds"] = round(time.time() - started, 1)
            with lock:
                copies.append((directory, repo))
                out.write(json.dumps(m) + "\n")
                out.flush()

    try:
        with ThreadPoolExecutor(options.workers) as pool:
            list(pool.map(lambda item: judge(*item), work))
    finally:
        for directory, _ in copies:
            shutil.rmtree(directory, ignore_errors=True)


if __name__ == "__main__":
    main()
