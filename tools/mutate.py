#!/usr/bin/env python3
"""Development tool: makes small changes (mutants) of the package in scratch copies of /repo, drops those the existing
tests notice, and runs the checks on the rest until one reports a violation.

usage: mutate.py [--files REGEX] [--sample N] [--seed N] [--cases N] [--jobs N] [--out FILE] [--only KEYS-FILE]
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ALL = ["C%02d" % k for k in range(1, 27)]
FIRST = [("bpmn_diagram_import", "C01 C02 C24"), ("bpmn_import_utils", "C26 C01 C03 C18"),
         ("bpmn_diagram_export", "C04 C06 C05"), ("bpmn_diagram_rep", "C07 C09 C24 C08"),
         ("layouter", "C26 C25 C12 C11"), ("grid_cell", "C25 C11 C12"), ("bpmn_diagram_metrics", "C13 C14"),
         ("diagram_layout_metrics", "C15 C16"), ("csv_import", "C17 C08 C24"), ("csv_export", "C18 C19"),
         ("visualizer", "C27 C20"), ("/graph/", "C21"), ("exception", "C24")]
TEXTS = re.compile("name|getAttribute|_id|text|condition|activity|order|data", re.I)
PAIRS = [("incoming_flow", "outgoing_flow"), ("source_ref", "target_ref"), ("width", "height"), ("x", "y"),
         ("is_expanded", "triggered_by_event"), ("parallel_multiple", "cancel_activity"),
         ("is_closed", "is_executable"), ("id", "name"), ("node_name", "id")]
VALUE = ["({0}.strip() if isinstance({0}, str) else {0})", "({0}[:12] if isinstance({0}, str) else {0})",
         "({0} or None)", "({0}.lower() if isinstance({0}, str) else {0})"]
LOOP = ["list({0})[1:]", "list({0})[:-1]", "list({0})[:3]", "list({0})[::-1]", "sorted({0}, key=str)"]


class Source(object):
    def __init__(self, path):
        self.text = open(path, encoding="utf-8").read()
        self.starts = [0]
        for line in self.text.encode().split(b"\n"):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.raw = self.text.encode()

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def get(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()


OPS = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in",
       ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(path):
    """Pairs (description, new text of the file)."""
    src = Source(path)
    tree = ast.parse(src.text)
    docs = set()
    for node in ast.walk(tree):
        body = getattr(node, "body", None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            docs.add(body[0].value)
            docs.add(body[0])
    out = []

    def put(node, new, what):
        a, b = src.span(node)
        out.append((node.lineno, what, (src.raw[:a] + new.encode() + src.raw[b:]).decode()))

    for node in ast.walk(tree):
        if node in docs:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            put(node, "%s %s %s" % (src.get(node.left), OPS[type(node.ops[0])], src.get(node.comparators[0])), "compare")
        elif isinstance(node, ast.BoolOp):
            word = " or " if isinstance(node.op, ast.And) else " and "
            put(node, "(" + word.join(src.get(v) for v in node.values) + ")", "and/or")
            old = " and " if isinstance(node.op, ast.And) else " or "
            for k in range(len(node.values)):
                rest = [src.get(v) for j, v in enumerate(node.values) if j != k]
                put(node, "(" + old.join(rest) + ")", "drop operand %d" % k)
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            put(node, "(" + src.get(node.operand) + ")", "drop not")
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            put(node, str(node.value + 1), "number +1")
            put(node, str(node.value - 1), "number -1")
        elif isinstance(node, ast.Constant) and isinstance(node.value, str):
            put(node, repr(node.value + "x"), "text x")
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            put(node, repr(not node.value), "flip")
        elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            sign = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}[type(node.op)]
            put(node, "%s %s %s" % (src.get(node.left), sign, src.get(node.right)), "arithmetic")
        elif isinstance(node, ast.Attribute):
            for one, two in PAIRS:
                for have, want in ((one, two), (two, one)):
                    if node.attr == have and isinstance(node.value, ast.Attribute) and node.value.attr == "Consts":
                        put(node, src.get(node.value) + "." + want, "constant %s to %s" % (have, want))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            put(node.test, "True", "test true") if not isinstance(node, ast.While) else None
            put(node.test, "False", "test false")
        if isinstance(node, (ast.For, ast.comprehension)):
            for t in LOOP:
                put(node.iter, t.format(src.get(node.iter)), "loop " + t)
        if isinstance(node, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) or \
                isinstance(node, ast.Assign) and not isinstance(node.targets[0], ast.Name):
            put(node, "pass", "delete")
        if isinstance(node, ast.Return) and node.value is not None:
            put(node, "return None", "return None")
        if isinstance(node, ast.Assign) and \
                not isinstance(node.value, (ast.Dict, ast.List, ast.Constant)) and TEXTS.search(src.get(node.value)):
            for t in VALUE:
                put(node.value, t.format("(" + src.get(node.value) + ")"), "value " + t)
        if isinstance(node, ast.Call):
            if len(node.args) >= 2 and not isinstance(node.args[0], ast.Starred):
                a, b = node.args[-2:]
                p, q = src.span(a), src.span(b)
                out.append((node.lineno, "swap arguments", (src.raw[:p[0]] + src.raw[q[0]:q[1]] + src.raw[p[1]:q[0]] +
                                                            src.raw[p[0]:p[1]] + src.raw[q[1]:]).decode()))
                if isinstance(node.func, ast.Attribute) and node.func.attr == "set":
                    for t in VALUE:
                        put(b, t.format("(" + src.get(b) + ")"), "argument " + t)
            if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
                put(node, src.get(node.func.value), "drop call " + node.func.attr)
            if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "list", "set", "str", "int", "float", "dict") \
                    and node.args:
                put(node, src.get(node.args[0]), "drop " + node.func.id)
            for k in node.keywords:
                if k.arg and k.arg != "encoding":
                    put(k, k.arg + "=None", "keyword None " + k.arg)
    good = []
    for line, what, text in out:
        if text == src.text:
            continue
        try:
            compile(text, "x", "exec")
        except (SyntaxError, ValueError):
            continue
        good.append((line, what, text))
    return good


def run(cmd, cwd, env=None, timeout=300):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONUTF8="1", PYTHONHASHSEED="0")
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        return p.wait(timeout), ""
    except subprocess.TimeoutExpired:
        return -1, ""
    finally:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass


def capture(cmd, cwd, env, timeout):
    e = dict(os.environ)
    e.update(env)
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = -1
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        f.seek(0)
        return rc, f.read().decode("utf-8", "replace")


LOCAL = threading.local()
FOLDERS = []


def place():
    if not hasattr(LOCAL, "dir"):
        LOCAL.dir = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
        FOLDERS.append(LOCAL.dir)
        shutil.copytree("/repo", LOCAL.dir + "/repo", symlinks=True)
        shutil.copytree(ROOT, LOCAL.dir + "/verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
    return LOCAL.dir


def attempt(item, args):
    rel, line, what, text = item
    base = place()
    target = os.path.join(base, "repo", rel)
    original = open(os.path.join("/repo", rel), encoding="utf-8").read()
    key = "%s:%d %s" % (rel, line, what)
    with open(target, "w", encoding="utf-8") as f:
        f.write(text)
    try:
        if not args.skip_tests:
            cmd = [PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", "-o",
                   "python_files=test_*.py *_test.py manually_generated_*.py", "tests"]
            if args.deselect:
                cmd += ["--deselect=" + d for d in args.deselect]
            with open(os.devnull, "w"):
                rc, _ = run(cmd, base + "/repo", timeout=120)
            if rc != 0:
                return key, "tests", ""
        order = []
        for part, ids in FIRST:
            if part in rel:
                order += ids.split()
        if not args.related:
            order += [c for c in ALL if c not in order]
        strange = ""
        for c in order:
            env = {"VERIF_REPO": base + "/repo", "VERIF_SEED": str(args.seed), "VERIF_TIER": "quick", "VERIF_WORKERS": "1"}
            if args.cases:
                env["VERIF_CASES"] = str(args.cases if c not in ("C22", "C23") else max(10, args.cases // 8))
            rc, out = capture(["bash", base + "/verif/check.sh", c], base + "/verif", env, 900)
            if rc == 1 and "VIOLATION" in out:
                return key, c, ""
            if rc != 0:
                strange += " %s rc=%s %s" % (c, rc, out[-300:])
        return key, "MISSED", strange
    finally:
        with open(target, "w", encoding="utf-8") as f:
            f.write(original)
        shutil.rmtree(base + "/verif/replays", ignore_errors=True)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--files", default="")
    p.add_argument("--sample", type=int)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--cases", type=int, default=400)
    p.add_argument("--jobs", type=int, default=8)
    p.add_argument("--out", default="/tmp/mutants.jsonl")
    p.add_argument("--only")
    p.add_argument("--related", action="store_true")
    p.add_argument("--skip-tests", action="store_true")
    p.add_argument("--deselect", action="append")
    p.add_argument("--count", action="store_true")
    args = p.parse_args()
    items = []
    for folder, _, names in sorted(os.walk("/repo/bpmn_python")):
        for name in sorted(names):
            path = os.path.join(folder, name)
            rel = os.path.relpath(path, "/repo")
            if name.endswith(".py") and re.search(args.files, rel):
                seen = {}
                for line, what, text in mutants(path):
                    k = (line, what)
                    seen[k] = seen.get(k, 0) + 1
                    items.append((rel, line, what if seen[k] == 1 else "%s #%d" % (what, seen[k]), text))
    if args.only:
        keys = set(open(args.only).read().splitlines())
        items = [i for i in items if "%s:%d %s" % i[:3] in keys]
    random.Random(args.seed).shuffle(items)
    if args.sample:
        items = items[:args.sample]
    print(len(items), "mutants", flush=True)
    if args.count:
        return
    counts = {}
    try:
        with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool, open(args.out, "a") as out:
            for key, result, note in pool.map(lambda i: attempt(i, args), items):
                counts[result] = counts.get(result, 0) + 1
                if result != "tests":
                    out.write(json.dumps([key, result, note]) + "\n")
                    out.flush()
                if result == "MISSED":
                    print("MISSED", key, note, flush=True)
    finally:
        for f in FOLDERS:
            shutil.rmtree(f, ignore_errors=True)
    print(counts)


if __name__ == "__main__":
    sys.exit(main())
