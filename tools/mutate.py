#!/usr/bin/env python3
"""Mutation sampling of the checks (development aid, no check uses it).
usage: mutate.py FILE CHECK[,CHECK...] [--max N] [--seed S] [--func NAME]"""
import argparse
import ast
import concurrent.futures as cf
import os
import random
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.RShift: [ast.LShift], ast.LShift: [ast.RShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitXor: [ast.BitOr]}


def sites(tree, func, lo, hi):
    out = []
    def walk(node, infn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            infn = infn or func is None or node.name == func
        if getattr(node, "lineno", 0) and not (lo <= node.lineno <= hi):
            if not isinstance(node, (ast.ClassDef, ast.FunctionDef)):
                pass
        if infn or func is None:
            if isinstance(node, ast.Compare):
                for i, op in enumerate(node.ops):
                    for new in CMP.get(type(op), []):
                        out.append(("cmp", node, i, new))
            if isinstance(node, (ast.BinOp, ast.AugAssign)):
                for new in BIN.get(type(node.op), []):
                    out.append(("bin", node, 0, new))
            if isinstance(node, ast.BoolOp):
                out.append(("bool", node, 0, ast.Or if isinstance(node.op, ast.And) else ast.And))
            if isinstance(node, ast.Constant) and type(node.value) is int:
                out.append(("const", node, 0, node.value + 1))
                if node.value:
                    out.append(("const", node, 0, node.value - 1))
            if isinstance(node, ast.Constant) and type(node.value) is bool:
                out.append(("const", node, 0, not node.value))
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                out.append(("not", node, 0, None))
            if isinstance(node, (ast.If, ast.While)):
                out.append(("iftrue", node, 0, True))
                out.append(("iffalse", node, 0, False))
            body = getattr(node, "body", None)
            if isinstance(body, list):
                for i, s in enumerate(body):
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and isinstance(node, (ast.FunctionDef, ast.If, ast.While, ast.For)):
                        out.append(("del", node, i, None))
        for ch in ast.iter_child_nodes(node):
            if isinstance(node, ast.AnnAssign) and ch is node.annotation:
                continue
            walk(ch, infn)
    walk(tree, False)
    return [s for s in out if lo <= getattr(s[1], "lineno", 0) <= hi]


def apply(src, func, k, lo, hi):
    tree = ast.parse(src)
    s = sites(tree, func, lo, hi)
    kind, node, i, new = s[k]
    line = node.lineno
    before = ast.unparse(node)[:100].split("\n")[0]
    if kind == "cmp":
        node.ops[i] = new()
    elif kind in ("bin", "bool"):
        node.op = new()
    elif kind == "const":
        node.value = new
    elif kind == "not":
        node.op = ast.UAdd()
    elif kind in ("iftrue", "iffalse"):
        node.test = ast.Constant(new)
    elif kind == "del":
        line = node.body[i].lineno
        before = ast.unparse(node.body[i])[:100].split("\n")[0]
        node.body[i] = ast.Pass()
    desc = "%s line %d: %s -> %s" % (kind, line, before, ast.unparse(node)[:100].split("\n")[0] if kind != "del" else "(deleted)")
    return ast.unparse(ast.fix_missing_locations(tree)), desc


def run(args):
    f, checks, k, func, lo, hi, n = args
    tree = "/tmp/mut/w%d" % os.getpid()
    if not os.path.exists(tree):
        subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=tree)
    p = os.path.join(tree, f)
    src = open(p, encoding="utf-8").read()
    new, desc = apply(src, func, k, lo, hi)
    open(p, "w", encoding="utf-8").write(new)
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests", "-q", "-p", "no:cacheprovider", "-x", "--ignore=tests/test_charNames.py",
                            "--ignore=tests/test_layoutProps.py", "--ignore=tests/test_normalizer2.py", "--ignore=tests/test_exhaustive.py"],
                           cwd=tree, env=dict(ENV, PYTHONPATH=tree), capture_output=True, text=True, timeout=60)
        if r.returncode != 0 or "397 passed" not in r.stdout:
            return ("killed", desc)
    except subprocess.TimeoutExpired:
        return ("killed", desc)
    res = []
    for c in checks:
        try:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c, "--root", tree], capture_output=True, text=True, timeout=900,
                               env=dict(ENV, VERIF_EVIDENCE_DIR="/tmp/mut/ev%d" % os.getpid()))
        except subprocess.TimeoutExpired:
            res.append(c + ":timeout")
            continue
        if r.returncode == 1 and "VIOLATION" in r.stdout:
            return ("caught", desc + " [" + c + "]")
        last = (r.stdout.strip().splitlines() or [""])[-1]
        if r.returncode != 0 or "undecided=0" not in last:
            res.append("%s: rc=%d %s" % (c, r.returncode, last[-90:] + r.stderr[-100:]))
    return ("MISSED", desc + "   " + " ; ".join(res))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("checks")
    ap.add_argument("--max", type=int, default=60)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--func")
    ap.add_argument("--lines", default="1-99999")
    a = ap.parse_args()
    lo, hi = map(int, a.lines.split("-"))
    src = open(os.path.join("/repo", a.file), encoding="utf-8").read()
    n = len(sites(ast.parse(src), a.func, lo, hi))
    ks = list(range(n))
    random.Random(a.seed).shuffle(ks)
    ks = ks[:a.max]
    counts = {}
    with cf.ProcessPoolExecutor(7) as ex:
        for st, d in ex.map(run, [(a.file, a.checks.split(","), k, a.func, lo, hi, n) for k in ks]):
            counts[st] = counts.get(st, 0) + 1
            if st == "MISSED":
                print(st, d, flush=True)
    print(a.file, a.func or "", "sites", n, counts)
    for x in os.listdir("/tmp/mut"):
        shutil.rmtree(os.path.join("/tmp/mut", x), ignore_errors=True)


main()
