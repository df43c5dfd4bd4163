#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package (development aid: the checks must stay quiet on them).
usage: refactor.py NAME OUT_DIR   (copies /repo to OUT_DIR and applies the rewrite; NAME 'list' lists them)"""
import ast
import copy
import os
import shutil
import sys


def simple(n):
    return isinstance(n, (ast.Name, ast.Constant)) or isinstance(n, ast.Attribute) and simple(n.value)


class Base(ast.NodeTransformer):
    n = 0

    def fresh(self):
        Base.n += 1
        return "tmp%d_" % Base.n

    def visit_ClassDef(self, node):
        self.generic_visit(node)
        return node


class SwapIf(Base):
    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        return ast.IfExp(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)


class TempReturn(Base):
    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is None or isinstance(node.value, ast.Constant):
            return node
        t = self.fresh()
        return [ast.Assign([ast.Name(t, ast.Store())], node.value, lineno=node.lineno), ast.Return(ast.Name(t, ast.Load()))]


class SplitCompare(Base):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 2 and simple(node.comparators[0]):
            m = node.comparators[0]
            return ast.BoolOp(ast.And(), [ast.Compare(node.left, [node.ops[0]], [m]), ast.Compare(copy.deepcopy(m), [node.ops[1]], [node.comparators[1]])])
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(node.ops) == 1 and type(node.ops[0]) in flip and simple(node.left) and simple(node.comparators[0]):
            return ast.Compare(node.comparators[0], [flip[type(node.ops[0])]()], [node.left])
        return node


class WhileTrue(Base):
    def visit_While(self, node):
        self.generic_visit(node)
        if node.orelse or isinstance(node.test, ast.Constant):
            return node
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), node.test), [ast.Break()], [])] + node.body, [])


class ForWhile(Base):
    """for x in range(..) without continue -> while"""
    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if node.orelse or not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not it.keywords and isinstance(node.target, ast.Name)):
            return node
        if len(it.args) == 3 and not isinstance(it.args[2], ast.Constant):
            return node
        lo, hi = (ast.Constant(0), it.args[0]) if len(it.args) == 1 else it.args[:2]
        step = it.args[2] if len(it.args) == 3 else ast.Constant(1)
        i, e = self.fresh(), self.fresh()
        L = lambda x: ast.Name(x, ast.Load())
        return [ast.Assign([ast.Name(i, ast.Store())], lo, lineno=1), ast.Assign([ast.Name(e, ast.Store())], hi, lineno=1),
                ast.While(ast.Compare(L(i), [ast.Lt()], [L(e)]),
                          [ast.Assign([node.target], L(i), lineno=1), ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), step)] + node.body, [])]


class Aug(Base):
    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Name) and isinstance(node.value, (ast.Constant, ast.BinOp)) and isinstance(node.op, (ast.Add, ast.Sub)):
            return ast.Assign([node.target], ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op, node.value), lineno=node.lineno)
        return node


class Arith(Base):
    def visit_BinOp(self, node):
        self.generic_visit(node)
        r = node.right
        if isinstance(node.op, ast.RShift) and isinstance(r, ast.Constant):
            return ast.BinOp(node.left, ast.FloorDiv(), ast.Constant(1 << r.value))
        if isinstance(node.op, ast.LShift) and isinstance(r, ast.Constant):
            return ast.BinOp(node.left, ast.Mult(), ast.Constant(1 << r.value))
        if isinstance(node.op, ast.BitAnd) and isinstance(r, ast.Constant) and isinstance(r.value, int) and r.value & (r.value + 1) == 0 and r.value:
            return ast.BinOp(node.left, ast.Mod(), ast.Constant(r.value + 1))
        return node


class Tern(Base):
    """return a if c else b -> if statement; x = a if c else b too"""
    def visit_Return(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.IfExp):
            v = node.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if isinstance(node.value, ast.IfExp) and len(node.targets) == 1 and simple(node.targets[0]):
            v = node.value
            return ast.If(v.test, [ast.Assign(node.targets, v.body, lineno=1)], [ast.Assign(copy.deepcopy(node.targets), v.orelse, lineno=1)])
        return node


class Comp(Base):
    """list comprehensions as generator expressions in list()"""
    def visit_ListComp(self, node):
        self.generic_visit(node)
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])


class Cond(Base):
    """if a and b: X -> nested; `not a == b`"""
    def visit_If(self, node):
        self.generic_visit(node)
        if not node.orelse and isinstance(node.test, ast.BoolOp) and isinstance(node.test.op, ast.And):
            body = node.body
            for v in reversed(node.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return node


class DeMorgan(Base):
    def visit_BoolOp(self, node):
        self.generic_visit(node)
        if all(isinstance(v, (ast.Compare, ast.UnaryOp)) and (not isinstance(v, ast.UnaryOp) or isinstance(v.op, ast.Not)) for v in node.values):
            op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in node.values]))
        return node


class Helper(Base):
    """the value of every returned expression goes through a nested function"""
    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node)):
            return node
        if node.name.startswith("__") or node.decorator_list:
            return node
        inner = copy.deepcopy(node)
        inner.name = self.fresh()
        inner.decorator_list = []
        inner.returns = None
        a = inner.args
        names = [x.arg for x in a.args]
        if a.vararg or a.kwonlyargs or a.kwarg or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(node)) or any(
                isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(node)):
            return node
        a.defaults = []
        node.body = [inner, ast.Return(ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(x, ast.Load()) for x in names], []))]
        return node


class Walrus(Base):
    """early exit: `if c: return X` / rest -> else branch"""
    def fix(self, body):
        out = []
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(body):
                s.orelse = self.fix(body[i + 1:])
                out.append(s)
                return out
            out.append(s)
        return out

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self.fix(node.body)
        return node


class Tuples(Base):
    """a, b = x, y -> separate temporaries"""
    def visit_Assign(self, node):
        self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Tuple) and isinstance(node.value, ast.Tuple) and len(t.elts) == len(node.value.elts):
            ns = [self.fresh() for _ in t.elts]
            return [ast.Assign([ast.Name(n, ast.Store())], v, lineno=1) for n, v in zip(ns, node.value.elts)] + [
                ast.Assign([x], ast.Name(n, ast.Load()), lineno=1) for n, x in zip(ns, t.elts)]
        if len(node.targets) == 1 and isinstance(t, ast.Name) and isinstance(node.value, (ast.BinOp, ast.Call)):
            n = self.fresh()
            return [ast.Assign([ast.Name(n, ast.Store())], node.value, lineno=1), ast.Assign([t], ast.Name(n, ast.Load()), lineno=1)]
        return node


class Format(Base):
    """f-strings as str.format"""
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        s, args = "", []
        for v in node.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace("{", "{{").replace("}", "}}")
            else:
                if v.conversion != -1 or v.format_spec and not (isinstance(v.format_spec, ast.JoinedStr) and all(isinstance(x, ast.Constant) for x in v.format_spec.values)):
                    return node
                spec = "".join(x.value for x in v.format_spec.values) if v.format_spec else ""
                s += "{%s}" % (":" + spec if spec else "")
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), "format", ast.Load()), args, [])

    def visit_FormattedValue(self, node):
        node.value = self.visit(node.value)
        return node


class ForIndex(Base):
    """for x in <name> -> for i in range(len(..))  (sequences only: names that end in s or List)"""
    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if isinstance(it, ast.Attribute) and it.attr in ("list", "ranges", "groups") or isinstance(it, ast.Name) and it.id in ("codePoints", "propsList"):
            i = self.fresh()
            node.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [copy.deepcopy(it)], [])], [])
            t = node.target
            node.target = ast.Name(i, ast.Store())
            node.body = [ast.Assign([t], ast.Subscript(it, ast.Name(i, ast.Load()), ast.Load()), lineno=1)] + node.body
        return node


ALL = {c.__name__: c for c in Base.__subclasses__()}


def main():
    name, out = sys.argv[1:3] if len(sys.argv) > 2 else ("list", None)
    if name == "list":
        print(" ".join(ALL))
        return
    shutil.copytree("/repo", out, ignore=shutil.ignore_patterns(".git", "*.dat"))
    k = 0
    for dp, dn, fn in os.walk(os.path.join(out, "UnicodeData")):
        for f in sorted(fn):
            if not f.endswith(".py") or f.endswith("Data.py") or f.endswith("_h.py"):
                continue
            p = os.path.join(dp, f)
            src = open(p, encoding="utf-8").read()
            tree = ast.parse(src)
            before = ast.dump(tree)
            for n in name.split("+"):
                tree = ast.fix_missing_locations(ALL[n]().visit(tree))
            if ast.dump(tree) != before:
                k += 1
                open(p, "w", encoding="utf-8").write(ast.unparse(tree) + "\n")
    print(name, "changed", k, "files")


if __name__ == "__main__":
    main()
