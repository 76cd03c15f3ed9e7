#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the sources of a copy of the repository (tests of the checks).

refactor.py KIND DIR: KIND = rename | wrap | temps | flip | items | loops
"""
import ast
import os
import sys


def functions(tree):
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)):
            yield node


class Rename(ast.NodeTransformer):
    """new names for the local variables (not the parameters)"""

    def visit_FunctionDef(self, node):
        params = {a.arg for a in node.args.args + node.args.kwonlyargs + node.args.posonlyargs}
        if node.args.vararg:
            params.add(node.args.vararg.arg)
        if node.args.kwarg:
            params.add(node.args.kwarg.arg)
        skip, local = set(), set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                skip |= set(n.names)
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node:
                skip |= {a.arg for a in n.args.args}
                if isinstance(n, ast.FunctionDef):
                    skip.add(n.name)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                local.add(n.id)
        local -= params | skip
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in local:
                n.id = "loc_" + n.id
        return node


class Wrap(ast.NodeTransformer):
    """the body of a function in a helper"""

    def __init__(self):
        self.depth = 0

    def visit_ClassDef(self, node):
        return node

    def visit_Module(self, node):
        out = []
        for n in node.body:
            if isinstance(n, ast.FunctionDef) and not n.args.vararg and not n.args.kwarg and not n.decorator_list and not n.args.kwonlyargs and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                core = ast.FunctionDef(name="_core" + n.name, args=ast.arguments(posonlyargs=[], args=n.args.args, kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.body, decorator_list=[], lineno=1, type_params=[])
                call = ast.Call(func=ast.Name(core.name, ast.Load()), args=[ast.Name(a.arg, ast.Load()) for a in n.args.args], keywords=[])
                n.body = [ast.Return(call)]
                out.append(core)
            out.append(n)
        node.body = out
        return node


def pure(n):
    return not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Yield, ast.Starred, ast.IfExp, ast.BoolOp)) for x in ast.walk(n))


class Temps(ast.NodeTransformer):
    """intermediate results in variables"""

    def __init__(self):
        self.k = 0

    def block(self, body):
        out = []
        for st in body:
            st = self.visit(st)
            if isinstance(st, (ast.Assign, ast.Return)) and st.value is not None and pure(st.value):
                v = st.value
                if isinstance(v, ast.BinOp):
                    for side in ("left", "right"):
                        x = getattr(v, side)
                        if not isinstance(x, (ast.Name, ast.Constant)):
                            setattr(v, side, self.temp(x, out))
                elif isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and (isinstance(v.func, ast.Name) or isinstance(v.func.value, ast.Name)):
                    v.args = [x if isinstance(x, (ast.Name, ast.Constant)) else self.temp(x, out) for x in v.args]
                elif isinstance(st, ast.Return) and not isinstance(v, (ast.Name, ast.Constant, ast.Tuple)):
                    st.value = self.temp(v, out)
            out.append(st)
        return out

    def temp(self, x, out):
        self.k += 1
        nm = "part_%d" % self.k
        out.append(ast.Assign(targets=[ast.Name(nm, ast.Store())], value=x, lineno=1))
        return ast.Name(nm, ast.Load())

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                setattr(node, f, self.block(b))
            elif isinstance(b, list):
                setattr(node, f, [self.visit(x) for x in b])
        for h in getattr(node, "handlers", []):
            h.body = self.block(h.body)
        return node


class Flip(ast.NodeTransformer):
    """mirrored comparisons, branches in the other order"""
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and type(node.ops[0]) in self.M:
            return ast.Compare(left=node.comparators[0], ops=[self.M[type(node.ops[0])]()], comparators=[node.left])
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and not (len(node.orelse) == 1 and isinstance(node.orelse[0], ast.If)):
            return ast.If(test=ast.UnaryOp(ast.Not(), node.test), body=node.orelse, orelse=node.body)
        return node


class Items(ast.NodeTransformer):
    """for k, v in d.items() -> for k in d: v = d[k]"""

    def visit_For(self, node):
        self.generic_visit(node)
        it = node.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(it.func.value, ast.Name) and isinstance(node.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in node.target.elts):
            k, v = node.target.elts
            first = ast.Assign(targets=[ast.Name(v.id, ast.Store())], value=ast.Subscript(ast.Name(it.func.value.id, ast.Load()), ast.Name(k.id, ast.Load()), ast.Load()), lineno=1)
            return ast.For(target=ast.Name(k.id, ast.Store()), iter=it.func.value, body=[first] + node.body, orelse=node.orelse, lineno=1)
        return node


class Loops(ast.NodeTransformer):
    """zip of lists -> positions (only over names); comprehensions -> loops"""

    def __init__(self):
        self.k = 0

    def block(self, body):
        out = []
        for st in body:
            st = self.visit(st)
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.ListComp) and len(st.value.generators) == 1:
                g = st.value.generators[0]
                nm = "%s_list" % st.targets[0].id
                inner = ast.Expr(ast.Call(func=ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), args=[st.value.elt], keywords=[]))
                body_ = [inner]
                for c in g.ifs:
                    body_ = [ast.If(test=c, body=body_, orelse=[])]
                out.append(ast.Assign(targets=[ast.Name(nm, ast.Store())], value=ast.List([], ast.Load()), lineno=1))
                out.append(ast.For(target=g.target, iter=g.iter, body=body_, orelse=[], lineno=1))
                st = ast.Assign(targets=st.targets, value=ast.Name(nm, ast.Load()), lineno=1)
            out.append(st)
        return out

    def visit_For(self, node):
        it = node.iter
        node.body = self.block(node.body)
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and isinstance(node.target, ast.Tuple) and all(isinstance(x, ast.Name) for x in it.args):
            k = "pos_%d" % self.k
            self.k += 1
            stored = {n.id for b in node.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            if any(a.id in stored for a in it.args):
                return node
            get = [ast.Assign(targets=[t], value=ast.Subscript(ast.Name(a.id, ast.Load()), ast.Name(k, ast.Load()), ast.Load()), lineno=1) for t, a in zip(node.target.elts, it.args)]
            rng = ast.Call(func=ast.Name("range", ast.Load()), args=[ast.Call(func=ast.Name("len", ast.Load()), args=[ast.Name(it.args[0].id, ast.Load())], keywords=[])], keywords=[])
            return ast.For(target=ast.Name(k, ast.Store()), iter=rng, body=get + node.body, orelse=[], lineno=1)
        return node

    def generic_visit(self, node):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(node, f, None)
            if isinstance(b, list) and not isinstance(node, (ast.Module, ast.ClassDef)):
                setattr(node, f, self.block(b))
            elif isinstance(b, list):
                setattr(node, f, [self.visit(x) for x in b])
        return node


KINDS = {"rename": Rename, "wrap": Wrap, "temps": Temps, "flip": Flip, "items": Items, "loops": Loops}


def main():
    kind, root = sys.argv[1:3]
    for d, _, files in os.walk(os.path.join(root, "pypeec")):
        for f in files:
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p) as h:
                    tree = ast.parse(h.read())
                tree = ast.fix_missing_locations(KINDS[kind]().visit(tree))
                with open(p, "w") as h:
                    h.write(ast.unparse(tree) + "\n")


main()
