"""Extraction of the real text from /repo: AST index by module and qualified name."""
import ast
import hashlib
import importlib
import sys


class Mangle(ast.NodeTransformer):
    "private names, as the compiler mangles them (method names keep their qualified name)"
    cls = None

    def visit_ClassDef(self, n):
        saved, self.cls = self.cls, n.name.lstrip("_")
        n.body = [self.visit(x) for x in n.body]
        self.cls = saved
        return n

    def m(self, s):
        if self.cls and s.startswith("__") and not s.endswith("__"):
            return f"_{self.cls}{s}"
        return s

    def visit_Attribute(self, n):
        n.attr = self.m(n.attr)
        return self.generic_visit(n)

    def visit_Name(self, n):
        n.id = self.m(n.id)
        return n


class Program:
    def __init__(self):
        self.mods = {}

    def load(self, modname):
        if modname not in self.mods:
            m = importlib.import_module(modname)
            path = m.__file__
            src = open(path, encoding="utf-8").read()
            tree = Mangle().visit(ast.parse(src))
            idx = {}

            def visit(body, prefix):
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        # later definitions win, as at run time (overloads are dropped)
                        idx[prefix + n.name] = n
                        visit([x for x in n.body if isinstance(x, (ast.FunctionDef, ast.ClassDef))], prefix + n.name + ".<locals>.")
                    elif isinstance(n, ast.ClassDef):
                        idx[prefix + n.name] = n
                        visit(n.body, prefix + n.name + ".")
                    elif isinstance(n, (ast.If, ast.Try)):
                        visit(n.body, prefix)
                        visit(n.orelse, prefix)
            visit(tree.body, "")
            self.mods[modname] = (m, tree, idx, src)
        return self.mods[modname]

    def fn(self, modname, qual):
        idx = self.load(modname)[2]
        return idx.get(qual)

    def module(self, modname):
        return self.load(modname)[0]


def strip_doc(node):
    body = node.body
    if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
        body = body[1:]
    return body


def fn_hash(node):
    import copy
    n = copy.deepcopy(node)
    n.body = strip_doc(n) or [ast.Pass()]
    return hashlib.sha256(ast.dump(n).encode()).hexdigest()[:16]


def bind_order(node):
    "locals of a function in first-binding order (parameters first)"
    out = []

    def add(x):
        if x not in out:
            out.append(x)
    a = node.args
    for p in a.posonlyargs + a.args + a.kwonlyargs:
        add(p.arg)
    if a.vararg:
        add(a.vararg.arg)
    if a.kwarg:
        add(a.kwarg.arg)

    class Vis(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                add(n.id)
        def visit_FunctionDef(self, n):
            add(n.name)
        def visit_Lambda(self, n):
            pass
        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_For(self, n):
            self.visit(n.target)
            self.visit(n.iter)
            for s in n.body + n.orelse:
                self.visit(s)
        def visit_Assign(self, n):
            self.visit(n.value)
            for t in n.targets:
                self.visit(t)
    v = Vis()
    for s in node.body:
        v.visit(s)
    return out


def loops_of(node):
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(c)
            walk(c)
    walk(node)
    out.sort(key=lambda n: (n.lineno, n.col_offset))
    return out
