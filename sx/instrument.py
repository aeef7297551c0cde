"""AST instrumentation of the real source: operations CPython would perform in C are routed to
the symbolic runtime (sx.rt), so that proxies flow through unmodified titus code."""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys
import types

RT = "_sx_"
NOCALL = {"super", "locals", "globals", "vars"}


def _rt(name):
    return ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load())


def _call(name, *args):
    return ast.Call(_rt(name), list(args), [])


class T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOCALL:
            return node
        if any(k.arg is None for k in node.keywords) and not any(isinstance(a, ast.Starred) for a in node.args):
            kw = ast.Dict([None if k.arg is None else ast.Constant(k.arg) for k in node.keywords], [k.value for k in node.keywords])
            return ast.copy_location(_call("callkw", node.func, ast.Tuple(node.args, ast.Load()), kw), node)
        return ast.copy_location(ast.Call(_rt("call"), [node.func] + node.args, node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            op = node.ops[0]
            l, r = node.left, node.comparators[0]
            name = {ast.Is: "is_", ast.IsNot: "is_not", ast.In: "in_", ast.NotIn: "not_in", ast.Eq: "eq", ast.NotEq: "ne"}.get(type(op))
            if name in ("is_", "is_not") and isinstance(r, ast.Constant) and r.value is None:
                return node
            if name:
                return ast.copy_location(_call(name, l, r), node)
        return node

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(_call("not_", node.operand), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", node.left, node.right), node)
        if isinstance(node.op, ast.Pow):
            return ast.copy_location(_call("power", node.left, node.right), node)
        return node

    def _slice(self, s):
        return s

    def _sliceval(self, s):
        if isinstance(s, ast.Slice):
            N = ast.Constant(None)
            return ast.Call(ast.Name("slice", ast.Load()), [s.lower or N, s.upper or N, s.step or N], [])
        if isinstance(s, ast.Tuple):
            return ast.Tuple([self._sliceval(x) for x in s.elts], ast.Load())
        return s

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", node.value, self._sliceval(node.slice)), node)
        return node

    def visit_Assign(self, node):
        self.generic_visit(node)
        if any(isinstance(t, ast.Subscript) for t in node.targets):
            self.n += 1
            tmp = "_sx_tmp%d" % self.n
            out = [ast.Assign([ast.Name(tmp, ast.Store())], node.value)]
            for t in node.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.Expr(_call("setitem", t.value, self._sliceval(t.slice), ast.Name(tmp, ast.Load()))))
                else:
                    out.append(ast.Assign([t], ast.Name(tmp, ast.Load())))
            for o in out:
                ast.copy_location(o, node)
                ast.fix_missing_locations(o)
            return out
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.target, ast.Subscript):
            self.n += 1
            a, b = "_sx_o%d" % self.n, "_sx_k%d" % self.n
            cur = _call("getitem", ast.Name(a, ast.Load()), ast.Name(b, ast.Load()))
            if isinstance(node.op, ast.Mod):
                new = _call("mod", cur, node.value)
            else:
                # in-place semantics on a temp, then store
                new = None
            out = [ast.Assign([ast.Name(a, ast.Store())], node.target.value),
                   ast.Assign([ast.Name(b, ast.Store())], self._sliceval(node.target.slice))]
            if new is None:
                c = "_sx_v%d" % self.n
                out.append(ast.Assign([ast.Name(c, ast.Store())], cur))
                out.append(ast.AugAssign(ast.Name(c, ast.Store()), node.op, node.value))
                new = ast.Name(c, ast.Load())
            out.append(ast.Expr(_call("setitem", ast.Name(a, ast.Load()), ast.Name(b, ast.Load()), new)))
            for o in out:
                ast.copy_location(o, node)
                ast.fix_missing_locations(o)
            return out
        if isinstance(node.op, ast.Mod) and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign([node.target], _call("mod", ast.Name(node.target.id, ast.Load()), node.value)), node)
        return node

    def visit_Delete(self, node):
        self.generic_visit(node)
        if any(isinstance(t, ast.Subscript) for t in node.targets):
            out = []
            for t in node.targets:
                if isinstance(t, ast.Subscript):
                    out.append(ast.Expr(_call("delitem", t.value, self._sliceval(t.slice))))
                else:
                    out.append(ast.Delete([t]))
            for o in out:
                ast.copy_location(o, node)
                ast.fix_missing_locations(o)
            return out
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        if any(k is None for k in node.keys):
            parts = []
            for k, v in zip(node.keys, node.values):
                parts.append(ast.Tuple([ast.Constant(None) if k is None else ast.Tuple([k], ast.Load()), v], ast.Load()))
            return ast.copy_location(_call("mkdict2", ast.List(parts, ast.Load())), node)
        return ast.copy_location(_call("mkdict", ast.List(
            [ast.Tuple([k, v], ast.Load()) for k, v in zip(node.keys, node.values)], ast.Load())), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        if all(isinstance(k, ast.Constant) for k in node.elts):
            return node
        return ast.copy_location(_call("mkset", ast.List(node.elts, ast.Load())), node)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("mkdict", ast.ListComp(
            ast.Tuple([node.key, node.value], ast.Load()), node.generators)), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(_call("mkset", ast.ListComp(node.elt, node.generators)), node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(_call("fstr", ast.List(parts, ast.Load())), node)

    def visit_Try(self, node):
        self.generic_visit(node)
        if any(h.type is None or _mentions_base(h.type) for h in node.handlers):
            h = ast.ExceptHandler(_rt("Control"), None, [ast.Raise()])
            ast.copy_location(h, node)
            node.handlers.insert(0, h)
        return node


def _mentions_base(t):
    return any(isinstance(n, ast.Name) and n.id == "BaseException" for n in ast.walk(t))


def transform_source(src, filename, mode="exec"):
    tree = ast.parse(src, filename, mode)
    tree = T().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, mode, dont_inherit=True)


INSTRUMENTED_FILES = {}


# the parser generator looks into its caller's frame; only concrete texts go through it
PLAIN = ("titus.prettypfa",)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        if module.__name__ in PLAIN:
            exec(compile(src, self.path, "exec"), module.__dict__)
            return
        INSTRUMENTED_FILES[module.__name__] = self.path
        code = transform_source(src, self.path)
        from sx import rt
        module.__dict__[RT] = rt
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots  # package name -> directory containing the package

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *fullname.split("."))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(fullname, p, loader=Loader(p), submodule_search_locations=[base])
        if os.path.exists(base + ".py"):
            return importlib.util.spec_from_file_location(fullname, base + ".py", loader=Loader(base + ".py"))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
