"""Mechanical instrumentation of the repository's source, redone on every run.

The transformed program is the real program: every statement is kept; only the points where
CPython would force a symbolic value to be concrete (display literals, subscripts, loops,
comprehensions, f-strings, `is`, `in`) are routed through engine.runtime, which behaves exactly
like CPython on concrete values.  Function annotations are dropped.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

SX = "__sx__"


class Site:
    __slots__ = ("module", "func", "kind", "line", "ordinal", "names", "has_exit", "text")

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return f"{self.module}.{self.func}:{self.kind}{self.ordinal}"


def _attr(name):
    return ast.Attribute(value=ast.Name(id=SX, ctx=ast.Load()), attr=name, ctx=ast.Load())


def _call(name, *args):
    return ast.Call(func=_attr(name), args=list(args), keywords=[])


def _const(v):
    return ast.Constant(value=v)


def _names_stored(nodes):
    out = []

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.append(n.name)

        def visit_AsyncFunctionDef(self, n):
            out.append(n.name)

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            # walrus targets escape
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.append(x.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        visit_ImportFrom = visit_Import
    v = V()
    for n in nodes:
        v.visit(n)
    return list(dict.fromkeys(out))


def _local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]} | set(_names_stored(fn.body))
    for n in ast.walk(fn):
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            out -= set(n.names)
    return out


def _has_exit(body):
    """break of this loop, or return/raise anywhere in the body"""
    def walk(nodes, depth):
        for n in nodes:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Return):
                return True
            if isinstance(n, ast.Break) and depth == 0:
                return True
            inner = depth + 1 if isinstance(n, (ast.For, ast.While)) else depth
            for ch in ast.iter_child_nodes(n):
                if walk([ch], inner):
                    return True
        return False
    return walk(body, 0)


class Instrumenter(ast.NodeTransformer):
    def __init__(self, modname, sites):
        self.modname = modname
        self.sites = sites
        self.func = []
        self.counts = {}
        self.uid = 0
        self.classbody = False
        self.locals = set()
        self.loops = []         # enclosing loop handle variable names within the current function

    # ---- helpers
    def site(self, kind, node, names=(), has_exit=False):
        fn = ".".join(self.func) or "<module>"
        key = (fn, kind)
        o = self.counts.get(key, 0)
        self.counts[key] = o + 1
        s = Site(module=self.modname, func=fn, kind=kind, line=getattr(node, "lineno", 0), ordinal=o, names=tuple(names),
                 has_exit=has_exit, text="")
        self.sites.append(s)
        return ast.Subscript(value=_attr_local("__sx_sites__"), slice=_const(len(self.sites) - 1), ctx=ast.Load())

    def tmp(self, base):
        self.uid += 1
        return f"__sx_{base}{self.uid}"

    # ---- scopes
    def visit_FunctionDef(self, node):
        decos = [self.visit(d) for d in node.decorator_list]
        args = node.args
        for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
            a.annotation = None
        args.defaults = [self.visit(d) for d in args.defaults]
        args.kw_defaults = [self.visit(d) if d is not None else None for d in args.kw_defaults]
        node.returns = None
        self.func.append(node.name)
        saved, self.loops = self.loops, []
        cb, self.classbody = self.classbody, False
        sl, self.locals = self.locals, _local_names(node)
        node.body = self.body(node.body)
        self.loops, self.classbody, self.locals = saved, cb, sl
        self.func.pop()
        if cb and node.name in ("__bool__", "__contains__", "__len__"):
            decos.append(_attr("as_len" if node.name == "__len__" else "as_bool"))      # CPython wants a plain result
        node.decorator_list = decos
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        saved, self.loops = self.loops, []
        node.body = self.visit(node.body)
        self.loops = saved
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.func.append(node.name)
        saved, self.loops = self.loops, []
        cb, self.classbody = self.classbody, True
        node.body = self.body(node.body)
        self.loops, self.classbody = saved, cb
        self.func.pop()
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out or [ast.Pass()]

    def visit_AnnAssign(self, node):
        if self.classbody:
            return self.generic_visit(node)
        if node.value is None:
            # a bare annotation makes the name local in a function: keep that effect
            return ast.copy_location(ast.If(test=_const(False), body=[ast.Assign(targets=[node.target], value=_const(None))], orelse=[]), node) \
                if isinstance(node.target, ast.Name) and self.func else ast.copy_location(ast.Pass(), node)
        return ast.copy_location(ast.Assign(targets=[self.visit(node.target)], value=self.visit(node.value)), node)

    # ---- expressions
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = {-1: None, 115: "s", 114: "r", 97: "a"}[v.conversion]
                spec = self.visit(v.format_spec) if v.format_spec is not None else _const("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), spec, _const(conv)], ctx=ast.Load()))
        return ast.copy_location(_call("fstr", *parts), node)

    def visit_Dict(self, node):
        if any(k is None for k in node.keys):
            parts = []
            for k, v in zip(node.keys, node.values):
                if k is None:
                    parts.append(ast.Tuple(elts=[self.visit(v)], ctx=ast.Load()))
                else:
                    parts.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
            return ast.copy_location(_call("mkdict", *parts), node)
        return ast.copy_location(_call("mkdict", *[ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load())
                                                   for k, v in zip(node.keys, node.values)]), node)

    def visit_Set(self, node):
        return ast.copy_location(_call("mkset", ast.List(elts=[self.visit(e) for e in node.elts], ctx=ast.Load())), node)

    def _simple_target(self, t):
        if isinstance(t, ast.Name):
            return True
        return isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) or self._simple_target(e) for e in t.elts)

    def _lam(self, target, body):
        """lambda over one value with (nested) tuple destructuring"""
        def arg(n):
            return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in n], kwonlyargs=[], kw_defaults=[], defaults=[])
        if isinstance(target, ast.Name):
            return ast.Lambda(args=arg([target.id]), body=body)
        x = self.tmp("x")
        names, inner = [], body
        pend = []
        for e in target.elts:
            if isinstance(e, ast.Name):
                names.append(e.id)
            else:
                t = self.tmp("y")
                names.append(t)
                pend.append((t, e))
        for t, e in reversed(pend):
            inner = ast.Call(func=self._lam(e, inner), args=[ast.Name(id=t, ctx=ast.Load())], keywords=[])
        return ast.Lambda(args=arg([x]), body=ast.Call(
            func=ast.Lambda(args=arg(names), body=inner),
            args=[ast.Starred(value=_call("unpack", ast.Name(id=x, ctx=ast.Load()), _const(len(names))), ctx=ast.Load())], keywords=[]))

    def _bad_comp(self, node):
        if any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(node)):
            return True
        return any(g.is_async or not self._simple_target(g.target) for g in node.generators)

    def _comp(self, node, elt, kind):
        """nested comprehension calls; elt already visited"""
        gens = node.generators
        res = None
        for depth in range(len(gens) - 1, -1, -1):
            g = gens[depth]
            site = self.site(kind, node)
            conds = None
            if g.ifs:
                test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
                conds = self._lam(g.target, self.visit(test))
            body = elt if res is None else res
            last = depth == len(gens) - 1
            name = ("listcomp" if last else "flatcomp") if (kind == "listcomp" or depth or not last) else "genexp"
            if kind == "genexp" and len(gens) > 1:
                name = "listcomp" if last else "flatcomp"
            res = _call(name, site, self.visit(g.iter), self._lam(g.target, body), conds or _const(None))
        return res

    def visit_ListComp(self, node):
        if self._bad_comp(node) or self._class_scope():
            return self.generic_visit(node)
        return ast.copy_location(self._comp(node, self.visit(node.elt), "listcomp"), node)

    def visit_SetComp(self, node):
        if self._bad_comp(node) or self._class_scope():
            return self.generic_visit(node)
        return ast.copy_location(_call("mkset", self._comp(node, self.visit(node.elt), "listcomp")), node)

    def visit_DictComp(self, node):
        if self._bad_comp(node) or self._class_scope():
            return self.generic_visit(node)
        pair = ast.Tuple(elts=[self.visit(node.key), self.visit(node.value)], ctx=ast.Load())
        return ast.copy_location(_call("mkdict_from", self._comp(node, pair, "listcomp")), node)

    def visit_GeneratorExp(self, node):
        if self._bad_comp(node) or self._class_scope():
            return self.generic_visit(node)
        r = self._comp(node, self.visit(node.elt), "genexp")
        if len(node.generators) > 1:
            r = _call("lazy", ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=r))
        return ast.copy_location(r, node)

    def _class_scope(self):
        return self.classbody       # names of a class body are invisible to nested functions

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(_call("getitem", node.value, self._slice(node.slice)), node)
        if isinstance(node.ctx, ast.Store) or isinstance(node.ctx, ast.Del):
            return node
        return node

    def _slice(self, s):
        if isinstance(s, ast.Slice):
            n = _const(None)
            return ast.Call(func=_attr("slice"), args=[s.lower or n, s.upper or n, s.step or n], keywords=[])
        if isinstance(s, ast.Tuple):
            s.elts = [self._slice(e) for e in s.elts]
        return s

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if not any(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in node.ops):
            return node
        if len(node.ops) == 1:
            a, b, o = node.left, node.comparators[0], node.ops[0]
            if isinstance(o, (ast.Is, ast.IsNot)):
                r = _call("is_", a, b)
                return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r) if isinstance(o, ast.IsNot) else r, node)
            r = _call("contains", b, a)
            # evaluation order: left operand first
            r = _call("in_", a, b)
            return ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=r) if isinstance(o, ast.NotIn) else r, node)
        return node

    def visit_Call(self, node):
        node = self.generic_visit(node)
        if isinstance(node.func, ast.Attribute) and node.func.attr in ("format", "join", "format_map"):
            return ast.copy_location(ast.Call(func=_attr("strcall"), args=[node.func.value, _const(node.func.attr)] + node.args,
                                              keywords=node.keywords), node)
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return node
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(_call("mod", node.left, node.right), node)
        if isinstance(node.op, ast.Mult):
            return ast.copy_location(_call("mul", node.left, node.right), node)
        return node

    # ---- statements
    def visit_For(self, node):
        names = _names_stored([node.target] + node.body)
        exits = _has_exit(node.body)
        site = self.site("for", node, names, exits)
        used = sorted(self.locals - set(names))
        h, v = self.tmp("L"), self.tmp("v")
        it = self.visit(node.iter)
        self.loops.append(h)
        target = self.visit(node.target)
        body = self.body(node.body)
        self.loops.pop()
        orelse = self.body(node.orelse) if node.orelse else []
        hv = self._havoc(h, names + used)
        new = ast.For(
            target=ast.Name(id=v, ctx=ast.Store()), iter=ast.Name(id=h, ctx=ast.Load()),
            body=hv + [ast.Assign(targets=[target], value=ast.Name(id=v, ctx=ast.Load()))] + body,
            orelse=self._havoc(h, names + used) + orelse, type_comment=None)
        pre = ast.Assign(targets=[ast.Name(id=h, ctx=ast.Store())], value=_call("for_", site, it))
        return [ast.copy_location(pre, node), ast.copy_location(new, node)]

    def _havoc(self, h, names):
        """if h.sym: d = h.env(); a = d['a'] for each name that is in d"""
        if not names:
            return []
        d = self.tmp("d")
        body = [ast.Assign(targets=[ast.Name(id=d, ctx=ast.Store())],
                           value=ast.Call(func=ast.Attribute(value=ast.Name(id=h, ctx=ast.Load()), attr="env", ctx=ast.Load()), args=[], keywords=[]))]
        for n in names:
            body.append(ast.If(test=ast.Compare(left=_const(n), ops=[ast.In()], comparators=[ast.Name(id=d, ctx=ast.Load())]),
                               body=[ast.Assign(targets=[ast.Name(id=n, ctx=ast.Store())],
                                                value=ast.Subscript(value=ast.Name(id=d, ctx=ast.Load()), slice=_const(n), ctx=ast.Load()))],
                               orelse=[]))
        return [ast.If(test=ast.Attribute(value=ast.Name(id=h, ctx=ast.Load()), attr="sym", ctx=ast.Load()), body=body, orelse=[])]

    def visit_While(self, node):
        names = _names_stored(node.body + [ast.Expr(value=node.test)])
        exits = _has_exit(node.body)
        site = self.site("while", node, names, exits)
        used = sorted(self.locals - set(names))
        h = self.tmp("W")
        test = self.visit(node.test)
        self.loops.append(h)
        body = self.body(node.body)
        self.loops.pop()
        orelse = self.body(node.orelse) if node.orelse else []
        hn = ast.Name(id=h, ctx=ast.Load())
        stop = [ast.Assign(targets=[ast.Attribute(value=hn, attr="normal", ctx=ast.Store())], value=_const(True)), ast.Break()] if orelse else [ast.Break()]
        new = ast.While(
            test=_const(True),
            body=[ast.Expr(value=ast.Call(func=ast.Attribute(value=hn, attr="head", ctx=ast.Load()), args=[], keywords=[]))]
            + self._havoc(h, names + used)
            + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=stop, orelse=[])] + body, orelse=[])
        pre = ast.Assign(targets=[ast.Name(id=h, ctx=ast.Store())], value=_call("while_", site))
        out = [ast.copy_location(pre, node), ast.copy_location(new, node)]
        if orelse:
            out.append(ast.copy_location(ast.If(test=ast.Attribute(value=hn, attr="normal", ctx=ast.Load()), body=orelse, orelse=[]), node))
        return out

    def _leave(self):
        return [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=h, ctx=ast.Load()), attr="leave", ctx=ast.Load()), args=[], keywords=[]))
                for h in self.loops]

    def visit_Break(self, node):
        if self.loops:
            return [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=self.loops[-1], ctx=ast.Load()), attr="leave", ctx=ast.Load()),
                                            args=[], keywords=[])), node]
        return node

    def visit_Return(self, node):
        if not self.loops:
            return self.generic_visit(node)
        r = self.tmp("r")
        val = self.visit(node.value) if node.value is not None else _const(None)
        return [ast.Assign(targets=[ast.Name(id=r, ctx=ast.Store())], value=val)] + self._leave() + [
            ast.Return(value=ast.Name(id=r, ctx=ast.Load()))]

    def visit_Try(self, node):
        node.body = self.body(node.body)
        handlers = []
        for h in node.handlers:
            if h.type is not None:
                h.type = self.visit(h.type)
            h.body = self.body(h.body)
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                handlers.append(ast.ExceptHandler(type=_attr("Engine"), name=None, body=[ast.Raise(exc=None, cause=None)]))
            handlers.append(h)
        node.handlers = handlers
        node.orelse = self.body(node.orelse) if node.orelse else []
        node.finalbody = self.body(node.finalbody) if node.finalbody else []
        return node

    def visit_Module(self, node):
        node.body = self.body(node.body)
        return node


def _attr_local(name):
    return ast.Name(id=name, ctx=ast.Load())


def instrument_source(src, filename, modname):
    tree = ast.parse(src, filename)
    sites = []
    tr = Instrumenter(modname, sites)
    tree = tr.visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True), sites


NATIVE = ("xrns.xml",)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        from . import runtime
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        code, sites = instrument_source(src, self.path, module.__name__)
        module.__dict__["__builtins__"] = runtime.BUILTINS
        module.__dict__[SX] = runtime
        module.__dict__["__sx_sites__"] = sites
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if any(name == n or name.startswith(n + ".") for n in NATIVE):
            base = os.path.join(self.root, *name.split("."))
            if os.path.exists(os.path.join(base, "__init__.py")):
                return importlib.util.spec_from_file_location(name, os.path.join(base, "__init__.py"), submodule_search_locations=[base])
            if os.path.exists(base + ".py"):
                return importlib.util.spec_from_file_location(name, base + ".py")
            return None
        base = os.path.join(self.root, *name.split("."))
        pk = os.path.join(base, "__init__.py")
        if os.path.isfile(pk):
            return importlib.util.spec_from_loader(name, Loader(pk), origin=pk, is_package=True) and self._pkg(name, pk, base)
        if os.path.isfile(base + ".py"):
            s = importlib.util.spec_from_loader(name, Loader(base + ".py"), origin=base + ".py")
            s.has_location = True
            return s
        return None

    def _pkg(self, name, pk, base):
        s = importlib.machinery.ModuleSpec(name, Loader(pk), origin=pk, is_package=True)
        s.submodule_search_locations = [base]
        s.has_location = True
        return s


def repo_module_names(root):
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x != "__pycache__" and not x.endswith(".egg-info")]
        for f in files:
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                if rel:
                    out.append(".".join(rel))
    return sorted(out)


def install(root="/repo/src"):
    sys.dont_write_bytecode = True
    f = Finder(root)
    sys.meta_path.insert(0, f)
    return f
