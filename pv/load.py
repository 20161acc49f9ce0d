"""Mechanical extraction: parse /repo's current source, rewrite loops,
comprehensions, displays and early exits (nothing else), execute."""
import ast
import builtins
import os
import sys
import types

from . import core as C
from . import loops as L
from . import models
from . import terms as T

REPO = os.environ.get("PV_REPO", "/repo")


def assigned_names(stmts):
    """names bound by statements of this scope (not nested functions/classes)"""
    out = []

    class V(ast.NodeVisitor):
        def add(self, n):
            if n not in out:
                out.append(n)

        def visit_Name(self, node):
            if isinstance(node.ctx, (ast.Store, ast.Del)):
                self.add(node.id)

        def visit_FunctionDef(self, node):
            self.add(node.name)

        def visit_ClassDef(self, node):
            self.add(node.name)

        def visit_Lambda(self, node):
            pass

        def _comp(self, node):
            # comprehension variables are local to it; walrus not used
            for g in node.generators:
                self.visit(g.iter)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Import(self, node):
            for a in node.names:
                self.add((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, node):
            for a in node.names:
                self.add(a.asname or a.name)

        def visit_ExceptHandler(self, node):
            if node.name:
                self.add(node.name)
            self.generic_visit(node)

    v = V()
    for s in stmts:
        v.visit(s)
    return [n for n in out if not n.startswith("_pv")]


def N(id, ctx=None):
    return ast.Name(id=id, ctx=ctx or ast.Load())


def pv(attr):
    return ast.Attribute(value=N("_pv"), attr=attr, ctx=ast.Load())


def call(f, *args):
    return ast.Call(func=f, args=list(args), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.fn = []  # enclosing function qualnames
        self.loops = []  # stack of loop variable names in the current function
        self.count = 0
        self.wcount = [0]
        self.fcount = [0]
        self.infunc = 0

    # ---- scopes
    def visit_FunctionDef(self, node):
        saved, self.loops = self.loops, []
        self.fn.append(node.name)
        self.wcount.append(0)
        self.fcount.append(0)
        self.infunc += 1
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        node.body = self.body(node.body)
        self.infunc -= 1
        self.wcount.pop()
        self.fcount.pop()
        self.fn.pop()
        self.loops = saved
        node.returns = None
        return node

    def visit_ClassDef(self, node):
        saved, self.loops = self.loops, []
        inf, self.infunc = self.infunc, 0
        self.fn.append(node.name)
        node.body = self.body(node.body)
        node.bases = [self.visit(b) for b in node.bases]
        if not node.bases:
            node.bases = [pv("Obj")]
        self.fn.pop()
        self.loops = saved
        self.infunc = inf
        return node

    def visit_Lambda(self, node):
        saved, self.loops = self.loops, []
        node = self.generic_visit(node)
        self.loops = saved
        return node

    def body(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out or [ast.Pass()]

    # ---- displays
    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return call(pv("PList"), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return call(pv("fmt"), node.left, node.right)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        return call(pv("PDict"), node)

    def _comp(self, node, kind):
        if len(node.generators) != 1:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        it = self.visit(g.iter)
        self.count += 1
        v = "_pv_c%d" % self.count
        comp = call(pv("Comp"), it)
        g2 = ast.comprehension(
            target=g.target,
            iter=N(v),
            ifs=[
                call(ast.Attribute(value=N(v), attr="filt", ctx=ast.Load()), self._and(g.ifs))
            ]
            if g.ifs
            else [],
            is_async=0,
        )
        elt = self.visit(node.elt)
        lst = ast.ListComp(elt=elt, generators=[g2])
        # (lambda c: c.wrap([...]))(Comp(it)) keeps free variables by closure
        lam = ast.Lambda(
            args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=v)], kwonlyargs=[], kw_defaults=[], defaults=[]
            ),
            body=call(ast.Attribute(value=N(v), attr="wrap", ctx=ast.Load()), lst, ast.Constant(kind)),
        )
        return call(lam, comp)

    def _and(self, ifs):
        ifs = [self.visit(i) for i in ifs]
        return ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=ifs)

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_GeneratorExp(self, node):
        if self.infunc == 0:
            self.generic_visit(node)
            return node
        return self._comp(node, "gen")

    # ---- handlers
    def visit_ExceptHandler(self, node):
        if node.type is None:
            node.type = N("Exception")
        self.generic_visit(node)
        return node

    def visit_Try(self, node):
        node.body = self.body(node.body)
        node.handlers = [self.visit(h) for h in node.handlers]
        node.orelse = self.body(node.orelse) if node.orelse else []
        node.finalbody = self.body(node.finalbody) if node.finalbody else []
        return node

    # ---- loops
    def visit_For(self, node):
        if not self.infunc:
            self.generic_visit(node)
            return node
        self.count += 1
        v = "_pv_L%d" % self.count
        it = self.visit(node.iter)
        targets = assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        names = assigned_names(node.body)
        allnames = targets + [n for n in names if n not in targets]
        carried = [n for n in allnames if n not in targets]
        ordinal = self.fcount[-1]
        self.fcount[-1] += 1
        self.loops.append(v)
        body = self.body(node.body)
        self.loops.pop()
        orelse = self.body(node.orelse) if node.orelse else []
        tup = lambda xs: ast.Tuple(elts=[ast.Constant(x) for x in xs], ctx=ast.Load())
        init = ast.Assign(
            targets=[N(v, ast.Store())],
            value=call(
                pv("Loop"),
                it,
                tup(allnames),
                tup(targets),
                call(N("locals")),
                ast.Constant("%s:%d" % (self.modname, node.lineno)),
                ast.Constant(self.modname + "." + ".".join(self.fn)),
                ast.Constant(ordinal),
            ),
        )
        ent = []
        for n in carried:
            ent.append(self._set(n, v, "val"))
        enter = (
            [ast.If(test=ast.Attribute(value=N(v), attr="sym", ctx=ast.Load()), body=ent, orelse=[])]
            if ent
            else []
        )
        outs = [self._set(n, v, "out") for n in allnames]
        post = (
            [ast.If(test=ast.Attribute(value=N(v), attr="sym", ctx=ast.Load()), body=outs, orelse=[])]
            if outs
            else []
        )
        loop = ast.For(
            target=node.target,
            iter=N(v),
            body=enter + [self._guard(v, body)],
            orelse=post + orelse or [],
        )
        return [init, loop]

    def _set(self, n, v, attr):
        return ast.Assign(
            targets=[N(n, ast.Store())],
            value=call(ast.Attribute(value=N(v), attr=attr, ctx=ast.Load()), ast.Constant(n)),
        )

    def _leave(self, v):
        return ast.Expr(
            call(ast.Attribute(value=N(v), attr="leave", ctx=ast.Load()), call(N("locals")))
        )

    def _guard(self, v, body):
        src = ast.parse(
            "try:\n    pass\n"
            "except _pv.LoopExit as _pv_e:\n"
            "    _pv.on_exit({0}, _pv_e)\n"
            "except _pv.PathDead as _pv_e:\n"
            "    _pv.on_dead({0}, _pv_e)\n"
            "except Exception as _pv_e:\n"
            "    _pv.on_raise({0}, _pv_e)\n".format(v)
        ).body[0]
        src.body = body + [self._leave(v)]
        return src

    def visit_While(self, node):
        if not self.infunc:
            self.generic_visit(node)
            return node
        if node.orelse:
            raise C.Unsupported("while-else")
        self.count += 1
        v = "_pv_L%d" % self.count
        names = assigned_names(node.body)
        test = self.visit(node.test)
        self.loops.append(v)
        ordinal = self.wcount[-1]
        self.wcount[-1] += 1
        body = self.body(node.body)
        self.loops.pop()
        tup = ast.Tuple(elts=[ast.Constant(x) for x in names], ctx=ast.Load())
        init = ast.Assign(
            targets=[N(v, ast.Store())],
            value=call(
                pv("WLoop"),
                ast.Constant(self.modname + "." + ".".join(self.fn)),
                ast.Constant(ordinal),
                tup,
                call(N("locals")),
            ),
        )
        enter = (
            [
                ast.If(
                    test=ast.Attribute(value=N(v), attr="havoc", ctx=ast.Load()),
                    body=[self._set(n, v, "val") for n in names],
                    orelse=[],
                )
            ]
            if names
            else []
        )
        chk = ast.If(
            test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[]
        )
        loop = ast.For(
            target=N("_pv_w", ast.Store()),
            iter=N(v),
            body=enter + [chk] + body + [self._leave(v)],
            orelse=[],
        )
        return [init, loop]

    def visit_If(self, node):
        """if c: t = x else: t = y, with constants or names x and y, is t = (x if c else y)"""
        simple = lambda b: len(b) == 1 and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1 and isinstance(
            b[0].value, (ast.Constant, ast.Name)) and isinstance(b[0].targets[0], ast.Subscript)
        if self.infunc and simple(node.body) and simple(node.orelse) and ast.dump(node.body[0].targets[0]) == ast.dump(node.orelse[0].targets[0]):
            return ast.Assign(
                targets=[self.visit(node.body[0].targets[0])],
                value=call(pv("ite"), self.visit(node.test), node.body[0].value, node.orelse[0].value))
        node.test = self.visit(node.test)
        node.body = self.body(node.body)
        node.orelse = self.body(node.orelse) if node.orelse else []
        return node

    def visit_Continue(self, node):
        return [self._leave(self.loops[-1]), node]

    def visit_Break(self, node):
        return [
            ast.Expr(call(pv("exiting"), ast.Constant("break"), N(self.loops[-1]))),
            node,
        ]

    def visit_Return(self, node):
        self.generic_visit(node)
        if not self.loops:
            return node
        val = node.value or ast.Constant(None)
        return [
            ast.Assign(targets=[N("_pv_r", ast.Store())], value=val),
            ast.Expr(
                call(pv("exiting"), ast.Constant("return"), *[N(x) for x in reversed(self.loops)])
            ),
            ast.Return(value=N("_pv_r")),
        ]


def on_exit(Lp, e):
    if e.loop is not Lp:
        raise e
    _check_depth(Lp)
    Lp.exited(e.what)


def _check_depth(Lp):
    # exploration abandoned inside a comprehension: give up soundly
    if C.CTX.explorers and C.CTX.loops and C.CTX.loops[-1] is not Lp.k:
        raise C.Unsupported("exception inside a symbolic comprehension")


class _Shown:
    """a symbolic value in a text"""

    def __init__(self, x):
        self.x = x

    def __str__(self):
        return format(self.x, "")

    __repr__ = __str__


def fmt(s, args):
    """s % args, with the symbolic values in place of their digits"""
    sym = (C.Sym, C.SymB, C.Arr)
    if isinstance(args, sym) or isinstance(args, tuple) and any(isinstance(a, sym) for a in args):
        import re

        args = args if isinstance(args, tuple) else (args,)
        args = tuple(_Shown(a) if isinstance(a, sym) else a for a in args)
        it = iter(args)

        def conv(m):
            if m.group(0) == "%%":
                return "%%"
            return "%s" if isinstance(next(it), _Shown) else m.group(0)

        try:
            s = re.sub(r"%(%|[-+ #0-9.]*[a-zA-Z])", conv, s)
        except StopIteration:
            raise TypeError("not enough arguments for format string")
    return s % args


def on_dead(Lp, e):
    if not Lp.exploring:
        raise e
    _check_depth(Lp)
    Lp.exited("dead")


def on_raise(Lp, e):
    if not Lp.exploring:
        raise e
    _check_depth(Lp)
    Lp.exited("raise")


def ite(c, a, b):
    if isinstance(c, C.SymB) and C._num(a) and C._num(b):
        t = C.tb(c)
        if t is T.TRUE or t is T.FALSE:
            return a if t is T.TRUE else b
        return C.mk(T.ite(t, C.nf(a), C.nf(b)))
    return a if c else b


class PV:
    pass


PVM = PV()
for _n in ("Loop", "WLoop", "Comp", "exiting"):
    setattr(PVM, _n, getattr(L, _n))
for _n in ("PList", "PDict", "Obj", "LoopExit", "PathDead"):
    setattr(PVM, _n, getattr(C, _n))
PVM.ite, PVM.fmt = ite, fmt
PVM.on_exit, PVM.on_dead, PVM.on_raise = on_exit, on_dead, on_raise


class World:
    """one loaded copy of the package (fresh per path)"""

    code_cache = {}

    def __init__(self, extra_models=None):
        self.mods = {}
        self.models = models.modules()
        if extra_models:
            self.models.update(extra_models)
        self.builtins = dict(vars(builtins))
        self.builtins.update(models.builtin_overrides())
        self.builtins["__import__"] = self.imp
        self.stubs = {}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__package__"].split(".")
            pkg = pkg[: len(pkg) - level + 1]
            full = ".".join(pkg + ([name] if name else []))
        else:
            full = name
        if full == "freegs" or full.startswith("freegs."):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(self.path(full + "." + f)):
                        setattr(m, f, self.load(full + "." + f))
                return m
            return self.load(full.split(".")[0])
        if full in self.models:
            if fromlist:
                return self.models[full]
            return self.models[full.split(".")[0]]
        top = full.split(".")[0]
        if top in self.models:
            raise C.Unsupported("module %s has no model" % full)
        if top == "h5py":
            o = models.Opaque(full)
            o.__dict__["special_dtype"] = lambda **k: "O"
            return o
        if top == "shapely":
            from . import shapes

            return shapes.module(full)
        if top in ("matplotlib", "freeqdsk"):
            return models.Opaque(full)
        return builtins.__import__(name, globals, locals, fromlist, level)

    def path(self, full):
        p = os.path.join(REPO, *full.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, full):
        if full in self.mods:
            return self.mods[full]
        m = types.ModuleType(full)
        self.mods[full] = m
        path = self.path(full)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["_pv"] = PVM
        if path.endswith("__init__.py"):
            m.__package__ = full
            m.__path__ = [os.path.dirname(path)]
            # the package itself: sub-modules are loaded on demand
            if full == "freegs":
                return m
        else:
            m.__package__ = full.rsplit(".", 1)[0]
        key = path
        if key not in self.code_cache:
            src = open(path, encoding="utf-8").read()
            tree = ast.parse(src, path)
            tree = Rewriter(full).visit(tree)
            ast.fix_missing_locations(tree)
            self.code_cache[key] = compile(tree, path, "exec")
        exec(self.code_cache[key], m.__dict__)
        return m

    def replace(self, orig, new):
        """use `new` wherever the loaded modules refer to function `orig`"""
        for m in self.mods.values():
            for n, v in list(vars(m).items()):
                if v is orig:
                    setattr(m, n, new)
