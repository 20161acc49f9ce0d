"""invariants of the flood fill of critical.core_mask (verifier only)"""
from pv import core as C, smt, terms as T
from pv.core import Unsupported, mk, nf, tb

FN = "freegs.critical.core_mask"


class Stack(C.PList):
    """a stack known only by its set of elements: P(a, b) holds when (a, b) is on it.
    pop takes any element away, and (since there may be duplicates) may leave it on"""

    def __bool__(self):
        """some element, or none"""
        f = self.fill
        if C.CTX.explorers[-1].choose():
            # rows are filled alike whatever the X-points: followed once
            f.once("iterate")
            return True
        smt.LIGHT[0] = False
        C.CTX.pc[:] = list(f.facts) + C.CTX.pc[f.n0:]
        C.CTX.assume(forall2(lambda a, b: T.Not(self.P(a, b))))
        return False

    def _no(self, *a, **k):
        raise Unsupported("abstract stack")

    __len__ = __iter__ = __getitem__ = __setitem__ = extend = insert = remove = clear = _no

    def pop(self, *a):
        i, j = T.var(T.fresh_name("pi"), "I"), T.var(T.fresh_name("pj"), "I")
        old, name = self.P, T.fresh_name("stk")
        C.CTX.assume(old(i, j))
        new = lambda a, b: T.bapp(name, (a, b))
        q = lambda f: forall2(f)
        C.CTX.assume(q(lambda a, b: T.Implies(new(a, b), old(a, b))))
        C.CTX.assume(q(lambda a, b: T.Implies(T.And(old(a, b), T.Not(same(a, b, i, j))), new(a, b))))
        self.P = new
        return (mk(i), mk(j))

    def append(self, e):
        x, y = e
        x, y, old = nf(x), nf(y), self.P
        self.P = lambda a, b: T.Or(old(a, b), same(a, b, x, y))


def same(a, b, x, y):
    return T.And(T.eq(a, x), T.eq(b, y))


def forall2(f):
    a, b = T.mk_atom("var", T.fresh_name("qa"), "I"), T.mk_atom("var", T.fresh_name("qb"), "I")
    return T.forall((a, b), f(T.of_atom(a), T.of_atom(b)))


def members(s):
    if isinstance(s, Stack):
        return s.P
    if isinstance(s, C.PList) and s.seq is None and not s.poison and s.bag is None:
        items = [(nf(x), nf(y)) for x, y in list(s)]
        return lambda a, b: T.Or(*[same(a, b, x, y) for x, y in items]) if items else T.FALSE
    raise Unsupported("form of the stack")


class Fill:
    """shared state of both loops' invariants"""

    def __init__(self, M, nx, ny, inside, start, Cset):
        self.M, self.nx, self.ny, self.inside, self.start, self.C = M, nf(nx), nf(ny), inside, start, Cset
        self.outer, self.inner = Outer(self), Inner(self)
        smt.LIGHT[0] = False
        M.invariant(FN, 0, self.outer)
        M.invariant(FN, 1, self.inner)

    def grid(self, a, b):
        return T.And(T.le(T.ZERO, a), T.lt(a, self.nx), T.le(T.ZERO, b), T.lt(b, self.ny))

    def open(self, a, b):
        return T.And(self.grid(a, b), self.inside(a, b), T.eq(self.blk(a, b), T.ZERO))

    def parts(self, mask, P, cur=None):
        """the invariant as named formulas; cur: the point about to be marked (inner loop)"""
        m = mask.freeze()
        g = lambda a, b: m((a, b))
        two, one = T.num(2), T.ONE
        mark = lambda a, b: T.eq(g(a, b), one)
        out = [
            ("marks are 0, 1 or 2, where 2 is kept for the blocked points", forall2(lambda a, b: T.Implies(self.grid(a, b), T.Or(
                mark(a, b), T.eq(g(a, b), self.blk(a, b)))))),
            ("marked points are in every closed set", forall2(lambda a, b: T.Implies(T.And(self.grid(a, b), mark(a, b)), self.C(a, b)))),
            ("waiting points are in the grid and in every closed set", forall2(lambda a, b: T.Implies(P(a, b), T.And(self.grid(a, b), self.C(a, b))))),
        ]
        done = lambda a, b: T.Or(mark(a, b), P(a, b), same(a, b, *cur) if cur else T.FALSE)
        i0, j0 = self.start
        out.append(("the start is marked or waiting", done(i0, j0)))
        for nm, da, db in (("right", 0, 1), ("left", 0, -1), ("up", 1, 0), ("down", -1, 0)):
            def f(a, b, da=da, db=db):
                x, y = T.add(a, T.num(da)), T.add(b, T.num(db))
                return T.Implies(T.And(self.grid(a, b), mark(a, b), self.open(x, y)), done(x, y))
            out.append(("open neighbours (%s) of marked points are marked or waiting" % nm, forall2(f)))
        if cur:
            i, j = cur
            l = T.sub(j, T.ONE)
            out.append(("current point", T.And(self.grid(i, j), self.C(i, j))))
            out.append(("left of the current point", T.Implies(self.open(i, l), T.Or(mark(i, l), P(i, l)))))
        return out

    def closed(self):
        """C contains every open neighbour of its points"""
        out = []
        for da, db in ((0, 1), (0, -1), (1, 0), (-1, 0)):
            def g(a, b):
                x, y = T.add(a, T.num(da)), T.add(b, T.num(db))
                return T.Implies(T.And(self.grid(a, b), self.C(a, b), self.open(x, y)), self.C(x, y))
            out.append(forall2(g))
        return out

    def prove(self, nm, f):
        import time

        t0 = time.time()
        r = smt.skolem_prove([b for b in self.M.ctx.pc if not smt.has_quantifier(b)], f)
        if r.status != "proved":
            raise Unsupported("not shown that " + nm)
        self.M.note(nm, r, time.time() - t0)

    def check(self, where, mask, P, cur=None):
        import time

        for nm, f in self.parts(mask, P, cur):
            t0 = time.time()
            r = smt.skolem_prove(self.M.ctx.pc, f)
            if r.status != "proved":
                raise Unsupported("%s: not shown that %s" % (where, nm))
            self.M.note("%s: %s" % (where, nm), r, time.time() - t0)

    def havoc(self, mask, stack):
        name = T.fresh_name("mask")
        mask.st.fn = lambda idx: T.app(name, tuple(idx), "R")
        sn = T.fresh_name("stk")
        members(stack)
        stack.__class__ = Stack
        list.clear(stack)
        stack.P = lambda a, b: T.bapp(sn, (a, b))
        stack.fill = self

    def once(self, what):
        ex = C.CTX.explorers[-1]
        here = tuple(v for v, _ in ex.trace[:ex.pos])
        if self.M.rec.__dict__.setdefault("followed", {}).setdefault(what, here) != here:
            raise C.PathDead()

    def locals(self, loop):
        mask, stack = loop.loc.get("mask"), loop.loc.get("stack")
        if not isinstance(mask, C.Arr) or mask.ndim != 2 or stack is None:
            raise Unsupported("flood fill with other variables")
        return mask, stack


class Outer:
    def __init__(self, f):
        self.f = f

    def enter(self, loop):
        f = self.f
        mask, stack = f.locals(loop)
        if "j" not in loop.names:
            raise Unsupported("flood fill with other variables")
        # blocked points: the marks before filling
        m0, ctx = mask.freeze(), f.M.ctx
        f.blk = lambda a, b: T.app("blk", (a, b), "R")
        f.prove("blocked points are those next to an X-point", forall2(lambda a, b: T.Implies(
            f.grid(a, b), T.eq(m0((a, b)), T.ite(f.inx(a, b), T.num(2), T.ZERO)))))
        f.prove("the start is a grid point", f.grid(*f.start))
        i0, j0 = f.start
        defn = forall2(lambda a, b: T.Implies(f.grid(a, b), T.eq(f.blk(a, b), T.ite(f.inx(a, b), T.num(2), T.ZERO))))
        # from here on only this is known: where the points are blocked, and the closed set
        f.facts = [b for b in ctx.pc if not smt.has_quantifier(b)] + [defn]
        i1, j1 = T.var("start_i", "I"), T.var("start_j", "I")
        f.facts.append(same(i1, j1, i0, j0))
        f.start0, f.start = f.start, (i1, j1)
        del ctx.pc[:]
        for b in f.closed() + [T.le(T.num(3), f.nx), T.le(T.num(3), f.ny), f.grid(i1, j1), f.C(i1, j1)]:
            ctx.assume(b)
        ctx.assume(forall2(lambda a, b: T.Implies(f.grid(a, b), T.Or(T.eq(f.blk(a, b), T.ZERO), T.eq(f.blk(a, b), T.num(2))))))
        n0 = len(ctx.pc)
        st = members(stack)
        ctx.assume(same(i1, j1, i0, j0))
        mask.st.fn = lambda idx: f.blk(*idx)
        f.check("filling starts", mask, st)
        del ctx.pc[n0:]
        f.n0 = len(ctx.pc)
        f.havoc(mask, stack)
        for _, b in f.parts(mask, stack.P):
            ctx.assume(b)
        f.base = len(ctx.pc)
        smt.LIGHT[0] = True
        return {"i": C.UNDEF, "j": C.UNDEF}

    def leave(self, loop, loc):
        f = self.f
        mask, stack = loc.get("mask"), loc.get("stack")
        f.check("after a row", mask, members(stack))


class Inner:
    def __init__(self, f):
        self.f = f

    def enter(self, loop):
        f = self.f
        mask, stack = f.locals(loop)
        i, j = nf(loop.loc["i"]), nf(loop.loc["j"])
        f.check("row starts", mask, members(stack), (i, j))
        f.havoc(mask, stack)
        # every row starts alike, whatever happened before it: only one way is followed further
        ctx = f.M.ctx
        del ctx.pc[f.base:]
        f.once("row")
        jj = T.var(T.fresh_name("row_j"), "I")
        for _, b in f.parts(mask, stack.P, (i, jj)):
            ctx.assume(b)
        return {"j": mk(jj)}

    def leave(self, loop, loc):
        f = self.f
        f.check("along the row", loc.get("mask"), members(loc.get("stack")), (nf(loc["i"]), nf(loc["j"])))
