"""Loop rules.

A loop over a symbolic range or sequence is executed once per path of a generic
iteration k, starting from a havocked pre-state; the effect is summarised as a
function S(end) of the number of completed iterations (an inductive invariant
found from the body: base case S(lo) = entry state, step = the body's effect).
"""
from . import terms as T
from . import smt
from . import core as C
from .core import (Arr, Obj, PDict, PList, Poison, Seq, Storage, Sym, SymB, UNDEF, Unsupported,
                   PathDead, LoopExit, Explorer, conc, mk, mkdim, nf, tb, _t, _num)


class SymRange:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def as_seq(self):
        st = self.step
        ln = T.sub(nf(self.stop), nf(self.start))
        if st < 0:
            ln = T.neg(ln)
        if abs(st) != 1:
            ln = C.floordiv_nf(T.add(ln, T.num(abs(st) - 1)), T.num(abs(st)))
        if not smt.entails(C.CTX.pc, T.le(T.ZERO, ln)):
            ln = T.of_atom(T.mk_atom("app", ("max0", ln), "I"))
        a = nf(self.start)
        return Seq(mkdim(ln), lambda k: mk(T.add(a, T.scale(k, st))))

    def __len__(self):
        raise Unsupported("len of symbolic range via CPython")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a loop statement")

    def __getitem__(self, i):
        return self.as_seq()[i]


def pv_range(*a):
    cs = [conc(x) for x in a]
    if all(c is not None for c in cs):
        return range(*cs)
    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e = a[0], a[1]
        st = conc(a[2])
        if st is None or st == 0:
            raise Unsupported("symbolic range step")
    for x in (s, e):
        if isinstance(x, float) or (isinstance(x, Sym) and not T.is_int(x.nf)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    return SymRange(s, e, st)


def as_symbolic(it):
    """(lo, hi, item) of a symbolic iterable, or None when concrete"""
    if isinstance(it, SymRange):
        if it.step == 1:
            return nf(it.start), nf(it.stop), lambda k: mk(k)
        s = it.as_seq()
        return T.ZERO, nf(s.n), s.item
    if isinstance(it, PList):
        if it.poison:
            raise Unsupported("iteration over a loop-carried list")
        if it.seq is not None:
            it = it.seq
        else:
            return None
    if isinstance(it, Seq):
        if conc(it.n) is not None:
            return None
        return T.ZERO, nf(it.n), it.item
    if isinstance(it, Arr) and it.ndim and conc(it.shape[0]) is None:
        return T.ZERO, nf(it.shape[0]), lambda k: _arr_item(it, k)
    if hasattr(it, "__pv_seq__"):
        return as_symbolic(it.__pv_seq__())
    return None


# ---- filtered sequences
SELECTIONS = {}
DEBUG = bool(__import__("os").environ.get("PV_DEBUG"))


def selection(lo, hi, k, g):
    """increasing enumeration of {k in [lo, hi): g(k)}: (count, at, rank).
    at and rank are mutually inverse bijections of the integers with
    0 <= rank(q) < count exactly when lo <= q < hi and g(q); named by content"""
    from .models import named

    pk = T.mk_atom("var", "sel!k", "I")
    gp = T.subst(g, {k: T.of_atom(pk)})
    name, fv = named("sel", (lo, hi, gp))
    cnt, at, rank = name + "_n", name + "_at", name + "_rank"
    if name not in SELECTIONS:
        bv = [T.mk_atom("var", T.fresh_name("sf"), x.sort) for x in _vars(fv)]
        bt = tuple(T.of_atom(b) for b in bv)
        m = dict(zip(_vars(fv), bt))
        lo2, hi2, g2 = T.subst(lo, m), T.subst(hi, m), T.subst(gp, m)
        G = lambda t: T.And(T.le(lo2, t), T.lt(t, hi2), T.subst(g2, {pk: t}))
        A = lambda j: T.app(at, (j,) + bt, "I")
        P = lambda q: T.app(rank, (q,) + bt, "I")
        n = T.app(cnt, bt, "I")
        j = T.mk_atom("var", T.fresh_name("sj"), "I")
        i = T.mk_atom("var", T.fresh_name("si"), "I")
        jt, it = T.of_atom(j), T.of_atom(i)
        inr = lambda t: T.And(T.le(T.ZERO, t), T.lt(t, n))
        iff = lambda a, b: T.And(T.Implies(a, b), T.Implies(b, a))
        fa = lambda vs, b: T.forall(tuple(vs) + tuple(bv), b)
        ax = [
            fa((j,), iff(inr(jt), G(A(jt)))),
            fa((j,), iff(inr(P(jt)), G(jt))),
            fa((j,), T.eq(A(P(jt)), jt)),
            fa((j,), T.eq(P(A(jt)), jt)),
            fa((i, j), T.Implies(T.And(inr(it), inr(jt), T.lt(it, jt)), T.lt(A(it), A(jt)))),
            fa((), T.And(T.le(T.ZERO, n), T.Or(T.le(n, T.sub(hi2, lo2)), T.eq(n, T.ZERO)))),
        ]
        smt.GLOBAL.append(((cnt, at, rank), ax))
        SELECTIONS[name] = lambda t, fv: T.subst(T.subst(T.And(T.le(lo2, T.of_atom(pk)), T.lt(T.of_atom(pk), hi2), g2), dict(zip(bv, fv))), {pk: t})
        T.APP_RULES[at] = _inverse_rule(rank)
        T.APP_RULES[rank] = _inverse_rule(at)
        T.INVERSES[at] = rank

        def sum_rule(args, body, kb):
            mm = dict(zip(_vars(fv), args))
            l, h, gg = T.subst(lo, mm), T.subst(hi, mm), T.subst(gp, mm)
            q = T.mk_atom("var", T.fresh_name("k"), "I")
            qt = T.of_atom(q)
            b = T.subst(body, {kb: T.rebuild_app(rank, (qt,) + tuple(args), "I")})
            return T.ssum(l, h, q, T.ite(T.subst(gg, {pk: qt}), b, T.ZERO))

        T.SUM_RULES[cnt] = sum_rule
    return (
        T.app(cnt, fv, "I"),
        lambda j: T.rebuild_app(at, (j,) + fv, "I"),
        lambda q: T.rebuild_app(rank, (q,) + fv, "I"),
    )


def _vars(ts):
    out = []
    for t in ts:
        ((m, c),) = t.terms.items()
        out.append(m[0][0])
    return out


def _inverse_rule(other):
    def r(x, *fv):
        if len(x.terms) == 1:
            ((m, c),) = x.terms.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.kind == "app" and a.data[0] == other and tuple(a.data[2:]) == fv:
                    return a.data[1]
        return None

    return r


def _arr_item(a, k):
    axes = []
    for ax in a.axes:
        if ax[0] == "fix":
            axes.append(ax)
        elif ax[1] == 0:
            axes.append(("fix", T.add(ax[2], T.scale(k, ax[3]))))
        else:
            axes.append(("ax", ax[1] - 1, ax[2], ax[3]))
    v = Arr(a.st, axes, a.shape[1:])
    return mk(v.at(())) if v.ndim == 0 else v


def rewrite_value(v, f, born=None, memo=None):
    """apply f to every term inside a value (structure preserving copy)"""
    if memo is None:
        memo = {}
    if isinstance(v, Sym):
        t = f(v.nf)
        return v if t is v.nf else mk(t)
    if isinstance(v, SymB):
        t = f(v.b)
        return v if t is v.b else mk(t)
    if v is None or isinstance(v, (int, float, str, bool, Poison)):
        return v
    if id(v) in memo:
        return memo[id(v)]
    if isinstance(v, tuple):
        return tuple(rewrite_value(x, f, born, memo) for x in v)
    if hasattr(v, "__pv_rewrite__"):
        return v.__pv_rewrite__(f)
    if isinstance(v, Arr):
        get = v.freeze()
        shape = tuple(mkdim(f(nf(d))) for d in v.shape)
        # value semantics: a copy (sharing of arrays created in the loop is lost,
        # which is only sound because such copies are not written afterwards)
        r = Arr.from_fn(shape, lambda idx: f(get(idx)), v.kind)
        memo[id(v)] = r
        return r
    if isinstance(v, PList) and v.seq is None and not v.poison:
        return PList([rewrite_value(x, f, born, memo) for x in list.__iter__(v)])
    if isinstance(v, PList) and v.seq is not None:
        s = v.seq
        p = PList()
        p.seq = Seq(mkdim(f(nf(s.n))), lambda k: rewrite_value(s.item(k), f, born))
        return p
    if isinstance(v, Obj):
        if born is not None and v not in born:
            return v
        o = object.__new__(type(v))
        memo[id(v)] = o
        o.__dict__.update({k: rewrite_value(x, f, born, memo) for k, x in v.__dict__.items()})
        import weakref

        C.CTX.objects.append(weakref.ref(o))
        return o
    return v


def value_terms(v):
    if isinstance(v, Sym):
        return [v.nf]
    if isinstance(v, SymB):
        return [v.b]
    if isinstance(v, tuple):
        return [t for x in v for t in value_terms(x)]
    return []


class Frame:
    """common code of Loop and comprehension drivers"""


def _pieces(d):
    """split a polynomial into guarded summands (conditional with a zero branch)"""
    out = []
    plain = {}
    for m, c in d.terms.items():
        for a, e in m:
            if a.kind == "ite" and e == 1:
                cnd, x, y = a.data
                if x.is_zero() or y.is_zero():
                    rest = T.NF({tuple(z for z in m if z[0] is not a): c})
                    br, gg = (y, T.Not(cnd)) if x.is_zero() else (x, cnd)
                    for g2, t2 in _pieces(T.mul(rest, br)):
                        out.append((T.And(gg, g2), t2))
                    break
        else:
            plain[m] = c
    if plain:
        out.append((T.TRUE, T.NF(plain)))
    return out


class Loop:
    def __init__(self, it, names, targets, loc, where, fn=None, ordinal=None):
        self.inv = C.CTX.invariants.get((fn, "for", ordinal)) if fn else None
        self.loc = loc if self.inv is not None else None
        self.it = it
        self.names = names
        self.targets = targets
        self.v0 = {n: loc.get(n, UNDEF) for n in names}
        self.sym = False
        self.mode = "concrete"
        self.vals = {}
        self.outv = {}
        self.where = where

    @property
    def exploring(self):
        return self.mode == "explore"

    # --- called from rewritten code
    def val(self, n):
        return self.vals.get(n, UNDEF)

    def out(self, n):
        return self.outv.get(n, UNDEF)

    def leave(self, loc):
        if self.mode == "inv":
            self.inv.step(self, self.k, loc)
        if self.mode == "explore":
            self.rec = ("leave", {n: loc.get(n, UNDEF) for n in self.names})

    def exited(self, what):
        self.rec = (what, None)

    def _by_invariant(self):
        """the loop cut by an invariant of the contract: it holds at first
        (start), one arbitrary iteration keeps it (state, step), and the code
        after the loop runs in an arbitrary state with it (state at the end)"""
        ctx = C.CTX
        s = as_symbolic(self.it)
        if s is None or ctx.loops:
            raise Unsupported("invariant for a loop over something else")
        lo, hi, item = s
        if not smt.entails(ctx.pc, T.le(lo, hi)):
            raise Unsupported("invariant for a loop with an empty range")
        self.sym = True
        self.inv.start(self, mk(lo), mk(hi))
        if ctx.explorers[-1].choose():
            k = T.var(T.fresh_name("it"), "I")
            if not smt.feasible(ctx.pc, T.lt(lo, hi)):
                raise PathDead()
            ctx.assume(T.And(T.le(lo, k), T.lt(k, hi)))
            self.k = mk(k)
            self.vals = self._state(self.k)
            self.mode = "inv"
            yield item(k)
            raise PathDead()
        self.outv = self._state(mk(hi))
        self.mode = "done"

    def _state(self, k):
        vals = {n: (Poison(n) if self.loc.get(n, UNDEF) is not UNDEF else UNDEF) for n in self.names}
        vals.update(self.inv.state(self, k))
        return vals

    def __iter__(self):
        if self.inv is not None:
            yield from self._by_invariant()
            return
        s = as_symbolic(self.it)
        if s is None and isinstance(self.it, range) and self.it.step == 1 and len(self.it) >= 50:
            # by a generic iteration rather than one by one
            s = T.num(self.it.start), T.num(self.it.stop), lambda k: mk(k)
        parts = getattr(self.it, "parts", None) if isinstance(self.it, Arr) else None
        if s is not None and parts and parts[1] is self.it.st.fn:
            each = [as_symbolic(p) for p in parts[0]]
            if all(e is not None for e in each):
                self.sym = True
                self.outv = dict(self.v0)
                for e in each:
                    self.lo, self.hi, self.item = e
                    if smt.entails(C.CTX.pc, T.le(self.hi, self.lo)):
                        continue
                    self.v0 = dict(self.outv)
                    yield from self._symbolic()
                return
        if s is None:
            it = self.it
            if isinstance(it, PList) and it.seq is not None:
                it = it.seq
            if isinstance(it, PList):
                # native list iteration semantics (sees appends)
                i = 0
                while i < list.__len__(it):
                    yield list.__getitem__(it, i)
                    i += 1
                return
            if hasattr(it, "__pv_seq__"):
                it = it.__pv_seq__()
            for x in it:
                yield x
            return
        self.sym = True
        lo, hi, item = s
        self.lo, self.hi, self.item = lo, hi, item
        if smt.entails(C.CTX.pc, T.le(hi, lo)):
            # no iteration
            self.outv = dict(self.v0)
            return
        yield from self._symbolic()

    def _symbolic(self):
        ctx = C.CTX
        lo, hi = self.lo, self.hi
        k = T.mk_atom("var", T.fresh_name("k"), "I")
        self.k = k
        snap = C.snapshot()
        known = {id(o) for o, _ in snap}
        self.keepalive = [o for o, _ in snap]
        hav = {}  # loc -> (havoc value/fn, symbol)
        self.hav = hav
        sortR = set()
        for rnd in range(12):
            paths = []
            ex = Explorer()
            self.mode = "explore"
            self.born = []
            while True:
                C.restore(snap)
                self.vals = {
                    n: (hav[("local", n)][0] if ("local", n) in hav else self.v0[n])
                    for n in self.names
                }
                for loc, (val, sym) in hav.items():
                    self._put(loc, val)
                    if loc[0] == "local" and isinstance(val, Arr):
                        # the array standing for the value at iteration start
                        val.st.fn = _uf_fn(sym, val.kind)
                base = C.snapshot()
                npc = len(ctx.pc)
                ctx.pc.append(T.le(lo, T.of_atom(k)))
                ctx.pc.append(T.lt(T.of_atom(k), hi))
                nb = len(ctx.pc)
                ctx.explorers.append(ex)
                ctx.loops.append(k)
                ex.start()
                self.rec = None
                try:
                    tv = self.item(T.of_atom(k))
                except PathDead:
                    tv = None
                    self.rec = ("dead", None)
                if self.rec is None:
                    yield tv
                if self.rec is None:
                    raise AssertionError("loop body left without record")
                ctx.explorers.pop()
                ctx.loops.pop()
                dec = ctx.pc[nb:]
                del ctx.pc[npc:]
                kind, loc = self.rec
                if kind != "dead":
                    hs = {id(val.st) for L2, (val, sym) in hav.items() if L2[0] == "local" and isinstance(val, Arr)}
                    d = [x for x in C.diff(base) if not (x[0][0] == "st" and id(x[0][1]) in hs)]
                    if kind == "leave":
                        for n, v in loc.items():
                            if isinstance(v, Arr) and id(v.st) in hs:
                                loc[n] = Arr.from_fn(v.shape, v.freeze(), v.kind)
                    born = [o for o in C.live_objects() if id(o) not in known]
                    self.born.extend(born)
                    paths.append((T.And(*dec), kind, loc, d, list(dec)))
                if not ex.next():
                    break
            # which locations are modified?
            new = []
            for g, kind, loc, d, _ in paths:
                if kind != "leave":
                    continue
                for L, old, cur in d:
                    if L not in hav:
                        new.append((L, old))
                for n in self.names:
                    if n in self.targets:
                        continue
                    v = loc[n]
                    start = hav[("local", n)][0] if ("local", n) in hav else self.v0[n]
                    if not C._same(v, start) and v is not start:
                        if ("local", n) not in hav and not isinstance(self.v0[n], Poison):
                            new.append((("local", n), self.v0[n]))
                        elif ("local", n) in hav:
                            # integer havoc symbol that became real, or scalar that became an array
                            h, sym = hav[("local", n)]
                            if isinstance(h, Sym) and h.nf != nf0(h) :
                                pass
                            if isinstance(h, Sym) and isinstance(v, Arr):
                                if isinstance(self.v0[n], Arr):
                                    raise AssertionError
                                # promote the initial scalar to an array
                                c0 = nf(self.v0[n])
                                self.v0[n] = Arr.from_fn(v.shape, lambda idx, c0=c0: c0, "R")
                                del hav[("local", n)]
                                new.append((("local", n), self.v0[n]))
                            elif isinstance(h, Sym) and T.is_int(h.nf) and _num(v) and not _intval(v) and n not in sortR:
                                sortR.add(n)
                                del hav[("local", n)]
                                new.append((("local", n), self.v0[n]))
            if not new:
                break
            for L, old in new:
                if L in hav:
                    continue
                hav[L] = self._havoc(L, old, L[1] if L[0] == "local" and L[1] in sortR else None)
        else:
            raise Unsupported("loop effects did not stabilise")
        self.mode = "summary"
        C.restore(snap)
        self.paths = paths
        normal = [p for p in paths if p[1] == "leave"]
        exits = [p for p in paths if p[1] != "leave"]
        self.normal = normal
        self._sum_cache = {}
        self._active = set()
        G = T.Or(*[g for g, *_ in exits])
        kt = T.of_atom(k)
        if not exits:
            self._apply(hi)
            self.mode = "done"
            return
        # early exits
        Gk = self.elim(G)
        w = self._skolem("w")
        wt = T.of_atom(w) if isinstance(w, T.Atom) else w
        bound = T.mk_atom("var", T.fresh_name("kq"), "I")
        bt = T.of_atom(bound)
        Gw = T.subst(Gk, {k: wt})
        Gb = T.subst(Gk, {k: bt})
        stay = T.Not(Gb)
        if any(_has_forall(g) for g, *_ in normal):
            # an iteration that does not leave takes one of the other paths
            stay = T.And(stay, T.subst(self.elim(T.Or(*[g for g, *_ in normal])), {k: bt}))
        some = ctx.explorers[-1].choose()
        if some:
            ctx.assume(T.And(T.le(lo, wt), T.lt(wt, hi)))
            ctx.assume(Gw)
            ctx.assume(
                T.forall((bound,), T.Implies(T.And(T.le(lo, bt), T.lt(bt, wt)), stay))
            )
            st, _ = smt.query(ctx.pc, T.TRUE, timeout=2000)
            if st == "unsat":
                raise PathDead()
            self._apply(wt)
            self.vals = self.outv
            self.mode = "final"
            yield self.item(wt)
            # the body must have left the loop
            raise PathDead()
        if not normal and smt.entails(ctx.pc, T.lt(lo, hi)):
            # every iteration exits
            raise PathDead()
        ctx.assume(T.forall((bound,), T.Implies(T.And(T.le(lo, bt), T.lt(bt, hi)), stay)))
        st, _ = smt.query(ctx.pc, T.TRUE, timeout=2000)
        if st == "unsat":
            raise PathDead()
        self._apply(hi)
        self.mode = "done"

    def _skolem(self, base):
        ks = [T.of_atom(x) for x in C.CTX.loops]
        if not ks:
            return T.mk_atom("var", T.fresh_name(base), "I")
        return T.app(T.fresh_name(base), tuple(ks), "I")

    def _havoc(self, L, old, real):
        name = T.fresh_name("pre")
        if L[0] == "st":
            return (_uf_fn(name, L[1].kind), name)
        if L[0] == "list":
            return (None, name)
        if L[0] == "dict":
            return (None, name)
        v = old
        if isinstance(v, (SymB, bool)):
            return (mk(T.bapp(name, tuple(T.of_atom(x) for x in ()))), name)
        if _num(v):
            isint = _intval(v) and real is None
            a = T.mk_atom("var", name, "I" if isint else "R")
            return (Sym(T.of_atom(a)), a)
        if isinstance(v, Arr):
            return (Arr.from_fn(v.shape, _uf_fn(name, v.kind), v.kind), name)
        return (Poison("carried by the loop at %s" % (self.where,)), name)

    def _put(self, L, val):
        if L[0] == "st":
            L[1].fn = val
        elif L[0] == "attr":
            L[1].__dict__[L[2]] = val
        elif L[0] == "list":
            list.clear(L[1])
            L[1].seq = None
            L[1].poison = True
        elif L[0] == "dict":
            pass

    # ---- summaries
    def elim(self, t, at=None):
        """replace pre-state symbols of iteration k by the summary S(k)"""
        k = self.k
        syms = {}
        for L, (val, sym) in self.hav.items():
            syms[sym] = L
        end = T.of_atom(k)

        def f(a):
            if a.kind == "var" and a in syms:
                s = self.summary(syms[a])
                return nf(s(end))
            if a.kind == "app" and a.data[0] in syms:
                s = self.summary(syms[a.data[0]])
                args = tuple(T.map_atoms(x, f) for x in a.data[1:])
                return s(end, args)
            return None

        def g(b):
            # boolean state symbols
            if isinstance(b, T.Bool):
                if b.kind == "bapp" and b.data[0] in syms:
                    s = self.summary(syms[b.data[0]])
                    if len(b.data) > 1:
                        return s(end, tuple(T.map_atoms(x, f) for x in b.data[1:]))
                    return tb(s(end))
                if b.kind == "not":
                    return T.Not(g(b.data))
                if b.kind == "and":
                    return T.And(*[g(x) for x in b.data])
                if b.kind == "or":
                    return T.Or(*[g(x) for x in b.data])
            return T.map_atoms(b, f)

        if isinstance(t, T.Bool):
            return g(t)

        def f2(a):
            r = f(a)
            if r is None and a.kind == "ite":
                c = g(a.data[0])
                return T.ite(c, T.map_atoms(a.data[1], f2), T.map_atoms(a.data[2], f2))
            return r

        return T.map_atoms(t, f2)

    def _mentions(self, t, sym):
        return any(
            (a is sym) or (a.kind == "app" and a.data[0] == sym) for a in T.all_atoms(t)
        ) or (isinstance(sym, str) and _bool_mentions(t, sym))

    def summary(self, L):
        if L in self._sum_cache:
            return self._sum_cache[L]
        if L in self._active:
            raise Unsupported("mutually dependent loop-carried values")
        self._active.add(L)
        try:
            if L[0] == "st":
                s = self._sum_storage(L)
            elif L[0] in ("attr", "local"):
                s = self._sum_scalar(L)
            else:
                raise Unsupported("loop-carried container")
        finally:
            self._active.discard(L)
        self._sum_cache[L] = s
        return s

    def _cases(self, L):
        out = []
        for g, kind, loc, d, _ in self.normal:
            if L[0] == "local":
                out.append((g, loc[L[1]]))
            else:
                for LL, old, cur in d:
                    if LL == L:
                        out.append((g, cur))
                        break
                else:
                    out.append((g, self.hav[L][0]))
        return out

    def _sum_scalar(self, L):
        cases = self._cases(L)
        v0 = self.v0[L[1]] if L[0] == "local" else None
        if L[0] == "attr":
            v0 = self._entry(L)
        sym = self.hav[L][1] if L in self.hav else None
        h = self.hav[L][0] if L in self.hav else None
        k = self.k
        lo = self.lo
        if not cases:
            return lambda end, *a: v0
        vals = [v for _, v in cases]
        if isinstance(h, Arr) and all(isinstance(v, Arr) for v in vals):
            return self._sum_arrlocal(L, cases, v0, sym)
        v = C.merge(cases)
        if isinstance(v, (SymB, bool)) and not _num_only(v):
            b = tb(v)
            if not self._mentions(b, sym):
                b = self.elim(b)

                def fb(end, *a):
                    last = T.subst(b, {k: T.sub(end, T.ONE)})
                    if smt.entails(C.CTX.pc, T.lt(lo, end)):
                        return mk(last)
                    if isinstance(v0, Poison):
                        return v0
                    c = T.lt(lo, end)
                    return mk(T.Or(T.And(c, last), T.And(T.Not(c), tb(v0))))

                return fb
            raise Unsupported("loop-carried boolean")
        if _num(v):
            t = nf(v)
            hn = nf(h) if h is not None and _num(h) else None
            if hn is not None and t == hn:
                return lambda end, *a: v0
            if sym is None or not self._mentions(t, sym):
                t = self.elim(t)

                def fo(end, *a):
                    last = T.subst(t, {k: T.sub(end, T.ONE)})
                    if smt.entails(C.CTX.pc, T.lt(lo, end)):
                        return mk(last)
                    if isinstance(v0, Poison) or not _num(v0):
                        return UNDEF if v0 is UNDEF else Poison("value after a possibly empty loop")
                    return mk(T.ite(T.lt(lo, end), last, nf(v0)))

                return fo
            d = self._delta(t, hn, sym)
            if d is not None:
                d = self.elim(d)
                kv = k

                def ff(end, *a):
                    kk = T.mk_atom("var", T.fresh_name("k"), "I")
                    return mk(
                        T.add(nf(v0), T.ssum(lo, end, kk, T.subst(d, {kv: T.of_atom(kk)})))
                    )

                return ff
            # running maximum / minimum under the guard form ite(c, x, v)
            raise Unsupported("loop-carried value without a recognised pattern")
        # objects: same object on all paths and independent of k
        v1 = vals[0]
        if all(x is v1 for x in vals) and not isinstance(v1, Poison):
            born = set(map(id, self.born))

            def fobj(end, *a):
                if not smt.entails(C.CTX.pc, T.lt(lo, end)):
                    return Poison("object bound in a possibly empty loop")
                e1 = T.sub(end, T.ONE)
                return rewrite_value(v1, lambda t: T.subst(self.elim(t), {k: e1}), _IdSet(born))

            return fobj
        raise Unsupported("loop-carried object")

    def _delta(self, t, h, sym):
        """t - h when that is free of the symbol on every branch"""
        d = T.sub(t, h)
        if not self._mentions(d, sym):
            return d
        # distribute over conditionals
        conds = smt._top_ites(t)
        if conds:
            c = conds[0]
            if self._mentions(c, sym):
                return None
            a = self._delta(smt.decide_cond(t, c, True), h, sym)
            b = self._delta(smt.decide_cond(t, c, False), h, sym)
            if a is not None and b is not None:
                return T.ite(c, a, b)
        return None

    def _entry(self, L):
        return L[1].__dict__.get(L[2], UNDEF)

    def _sum_arrlocal(self, L, cases, v0, sym):
        shape = v0.shape
        for _, v in cases:
            if not C.same_shape(v.shape, shape):
                raise Unsupported("loop-carried array changes shape")
        get0 = v0.freeze()
        frozen = [(g, v.freeze()) for g, v in cases]

        def content(q):
            return _t(C.merge([(g, mk(f(q))) for g, f in frozen]))

        content.cases = frozen
        s = self._sum_content(content, get0, sym, len(shape), v0.kind)

        def fa(end, *a):
            if a:
                return s(end, a[0])
            return Arr.from_fn(shape, lambda idx: s(end, idx), v0.kind)

        return fa

    def _sum_storage(self, L):
        st = L[1]
        fn0 = st.fn  # entry content (restored)
        cases = self._cases(L)
        sym = self.hav[L][1]
        if not cases:
            return lambda end, idx: fn0(idx)

        def content(q):
            return _t(C.merge([(g, mk(f(q))) for g, f in cases]))

        content.cases = cases
        return self._sum_content(content, fn0, sym, len(st.shape), st.kind)

    def _sum_content(self, content, fn0, sym, nd, kind):
        k = self.k
        kt = T.of_atom(k)
        lo, hi = self.lo, self.hi
        q = tuple(T.mk_atom("var", T.fresh_name("q"), "I") for _ in range(nd))
        qt = tuple(T.of_atom(a) for a in q)
        npc = len(C.CTX.pc)
        C.CTX.pc.append(T.le(lo, kt))
        C.CTX.pc.append(T.lt(kt, hi))
        leaves = None
        try:
            pre = self._additive(content.cases, sym, qt) if kind != "B" else None
            c = content(qt) if pre is None else None
            if pre is not None:
                own = T.app(sym, qt)
                leaves = []
            elif isinstance(c, T.Bool):
                own = T.bapp(sym, qt)
                leaves = self._bool_leaves(c, own, sym, q)
            else:
                own = T.app(sym, qt)
                leaves = self._leaves(c, [], own, sym, q, qt)
        finally:
            del C.CTX.pc[npc:]
        over, acc = [], []
        if pre is None and kind != "B":
            leaves = self._own_cell(leaves, own, sym, q, fn0)
        for g, leaf in leaves:
            if leaf == own or leaf is own:
                continue
            if isinstance(leaf, T.Bool):
                if self._mentions(leaf, sym):
                    raise Unsupported("loop-carried boolean array")
                over.append((g, leaf))
                continue
            if not self._mentions(leaf, sym):
                over.append((g, leaf))
                continue
            d = T.sub(leaf, own)
            if self._mentions(d, sym):
                return self._no_change(leaves, own, sym, q, qt, fn0)
            acc.append((g, d))
        acc += pre or []
        over = [(self.elim(g), self.elim(v)) for g, v in over]
        acc = [(self.elim(g), self.elim(v)) for g, v in acc]
        for g, v in over + acc:
            if self._mentions(g, sym):
                raise Unsupported("store guard depends on the array being written")
        over = [self._solve(g, v) for g, v in over]
        accs = [self._solve(g, v) for g, v in acc]
        if any(o is None for o in over):
            if DEBUG:
                print("LEAVES", leaves, own)
            raise Unsupported("cannot tell which iteration writes a cell")

        def prep(sol):
            kap, g, v, uniq = sol
            if uniq == "const":
                cs = [T.lt(lo, END)] + list(T.conj(g))
                return cs, T.sub(END, T.ONE), T.subst(v, {k: T.sub(END, T.ONE)})
            gk = T.subst(g, {k: kap})
            cs = [b for b in T.conj(gk) if b.kind == "eq"] + [b for b in T.conj(gk) if b.kind != "eq"]
            cs += list(T.conj(T.And(T.le(lo, kap), T.lt(kap, END))))
            return cs, kap, T.subst(v, {k: kap})

        end_atom = T.mk_atom("var", T.fresh_name("end"), "I")
        END = T.of_atom(end_atom)
        over = [prep(o) for o in over]
        accs = [prep(o) if o is not None and o[3] == "solved" else None for o in accs]

        def active(cs, m):
            out = []
            for b in cs:
                x = T.subst(b, m)
                if x is T.FALSE:
                    return T.FALSE
                out.append(x)
            return T.And(*out)

        def s(end, idx):
            m = dict(zip(q, idx))
            m[end_atom] = end
            base = fn0(idx)
            acts = []
            for cs, kap, v in over:
                act = active(cs, m)
                if act is T.FALSE:
                    continue
                acts.append((act, T.subst(kap, m), T.subst(v, m)))
            out = base
            # later iterations win
            order = list(acts)
            res = base
            for i, (act, kk, v) in enumerate(order):
                if act is T.FALSE:
                    continue
                cond = act
                for j, (act2, kk2, v2) in enumerate(order):
                    if j == i or act2 is T.FALSE:
                        continue
                    both = T.And(act, act2, T.lt(kk, kk2))
                    if both is T.FALSE or not smt.feasible(C.CTX.pc, both):
                        continue
                    cond = T.And(cond, T.Or(T.Not(act2), T.le(kk2, kk)))
                if isinstance(res, T.Bool):
                    res = T.Or(T.And(cond, v), T.And(T.Not(cond), res))
                else:
                    res = T.ite(cond, v, res)
            tot = T.ZERO
            for (g0, d0), sol in zip(acc, accs):
                if over:
                    # mixed stores: they must not meet
                    for act, kk, v in acts:
                        kb = T.mk_atom("var", T.fresh_name("km"), "I")
                        gg = T.subst(T.subst(g0, {k: T.of_atom(kb)}), m)
                        both = T.And(act, gg, T.le(lo, T.of_atom(kb)), T.lt(T.of_atom(kb), end))
                        if both is not T.FALSE and smt.feasible(C.CTX.pc, both):
                            raise Unsupported("cell both assigned and incremented in a loop")
                if sol is not None:
                    cs, kap, v = sol
                    act = active(cs, m)
                    if act is not T.FALSE:
                        tot = T.add(tot, T.ite(act, T.subst(v, m), T.ZERO))
                else:
                    kb = T.mk_atom("var", T.fresh_name("k"), "I")
                    mm = {k: T.of_atom(kb)}
                    body = T.ite(
                        T.subst(T.subst(g0, mm), m), T.subst(T.subst(d0, mm), m), T.ZERO
                    )
                    gs = T.subst(T.subst(g0, mm), m)
                    if kb not in T.free_atoms(gs):
                        inner = T.ssum(lo, end, kb, T.subst(T.subst(d0, mm), m))
                        tot = T.add(tot, T.ite(gs, inner, T.ZERO))
                    else:
                        tot = T.add(tot, T.ssum(lo, end, kb, body))
            return res if isinstance(res, T.Bool) else T.add(res, tot)

        return s

    def _own_cell(self, leaves, own, sym, q, fn0):
        """reads of cells that no earlier iteration wrote give the entry content"""
        wr = [(g, v) for g, v in leaves if not (v == own or v is own)]
        if any(isinstance(v, T.Bool) for _, v in wr):
            return leaves
        if not any(self._mentions(g, sym) or (self._mentions(v, sym) and self._mentions(T.sub(v, own), sym)) for g, v in wr):
            return leaves
        kt = T.of_atom(self.k)
        kaps = []
        for g, v in wr:
            sol = self._solve(T.And(*[b for b in T.conj(g) if b.kind == "eq" and not self._mentions(b, sym)]), T.ZERO)
            if sol is None or sol[3] != "solved":
                return leaves
            kaps.append(sol[0])
        rng = [T.le(self.lo, kt), T.lt(kt, self.hi)]
        bad = []

        def put(t, hyp):
            def f(a):
                if a.kind == "app" and a.data[0] == sym:
                    if any(self._mentions(x, sym) for x in a.data[1:]):
                        bad.append(a)
                        return None
                    m = dict(zip(q, a.data[1:]))
                    for kap in kaps:
                        if not smt.entails(C.CTX.pc + rng + hyp, T.le(kt, T.subst(kap, m))):
                            bad.append(a)
                            return None
                    return nf(fn0(tuple(a.data[1:])))
                return None

            return T.map_atoms(t, f)

        out = []
        for g, v in wr:
            hyp = [b for b in T.conj(g) if not self._mentions(b, sym)]
            out.append((put(g, hyp), put(v, hyp)))
        return leaves if bad else out

    def _additive(self, cases, sym, qt):
        """[(guard, increment)] when every path adds to the cell, else None"""
        own = T.app(sym, qt)
        out = []
        for g, f in cases:
            c = f(qt)
            if isinstance(c, T.Bool):
                return None
            d = T.sub(c, own)
            if self._mentions(d, sym):
                return None
            out += [(T.And(g, gg), t) for gg, t in _pieces(d)]
        return [(g, t) for g, t in out if g is not T.FALSE]

    def _no_change(self, leaves, own, sym, q, qt, fn0):
        """template invariant: the array keeps its entry content"""
        npc = len(C.CTX.pc)
        C.CTX.pc.append(T.le(self.lo, T.of_atom(self.k)))
        C.CTX.pc.append(T.lt(T.of_atom(self.k), self.hi))

        def f(a):
            if a.kind == "app" and a.data[0] == sym:
                return fn0(tuple(T.map_atoms(x, f) for x in a.data[1:]))
            return None

        try:
            for g, leaf in leaves:
                if leaf == own:
                    continue
                d = T.sub(T.map_atoms(leaf, f), fn0(qt))
                r = smt.prove(C.CTX.pc + list(T.conj(T.map_atoms(g, f))), T.eq(d, T.ZERO))
                if r.status != "proved":
                    raise Unsupported("sequential dependence through an array")
        finally:
            del C.CTX.pc[npc:]
        return lambda end, idx: fn0(idx)

    def _leaves(self, c, gs, own, sym, q, qt):
        """(guard, leaf) pairs; own-array reads normalised to the cell itself"""
        g = T.And(*gs)
        if g is T.FALSE:
            return []
        if gs:
            sub = {}
        conds = smt._top_ites(c)
        if conds:
            out = []
            cnd = conds[0]
            # conditions that read the array at the cell are handled as is
            for truth in (True, False):
                cc = cnd if truth else T.Not(cnd)
                if not smt.feasible(C.CTX.pc + [x for y in gs for x in T.conj(y)], cc):
                    continue
                out += self._leaves(smt.decide_cond(c, cnd, truth), gs + [cc], own, sym, q, qt)
            return out
        # normalise reads A@(e) with e == q under the guard
        pcg = C.CTX.pc + [x for y in gs for x in T.conj(y)]

        def f(a):
            if a.kind == "app" and a.data[0] == sym and a.data[1:] != qt:
                if all(smt.entails(pcg, T.eq(x, y)) for x, y in zip(a.data[1:], qt)):
                    return own
            return None

        return [(g, T.map_atoms(c, f))]

    def _bool_leaves(self, c, own, sym, q):
        # c as a boolean combination: cases on writes
        out = []

        def go(b, gs):
            if b is own:
                out.append((T.And(*gs), own))
                return
            if not self._mentions(b, sym):
                out.append((T.And(*gs), b))
                return
            if b.kind == "or" and len(b.data) == 2:
                # (g and new) or (not g and old)
                x, y = b.data
                for p, r in ((x, y), (y, x)):
                    ps, rs = T.conj(p), T.conj(r)
                    if own in rs:
                        ng = T.And(*[z for z in rs if z is not own])
                        gg = T.Not(ng)
                        new = T.And(*[z for z in ps if z not in T.conj(gg)])
                        if not self._mentions(new, sym):
                            out.append((T.And(*(gs + [gg])), new))
                            out.append((T.And(*(gs + [ng])), own))
                            return
            raise Unsupported("loop-carried boolean array")

        go(c, [])
        return out

    def _solve(self, g, v):
        """find kappa(q) from an equality conjunct of g that pins k"""
        k = self.k
        if k not in T.free_atoms(g):
            return (None, g, v, "const")
        best = None
        for b in T.conj(g):
            if b.kind != "eq":
                continue
            t = b.data
            coef = None
            invapp = None
            ok = True
            for m, c in t.terms.items():
                for a, e in m:
                    if k in T.free_atoms(a):
                        if len(m) == 1 and a is k and e == 1:
                            coef = c
                        elif (
                            len(m) == 1 and e == 1 and abs(c) == 1 and a.kind == "app" and a.data[0] in T.INVERSES
                            and a.data[1] == T.of_atom(k) and all(k not in T.free_atoms(x) for x in a.data[2:])
                        ):
                            invapp = (a, c)
                        else:
                            ok = False
            if ok and coef is None and invapp is not None:
                a, c = invapp
                rest = T.scale(T.sub(t, T.scale(T.of_atom(a), c)), -1 / c)
                return (T.rebuild_app(T.INVERSES[a.data[0]], (rest,) + tuple(a.data[2:]), "I"), g, v, "solved")
            if ok and invapp is None and coef is not None:
                rest = T.sub(t, T.scale(T.of_atom(k), coef))
                kap = T.scale(rest, -1 / coef)
                whole = T.is_int(kap) and all(c.denominator == 1 for c in kap.terms.values())
                if abs(coef) == 1 or not whole:
                    if not whole:
                        # integer division, the equality stays in the guard
                        den = 1
                        tt = rest
                        for c in list(t.terms.values()):
                            den = den * c.denominator // T._gcd(den, c.denominator)
                        cc = coef * den
                        kap = C.floordiv_nf(T.scale(rest, -den if cc > 0 else den), T.num(abs(cc)))
                    cand = (kap, g, v, "solved")
                    if whole:
                        return cand
                    best = best or cand
                else:
                    best = best or (kap, g, v, "solved")
        return best

    def _apply(self, end):
        """set the state to S(end)"""
        post = {}
        for L in list(self.hav):
            if L[0] == "local":
                continue
            if L[0] == "list":
                post[L] = self._sum_list(L, end)
                continue
            if L[0] == "dict":
                post[L] = self._sum_dict(L, end)
                continue
            try:
                s = self.summary(L)
                if L[0] == "st":
                    post[L] = lambda idx, s=s: s(end, idx)
                else:
                    post[L] = s(end)
            except Unsupported as e:
                if L[0] == "st":
                    post[L] = _raiser(str(e))
                else:
                    post[L] = Poison(str(e) + " at %s" % (self.where,))
        outv = {}
        for n in self.names:
            L = ("local", n)
            try:
                if n in self.targets:
                    cases = [(g, loc[n]) for g, kd, loc, d, _ in self.normal]
                    vals = [v for _, v in cases]
                    if vals and all(_num(v) for v in vals):
                        t = self.elim(nf(C.merge(cases)))
                        if smt.entails(C.CTX.pc, T.lt(self.lo, end)):
                            outv[n] = mk(T.subst(t, {self.k: T.sub(end, T.ONE)}))
                        else:
                            outv[n] = Poison("loop variable after a possibly empty loop")
                    else:
                        outv[n] = Poison("loop variable after the loop")
                    continue
                if L in self.hav:
                    outv[n] = self.summary(L)(end)
                elif isinstance(self.v0[n], Poison):
                    self.hav[L] = (self.v0[n], None)
                    outv[n] = self.summary(L)(end)
                else:
                    outv[n] = self.v0[n]
            except Unsupported as e:
                outv[n] = Poison(str(e) + " at %s" % (self.where,))
        for L, v in post.items():
            if L[0] == "st":
                L[1].fn = v
            elif L[0] == "attr":
                if v is UNDEF:
                    L[1].__dict__.pop(L[2], None)
                else:
                    L[1].__dict__[L[2]] = v
            elif L[0] == "list":
                v()
            elif L[0] == "dict":
                v()
        self.outv = outv

    def _sum_list(self, L, end):
        pl = L[1]
        k, lo = self.k, self.lo
        cases = []
        for g, kind, loc, d, _ in self.normal:
            app = []
            for LL, old, cur in d:
                if LL == L:
                    if cur[1] is not None:
                        raise Unsupported("list becomes symbolic in a loop body")
                    app = cur[0]
            cases.append((g, app))
        born = _IdSet(set(map(id, self.born)))
        self.keepalive.append(self.born)
        counts = {len(a) for _, a in cases}
        old_items = list(list.__iter__(pl))
        old_seq = pl.seq
        old_bag = pl.bag
        n0 = len(old_items)

        def at(v, kk):
            return rewrite_value(v, lambda t: T.subst(self.elim(t), {k: kk}), born)

        def go():
            if counts == {0} or not counts:
                return
            if len(counts) == 1 and old_bag is None:
                m = counts.pop()
                counts.add(m)
                base = T.num(n0) if old_seq is None else nf(old_seq.n)
                ncols = T.sub(end, lo)
                if not smt.entails(C.CTX.pc, T.le(lo, end)):
                    ncols = T.of_atom(T.mk_atom("app", ("max0", ncols), "I"))
                total = T.add(base, T.scale(ncols, m))

                def olditem(j):
                    if old_seq is not None:
                        return old_seq.item(j)
                    c = conc(j)
                    if c is not None and c < n0:
                        return old_items[c]
                    return C.merge([(T.eq(j, T.num(i)), old_items[i]) for i in range(n0)])

                def newitem(j):
                    jj = T.sub(j, base)
                    if m == 1:
                        kk = T.add(lo, jj)
                        return at(C.merge([(g, a[0]) for g, a in cases]) if len(cases) > 1 else cases[0][1][0], kk)
                    qd = C.floordiv_nf(jj, T.num(m))
                    r = T.sub(jj, T.scale(qd, m))
                    kk = T.add(lo, qd)
                    vals = [
                        at(C.merge([(g, a[i]) for g, a in cases]) if len(cases) > 1 else cases[0][1][i], kk)
                        for i in range(m)
                    ]
                    return C.merge([(T.eq(r, T.num(i)), vals[i]) for i in range(m - 1)] + [(T.TRUE, vals[-1])])

                def item(j):
                    if base.is_zero() or smt.entails(C.CTX.pc, T.le(base, j)):
                        return newitem(j)
                    if smt.entails(C.CTX.pc, T.lt(j, base)):
                        return olditem(j)
                    return C.merge([(T.lt(j, base), olditem(j)), (T.TRUE, newitem(j))])

                list.clear(pl)
                pl.poison = False
                pl.seq = Seq(mkdim(total), item)
                return
            if counts == {0, 1} and old_seq is None and n0 == 0 and old_bag is None:
                yes = [(self.elim(g), a[0]) for g, a in cases if a]
                n, sel, _ = selection(lo, end, k, T.Or(*[g for g, _ in yes]))
                merged = C.merge(yes) if len(yes) > 1 else yes[0][1]
                list.clear(pl)
                pl.poison = False
                pl.seq = Seq(mkdim(n), lambda j: at(merged, sel(j)))
                return
            bag = list(old_bag or [])
            if old_bag is None:
                if old_seq is not None:
                    bag.append((T.TRUE, old_seq, None))
                bag.extend((T.TRUE, v, None) for v in old_items)
            for g, a in cases:
                for v in a:
                    kb = T.mk_atom("var", T.fresh_name("kbag"), "I")
                    kt = T.of_atom(kb)
                    gg = T.And(T.le(lo, kt), T.lt(kt, end), T.subst(self.elim(g), {k: kt}))
                    bag.append((gg, at(v, kt), kb))
            list.clear(pl)
            pl.poison = False
            pl.seq = None
            pl.bag = bag

        return go

    def _sum_dict(self, L, end):
        pd = L[1]
        k, lo, hi = self.k, self.lo, self.hi
        per = []
        for g, kind, loc, d, _ in self.normal:
            new = {}
            for LL, old, cur in d:
                if LL == L:
                    for kk in cur:
                        if kk not in old or cur[kk] is not old[kk]:
                            new[kk] = cur[kk]
            per.append((g, new))
        keys = set()
        for g, n in per:
            keys |= set(n)
        if len(keys) != 1:
            raise Unsupported("dictionary updated in a loop with several keys")
        (key,) = keys
        if not hasattr(key, "__pv_family__"):
            raise Unsupported("dictionary updated in a symbolic loop")
        fam, kidx = key.__pv_family__()
        born = _IdSet(set(map(id, self.born)))
        self.keepalive.append(self.born)
        cases = [(g, n[key]) for g, n in per if key in n]
        if len(cases) != len(per):
            raise Unsupported("conditional dictionary update in a loop")
        if kidx != T.of_atom(k):
            raise Unsupported("dictionary key is not the loop element's")

        def value(j):
            v = C.merge(cases) if len(cases) > 1 else cases[0][1]
            return rewrite_value(v, lambda t: T.subst(self.elim(t), {k: j}), born)

        def go():
            dict.pop(pd, key, None)
            pd.fams[fam] = (lo, end, value)

        return go


class _IdSet:
    def __init__(self, ids):
        self.ids = ids

    def __contains__(self, o):
        return id(o) in self.ids


def nf0(x):
    return nf(x)


def _num_only(v):
    return False


def _intval(v):
    return isinstance(v, int) or (
        isinstance(v, Sym) and T.is_int(v.nf) and all(c.denominator == 1 for c in v.nf.terms.values())
    )


def _has_forall(b):
    if b.kind == "not":
        return _has_forall(b.data)
    if b.kind in ("and", "or"):
        return any(_has_forall(x) for x in b.data)
    return b.kind in ("forall", "exists")


def _bool_mentions(t, sym):
    """boolean applications named sym anywhere in t"""
    found = []

    def wb(b):
        if b.kind == "bapp":
            if b.data[0] == sym:
                found.append(1)
            for x in b.data[1:]:
                if isinstance(x, T.Bool):
                    wb(x)
        elif b.kind == "not":
            wb(b.data)
        elif b.kind in ("and", "or"):
            for x in b.data:
                wb(x)
        elif b.kind in ("forall", "exists"):
            wb(b.data[1])
        elif b.kind in ("lt", "le", "eq"):
            wt(b.data)

    def wt(n):
        for a in T.all_atoms(n):
            if a.kind == "ite":
                wb(a.data[0])

    wb(t) if isinstance(t, T.Bool) else wt(t)
    return bool(found)


def _uf_fn(name, kind):
    if kind == "B":
        return lambda idx: T.bapp(name, tuple(idx))
    return lambda idx: T.app(name, tuple(idx), "I" if kind == "I" else "R")


def _raiser(msg):
    def fn(idx):
        raise Unsupported("array content after a loop: " + msg)

    return fn


# ------------------------------------------------------------ comprehensions


class Comp:
    """driver of a single-generator comprehension"""

    def __init__(self, it):
        self.it = it
        self.sym = None

    def __iter__(self):
        s = as_symbolic(self.it)
        parts = getattr(self.it, "parts", None) if isinstance(self.it, Arr) else None
        if s is not None and parts and parts[1] is self.it.st.fn:
            each = [as_symbolic(p) for p in parts[0]]
            if all(e is not None for e in each):
                self.sym = True
                self.outv = dict(self.v0)
                for e in each:
                    self.lo, self.hi, self.item = e
                    if smt.entails(C.CTX.pc, T.le(self.hi, self.lo)):
                        continue
                    self.v0 = dict(self.outv)
                    yield from self._symbolic()
                return
        if s is None:
            it = self.it
            if isinstance(it, PList) and it.seq is not None:
                it = it.seq
            if hasattr(it, "__pv_seq__"):
                it = it.__pv_seq__()
            for x in it:
                yield x
            return
        ctx = C.CTX
        self.lo, self.hi, item = s
        k = T.mk_atom("var", T.fresh_name("k"), "I")
        self.k = k
        self.sym = True
        self.paths = []
        known = {id(o) for o in C.live_objects()}
        snap = C.snapshot()
        self.keep = [o for o, _ in snap]
        ex = Explorer()
        while True:
            npc = len(ctx.pc)
            ctx.pc.append(T.le(self.lo, T.of_atom(k)))
            ctx.pc.append(T.lt(T.of_atom(k), self.hi))
            nb = len(ctx.pc)
            ctx.explorers.append(ex)
            ctx.loops.append(k)
            ex.start()
            self.passed = True
            yield item(T.of_atom(k))
            ctx.explorers.pop()
            ctx.loops.pop()
            dec = T.And(*ctx.pc[nb:])
            del ctx.pc[npc:]
            if C.diff(snap):
                raise Unsupported("comprehension with side effects")
            self.paths.append((dec, self.passed))
            if not ex.next():
                break
        self.born = [o for o in C.live_objects() if id(o) not in known]

    def filt(self, c):
        r = bool(c)
        self.passed = r
        return r

    def wrap(self, lst, kind="list"):
        """lst: elements produced natively"""
        if not self.sym:
            return PList(lst) if kind == "list" else lst
        cases = []
        i = 0
        for g, passed in self.paths:
            if passed:
                cases.append((g, lst[i]))
                i += 1
        k, lo, hi = self.k, self.lo, self.hi
        born = _IdSet(set(map(id, self.born)))
        keep = (self.born, self.keep)

        def at(v, kk):
            return rewrite_value(v, lambda t: T.subst(t, {k: kk}), born)

        p = PList()
        p.keep = keep
        if len(cases) == len(self.paths):
            ln = T.sub(hi, lo)
            if not smt.entails(C.CTX.pc, T.le(lo, hi)):
                ln = T.of_atom(T.mk_atom("app", ("max0", ln), "I"))
            merged = C.merge(cases) if len(cases) > 1 else cases[0][1]
            p.seq = Seq(mkdim(ln), lambda j: at(merged, T.add(lo, j)))
        else:
            if not cases:
                return p
            n, sel, _ = selection(lo, hi, k, T.Or(*[g for g, _ in cases]))
            merged = C.merge(cases) if len(cases) > 1 else cases[0][1]
            p.seq = Seq(mkdim(n), lambda j: at(merged, sel(j)))
        return p


# --------------------------------------------------------------- while loops


class WLoop:
    """while loop: unrolled while its condition is decided; or cut by an
    invariant supplied by the contract for this function (ctx.invariants)"""

    def __init__(self, fn, ordinal, names, loc):
        self.inv = C.CTX.invariants.get((fn, ordinal))
        self.names = names
        self.loc = loc
        self.mode = "concrete"
        self.exploring = False
        self.havoc = False
        self.fn = fn

    def __iter__(self):
        if self.inv is None:
            n = 0
            while True:
                yield None
                n += 1
                if n > C.CTX.unroll:
                    raise Unsupported("while loop without invariant in %s" % self.fn)
        else:
            self.vals = self.inv.enter(self)
            self.havoc = True
            yield None
            # one arbitrary iteration executed; the invariant was checked by leave()
            raise PathDead()

    def val(self, n):
        return self.vals[n] if n in self.vals else self.loc.get(n, UNDEF)

    def leave(self, loc):
        if self.inv is not None:
            self.inv.leave(self, loc)

    def exited(self, what):
        raise AssertionError


def exiting(what, *loops):
    """before a native return/break/continue out of loops (innermost first)"""
    for L in loops:
        if L.exploring:
            raise LoopExit(L, what)
