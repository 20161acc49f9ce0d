"""Symbolic mode of the contract language (see conc.py for the native mode)."""
import time
import traceback

from . import core as C
from . import load as LD
from . import models
from . import smt
from . import terms as T
from .core import Arr, PathDead, PList, Seq, Sym, SymB, Unsupported, asarr, conc, mk, mkdim, nf, tb, _t, _num


class SymM:
    symbolic = True

    def __init__(self, ctx, rec):
        self.ctx = ctx
        self.rec = rec
        self.world = LD.World()
        ctx.pc.extend(models.smt_pi_facts)
        self.n_checks = 0
        self.pi = mk(models.PI)
        self.mu0 = 4e-7 * self.pi
        self.contracted_names = []

    # ---- inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None, sample=None, choose=None):
        v = T.var(name, "R")
        if lo is not None:
            self.ctx.assume(T.le(nf(lo), v))
        if hi is not None:
            self.ctx.assume(T.le(v, nf(hi)))
        if gt is not None:
            self.ctx.assume(T.lt(nf(gt), v))
        if lt is not None:
            self.ctx.assume(T.lt(v, nf(lt)))
        return mk(v)

    def int(self, name, lo=None, hi=None, sample=None, choose=None):
        v = T.var(name, "I")
        if lo is not None:
            self.ctx.assume(T.le(nf(lo), v))
        if hi is not None:
            self.ctx.assume(T.le(v, nf(hi)))
        return mk(v)

    def bool(self, name):
        return mk(T.bapp(name))

    def choice(self, name, options):
        """an input ranging over a finite set: case split"""
        opts = list(options)
        for i, o in enumerate(opts[:-1]):
            if self.ctx.decide(T.bapp("%s=%d" % (name, i))):
                return o
        return opts[-1]

    def array(self, name, shape, kind="R", sample=None, lo=None, hi=None):
        shape = tuple(mkdim(nf(s)) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        if kind == "B":
            return Arr.from_fn(shape, lambda i: T.bapp(name, i), "B")
        if lo is not None or hi is not None:
            ks = tuple(T.mk_atom("var", T.fresh_name("a"), "I") for _ in shape)
            t = T.app(name, tuple(T.of_atom(k) for k in ks), "I" if kind == "I" else "R")
            b = T.TRUE
            if lo is not None:
                b = T.And(b, T.le(nf(lo), t))
            if hi is not None:
                b = T.And(b, T.le(t, nf(hi)))
            rng = T.And(*[T.And(T.le(T.ZERO, T.of_atom(k)), T.lt(T.of_atom(k), nf(d))) for k, d in zip(ks, shape)])
            self.ctx.assume(T.forall(ks, T.Implies(rng, b)))
        return Arr.from_fn(shape, lambda i: T.app(name, i, "I" if kind == "I" else "R"), kind)

    def func(self, name, arity, **k):
        """an arbitrary function of `arity` reals (applied elementwise to arrays)"""

        def f(*a):
            g = lambda *v: mk(T.app(name, tuple(nf(x) for x in v)))
            if any(isinstance(x, (Arr, list, tuple)) for x in a):
                return C.elementwise(g, a, "R")
            return g(*a)

        return f

    def assume(self, c):
        b = tb(c)
        self.ctx.assume(b)
        if not smt.feasible(self.ctx.pc, T.TRUE):
            raise PathDead()

    # ---- code under contract
    def module(self, name):
        return self.world.load(name)

    def contracted(self, path, fn):
        """inside the symbolic world, calls of the function at `path` are replaced
        by its contract `fn`; returns the replacement (native mode: the function)"""
        mod, name = path.rsplit(".", 1)
        m = self.world.load(mod)
        orig = getattr(m, name)
        self.world.replace(orig, fn)
        setattr(m, name, fn)
        self.contracted_names.append(path)
        return fn

    def greens(self):
        """Green's functions by contract (C01): uninterpreted, elementwise"""
        from types import SimpleNamespace

        out = SimpleNamespace()
        import inspect

        for n in ("Greens", "GreensBr", "GreensBz"):
            f = self._gfun(n)
            setattr(out, n, f)
            self.world.load("freegs.gradshafranov")
        self._pending = out
        for n in ("Greens", "GreensBr", "GreensBz"):
            self.contracted("freegs.gradshafranov." + n, getattr(out, n))
        return out

    def _gfun(self, n):
        def g(Rc, Zc, R, Z):
            return mk(T.app(n, (nf(Rc), nf(Zc), nf(R), nf(Z))))

        def f(Rc, Zc, R, Z, *rest, **k):
            if rest or k:
                eps = rest[0] if rest else k.pop("eps")
                if k or len(rest) > 1:
                    raise Unsupported("unexpected Green's function arguments")
                if not (isinstance(eps, float) and eps == 1e-3):
                    raise Unsupported("Green's function with another eps")
            a = (Rc, Zc, R, Z)
            if any(isinstance(x, (Arr, list, tuple)) for x in a):
                return C.elementwise(g, a, "R")
            return g(*a)

        return f

    def invariant(self, fn, ordinal, inv):
        """inv of the ordinal-th while loop of the function"""
        self.ctx.invariants[(fn, ordinal)] = inv

    def for_invariant(self, fn, ordinal, inv):
        """inv (start, state, step) of the ordinal-th for loop of the function"""
        self.ctx.invariants[(fn, "for", ordinal)] = inv

    def grid_hint(self, nx, ny):
        if not hasattr(self.ctx, "grid_hints"):
            self.ctx.grid_hints = []
        self.ctx.grid_hints.append((nx, ny))

    # ---- logic
    def eq(self, a, b, scale=None, rtol=None):
        if isinstance(a, (Arr, list, tuple)) or isinstance(b, (Arr, list, tuple)):
            raise TypeError("use eq_array")
        if isinstance(a, (SymB, bool)) and isinstance(b, (SymB, bool)):
            p, q = tb(a), tb(b)
            return mk(T.And(T.Implies(p, q), T.Implies(q, p)))
        return mk(T.eq(nf(a), nf(b)))

    def le(self, a, b, tol=None):
        return mk(T.le(nf(a), nf(b)))

    def lt(self, a, b):
        return mk(T.lt(nf(a), nf(b)))

    def And(self, *bs):
        return mk(T.And(*[tb(b) for b in bs]))

    def Or(self, *bs):
        return mk(T.Or(*[tb(b) for b in bs]))

    def Not(self, b):
        return mk(T.Not(tb(b)))

    def implies(self, a, b):
        return mk(T.Implies(tb(a), tb(b)))

    def iff(self, a, b):
        return self.And(self.implies(a, b), self.implies(b, a))

    def If(self, c, a, b):
        return mk(T.ite(tb(c), nf(a), nf(b)))

    def sqrt(self, x):
        return models.np_sqrt(x)

    def ellipk(self, x):
        return models.uf1("ellipk")(x)

    def ellipe(self, x):
        return models.uf1("ellipe")(x)

    def log(self, x):
        return models.uf1("log")(x)

    def exp(self, x):
        return models.np_exp(x)

    def sin(self, x):
        return models._trig("sin")(x)

    def cos(self, x):
        return models._trig("cos")(x)

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return models._max2(a, b)

    def min(self, a, b):
        return models._min2(a, b)

    def sum(self, lo, hi, f):
        k = T.mk_atom("var", T.fresh_name("s"), "I")
        clo, chi = conc(lo), conc(hi)
        if clo is not None and chi is not None:
            tot = T.ZERO
            for i in range(clo, chi):
                tot = T.add(tot, nf(f(i)))
            return mk(tot)
        if clo == 0:
            return mk(models.sum1(nf(hi), k, nf(f(mk(T.of_atom(k))))))
        return mk(T.ssum(nf(lo), nf(hi), k, nf(f(mk(T.of_atom(k))))))

    def at(self, a, *idx):
        """array element without bounds checks"""
        return mk(a.at(tuple(nf(i) for i in idx)))

    def simp(self, x):
        """the same value with conditionals settled by the path removed"""
        return mk(smt.prune(self.ctx.pc, nf(x)))

    def sparse_at(self, A, grid, row, col):
        """entry of a sparse matrix over a grid; 0 outside the grid"""
        return mk(A.arr.at(tuple(nf(v) for v in tuple(row) + tuple(col))))

    def shape(self, a):
        return a.shape

    def fresh_index(self, shape, base="i"):
        out = []
        for d in shape:
            v = T.mk_atom("var", T.fresh_name(base), "I")
            t = T.of_atom(v)
            self.ctx.pc.append(T.le(T.ZERO, t))
            self.ctx.pc.append(T.lt(t, nf(d)))
            out.append(mk(t))
        return out

    def check_all_z3(self, name, shape, f):
        """check_all put to z3 as one formula first"""
        t0 = time.time()
        idx, rng = [], []
        for d in shape:
            k = T.var(T.fresh_name("i"), "I")
            idx.append(mk(k))
            rng.append(T.And(T.le(T.ZERO, k), T.lt(k, nf(d))))
        r = smt._z3_goal(self.ctx.pc, T.Implies(T.And(*rng), tb(f(*idx))))
        if r.status == "proved":
            self.note(name, r, time.time() - t0)
        else:
            self.check_all(name, shape, f)

    def check_all(self, name, shape, f, where=None):
        """obligation: f(i, j, ...) for every index in range (and satisfying where)"""
        n0 = len(self.ctx.pc)
        idx = self.fresh_index(shape)
        if smt.feasible(self.ctx.pc, T.TRUE):
            try:
                ok = True
                if where is not None:
                    w = tb(where(*idx))
                    if not smt.feasible(self.ctx.pc, w):
                        ok = False
                    else:
                        self.ctx.assume(w)
                if ok:
                    self._explore_check(name, lambda: f(*idx))
                else:
                    self.note(name, smt.Result("proved", "empty domain", backend="z3"), 0.0)
            finally:
                del self.ctx.pc[n0:]
        else:
            del self.ctx.pc[n0:]
            self.note(name, smt.Result("proved", "empty domain", backend="z3"), 0.0)

    def _explore_check(self, name, thunk):
        ctx = self.ctx
        ex = C.Explorer()
        while True:
            npc = len(ctx.pc)
            ctx.explorers.append(ex)
            depth = len(ctx.explorers)
            ex.start()
            try:
                v = thunk()
                if v is not None:
                    self.check(name, v)
            except PathDead:
                pass
            finally:
                del ctx.explorers[depth - 1:]
                del ctx.pc[npc:]
            if not ex.next():
                break

    def check_shape(self, name, a, shape):
        a = asarr(a) if not isinstance(a, Arr) else a
        if len(a.shape) != len(shape):
            self.check(name, False)
            return
        self.check(name, mk(T.And(*[T.eq(nf(x), nf(y)) for x, y in zip(a.shape, shape)])))

    def check(self, name, c):
        t0 = time.time()
        b = tb(c)
        r = smt.prove(self.ctx.pc, b)
        if r.status == "refuted":
            # the path itself must be feasible
            st, m = smt.query(self.ctx.pc, T.Not(b), timeout=8000)
            if st == "unsat":
                r = smt.Result("proved", backend="z3")
            elif m:
                r.model = m
        self.note(name, r, time.time() - t0)

    def require(self, name, c):
        """an obligation about how the code is built: when it fails the invariants of
        the contract do not fit this code, and nothing is decided"""
        t0 = time.time()
        r = smt.prove(self.ctx.pc, tb(c))
        if r.status != "proved":
            raise Unsupported("the code does not fit the invariants: " + name)
        self.note(name, r, time.time() - t0)

    def note(self, name, r, dt):
        self.n_checks += 1
        self.rec.add(name, r, dt, list(self.ctx.pc))

    def raises(self, name, exc, thunk):
        """obligation: thunk raises exc"""
        try:
            thunk()
        except exc:
            self.note(name, smt.Result("proved", backend="path"), 0.0)
            return
        # reached only on a feasible path
        st, m = smt.query(self.ctx.pc, T.TRUE)
        self.note(
            name,
            smt.Result({"unsat": "proved", "sat": "refuted"}.get(st, "unknown"), "no exception raised", m),
            0.0,
        )

    def same_object(self, name, a, b):
        self.note(name, smt.Result("proved" if a is b else "refuted", "object identity", {}, "path"), 0.0)

    # families of coils (any coil obeying the coil contract)
    def coils(self, name, n, kinds=None):
        """a list [(label, coil)] of n arbitrary coils"""
        from .family import Family

        f = Family(name, mkdim(nf(n)))
        p = f.list()
        p.family = f
        return p

    def circuit_coils(self, name, n, kinds=None):
        """a list [(label, coil, multiplier)]"""
        from .family import Family

        f = Family(name, mkdim(nf(n)))
        p = f.list(lambda k: mk(T.app(name + "_mult", (nf(k),))))
        p.family = f
        return p

    def table(self, shape, f):
        """array with the given elements"""
        return Arr.from_fn(tuple(mkdim(nf(d)) for d in shape), lambda i: nf(f(*[mk(x) for x in i])), "R")

    def spline(self, x, y, z, dx=0, dy=0):
        """the bivariate spline interpolant of z[i,j] at (x[i], y[j])"""
        s = models.RectBivariateSpline(x, y, z)
        return lambda r, zz, dx=dx, dy=dy: s.ev(r, zz, dx=dx, dy=dy)

    def snapshot(self, f, n):
        """values f(0..n-1) as they are now"""
        k = T.mk_atom("var", T.fresh_name("sn"), "I")
        t = _t(f(mk(T.of_atom(k))))
        return lambda j: mk(T.subst(t, {k: nf(j)}))

    def snapshot2(self, a):
        """the elements of a two dimensional array as they are now"""
        g = a.freeze()
        return lambda i, j: mk(g((nf(i), nf(j))))

    def ifelse(self, c, a, b):
        """a() where c holds, b() elsewhere; each evaluated knowing so"""
        c = tb(c)
        n0 = len(self.ctx.pc)
        vs = []
        for cond, f in ((c, a), (T.Not(c), b)):
            if not smt.feasible(self.ctx.pc, cond):
                vs.append(None)
                continue
            self.ctx.pc.append(cond)
            try:
                vs.append(nf(f()))
            finally:
                del self.ctx.pc[n0:]
        if vs[0] is None or vs[1] is None:
            return mk(vs[1] if vs[0] is None else vs[0])
        return mk(T.ite(c, vs[0], vs[1]))

    def romb2(self, f, nx, ny):
        """Romberg integral over both axes of the samples f(i, j), unit spacing"""
        return models.romb(models.romb(self.table((nx, ny), f)))

    def regularised(self, A, b, gamma):
        """x minimising |Ax - b|^2 + gamma^2 |x|^2"""
        At = A.T
        return models.np_dot(models.np_inv(models.np_dot(At, A) + gamma ** 2 * models.np_eye(A.shape[1])), models.np_dot(At, b))

    def infinite(self, v, sign=1):
        return nf(v) == (T.infinity() if sign > 0 else T.neg(T.infinity()))

    def romb1(self, f, n):
        return models.romb(self.table((n,), f))

    def amax2(self, shape, f):
        return models.np_max(self.table(shape, f))

    def amin2(self, shape, f):
        return models.np_min(self.table(shape, f))

    def decide(self, b):
        """case split"""
        return self.ctx.decide(tb(b))

    def argmax(self, n, f):
        """first index of the largest of f(0), ..., f(n-1)"""
        return models.np_argext("argmax")(self.table((n,), f))

    def argmin(self, n, f):
        return models.np_argext("argmin")(self.table((n,), f))

    def arctan2(self, a, b):
        return mk(T.app("arctan2", (nf(a), nf(b))))

    def ptp(self, a):
        return models.np_ptp(a)

    def elementwise(self, f):
        """f of numbers, applied to arrays element by element"""

        def g(*a):
            if any(isinstance(x, (Arr, list, tuple)) for x in a):
                return C.elementwise(f, a, "R")
            return f(*a)

        return g

    def first(self, n, f):
        """the first of 0, ..., n-1 with f, or None"""
        tab = Arr.from_fn((mkdim(nf(n)),), lambda i: tb(f(mk(i[0]))), "B")
        k = models._argtrue(tab.shape[0], tab.freeze(), True)
        return mk(k) if self.decide(mk(T.And(T.le(T.ZERO, k), T.lt(k, nf(n)), tb(f(mk(k)))))) else None

    def np_asarray(self, x):
        return models.asarr(x)

    def last_of(self, n, f):
        """the last of 0, ..., n-1 with f, or None"""
        n = nf(n)
        k = T.mk_atom("var", T.fresh_name("e"), "I")
        kt = T.of_atom(k)
        g = lambda t: tb(f(mk(t)))
        within = T.And(T.le(T.ZERO, kt), T.lt(kt, n))
        if not self.decide(mk(T.exists((k,), T.And(within, g(kt))))):
            self.ctx.assume(T.forall((k,), T.Implies(within, T.Not(g(kt)))))
            return None
        w = T.var(T.fresh_name("last"), "I")
        self.ctx.assume(T.And(T.le(T.ZERO, w), T.lt(w, n), g(w)))
        self.ctx.assume(T.forall((k,), T.Implies(T.And(T.lt(w, kt), T.lt(kt, n)), T.Not(g(kt)))))
        return mk(w)

    def same(self, a, b):
        """the same value, by normal form"""
        return nf(a) == nf(b)

    def interpolant(self, x, y, z):
        """the bivariate spline itself"""
        return models.RectBivariateSpline(x, y, z)

    def interpolant1(self, x, y, kind):
        return models.interp1d(x, y, kind=kind, fill_value="extrapolate")

    def quad(self, f, a, b):
        return models.quad(f, a, b)[0]

    def assume_all(self, shape, f):
        """f at every index is an assumption of the contract"""
        ks = tuple(T.mk_atom("var", T.fresh_name("e"), "I") for _ in shape)
        kt = [T.of_atom(k) for k in ks]
        rng = T.And(*[T.And(T.le(T.ZERO, k), T.lt(k, nf(d))) for k, d in zip(kt, shape)])
        self.ctx.assume(T.forall(ks, T.Implies(rng, tb(f(*[mk(k) for k in kt])))))

    def exists(self, ranges, f):
        """some integers within the ranges with f"""
        ks = tuple(T.mk_atom("var", T.fresh_name("e"), "I") for _ in ranges)
        kt = [T.of_atom(k) for k in ks]
        rng = T.And(*[T.And(T.le(nf(a), k), T.lt(k, nf(b))) for k, (a, b) in zip(kt, ranges)])
        return mk(T.exists(ks, T.And(rng, tb(f(*[mk(k) for k in kt])))))

    def selected(self, n, pred):
        """the indices k in [0, n) with pred(k), in increasing order: .n, .at(j), .rank(k)"""
        from types import SimpleNamespace

        k = T.mk_atom("var", T.fresh_name("k"), "I")
        cnt, at, rank = LD.L.selection(T.ZERO, nf(n), k, tb(pred(mk(T.of_atom(k)))))
        return SimpleNamespace(n=mk(cnt), at=lambda j: mk(at(nf(j))), rank=lambda q: mk(rank(nf(q))))

    def set_current(self, coil, v):
        coil.current = v

    def forall_set(self, n, f):
        """run f(k) for k = 0..n-1 (through the verifier's own loop rule)"""
        lp = LD.L.Loop(LD.L.pv_range(n), (), ("k",), {}, "contract")
        for k in lp:
            f(k)
            lp.leave({"k": k})

    def full(self, a, shape):
        """a scalar or array as an array of the given shape"""
        if isinstance(a, Arr):
            return a
        return Arr.from_fn(tuple(mkdim(nf(d)) for d in shape), lambda i: nf(a), "R")

    # containers
    def seq(self, n, item):
        """a list of symbolic length n whose k-th element is item(k)"""
        p = PList()
        p.seq = Seq(n, lambda k: item(mk(k)))
        return p

    def length(self, x):
        return models.pv_len(x)

    def item(self, x, k):
        """k-th element without bounds check"""
        if isinstance(x, PList) and x.seq is not None:
            return x.seq.item(nf(k))
        if isinstance(x, Seq):
            return x.item(nf(k))
        if isinstance(x, Arr):
            return LD.L._arr_item(x, nf(k))
        return x[k]

    def arr(self, x):
        return asarr(x)


class Record:
    def __init__(self):
        self.obls = []
        self.unsupported = []
        self.errors = []
        self.paths = 0
        self.vacuous = None
        self.assumptions = set()

    def add(self, name, r, dt, pc):
        self.obls.append(
            {
                "name": name,
                "status": r.status,
                "backend": r.backend,
                "detail": r.detail[:1500],
                "model": _clean(r.model),
                "time": round(dt, 3),
            }
        )


def _clean(m):
    if not m:
        return {}
    return {k: v for k, v in m.items() if "!" not in k and isinstance(v, (int, float))}


def run_symbolic(c, time_limit=120, max_paths=400):
    rec = Record()
    smt.FEAS_MS[0] = getattr(c, "opts", {}).get("feas", 1500)
    ex = C.Explorer(max_paths)
    t_end = time.time() + time_limit
    feasible_paths = 0
    while True:
        T.reset_fresh()
        ctx = C.Ctx()
        ctx.deadline = t_end
        ctx.romb_dims = []
        C.set_ctx(ctx)
        ctx.explorers.append(ex)
        try:
            ex.start()
            m = SymM(ctx, rec)
            c.fn(m)
            rec.paths += 1
            st, _ = smt.query(ctx.pc, T.TRUE, timeout=2000)
            if st != "unsat":
                feasible_paths += 1
        except PathDead:
            pass
        except Unsupported as e:
            rec.unsupported.append(_where(e))
        except T.Infinity as e:
            rec.unsupported.append(str(e))
        except T.TooBig as e:
            rec.unsupported.append("term too large: %s" % e)
        except RecursionError as e:
            rec.unsupported.append("recursion limit")
        except Exception as e:
            st, mod = "unknown", None
            try:
                st, mod = smt.query(ctx.pc, T.TRUE, timeout=3000)
            except Exception:
                pass
            if st != "unsat":
                rec.errors.append(
                    {"error": "%s: %s" % (type(e).__name__, e), "at": _tb(e), "model": _clean(mod)}
                )
        rec.assumptions |= ctx.assumptions
        if time.time() > t_end:
            rec.unsupported.append("time limit")
            break
        if len(rec.unsupported) > 3 or len(rec.errors) > 3:
            break
        if not ex.next():
            break
    rec.feasible_paths = feasible_paths
    return rec


def _tb(e):
    fr = traceback.extract_tb(e.__traceback__)
    return ["%s:%s %s" % (f.filename.split("/")[-1], f.lineno, f.name) for f in fr[-6:]]


def _where(e):
    fr = traceback.extract_tb(e.__traceback__)
    loc = [f for f in fr if "/freegs/" in f.filename]
    s = str(e) or type(e).__name__
    if loc:
        s += " [%s:%s]" % (loc[-1].filename.split("/")[-1], loc[-1].lineno)
    return s
