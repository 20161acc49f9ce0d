"""Symbolic values, path exploration, arrays, lists and loop summaries.

The real source is executed by CPython after a mechanical AST rewriting
(pv/load.py) that only touches loops, comprehensions, list/dict displays and
early exits inside loops; every operator acts on the value classes below.
"""
import itertools
import numbers
import weakref
from fractions import Fraction
from . import terms as T
from . import smt


class Unsupported(BaseException):
    """the construct is outside the verifier's reach (never a violation)"""


class PathDead(BaseException):
    """infeasible path"""


class LoopExit(BaseException):
    def __init__(self, loop, what):
        self.loop = loop
        self.what = what


class Ctx:
    def __init__(self):
        self.pc = []
        self.explorers = []
        self.objects = []
        self.obls = []
        self.assumptions = set()
        self.loops = []
        self.invariants = {}
        self.functions = set()
        self.notes = []
        self.unroll = 40
        self.deadline = None

    def decide(self, b):
        import time

        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the proof exhausted")
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        if b in self.pc:
            return True
        if T.Not(b) in self.pc:
            return False
        ints = smt.feasible_int(self.pc, b)
        if ints is not None and ints[0] != ints[1]:
            return ints[0]
        if any(smt.has_quantifier(p) for p in self.pc):
            # decided by the quantifier-free facts
            qt, qn = smt.feasible_qf(self.pc, b), smt.feasible_qf(self.pc, T.Not(b))
            if qt != qn:
                return qt
        ft = smt.feasible(self.pc, b)
        ff = smt.feasible(self.pc, T.Not(b))
        if not ft and not ff:
            raise PathDead()
        if not ff:
            return True
        if not ft:
            return False
        ex = self.explorers[-1]
        v = ex.choose()
        self.pc.append(b if v else T.Not(b))
        return v

    def assume(self, b):
        if b is T.FALSE:
            raise PathDead()
        for q in T.conj(b):
            if q is not T.TRUE and q not in self.pc:
                self.pc.append(q)


class Explorer:
    """depth-first enumeration of decision sequences by re-execution"""

    def __init__(self, max_paths=4000):
        self.trace = []
        self.pos = 0
        self.n = 0
        self.max = max_paths

    def choose(self):
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            v = True
            self.trace.append([True, True])
        self.pos += 1
        return v

    def start(self):
        self.pos = 0
        self.n += 1
        if self.n > self.max:
            raise Unsupported("too many paths")

    def next(self):
        """prepare the next path; False when exhausted"""
        del self.trace[self.pos:]
        while self.trace and not (self.trace[-1][0] and self.trace[-1][1]):
            self.trace.pop()
        if not self.trace:
            return False
        self.trace[-1] = [False, False]
        return True


CTX = Ctx()


def ctx():
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ------------------------------------------------------------------ scalars


def is_scalar(x):
    return isinstance(x, (Sym, SymB, int, float, Fraction, bool)) or (
        hasattr(x, "dtype") and getattr(x, "shape", None) == () and not isinstance(x, Arr)
    )


def nf(x):
    """arithmetic term of a scalar"""
    if isinstance(x, Sym):
        return x.nf
    if isinstance(x, SymB):
        return T.ite(x.b, T.ONE, T.ZERO)
    if isinstance(x, (bool, int, Fraction)):
        return T.num(int(x) if isinstance(x, bool) else x)
    if isinstance(x, float):
        try:
            return T.num(x)
        except OverflowError:
            return T.infinity() if x > 0 else T.neg(T.infinity())
    if isinstance(x, T.NF):
        return x
    if isinstance(x, Arr) and x.ndim == 0:
        return nf(x.item())
    if hasattr(x, "item") and not isinstance(x, Arr):
        return nf(x.item())
    raise Unsupported("not a number: %r" % type(x).__name__)


def tb(x):
    """formula of a boolean"""
    if isinstance(x, SymB):
        return x.b
    if isinstance(x, T.Bool):
        return x
    if isinstance(x, bool):
        return T.TRUE if x else T.FALSE
    if isinstance(x, Sym):
        return T.Not(T.eq(x.nf, T.ZERO))
    if isinstance(x, (int, float)):
        return T.TRUE if x else T.FALSE
    if hasattr(x, "item") and not isinstance(x, Arr):
        return tb(x.item())
    raise Unsupported("not a truth value: %r" % type(x).__name__)


def mk(t):
    """term -> value (concrete Python number when constant)"""
    if isinstance(t, T.Bool):
        if t is T.TRUE:
            return True
        if t is T.FALSE:
            return False
        return SymB(t)
    return Sym(t)


def conc(x):
    """concrete integer of a value if it is one, else None"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Sym) and x.nf.is_const():
        c = x.nf.const()
        if c.denominator == 1:
            return int(c)
    if isinstance(x, T.NF) and x.is_const() and x.const().denominator == 1:
        return int(x.const())
    if hasattr(x, "item") and not isinstance(x, (Arr, Sym)):
        return conc(x.item())
    return None


def _num(x):
    if isinstance(x, Poison):
        return False
    return isinstance(x, (Sym, SymB, int, float, Fraction)) or (
        hasattr(x, "dtype") and getattr(x, "shape", 1) == () and not isinstance(x, Arr)
    )


def _ari(f, swap=False):
    def op(self, o):
        if not _num(o):
            return NotImplemented
        a, b = self.nf, nf(o)
        if swap:
            a, b = b, a
        return Sym(f(a, b))

    return op


def pow_nf(a, b):
    if b.is_const():
        c = b.const()
        if c.denominator == 1:
            return T.power(a, int(c))
        if c == Fraction(1, 2):
            return T.sqrt(a)
        if c == Fraction(-1, 2):
            return T.inverse(T.sqrt(a))
        if c.denominator == 2 and c > 0:
            return T.mul(T.power(a, int(c - Fraction(1, 2))), T.sqrt(a))
    if a == T.ONE:
        return T.ONE
    return T.app("pow", (a, b))


def floordiv_nf(a, b):
    if b.is_const() and b.const() != 0:
        q = T.scale(a, 1 / b.const())
        if T.is_int(q) and all(c.denominator == 1 for c in q.terms.values()):
            return q
        # split the divisible part off
        if T.is_int(a) and b.const().denominator == 1:
            d = int(b.const())
            whole, part = {}, {}
            for m, c in a.terms.items():
                if (c / d).denominator == 1:
                    whole[m] = c / d
                else:
                    part[m] = c
            pt = T.NF(part)
            if pt.is_const():
                return T.add(T.NF(whole), T.num(int(pt.const()) // d))
            return T.add(T.NF(whole), T.app("floordiv", (pt, b), "I"))
    if a.is_const() and b.is_const():
        return T.num(a.const() // b.const())
    return T.app("floordiv", (a, b), "I")


def mod_nf(a, b):
    if CTX is not None and not b.is_const() and T.is_int(a) and T.is_int(b):
        # the next index of a closed list
        if smt.entails(CTX.pc, T.And(T.le(T.ZERO, a), T.le(a, b), T.lt(T.ZERO, b))):
            return T.ite(T.eq(a, b), T.ZERO, a)
    q = floordiv_nf(a, b)
    return T.sub(a, T.mul(b, q))


def _floordiv_rule(a, b):
    if b.is_const():
        return floordiv_nf(a, b)
    if CTX is not None and len(a.terms) > 1:
        r = split_known(a, b)
        if r is not None:
            return r[0]
    return None


T.APP_RULES["floordiv"] = _floordiv_rule


def abs_nf(a):
    if a.is_const():
        return T.num(abs(a.const()))
    lc = a.terms[T._lead(a)]
    if lc < 0:
        a = T.neg(a)
    if len(a.terms) == 1:
        ((m, c),) = a.terms.items()
        if c != 1:
            return T.scale(abs_nf(T.NF({m: Fraction(1)})), c)
    return T.app("abs", (a,), "I" if T.is_int(a) else "R")


T.APP_RULES["abs"] = abs_nf
T.APP_RULES["pow"] = pow_nf


class Sym:
    __slots__ = ("nf",)
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, t):
        self.nf = t

    def __repr__(self):
        return "Sym(%s)" % T.show(self.nf)

    __add__ = _ari(T.add)
    __radd__ = _ari(T.add, True)
    __sub__ = _ari(T.sub)
    __rsub__ = _ari(T.sub, True)
    __mul__ = _ari(T.mul)
    __rmul__ = _ari(T.mul, True)
    __floordiv__ = _ari(floordiv_nf)
    __rfloordiv__ = _ari(floordiv_nf, True)
    __mod__ = _ari(mod_nf)
    __rmod__ = _ari(mod_nf, True)
    __pow__ = _ari(pow_nf)
    __rpow__ = _ari(pow_nf, True)

    def __truediv__(self, o):
        if not _num(o):
            return NotImplemented
        return Sym(div_nf(self.nf, nf(o)))

    def __rtruediv__(self, o):
        if not _num(o):
            return NotImplemented
        return Sym(div_nf(nf(o), self.nf))

    def __neg__(self):
        return Sym(T.neg(self.nf))

    def __pos__(self):
        return self

    def __abs__(self):
        return Sym(abs_nf(self.nf))

    def __lt__(self, o):
        if not _num(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o > 0
        return mk(T.lt(self.nf, nf(o)))

    def __le__(self, o):
        if not _num(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o > 0
        return mk(T.le(self.nf, nf(o)))

    def __gt__(self, o):
        if not _num(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o < 0
        return mk(T.lt(nf(o), self.nf))

    def __ge__(self, o):
        if not _num(o):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            return o < 0
        return mk(T.le(nf(o), self.nf))

    def __eq__(self, o):
        if not _num(o):
            return NotImplemented
        return mk(T.eq(self.nf, nf(o)))

    def __ne__(self, o):
        if not _num(o):
            return NotImplemented
        return mk(T.Not(T.eq(self.nf, nf(o))))

    def __hash__(self):
        c = self.nf
        if c.is_const():
            return hash(c.const())
        return hash(c)

    def __bool__(self):
        return CTX.decide(T.Not(T.eq(self.nf, T.ZERO)))

    def __index__(self):
        c = conc(self)
        if c is None:
            raise Unsupported("symbolic integer used where CPython needs a number")
        return c

    def __int__(self):
        return self.__index__()

    def __float__(self):
        if self.nf.is_const():
            return float(self.nf.const())
        raise Unsupported("symbolic number used where CPython needs a float")

    def __format__(self, spec):
        return "<sym>"

    # numpy-scalar look-alikes
    shape = ()
    ndim = 0
    size = 1

    def astype(self, t):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    def any(self):
        return self != 0

    all = any

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise TypeError("scalar is not subscriptable")

    @property
    def real(self):
        return self

    T = property(lambda s: s)


numbers.Real.register(Sym)


def div_nf(a, b):
    if b.is_zero():
        raise ZeroDivisionError("division by zero")
    return T.div(a, b)


class SymB:
    __slots__ = ("b",)
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return "SymB(%s)" % T.show_bool(self.b)

    def __bool__(self):
        return CTX.decide(self.b)

    def __and__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return mk(T.And(self.b, tb(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return mk(T.Or(self.b, tb(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        p, q = self.b, tb(o)
        return mk(T.Or(T.And(p, T.Not(q)), T.And(T.Not(p), q)))

    def __invert__(self):
        return mk(T.Not(self.b))

    def __eq__(self, o):
        if not _num(o):
            return NotImplemented
        if isinstance(o, (bool, SymB)):
            p, q = self.b, tb(o)
            return mk(T.Or(T.And(p, q), T.And(T.Not(p), T.Not(q))))
        return mk(T.eq(nf(self), nf(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return mk(T.Not(tb(r)))

    def __hash__(self):
        return hash(self.b)

    def any(self):
        return self

    all = any

    def astype(self, t):
        return self

    def _a(f):
        def op(self, o):
            if not _num(o):
                return NotImplemented
            return getattr(Sym(nf(self)), f)(o)

        return op

    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt", "le", "gt", "ge"):
        locals()["__%s__" % _n] = _a("__%s__" % _n)

    def __format__(self, spec):
        return "<symb>"


class Poison:
    """a value unknown at this point of a loop body"""

    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def _die(self, *a, **k):
        raise Unsupported("use of a loop-carried value: " + object.__getattribute__(self, "_why"))

    def __getattribute__(self, n):
        if n in ("__class__", "_die"):
            return object.__getattribute__(self, n)
        object.__getattribute__(self, "_die")()

    for _n in "bool add radd sub rsub mul rmul truediv rtruediv lt le gt ge eq ne getitem setitem iter len call pow rpow neg setattr".split():
        locals()["__%s__" % _n] = _die
    __hash__ = object.__hash__


UNDEF = Poison("unbound local variable")


def merge(cases):
    """cases: list of (Bool guard, value); exhaustive. Returns one value."""
    vals = [v for _, v in cases]
    if all(v is vals[0] for v in vals):
        return vals[0]
    if all(_num(v) for v in vals):
        if all(isinstance(v, (SymB, bool)) for v in vals):
            out = tb(vals[-1])
            for g, v in reversed(cases[:-1]):
                out = T.Or(T.And(g, tb(v)), T.And(T.Not(g), out))
            return mk(out)
        out = nf(vals[-1])
        for g, v in reversed(cases[:-1]):
            out = T.ite(g, nf(v), out)
        return mk(out)
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(
            merge([(g, v[i]) for g, v in cases]) for i in range(len(vals[0]))
        )
    if all(isinstance(v, str) or v is None for v in vals) and len(set(vals)) == 1:
        return vals[0]
    if all(isinstance(v, Arr) for v in vals) and all(
        same_shape(v.shape, vals[0].shape) for v in vals
    ):
        return Arr.from_fn(
            vals[0].shape,
            lambda idx, cases=cases: _t(merge([(g, mk(v.at(idx))) for g, v in cases])),
            vals[0].kind,
        )
    raise Unsupported("merging values of different kinds")


def _t(v):
    """value -> term"""
    if isinstance(v, (SymB, bool)):
        return tb(v)
    return nf(v)


# ------------------------------------------------------------------- arrays


def S(x):
    return x if isinstance(x, (int, Sym)) else mk(x)


def dimnf(d):
    return nf(d)


def same_dim(a, b):
    x, y = nf(a), nf(b)
    if x == y:
        return True
    if x.is_const() and y.is_const():
        return False
    return smt.entails(CTX.pc, T.eq(x, y))


def same_shape(a, b):
    return len(a) == len(b) and all(same_dim(x, y) for x, y in zip(a, b))


class Storage:
    __slots__ = ("fn", "shape", "kind", "__weakref__", "cache", "frozen")

    def __init__(self, shape, fn, kind):
        self.shape = tuple(shape)
        self.fn = fn
        self.kind = kind
        self.frozen = False
        CTX.objects.append(weakref.ref(self))


class Arr:
    """n-dimensional array: a view (per storage axis: fixed index or
    start+step*i of a view axis) of a content function"""

    __array_ufunc__ = None
    __hash__ = object.__hash__

    def __init__(self, st, axes, shape):
        self.st = st
        self.axes = axes  # per storage axis: ('fix', NF) | ('ax', view axis, start NF, step int)
        self.shape = tuple(shape)

    @staticmethod
    def from_fn(shape, fn, kind="R"):
        shape = tuple(shape)
        st = Storage(shape, fn, kind)
        return Arr(st, [("ax", i, T.ZERO, 1) for i in range(len(shape))], shape)

    @property
    def kind(self):
        return self.st.kind

    @property
    def dtype(self):
        return {"R": float, "I": int, "B": bool}[self.kind]

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    def sidx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "fix":
                out.append(a[1])
            else:
                t = idx[a[1]]
                if a[3] != 1:
                    t = T.scale(t, a[3])
                out.append(T.add(a[2], t))
        return tuple(out)

    def at(self, idx):
        """term at an index tuple of NF (no bounds check)"""
        return self.st.fn(self.sidx(idx))

    def item(self, *a):
        if self.ndim == 0:
            return mk(self.at(()))
        if all(conc(d) == 1 for d in self.shape):
            return mk(self.at((T.ZERO,) * self.ndim))
        if CTX.decide(T.And(*[T.eq(nf(d), T.ONE) for d in self.shape])):
            return mk(self.at((T.ZERO,) * self.ndim))
        raise ValueError("can only convert an array of size 1 to a Python scalar")

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        c = conc(self.shape[0])
        if c is None:
            raise Unsupported("len of symbolic array via CPython")
        return c

    def __bool__(self):
        if all(conc(d) == 1 for d in self.shape):
            return bool(self.item())
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __float__(self):
        return float(self.item())

    def __index__(self):
        return self.item().__index__()

    def __repr__(self):
        return "Arr(%s)" % (self.shape,)

    def __iter__(self):
        c = conc(self.shape[0])
        if c is None:
            raise Unsupported("iteration over a symbolic array outside a loop statement")
        for i in range(c):
            yield self[i]

    # ---- indexing
    def _norm_index(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            n = len([k for k in key if k is not None and k is not Ellipsis])
            key[p:p + 1] = [slice(None)] * (self.ndim - n)
        n = len([k for k in key if k is not None])
        if n > self.ndim:
            raise IndexError("too many indices for array")
        key += [slice(None)] * (self.ndim - n)
        return key

    def _int_index(self, i, n):
        """bounds-checked, Python-style negative wrap; returns NF"""
        t = nf(i)
        nn = nf(n)
        if t.is_const():
            if t.const().denominator != 1:
                raise IndexError("non-integer index")
            if t.const() < 0:
                t = T.add(t, nn)
        else:
            if not smt.entails(CTX.pc, T.le(T.ZERO, t)):
                if CTX.decide(T.lt(t, T.ZERO)):
                    t = T.add(t, nn)
        ok = T.And(T.le(T.ZERO, t), T.lt(t, nn))
        if not CTX.decide(ok):
            raise IndexError("index %s is out of bounds for axis of size %s" % (T.show(t), T.show(nn)))
        return t

    def _slice(self, s, n):
        """-> start NF, step int, length"""
        step = conc(s.step) if s.step is not None else 1
        if step is None or step == 0:
            raise Unsupported("symbolic slice step")
        nn = nf(n)

        def bound(v, default):
            if v is None:
                return default
            t = nf(v)
            if t.is_const():
                c = t.const()
                if c < 0:
                    t = T.add(t, nn)
            elif not smt.entails(CTX.pc, T.le(T.ZERO, t)):
                if CTX.decide(T.lt(t, T.ZERO)):
                    t = T.add(t, nn)
            return t

        if step > 0:
            a = bound(s.start, T.ZERO)
            b = bound(s.stop, nn)
            # clamp
            a = clamp(a, T.ZERO, nn)
            b = clamp(b, T.ZERO, nn)
            ln = T.sub(b, a)
        else:
            a = bound(s.start, T.sub(nn, T.ONE))
            b = bound(s.stop, T.num(-1)) if s.stop is not None else T.num(-1)
            a = clamp(a, T.num(-1), T.sub(nn, T.ONE))
            b = clamp(b, T.num(-1), T.sub(nn, T.ONE))
            ln = T.sub(a, b)
        st = abs(step)
        if st != 1:
            ln = floordiv_nf(T.add(ln, T.num(st - 1)), T.num(st))
        if ln.is_const():
            ln = T.num(max(0, ln.const()))
        elif not smt.entails(CTX.pc, T.le(T.ZERO, ln)):
            if CTX.decide(T.lt(ln, T.ZERO)):
                ln = T.ZERO
        return a, step, mkdim(ln)

    def _view(self, key):
        key = self._norm_index(key)
        axes_new = {}
        shape = []
        va = 0  # index of view axis in self
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[va]
            if isinstance(k, slice):
                a, step, ln = self._slice(k, n)
                axes_new[va] = ("ax", len(shape), a, step)
                shape.append(ln)
            else:
                axes_new[va] = ("fix", self._int_index(k, n))
            va += 1
        axes = []
        for ax in self.axes:
            if ax[0] == "fix":
                axes.append(ax)
            else:
                new = axes_new[ax[1]]
                if new[0] == "fix":
                    axes.append(("fix", T.add(ax[2], T.scale(new[1], ax[3]))))
                else:
                    axes.append(
                        ("ax", new[1], T.add(ax[2], T.scale(new[2], ax[3])), ax[3] * new[3])
                    )
        return Arr(self.st, axes, shape)

    def _fancy(self, key):
        ks = key if isinstance(key, tuple) else (key,)
        return any(isinstance(k, (Arr, list)) and not (isinstance(k, Arr) and k.ndim == 0 and k.kind != "B") for k in ks)

    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("structured array")
        key = _dezero(key)
        if self._fancy(key):
            return self._fancy_get(key)
        v = self._view(key)
        if v.ndim == 0:
            return mk(v.at(()))
        return v

    def _fancy_get(self, key):
        if isinstance(key, list):
            key = asarr(key)
        if isinstance(key, Arr) and key.kind == "B" and same_shape(key.shape, self.shape):
            return MaskSel(self, key)
        ks = self._norm_index(tuple(asarr(k) if isinstance(k, list) else k for k in (key if isinstance(key, tuple) else (key,))))
        fancy = [i for i, k in enumerate(ks) if isinstance(k, Arr)]
        if any(k is None for k in ks) or any(ks[i].kind == "B" for i in fancy):
            raise Unsupported("mixed boolean indexing")
        # all fancy indices broadcast together; other axes must be slices
        sh = broadcast_shapes(*[ks[i].shape for i in fancy])
        if any(not isinstance(k, (slice, Arr)) for k in ks):
            ks = [k if isinstance(k, (slice, Arr)) else Arr.from_fn((), lambda idx, k=k: nf(k), "I") for k in ks]
            fancy = [i for i, k in enumerate(ks) if isinstance(k, Arr)]
        if fancy != list(range(fancy[0], fancy[0] + len(fancy))):
            raise Unsupported("separated fancy indices")
        pre = []
        for i, k in enumerate(ks):
            if isinstance(k, slice):
                pre.append(self._slice(k, self.shape[i]))
            else:
                pre.append(None)
        shape = []
        for i in range(fancy[0]):
            shape.append(pre[i][2])
        off = len(shape)
        shape += list(sh)
        for i in range(fancy[-1] + 1, len(ks)):
            shape.append(pre[i][2])
        base = self.freeze()

        def fn(idx):
            out = []
            f = idx[off:off + len(sh)]
            j = 0
            for i, k in enumerate(ks):
                if isinstance(k, Arr):
                    t = k.at(bidx(f, k.shape))
                    # wrap negatives
                    n = nf(self.shape[i])
                    if not t.is_const() and not smt.entails(CTX.pc, T.le(T.ZERO, t)):
                        t = T.ite(T.lt(t, T.ZERO), T.add(t, n), t)
                    elif t.is_const() and t.const() < 0:
                        t = T.add(t, n)
                    out.append(t)
                else:
                    pos = j if i < fancy[0] else j + len(sh)
                    if i < fancy[0]:
                        p = i
                    else:
                        p = off + len(sh) + (i - fancy[-1] - 1)
                    a, step, ln = pre[i]
                    out.append(T.add(a, T.scale(idx[p], step)))
            return base(tuple(out))

        return Arr.from_fn(shape, fn, self.kind)

    def freeze(self):
        """content function of the current value in view coordinates"""
        fn = self.st.fn
        axes = list(self.axes)
        view = Arr.__new__(Arr)
        view.axes = axes

        def get(idx):
            return fn(Arr.sidx(view, idx))

        return get

    def __setitem__(self, key, val):
        key = _dezero(key)
        if self._fancy(key):
            if isinstance(key, list):
                key = asarr(key)
            if isinstance(key, Arr) and key.kind == "B" and same_shape(key.shape, self.shape):
                m = key.freeze()
                full = self
                if isinstance(val, MaskSel):
                    if val.mask.freeze is None:
                        raise Unsupported("mask")
                    v = val.arr.freeze()
                    full._write(lambda idx: m(idx), lambda idx: v(idx))
                    return
                if not _num(val):
                    raise Unsupported("masked assignment of an array")
                full._write(lambda idx: m(idx), lambda idx: _t(val))
                return
            return self._fancy_set(key, val)
        v = self._view(key)
        v.assign(val)

    def _fancy_set(self, key, val):
        ks = self._norm_index(key)
        if not all(isinstance(k, (Arr, list)) for k in ks) or len(ks) != 1:
            raise Unsupported("fancy assignment")
        k = asarr(ks[0])
        n = conc(k.shape[0])
        if n is None:
            raise Unsupported("fancy assignment with symbolic index array")
        va = asarr(val) if not _num(val) else None
        for i in range(n):
            self[mk(k.at((T.num(i),)))] = val if va is None else (va[i] if va.ndim else va.item())

    def assign(self, val):
        """broadcast-assign val to this whole view"""
        if isinstance(val, (list, tuple)):
            val = asarr(val)
        if isinstance(val, Arr):
            if val.ndim > self.ndim:
                extra = val.ndim - self.ndim
                if all(conc(d) == 1 for d in val.shape[:extra]):
                    val = val[(0,) * extra]
                    return self.assign(val)
                raise ValueError("could not broadcast input array")
            for d, e in zip(reversed(self.shape), reversed(val.shape)):
                if conc(e) == 1:
                    continue
                if not same_dim(d, e):
                    if conc(d) is not None and conc(e) is not None:
                        raise ValueError("could not broadcast input array from shape")
                    if not CTX.decide(T.eq(nf(d), nf(e))):
                        raise ValueError("could not broadcast input array from shape")
            get = val.freeze()
            vs = val.shape
            off = self.ndim - len(vs)
            kinds = val.kind

            def value(idx):
                return get(bidx(idx, vs))

            self._write(lambda idx: T.TRUE, value, kinds)
        elif _num(val):
            t = _t(val)
            if not isinstance(t, T.Bool) and self.st.kind != "B" and all(a[0] == "fix" for a in self.axes):
                if self._increment(t):
                    return
            self._write(lambda idx: T.TRUE, lambda idx: t, "B" if isinstance(t, T.Bool) else "R")
        else:
            raise Unsupported("assignment of %s into an array" % type(val).__name__)

    def _increment(self, t):
        """one-cell store of (old content + d): kept in additive form"""
        st = self.st
        if st.frozen:
            return False
        cell = tuple(a[1] for a in self.axes)
        old = st.fn
        try:
            prev = old(cell)
        except (Unsupported, RecursionError):
            return False
        if isinstance(prev, T.Bool) or prev.is_const():
            return False
        for m, c in prev.terms.items():
            if t.terms.get(m) != c:
                return False
        d = T.sub(t, prev)

        def fn(sidx):
            g = T.And(*[T.eq(x, y) for x, y in zip(sidx, cell)])
            b = old(sidx)
            return b if g is T.FALSE else T.add(b, T.ite(g, d, T.ZERO))

        st.fn = fn
        return True

    def _write(self, cond, value, kind="R"):
        """cond/value over view indices"""
        st = self.st
        if st.frozen:
            raise Unsupported("write into a read-only model array")
        old = st.fn
        axes = list(self.axes)
        shape = self.shape
        nd = len(shape)
        pc_n = None

        def fn(sidx):
            guards = []
            view = [None] * nd
            for s, a, sd in zip(sidx, axes, st.shape):
                if a[0] == "fix":
                    guards.append(T.eq(s, a[1]))
                else:
                    d = T.sub(s, a[2])
                    if a[3] == 1:
                        v = d
                    elif a[3] == -1:
                        v = T.neg(d)
                    else:
                        v = floordiv_nf(d, T.num(a[3]))
                        guards.append(T.eq(T.scale(v, a[3]), d))
                    view[a[1]] = v
                    # a cell index is always within the storage
                    if a[3] != 1 or not a[2].is_zero():
                        guards.append(T.le(T.ZERO, v))
                    if a[3] != 1 or T.add(a[2], nf(shape[a[1]])) != nf(sd):
                        guards.append(T.lt(v, nf(shape[a[1]])))
            for i in range(nd):
                if view[i] is None:
                    view[i] = T.ZERO
            g = T.And(*guards)
            if g is T.FALSE:
                return old(sidx)
            g = T.And(g, cond(tuple(view)))
            if g is T.FALSE:
                return old(sidx)
            new = value(tuple(view))
            prev = old(sidx)
            if isinstance(prev, T.Bool) or isinstance(new, T.Bool):
                if not isinstance(prev, T.Bool):
                    new = T.ite(new, T.ONE, T.ZERO)
                    return T.ite(g, new, prev)
                if not isinstance(new, T.Bool):
                    new = T.Not(T.eq(new, T.ZERO))
                return T.Or(T.And(g, new), T.And(T.Not(g), prev))
            return T.ite(g, new, prev)

        st.fn = fn
        if st.kind == "I" and kind == "R":
            probe = value(tuple(T.var("probe!", "I") for _ in range(nd)))
            if isinstance(probe, T.NF) and not (T.is_int(probe) and all(c.denominator == 1 for c in probe.terms.values())):
                raise Unsupported("real value stored into an integer array")

    # ---- shape manipulation
    @property
    def T(self):
        n = self.ndim
        axes = [a if a[0] == "fix" else ("ax", n - 1 - a[1], a[2], a[3]) for a in self.axes]
        return Arr(self.st, axes, tuple(reversed(self.shape)))

    def transpose(self, *a):
        if a and a != (None,):
            perm = a[0] if isinstance(a[0], (tuple, list)) else a
            perm = [int(p) for p in perm]
            inv = {p: i for i, p in enumerate(perm)}
            axes = [x if x[0] == "fix" else ("ax", inv[x[1]], x[2], x[3]) for x in self.axes]
            return Arr(self.st, axes, tuple(self.shape[p] for p in perm))
        return self.T

    def copy(self, *a, **k):
        return Arr.from_fn(self.shape, self.freeze(), self.kind)

    def astype(self, t, *a, **k):
        get = self.freeze()
        kd = kind_of(t)
        if kd == self.kind:
            return self.copy()
        if kd == "R":
            if self.kind == "B":
                return Arr.from_fn(self.shape, lambda i: T.ite(get(i), T.ONE, T.ZERO), "R")
            return Arr.from_fn(self.shape, get, "R")
        if kd == "B":
            return Arr.from_fn(self.shape, lambda i: T.Not(T.eq(get(i), T.ZERO)), "B")
        if kd == "I" and self.kind == "B":
            return Arr.from_fn(self.shape, lambda i: T.ite(get(i), T.ONE, T.ZERO), "I")
        raise Unsupported("astype int")

    def flatten(self, *a, **k):
        order = list(a) + list(k.values())
        if any(x not in ("C", "F") for x in order) or set(k) - {"order"}:
            raise Unsupported("flatten order")
        if order == ["F"] and self.ndim > 1:
            return self.transpose().reshape(-1)
        return self.reshape(-1)

    ravel = flatten

    def reshape(self, *shape, **k):
        if any(x not in ("C", None) for x in k.values()):
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = list(shape)
        if any(conc(s) == -1 for s in shape):
            rest = 1
            for s in shape:
                if conc(s) != -1:
                    rest = rest * s
            tot = self.size
            i = [conc(s) == -1 for s in shape].index(True)
            shape[i] = mkdim(nf(tot)) if conc(rest) == 1 else mkdim(floordiv_nf(nf(tot), nf(rest)))
        get = self.freeze()
        src = self.shape
        if same_shape(tuple(shape), src):
            return Arr.from_fn(shape, get, self.kind)

        def fn(idx):
            flat = T.ZERO
            for t, d in zip(idx, shape):
                flat = T.add(T.mul(flat, nf(d)), t)
            return get(unflatten(flat, src))

        return Arr.from_fn(shape, fn, self.kind)

    def fill(self, v):
        self.assign(v)

    def tolist(self):
        if self.ndim == 0:
            return self.item()
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def squeeze(self):
        keep = [i for i, d in enumerate(self.shape) if conc(d) != 1]
        return self[tuple(slice(None) if i in keep else 0 for i in range(self.ndim))]

    # reductions are supplied by models
    def sum(self, *a, **k):
        from . import models

        return models.np_sum(self, *a, **k)

    def max(self, *a, **k):
        from . import models

        return models.np_max(self, *a, **k)

    def min(self, *a, **k):
        from . import models

        return models.np_min(self, *a, **k)

    def mean(self, *a, **k):
        from . import models

        return models.np_mean(self, *a, **k)

    def any(self, *a, **k):
        from . import models

        return models.np_any(self, *a, **k)

    def all(self, *a, **k):
        from . import models

        return models.np_all(self, *a, **k)

    def dot(self, o):
        from . import models

        return models.np_dot(self, o)

    # ---- elementwise operators
    def _bin(self, o, f, swap=False, kind=None):
        if isinstance(o, MaskSel):
            return NotImplemented
        if isinstance(o, (list, tuple)):
            o = asarr(o)
        if not (isinstance(o, Arr) or _num(o)):
            return NotImplemented
        return elementwise(f, (o, self) if swap else (self, o), kind)

    def _ibin(self, o, f):
        r = elementwise(f, (self, o))
        if not same_shape(r.shape, self.shape):
            raise ValueError("non-broadcastable output operand")
        self.assign(r)
        return self

    def __neg__(self):
        return elementwise(lambda a: -a, (self,))

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return elementwise(abs, (self,))

    def __invert__(self):
        return elementwise(lambda a: mk(T.Not(tb(a))), (self,))


def _op(name, f):
    setattr(Arr, "__%s__" % name, lambda self, o: self._bin(o, f))
    setattr(Arr, "__r%s__" % name, lambda self, o: self._bin(o, f, True))
    setattr(Arr, "__i%s__" % name, lambda self, o: self._ibin(o, f))


_op("add", lambda a, b: a + b)
_op("sub", lambda a, b: a - b)
_op("mul", lambda a, b: a * b)
_op("truediv", lambda a, b: a / b)
_op("floordiv", lambda a, b: a // b)
_op("mod", lambda a, b: a % b)
_op("pow", lambda a, b: a ** b)
_op("and", lambda a, b: mk(T.And(tb(a), tb(b))))
_op("or", lambda a, b: mk(T.Or(tb(a), tb(b))))
_op("xor", lambda a, b: mk(T.Or(T.And(tb(a), T.Not(tb(b))), T.And(T.Not(tb(a)), tb(b)))))
for _n, _f in {
    "lt": lambda a, b: a < b,
    "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b,
    "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
}.items():
    setattr(Arr, "__%s__" % _n, (lambda f: lambda self, o: self._bin(o, f))(_f))


class MaskSel:
    """arr[mask] with a boolean mask: the selected elements as an unordered family"""

    def __init__(self, arr, mask):
        self.arr = arr.copy()
        self.mask = mask.copy()

    @property
    def ndim(self):
        return 1


def _dezero(key):
    def f(k):
        if isinstance(k, Arr) and k.ndim == 0 and k.kind != "B":
            return k.item()
        return k

    return tuple(f(k) for k in key) if isinstance(key, tuple) else f(key)


def mkdim(t):
    c = conc(t)
    return c if c is not None else mk(t)


def clamp(t, lo, hi):
    """min(max(t,lo),hi), simplified by the path condition"""
    if t == lo or t == hi:
        return t
    if not smt.entails(CTX.pc, T.le(lo, t)):
        if CTX.decide(T.lt(t, lo)):
            return lo
    if not smt.entails(CTX.pc, T.le(t, hi)):
        if CTX.decide(T.lt(hi, t)):
            return hi
    return t


def unflatten(flat, shape):
    """row-major decomposition of a flat index; uses the polynomial structure
    (coefficient of the symbolic stride) when the digits are provably in range"""
    if len(shape) == 1:
        return (flat,)
    if len(shape) == 0:
        return ()
    # peel trailing dims
    out = []
    rest = flat
    for d in reversed(shape[1:]):
        n = nf(d)
        q, r = split_digit(rest, n)
        out.append(r)
        rest = q
    out.append(rest)
    return tuple(reversed(out))


def split_digit(t, n):
    """t = q*n + r with 0 <= r < n"""
    if n.is_const():
        q = floordiv_nf(t, n)
        return q, T.sub(t, T.mul(q, n))
    r = split_known(t, n)
    if r is not None:
        return r
    # the probes of elementwise stand for indices
    at = [T.le(T.ZERO, T.of_atom(a)) for a in T.free_atoms(t) if a.kind == "var" and str(a.data[0] if isinstance(a.data, tuple) else a.data).startswith("probe!")]
    if T.is_int(t) and T.is_int(n) and smt.entails(CTX.pc + at, T.And(T.le(T.ZERO, t), T.lt(T.ZERO, n))):
        q = T.app("floordiv", (t, n), "I")
        return q, T.sub(t, T.mul(q, n))
    raise Unsupported("row/column split of a flat index")


def split_known(t, n):
    """the quotient and rest read off the polynomial t, or None"""
    # collect the terms divisible by the leading variable of n
    lead = None
    for m, c in n.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
            lead = (m, c)
            break
    if lead is not None:
        (m, c) = lead
        a = m[0][0]
        q = T.ZERO
        r = t
        for _ in range(30):
            hit = None
            for mm, cc in r.terms.items():
                d = dict(mm)
                if d.get(a, 0) >= 1:
                    hit = (mm, cc)
                    break
            if not hit:
                break
            mm, cc = hit
            d = dict(mm)
            d[a] -= 1
            if not d[a]:
                del d[a]
            part = T.NF({tuple(sorted(d.items(), key=lambda z: z[0].id)): cc / c})
            q = T.add(q, part)
            r = T.sub(r, T.mul(part, n))
        # try q with small corrections
        for delta in (0, -1, 1):
            q2 = T.add(q, T.num(delta))
            r2 = T.sub(t, T.mul(q2, n))
            if smt.entails(CTX.pc, T.And(T.le(T.ZERO, r2), T.lt(r2, n))):
                return q2, r2
    return None


def kind_of(t):
    if t in (float, "float", "float64", None, "d", "f8"):
        return "R"
    if t in (int, "int", "i"):
        return "I"
    if t in (bool, "bool"):
        return "B"
    n = getattr(t, "__name__", str(t))
    if n.startswith(("float", "double")):
        return "R"
    if n.startswith(("int", "uint")):
        return "I"
    if n.startswith("bool"):
        return "B"
    raise Unsupported("dtype %s" % n)


def bidx(idx, shape):
    """broadcast index idx to an array of (smaller) shape"""
    sub = idx[len(idx) - len(shape):] if len(shape) else ()
    return tuple(T.ZERO if conc(d) == 1 else t for t, d in zip(sub, shape))


def broadcast_shapes(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for i in range(n):
        dim = 1
        for s in shapes:
            j = len(s) - n + i
            if j < 0:
                continue
            d = s[j]
            if conc(d) == 1:
                continue
            if conc(dim) == 1:
                dim = d
            elif not same_dim(dim, d):
                if conc(dim) is not None and conc(d) is not None:
                    raise ValueError("operands could not be broadcast together")
                if not CTX.decide(T.eq(nf(dim), nf(d))):
                    raise ValueError("operands could not be broadcast together")
        out.append(dim)
    return tuple(out)


def elementwise(f, args, kind=None):
    """apply scalar function f to broadcast args (Arr or scalars)"""
    args = [asarr(a) if isinstance(a, (list, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, Arr)]
    if not arrs:
        return f(*[a for a in args])
    if len(arrs) == 1 and len(args) == 1:
        shape = arrs[0].shape
    else:
        shape = broadcast_shapes(*[a.shape for a in arrs])
    if len(shape) == 0:
        return f(*[a.item() if isinstance(a, Arr) else a for a in args])
    gets = []
    for a in args:
        if isinstance(a, Arr):
            g = a.freeze()
            gets.append((lambda idx, g=g, s=a.shape: mk(g(bidx(idx, s)))))
        else:
            gets.append((lambda idx, a=a: a))
    memo = {}

    def fn(idx):
        r = memo.get(idx)
        if r is None:
            r = _t(f(*[g(idx) for g in gets]))
            memo[idx] = r
        return r

    if kind is None:
        # probe the result kind at a generic in-range index
        probe = tuple(T.var("probe!%d" % i, "I") for i in range(len(shape)))
        try:
            r = f(*[g(probe) for g in gets])
            if isinstance(r, (SymB, bool)):
                kind = "B"
            elif isinstance(r, int) or (isinstance(r, Sym) and T.is_int(r.nf) and all(getattr(a, "kind", "I" if not isinstance(a, float) else "R") == "I" for a in args)):
                kind = "I"
            else:
                kind = "R"
        except ZeroDivisionError:
            kind = "R"
    return Arr.from_fn(shape, fn, kind)


def asarr(x, dtype=None):
    """np.array-like conversion"""
    if isinstance(x, Arr):
        r = x
    elif isinstance(x, PList) and x.seq is not None:
        r = x.seq.as_array() if x.store is None else x.store.copy()
    elif isinstance(x, Seq):
        r = x.as_array()
    elif isinstance(x, (list, tuple)):
        items = [asarr(i) if isinstance(i, (list, tuple, Arr)) else i for i in x]
        if any(isinstance(i, Arr) for i in items):
            items = [i if isinstance(i, Arr) else scalar_arr(i) for i in items]
            sh = items[0].shape
            for i in items[1:]:
                if not same_shape(i.shape, sh):
                    raise ValueError("setting an array element with a sequence: inhomogeneous shape")
            gets = [i.freeze() for i in items]
            kd = "R" if any(i.kind == "R" for i in items) else items[0].kind

            def fn(idx):
                return pick(idx[0], [lambda g=g: g(idx[1:]) for g in gets])

            r = Arr.from_fn((len(items),) + tuple(sh), fn, kd)
        else:
            if not all(_num(i) for i in items):
                raise Unsupported("array of objects")
            ts = [_t(i) for i in items]
            kd = "R"
            if ts and all(isinstance(t, T.Bool) for t in ts):
                kd = "B"
            elif ts and all(isinstance(i, (int, bool)) or (isinstance(i, Sym) and T.is_int(i.nf)) for i in items):
                kd = "I"
            if kd == "R":
                ts = [t if isinstance(t, T.NF) else T.ite(t, T.ONE, T.ZERO) for t in ts]
            r = Arr.from_fn((len(ts),), lambda idx: pick(idx[0], [lambda t=t: t for t in ts]), kd)
    elif _num(x):
        r = scalar_arr(x)
    else:
        raise Unsupported("cannot make an array of %s" % type(x).__name__)
    if dtype is not None and kind_of(dtype) != r.kind:
        return r.astype(dtype)
    return r


def scalar_arr(x):
    t = _t(x)
    kd = "B" if isinstance(t, T.Bool) else ("I" if isinstance(x, int) or (isinstance(x, Sym) and T.is_int(t)) else "R")
    return Arr.from_fn((), lambda idx: t, kd)


def pick(i, thunks):
    c = conc(i)
    if c is not None:
        if not 0 <= c < len(thunks):
            return T.ZERO
        return thunks[c]()
    vals = [th() for th in thunks]
    if not vals:
        return T.ZERO
    out = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        g = T.eq(i, T.num(k))
        if isinstance(out, T.Bool):
            out = T.Or(T.And(g, vals[k]), T.And(T.Not(g), out))
        else:
            out = T.ite(g, vals[k], out)
    return out


# ---------------------------------------------------------------- sequences


class Seq:
    """immutable sequence of symbolic length: item(k NF) -> value"""

    def __init__(self, n, item):
        self.n = n  # Sym/int
        self._item = item

    def item(self, k):
        return self._item(k)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a = nf(i.start) if i.start is not None else T.ZERO
            b = nf(i.stop) if i.stop is not None else nf(self.n)
            if b.is_const() and b.const() < 0:
                b = T.add(b, nf(self.n))
            if i.step is not None:
                raise Unsupported("sequence slice step")
            if not smt.entails(CTX.pc, T.And(T.le(T.ZERO, a), T.le(a, b), T.le(b, nf(self.n)))):
                raise Unsupported("sequence slice bounds")
            return Seq(mkdim(T.sub(b, a)), lambda k: self.item(T.add(k, a)))
        t = nf(i)
        n = nf(self.n)
        if t.is_const() and t.const() < 0:
            t = T.add(t, n)
        elif not t.is_const() and not smt.entails(CTX.pc, T.le(T.ZERO, t)):
            if CTX.decide(T.lt(t, T.ZERO)):
                t = T.add(t, n)
        if not CTX.decide(T.And(T.le(T.ZERO, t), T.lt(t, n))):
            raise IndexError("list index out of range")
        return self.item(t)

    def as_array(self):
        v = self.item(T.var("probe!", "I"))
        if _num(v):
            return Arr.from_fn((self.n,), lambda idx: _t(self.item(idx[0])), "B" if isinstance(v, (SymB, bool)) else "R")
        if isinstance(v, (tuple, list)) and all(_num(x) for x in v):
            m = len(v)
            return Arr.from_fn(
                (self.n, m),
                lambda idx: pick(idx[1], [lambda j=j: _t(self.item(idx[0])[j]) for j in range(m)]),
                "R",
            )
        if isinstance(v, Arr):
            return Arr.from_fn(
                (self.n,) + v.shape, lambda idx: self.item(idx[0]).at(idx[1:]), v.kind
            )
        raise Unsupported("array of a symbolic sequence of objects")

    def __len__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported("len() of a symbolic sequence via CPython")
        return c

    def __iter__(self):
        c = conc(self.n)
        if c is None:
            raise Unsupported("iteration over a symbolic sequence outside a loop statement")
        return iter([self.item(T.num(i)) for i in range(c)])

    def __bool__(self):
        return CTX.decide(T.lt(T.ZERO, nf(self.n)))


class PList(list):
    """a list display of the program; may become symbolic after a loop"""

    __hash__ = object.__hash__

    def __init__(self, it=()):
        list.__init__(self, it)
        self.seq = None
        self.bag = None
        self.poison = False
        self.store = None
        CTX.objects.append(weakref.ref(self))

    def back(self):
        """a symbolic list of numbers gets its own storage, so that it can be written to"""
        if self.seq is None or self.store is not None:
            return self
        k = T.of_atom(T.mk_atom("var", T.fresh_name("b"), "I"))
        v = self.seq.item(k)
        if not (isinstance(v, Sym) or type(v) in (int, float)):
            return self
        sq = self.seq
        a = Arr.from_fn((mkdim(nf(sq.n)),), lambda i: nf(sq.item(i[0])), "R")
        self.store = a
        self.seq = Seq(sq.n, lambda k: mk(a.at((k,))))
        self.store_seq = self.seq
        return self

    def _c(self):
        if self.poison:
            raise Unsupported("read of a loop-carried list")
        if self.bag is not None:
            raise Unsupported("order or length of a filtered list")

    def __bool__(self):
        self._c()
        if self.seq is not None:
            return bool(self.seq)
        return list.__len__(self) > 0

    def __len__(self):
        self._c()
        if self.seq is not None:
            return len(self.seq)
        return list.__len__(self)

    def __iter__(self):
        self._c()
        if self.seq is not None:
            return iter(self.seq)
        return list.__iter__(self)

    def __getitem__(self, i):
        self._c()
        if self.seq is not None:
            return self.seq[i]
        if isinstance(i, Sym):
            c = conc(i)
            if c is None:
                n = list.__len__(self)
                for k in range(n):
                    if i == k:
                        return list.__getitem__(self, k)
                for k in range(1, n + 1):
                    if i == -k:
                        return list.__getitem__(self, -k)
                raise IndexError("list index out of range")
            i = c
        r = list.__getitem__(self, i)
        return PList(r) if isinstance(i, slice) else r

    def append(self, v):
        if self.seq is not None:
            self._append_seq(v)
            return
        list.append(self, v)

    def _append_seq(self, v):
        old = self.seq
        n = nf(old.n)

        def item(k):
            if k == n:
                return v
            if k.is_const() or True:
                if smt.entails(CTX.pc, T.lt(k, n)):
                    return old.item(k)
                if smt.entails(CTX.pc, T.eq(k, n)):
                    return v
            return merge([(T.lt(k, n), old.item(k)), (T.TRUE, v)])

        self.seq = Seq(mkdim(T.add(n, T.ONE)), item)

    def extend(self, it):
        if self.seq is not None or isinstance(it, Seq):
            raise Unsupported("extend of a symbolic list")
        list.extend(self, list(it))

    def __iadd__(self, it):
        self.extend(it)
        return self

    def __add__(self, o):
        self._c()
        if self.seq is None and isinstance(o, list) and getattr(o, "seq", None) is None:
            return PList(list(self) + list(o))
        raise Unsupported("concatenation of symbolic lists")

    def __radd__(self, o):
        return PList(list(o) + list(self))

    def __mul__(self, n):
        self._c()
        c = conc(n)
        if c is None:
            if list.__len__(self) == 1 and self.seq is None:
                v = list.__getitem__(self, 0)
                p = PList()
                p.seq = Seq(n, lambda k: v)
                return p
            raise Unsupported("list repetition")
        return PList(list(self) * c)

    def copy(self):
        self._c()
        p = PList(list.__iter__(self))
        p.seq = self.seq
        if self.store is not None:
            g = self.store.freeze()
            p.seq = Seq(self.seq.n, lambda k: mk(g((k,))))
        return p.back()

    def __setitem__(self, i, v):
        if self.store is not None and self.seq is self.store_seq and _num(i) and _num(v):
            self.store[i] = v
            return
        if self.seq is not None:
            raise Unsupported("store into a symbolic list")
        if isinstance(i, Sym):
            c = conc(i)
            if c is None:
                for k in range(list.__len__(self)):
                    if i == k:
                        return list.__setitem__(self, k, v)
                raise IndexError("list assignment index out of range")
            i = c
        list.__setitem__(self, i, v)

    def pop(self, i=-1):
        self._c()
        if self.seq is not None:
            raise Unsupported("pop from a symbolic list")
        return list.pop(self, conc(i))

    def insert(self, i, v):
        self._c()
        if self.seq is not None:
            raise Unsupported("insert into a symbolic list")
        list.insert(self, conc(i), v)

    def __contains__(self, v):
        self._c()
        if self.seq is not None:
            raise Unsupported("membership in a symbolic list")
        for x in list.__iter__(self):
            if x is v or x == v:
                return True
        return False


class PDict(dict):
    """dictionary display of the program; entries of a whole family of symbolic
    keys (filled by a loop over a symbolic list) are kept in fams"""

    __hash__ = object.__hash__

    def __init__(self, *a, **k):
        dict.__init__(self, *a, **k)
        self.fams = {}
        CTX.objects.append(weakref.ref(self))

    def __getitem__(self, key):
        if hasattr(key, "__pv_family__") and self.fams and not dict.__contains__(self, key):
            fam, k = key.__pv_family__()
            if fam in self.fams:
                lo, hi, value = self.fams[fam]
                if not CTX.decide(T.And(T.le(lo, k), T.lt(k, hi))):
                    raise KeyError("label")
                return value(k)
        return dict.__getitem__(self, key)

    def _noiter(self):
        if self.fams:
            raise Unsupported("iteration over a dictionary of symbolic size")

    def __iter__(self):
        self._noiter()
        return dict.__iter__(self)

    def __len__(self):
        self._noiter()
        return dict.__len__(self)

    def items(self):
        self._noiter()
        return dict.items(self)

    def values(self):
        self._noiter()
        return dict.values(self)

    def keys(self):
        self._noiter()
        return dict.keys(self)


class Obj:
    """base mixed into every class of the code under verification so instances
    can be snapshotted"""

    def __new__(cls, *a, **k):
        o = object.__new__(cls)
        CTX.objects.append(weakref.ref(o))
        return o


def live_objects():
    out = []
    keep = []
    for r in CTX.objects:
        o = r()
        if o is not None:
            out.append(o)
            keep.append(r)
    CTX.objects = keep
    return out


def snapshot():
    snap = []
    for o in live_objects():
        if isinstance(o, Storage):
            snap.append((o, o.fn))
        elif isinstance(o, PList):
            snap.append((o, (list(list.__iter__(o)), o.seq, o.poison, o.bag)))
        elif isinstance(o, PDict):
            snap.append((o, (dict(dict.items(o)), dict(o.fams))))
        else:
            snap.append((o, dict(o.__dict__)))
    return snap


def restore(snap):
    for o, s in snap:
        if isinstance(o, Storage):
            o.fn = s
        elif isinstance(o, PList):
            list.clear(o)
            list.extend(o, s[0])
            o.seq, o.poison, o.bag = s[1], s[2], s[3]
        elif isinstance(o, PDict):
            dict.clear(o)
            dict.update(o, s[0])
            o.fams = dict(s[1])
        else:
            o.__dict__.clear()
            o.__dict__.update(s)


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, float, str, bool)) and type(a) is type(b):
        return a == b
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.nf == b.nf
    if isinstance(a, SymB) and isinstance(b, SymB):
        return a.b is b.b
    return False


def diff(snap):
    """locations changed since snap: list of (loc, old, new); loc tuples:
    ('st', storage) ('attr', obj, name) ('list', plist) ('dict', pdict)"""
    out = []
    for o, s in snap:
        if isinstance(o, Storage):
            if o.fn is not s:
                out.append((("st", o), s, o.fn))
        elif isinstance(o, PList):
            now = list(list.__iter__(o))
            if o.seq is not s[1] or len(now) != len(s[0]) or any(a is not b for a, b in zip(now, s[0])):
                out.append((("list", o), s, (now, o.seq, o.poison, o.bag)))
        elif isinstance(o, PDict):
            now = dict(dict.items(o))
            if list(now) != list(s[0]) or any(now[k] is not s[0][k] for k in now) or o.fams != s[1]:
                out.append((("dict", o), s[0], now))
        else:
            d = o.__dict__
            for k in d:
                if k not in s or not _same(d[k], s[k]):
                    out.append((("attr", o, k), s.get(k, UNDEF), d[k]))
            for k in s:
                if k not in d:
                    out.append((("attr", o, k), s[k], UNDEF))
    return out
