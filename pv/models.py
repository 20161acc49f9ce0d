"""Models of the libraries the code calls (assumed contracts) and of builtins."""
import builtins as B
import itertools
import math
import types
import warnings as _warnings
from fractions import Fraction

from . import core as C
from . import loops as L
from . import smt
from . import terms as T
from .core import (Arr, MaskSel, Obj, PDict, PList, Seq, Sym, SymB, Unsupported, asarr, conc, elementwise, mk,
                   mkdim, nf, same_dim, same_shape, tb, _t, _num)

ASSUMED = {}


def assumed(name, text):
    ASSUMED[name] = text
    C.CTX.assumptions.add(name + ": " + text)


class Opaque:
    """an unmodelled library object: any call is outside the verifier's reach"""

    def __init__(self, name):
        self.__dict__["_n"] = name

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        return Opaque(self._n + "." + a)

    def __call__(self, *a, **k):
        raise Unsupported("call of unmodelled " + self._n)

    def __repr__(self):
        return "<opaque %s>" % self._n


class Mod(types.ModuleType):
    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        return Opaque(self.__name__ + "." + a)


def plain(k, *ok):
    """options of a library call that the model does not know: beyond reach"""
    for n, v in k.items():
        if n in ok or v is None or (n, v) in (("order", "C"), ("keepdims", False), ("copy", True), ("copy", False), ("sparse", False), ("out", None)):
            continue
        raise Unsupported("option %s=%r of a library call" % (n, v))


# ------------------------------------------------------------ elementwise


def uf1(name):
    def f(x):
        def g(v):
            t = nf(v)
            return mk(T.app(name, (t,)))

        if isinstance(x, (Arr, list, tuple)):
            return elementwise(g, (x,), "R")
        return g(x)

    return f


def np_sqrt(x):
    g = lambda v: mk(T.sqrt(nf(v)))
    return elementwise(g, (x,), "R") if isinstance(x, (Arr, list, tuple)) else g(x)


def _exp(v):
    t = nf(v)
    if t.is_zero():
        return 1.0
    return mk(T.app("exp", (t,)))


def np_exp(x):
    return elementwise(_exp, (x,), "R") if isinstance(x, (Arr, list, tuple)) else _exp(x)


def _trig(name):
    def g(v):
        t = nf(v)
        if t.is_zero():
            return mk(T.ZERO if name == "sin" else T.ONE)
        lc = t.terms[T._lead(t)]
        if lc < 0:
            r = T.app(name, (T.neg(t),))
            return mk(T.neg(r) if name == "sin" else r)
        return mk(T.app(name, (t,)))

    return lambda x: elementwise(g, (x,), "R") if isinstance(x, (Arr, list, tuple)) else g(x)


def np_abs(x):
    return elementwise(abs, (x,)) if isinstance(x, (Arr, list, tuple)) else abs(x)


def _clip(x, a, b):
    t = nf(x)
    if a is not None:
        la = nf(a)
        t = T.ite(T.lt(t, la), la, t)
    if b is not None:
        lb = nf(b)
        # numpy: minimum(maximum(x, a), b)
        t = T.ite(T.lt(lb, t), lb, t)
    return mk(t)


def np_clip(x, a_min=None, a_max=None, out=None):
    args = (x, a_min, a_max)
    if any(isinstance(a, (Arr, list, tuple)) for a in args):
        if a_min is None or a_max is None:
            return elementwise(lambda v: _clip(v, a_min, a_max), (x,))
        return elementwise(_clip, args)
    return _clip(*args)


def _max2(a, b):
    x, y = nf(a), nf(b)
    if x == y:
        return mk(x)
    return mk(T.ite(T.lt(x, y), y, x))


def _min2(a, b):
    x, y = nf(a), nf(b)
    if x == y:
        return mk(x)
    return mk(T.ite(T.lt(y, x), y, x))


def np_where(c, a=None, b=None):
    if a is None:
        return np_nonzero(c)

    def f(c, a, b):
        x, y = _t(a), _t(b)
        cb = tb(c)
        if isinstance(x, T.Bool) and isinstance(y, T.Bool):
            return mk(T.Or(T.And(cb, x), T.And(T.Not(cb), y)))
        return mk(T.ite(cb, nf(a), nf(b)))

    if any(isinstance(v, (Arr, list, tuple)) for v in (c, a, b)):
        return elementwise(f, (c, a, b))
    return f(c, a, b)


def lift2(f):
    def g(a, b, *r, **k):
        plain(k)
        if r:
            raise Unsupported("extra argument of an elementwise function")
        if any(isinstance(v, (Arr, list, tuple)) for v in (a, b)):
            return elementwise(f, (a, b))
        return f(a, b)

    return g


# ---------------------------------------------------------- constructors


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(mkdim(nf(x)) for x in s)
    if isinstance(s, Arr):
        return tuple(mkdim(nf(x)) for x in s)
    return (mkdim(nf(s)),)


def np_zeros(shape, dtype=None, **k):
    plain(k, "order")

    kd = C.kind_of(dtype)
    z = T.FALSE if kd == "B" else T.ZERO
    return Arr.from_fn(_shape(shape), lambda i: z, kd)


def np_ones(shape, dtype=None, **k):
    plain(k, "order")

    kd = C.kind_of(dtype)
    z = T.TRUE if kd == "B" else T.ONE
    return Arr.from_fn(_shape(shape), lambda i: z, kd)


def np_full(shape, v, dtype=None):
    if isinstance(v, Arr):
        r = np_zeros(shape)
        r.assign(v)
        return r
    t = _t(v)
    return Arr.from_fn(_shape(shape), lambda i: t, "B" if isinstance(t, T.Bool) else "R")


def np_empty(shape, dtype=None, **k):
    plain(k, "order")

    n = T.fresh_name("empty")
    return Arr.from_fn(_shape(shape), lambda i: T.app(n, i), C.kind_of(dtype))


def np_zeros_like(a, dtype=None):
    if not isinstance(a, Arr):
        a = asarr(a)
    return np_zeros(a.shape, dtype or a.dtype)


def np_ones_like(a, dtype=None):
    if not isinstance(a, Arr):
        a = asarr(a)
    return np_ones(a.shape, dtype or a.dtype)


def np_full_like(a, v, dtype=None):
    return np_full(asarr(a).shape, v)


class Rec:
    """structured array scalar"""

    def __init__(self, vals, dtype):
        self.vals = tuple(vals)
        self.dtype = dtype
        self.shape = ()
        self.size = 1

    def __getitem__(self, k):
        if k == ():
            return self.vals
        if isinstance(k, str):
            try:
                return self.vals[self.dtype.names.index(k)]
            except ValueError:
                raise ValueError("no field of name " + k)
        if isinstance(k, int):
            return self.vals[k]
        raise Unsupported("record index")

    def __iter__(self):
        return iter(self.vals)

    def __len__(self):
        return len(self.vals)


class Recs:
    """one dimensional structured array"""

    ndim = 1

    def __init__(self, rows, dtype):
        self.rows, self.dtype = list(rows), dtype
        self.shape, self.size = (len(self.rows),), len(self.rows)

    def __getitem__(self, k):
        if isinstance(k, int):
            return self.rows[k]
        if k == ():
            return self
        raise Unsupported("index of an array of records")

    def __iter__(self):
        return iter(self.rows)

    def __len__(self):
        return len(self.rows)


class DType:
    def __init__(self, spec):
        self.spec = [tuple(s) for s in spec]
        self.names = [str(s[0]) for s in spec]

    def key(self):
        return tuple((str(s[0]),) + tuple(_dk(x) for x in s[1:]) for s in self.spec)

    def __eq__(self, o):
        return isinstance(o, DType) and self.key() == o.key()

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())


def _dk(x):
    return x.key() if isinstance(x, DType) else getattr(x, "__name__", str(x))


def np_dtype(spec):
    if isinstance(spec, list):
        return DType(list(spec))
    return spec


def np_array(x, dtype=None, copy=True, **k):
    plain(k, "order", "ndmin")
    if k.get("ndmin", 0) not in (0, 1) or (k.get("ndmin") == 1 and asarr(x).ndim == 0):
        raise Unsupported("ndmin")

    if isinstance(dtype, DType):
        if isinstance(x, tuple):
            vals = []
            for v, s in zip(x, dtype.spec):
                vals.append(_field(v, s))
            if len(x) != len(dtype.spec):
                raise ValueError("could not assign tuple of length to structure")
            return Rec(vals, dtype)
        if isinstance(x, list) and all(isinstance(r, tuple) for r in x):
            return Recs([np_array(r, dtype=dtype) for r in x], dtype)
        raise Unsupported("structured array of rows")
    if isinstance(x, (Rec, Recs)):
        return x
    r = asarr(x, dtype)
    if isinstance(x, Arr) or r is x:
        r = r.copy()
    if r.ndim == 0:
        return r
    return r


def _field(v, s):
    ty = getattr(s[1], "__name__", str(s[1]))
    if ty.startswith("float") or ty == "pvfloat":
        return v
    if ty.startswith(("int", "pvint")):
        if isinstance(v, (int, bool)):
            return int(v)
        if isinstance(v, Sym) and T.is_int(v.nf):
            return v
        if isinstance(v, (SymB, bool)):
            return mk(nf(v))
        raise Unsupported("integer field of a record")
    if ty.startswith("bool"):
        return v
    return v


def np_asarray(x, dtype=None, **k):
    plain(k, "order")

    if isinstance(x, (Rec, Recs)):
        return x
    return asarr(x, dtype)


def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    n = num
    a_, b_ = nf(a), nf(b)
    nn = nf(n)
    den = T.sub(nn, T.ONE) if endpoint else nn
    if conc(n) == 1:
        den = T.ONE
    step = T.div(T.sub(b_, a_), den)

    def fn(idx):
        return T.add(a_, T.mul(step, idx[0]))

    r = Arr.from_fn((mkdim(nn),), fn, "R")
    return (r, mk(step)) if retstep else r


def np_arange(*a, **k):
    plain(k, "dtype")

    if len(a) == 1:
        s, e, st = 0, a[0], 1
    elif len(a) == 2:
        s, e, st = a[0], a[1], 1
    else:
        s, e, st = a
    if not all(isinstance(x, int) or (isinstance(x, Sym) and T.is_int(x.nf)) for x in (s, e, st)):
        raise Unsupported("arange of reals")
    sq = L.pv_range(s, e, st)
    if isinstance(sq, range):
        return asarr(list(sq))
    q = sq.as_seq()
    return Arr.from_fn((q.n,), lambda i: nf(q.item(i[0])), "I")


def np_meshgrid(*xs, indexing="xy", **k):
    plain(k)

    xs = [asarr(x) for x in xs]
    if len(xs) != 2:
        raise Unsupported("meshgrid arity")
    x, y = xs
    gx, gy = x.freeze(), y.freeze()
    if indexing == "ij":
        sh = (x.shape[0], y.shape[0])
        return [
            Arr.from_fn(sh, lambda i: gx((i[0],)), "R"),
            Arr.from_fn(sh, lambda i: gy((i[1],)), "R"),
        ]
    sh = (y.shape[0], x.shape[0])
    return [
        Arr.from_fn(sh, lambda i: gx((i[1],)), "R"),
        Arr.from_fn(sh, lambda i: gy((i[0],)), "R"),
    ]


def np_concatenate(parts, axis=0):
    if isinstance(parts, PList) and parts.seq is not None:
        raise Unsupported("concatenate of a symbolic list")
    ps = [asarr(p) for p in parts]
    if any(p.ndim == 0 for p in ps):
        raise ValueError("zero-dimensional arrays cannot be concatenated")
    ax = conc(axis)
    if ax < 0:
        ax += ps[0].ndim
    offs = [T.ZERO]
    for p in ps:
        offs.append(T.add(offs[-1], nf(p.shape[ax])))
    gets = [p.freeze() for p in ps]
    shape = list(ps[0].shape)
    shape[ax] = mkdim(offs[-1])

    def fn(idx):
        out = None
        for i in range(len(ps) - 1, -1, -1):
            j = list(idx)
            j[ax] = T.sub(idx[ax], offs[i])
            if out is None:
                out = gets[i](tuple(j))
                continue
            c = T.lt(idx[ax], offs[i + 1])
            if c is T.TRUE:
                out = gets[i](tuple(j))
            elif c is T.FALSE:
                pass
            else:
                v = gets[i](tuple(j))
                out = T.ite(c, v, out) if not isinstance(v, T.Bool) else T.Or(T.And(c, v), T.And(T.Not(c), out))
        return out

    kind = "R" if any(p.kind == "R" for p in ps) else ps[0].kind
    r = Arr.from_fn(shape, fn, kind)
    if ax == 0:
        # a loop over the rows is the loops over the parts one after the other
        r.parts = ([Arr.from_fn(p.shape, g, kind) for p, g in zip(ps, gets)], r.st.fn)
    return r


def np_append(a, v, axis=None):
    if axis is None:
        a = asarr(a)
        v = asarr(v)
        return np_concatenate([a.reshape(-1) if a.ndim != 1 else a, v.reshape(-1) if v.ndim != 1 else v])
    return np_concatenate([a, v], axis)


def np_stack(parts, axis=0):
    if axis != 0:
        raise Unsupported("stack axis")
    return asarr(list(parts))


def np_column_stack(parts):
    ps = [asarr(p) for p in parts]
    gets = [p.freeze() for p in ps]
    if any(p.ndim != 1 for p in ps):
        raise Unsupported("column_stack of matrices")
    return Arr.from_fn(
        (ps[0].shape[0], len(ps)), lambda i: C.pick(i[1], [lambda g=g: g((i[0],)) for g in gets]), "R"
    )


def np_roll(a, shift, axis=None):
    a = asarr(a)
    s = conc(shift)
    ax = conc(axis) if axis is not None else (0 if a.ndim == 1 else None)
    if ax is None or s is None or abs(s) != 1:
        raise Unsupported("roll")
    ax = ax % a.ndim
    get = a.freeze()
    n = nf(a.shape[ax])

    def fn(idx):
        i = idx[ax]
        at = lambda v: get(tuple(idx[:ax]) + (v,) + tuple(idx[ax + 1:]))
        if s == 1:
            return T.ite(T.eq(i, T.ZERO), at(T.sub(n, T.ONE)), at(T.sub(i, T.ONE)))
        return T.ite(T.eq(i, T.sub(n, T.ONE)), at(T.ZERO), at(T.add(i, T.ONE)))

    return Arr.from_fn(a.shape, fn, a.kind)


def np_diff(a, n=1, axis=-1):
    a = asarr(a)
    return a[1:] - a[:-1]


def np_transpose(a, axes=None):
    return asarr(a).transpose(axes) if axes is not None else asarr(a).T


def np_eye(n, m=None, dtype=None, **k):
    plain(k, "format")

    if k.get("format"):
        return sp_eye(n, **k)
    m = n if m is None else m
    return Arr.from_fn(
        (mkdim(nf(n)), mkdim(nf(m))), lambda i: T.ite(T.eq(i[0], i[1]), T.ONE, T.ZERO), "R"
    )


def np_diag(v):
    v = asarr(v)
    g = v.freeze()
    if v.ndim == 1:
        return Arr.from_fn((v.shape[0], v.shape[0]), lambda i: T.ite(T.eq(i[0], i[1]), g((i[0],)), T.ZERO), "R")
    return Arr.from_fn((v.shape[0],), lambda i: g((i[0], i[0])), "R")


def np_reshape(a, shape, *r, **k):
    plain(k)
    if any(x != "C" for x in r):
        raise Unsupported("reshape order")

    return asarr(a).reshape(shape)


def np_ravel(a):
    return asarr(a).reshape(-1)


def np_squeeze(a):
    return asarr(a).squeeze() if isinstance(a, (Arr, list, tuple)) else a


def np_copy(a):
    return asarr(a).copy()


def np_atleast_1d(a):
    a = asarr(a)
    return a if a.ndim else a.reshape((1,))


def np_size(a):
    return asarr(a).size if isinstance(a, (Arr, list, tuple)) else 1


def np_shape(a):
    return asarr(a).shape if isinstance(a, (Arr, list, tuple)) else ()


# ----------------------------------------------------------------- reductions


def _axes_reduce(a, axis, f):
    """f(fnbody over bound index list, dims) for full reduction or one axis"""
    a = asarr(a)
    g = a.freeze()
    if axis is None:
        return f(a.shape, g)
    ax = conc(axis)
    if ax < 0:
        ax += a.ndim
    rest = [d for i, d in enumerate(a.shape) if i != ax]

    def fn(idx):
        return _t(f((a.shape[ax],), lambda j: g(tuple(idx[:ax]) + tuple(j) + tuple(idx[ax:]))))

    if not rest:
        return mk(fn(()))
    return Arr.from_fn(rest, fn, a.kind)


def _sum_full(shape, g):
    # concrete dimensions are expanded, symbolic ones become sum binders
    def go(i, idx):
        if i == len(shape):
            v = g(tuple(idx))
            return v if isinstance(v, T.NF) else T.ite(v, T.ONE, T.ZERO)
        c = conc(shape[i])
        if c is not None and c <= 64:
            tot = T.ZERO
            for j in range(c):
                tot = T.add(tot, go(i + 1, idx + [T.num(j)]))
            return tot
        k = T.mk_atom("var", T.fresh_name("k"), "I")
        return sum1(nf(shape[i]), k, go(i + 1, idx + [T.of_atom(k)]))

    return mk(go(0, []))


def _tops(t):
    return [x for m in t.terms for x, e in m if x.kind == "ite"]


def _linear(t, k):
    """(sign, rest) with t = sign*k + rest and rest free of k, or None"""
    c = t.terms.get(((k, 1),))
    if c not in (1, -1):
        return None
    rest = T.sub(t, T.NF({((k, 1),): c}))
    return None if k in T.free_atoms(rest) else (c, rest)


def sum1(hi, k, body):
    """sum of body over 0 <= k < hi: conditionals that do not depend on k are taken
    outside, Kronecker deltas resolved, the range split at comparisons of k"""
    if not _tops(body):
        return T.ssum(T.ZERO, hi, k, body)
    for x in _tops(body):
        c, p, q = x.data
        if k not in T.free_atoms(c) and (k in T.free_atoms(p) or k in T.free_atoms(q)):
            return T.ite(c, sum1(hi, k, smt.decide_cond(body, c, True)), sum1(hi, k, smt.decide_cond(body, c, False)))
    kt = T.of_atom(k)
    for x in _tops(body):
        c = x.data[0]
        if c.kind != "le":
            continue
        lin = _linear(c.data, k)
        if lin is None:
            continue
        s, rest = lin
        # k + rest <= 0: true below 1 - rest; -k + rest <= 0: true from rest on
        p = T.sub(T.ONE, rest) if s == 1 else rest
        if not smt.entails(C.CTX.pc, T.And(T.le(T.ZERO, p), T.le(p, hi))):
            continue
        a, b = smt.decide_cond(body, c, s == 1), smt.decide_cond(body, c, s == -1)
        return T.add(_sum_range(p, k, a), _sum_range(T.sub(hi, p), k, T.subst(b, {k: T.add(kt, p)})))
    body = T.indicators(body)
    out, rest = T.ZERO, {}
    for m, co in body.terms.items():
        for i, (x, e) in enumerate(m):
            if x.kind == "ite" and e == 1 and x.data[0].kind == "eq" and x.data[1] == T.ONE and x.data[2].is_zero():
                lin = _linear(x.data[0].data, k)
                if lin is None:
                    continue
                at = T.neg(lin[1]) if lin[0] == 1 else lin[1]
                if not T.is_int(at):
                    continue
                v = T.subst(T.NF({m[:i] + m[i + 1:]: co}), {k: at})
                out = T.add(out, T.ite(T.And(T.le(T.ZERO, at), T.lt(at, hi)), v, T.ZERO))
                break
        else:
            rest[m] = co
    return T.add(out, T.ssum(T.ZERO, hi, k, T.NF(rest))) if rest else out


def _sum_range(n, k, body):
    c = n.const() if n.is_const() else None
    if c is not None and c <= 64:
        tot = T.ZERO
        for j in range(int(c)):
            tot = T.add(tot, T.subst(body, {k: T.num(j)}))
        return tot
    kt = T.of_atom(k)
    pc = list(C.CTX.pc) + [T.le(T.ZERO, kt), T.lt(kt, n)]
    return sum1(n, k, smt.prune(pc, body))


def np_sum(a, axis=None, **k):
    plain(k, "dtype")

    if isinstance(a, MaskSel):
        m = a.mask.freeze()
        g = a.arr.freeze()
        return _sum_full(a.arr.shape, lambda i: T.ite(m(i), _n(g(i)), T.ZERO))
    if isinstance(a, PList) and a.bag is not None:
        return builtin_sum(a)
    if _num(a):
        return a
    return _axes_reduce(a, axis, _sum_full)


def _n(t):
    return t if isinstance(t, T.NF) else T.ite(t, T.ONE, T.ZERO)


def np_mean(a, axis=None, **k):
    plain(k, "dtype")

    a = asarr(a)
    if axis is None:
        return np_sum(a) / a.size
    return np_sum(a, axis) / a.shape[conc(axis)]


def _extreme(kind):
    def full(shape, g):
        if not shape:
            return mk(g(()))
        cs = [conc(d) for d in shape]
        if all(c is not None for c in cs) and math.prod(cs) <= 16:
            vals = [mk(g(tuple(T.num(j) for j in ix))) for ix in itertools.product(*map(range, cs))]
            r = vals[0]
            for v in vals[1:]:
                r = _max2(r, v) if kind == "amax" else _min2(r, v)
            return r
        if len(shape) == 2 and cs[1] == 1:
            shape, g2 = shape[:1], g
            g = lambda i: g2((i[0], T.ZERO))
        if len(shape) == 1:
            # the ends of an increasing enumeration
            j = T.mk_atom("var", T.fresh_name("k"), "I")
            t = g((T.of_atom(j),))
            a = T.single_app(t)
            if a is not None and a[0] in T.INVERSES and a[1] and a[1][0] == T.of_atom(j):
                nm = a[0][: -len("_at")]
                if all(j not in T.free_atoms(x) for x in a[1][1:]) and T.app(nm + "_n", tuple(a[1][1:]), "I") == nf(shape[0]):
                    if not C.CTX.decide(T.lt(T.ZERO, nf(shape[0]))):
                        raise ValueError("zero-size array to reduction operation which has no identity")
                    r = g((T.sub(nf(shape[0]), T.ONE) if kind == "amax" else T.ZERO,))
                    from . import load as LD

                    C.CTX.assume(LD.L.SELECTIONS[nm](r, tuple(a[1][1:])))
                    return mk(r)
            return mk(g((_argext("arg" + kind[1:], shape[0], g),)))
        for d in shape:
            if not C.CTX.decide(T.lt(T.ZERO, nf(d))):
                raise ValueError("zero-size array to reduction operation which has no identity")
        ks = tuple(T.mk_atom("var", T.fresh_name("k"), "I") for _ in shape)
        body = g(tuple(T.of_atom(x) for x in ks))
        m = T.bind(kind, tuple(nf(d) for d in shape), ks, body)
        # defining facts
        rng = T.And(*[T.And(T.le(T.ZERO, T.of_atom(x)), T.lt(T.of_atom(x), nf(d))) for x, d in zip(ks, shape)])
        bound = T.le(body, m) if kind == "amax" else T.le(m, body)
        C.CTX.assume(T.forall(ks, T.Implies(rng, bound)))
        C.CTX.assume(T.exists(ks, T.And(rng, T.eq(body, m))))
        return mk(m)

    def f(a, axis=None, **k):
        plain(k)
        if isinstance(a, MaskSel):
            raise Unsupported("extreme of a masked selection")
        if _num(a):
            return a
        return _axes_reduce(a, axis, full)

    return f


np_max = _extreme("amax")
np_min = _extreme("amin")


def _quant(kind):
    def full(shape, g):
        def go(i, idx):
            if i == len(shape):
                return tb(mk(g(tuple(idx))))
            c = conc(shape[i])
            if c is not None and c <= 64:
                bs = [go(i + 1, idx + [T.num(j)]) for j in range(c)]
                return T.And(*bs) if kind == "forall" else T.Or(*bs)
            k = T.mk_atom("var", T.fresh_name("k"), "I")
            kt = T.of_atom(k)
            rng = T.And(T.le(T.ZERO, kt), T.lt(kt, nf(shape[i])))
            b = go(i + 1, idx + [kt])
            return T.forall((k,), T.Implies(rng, b)) if kind == "forall" else T.exists((k,), T.And(rng, b))

        return mk(go(0, []))

    def f(a, axis=None, **k):
        plain(k)
        if _num(a):
            return mk(tb(a))
        return _axes_reduce(a, axis, full)

    return f


np_any = _quant("exists")
np_all = _quant("forall")


def np_dot(a, b):
    if _num(a) or _num(b):
        return a * b
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1:
        if not same_dim(a.shape[0], b.shape[0]):
            raise ValueError("shapes not aligned")
        ga, gb = a.freeze(), b.freeze()
        return _sum_full((a.shape[0],), lambda i: T.mul(ga(i), gb(i)))
    if a.ndim == 2 and b.ndim == 1:
        if not same_dim(a.shape[1], b.shape[0]):
            raise ValueError("shapes not aligned")
        ga, gb = a.freeze(), b.freeze()
        return Arr.from_fn(
            (a.shape[0],),
            lambda i: nf(_sum_full((b.shape[0],), lambda j: T.mul(ga((i[0],) + j), gb(j)))),
            "R",
        )
    if a.ndim == 1 and b.ndim == 2:
        return np_dot(b.T, a)
    if a.ndim == 2 and b.ndim == 2:
        if not same_dim(a.shape[1], b.shape[0]):
            raise ValueError("shapes not aligned")
        ga, gb = a.freeze(), b.freeze()
        return Arr.from_fn(
            (a.shape[0], b.shape[1]),
            lambda i: nf(_sum_full((b.shape[0],), lambda j: T.mul(ga((i[0],) + j), gb(j + (i[1],))))),
            "R",
        )
    raise Unsupported("dot of these ranks")


Arr.__matmul__ = lambda self, o: np_dot(self, o)


def np_norm(x, ord=None, axis=None, **k):
    plain(k)
    x = asarr(x)
    if ord is not None and not (ord == 2 and x.ndim == 1):
        raise Unsupported("norm order")
    s = np_sum(x * x, axis=axis)
    return np_sqrt(s)


def np_inv(a):
    a = asarr(a)
    n = conc(a.shape[0])
    if n == 2:
        p, q, r, s = a[0, 0], a[0, 1], a[1, 0], a[1, 1]
        d = p * s - q * r
        return asarr([[s / d, -q / d], [-r / d, p / d]])
    if n == 1:
        return asarr([[1 / a[0, 0]]])
    # an unspecified inverse: content named by the argument
    g = a.freeze()
    ks = (T.mk_atom("var", "inv!i", "I"), T.mk_atom("var", "inv!j", "I"))
    body = g(tuple(T.of_atom(k) for k in ks))
    name = named("inv", (nf(a.shape[0]), body))
    assumed("numpy.linalg.inv", "returns the inverse matrix of its argument (deterministic in it)")
    return Arr.from_fn(a.shape, lambda i: T.app(name[0], i + name[1]), "R")


_NAMED = {}


def named(prefix, key_terms):
    """function symbol determined by the content terms; returns (name, args)
    where args are the free variables other than the index placeholders"""
    fv = set()
    for t in key_terms:
        fv |= T.free_atoms(t)
    fv = sorted([v for v in fv if not v.data.startswith(("inv!", "spl!", "sel!"))], key=lambda v: v.data)
    m = {v: T.of_atom(T.mk_atom("var", "%%%d" % i, v.sort)) for i, v in enumerate(fv)}
    key = (prefix,) + tuple(T.subst(t, m) for t in key_terms)
    n = _NAMED.setdefault(key, "%s%d" % (prefix, len(_NAMED)))
    return n, tuple(T.of_atom(v) for v in fv)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    plain(k)

    f = lambda x, y: abs(x - y) <= atol + rtol * abs(y)
    if any(isinstance(v, (Arr, list, tuple)) for v in (a, b)):
        return elementwise(f, (a, b))
    return f(a, b)


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    plain(k)

    r = np_isclose(a, b, rtol, atol)
    return np_all(r) if isinstance(r, Arr) else r


def np_isfinite(x):
    assumed("finite", "machine overflow, NaN and infinities are outside the model (floats as reals)")
    if isinstance(x, Arr):
        return Arr.from_fn(x.shape, lambda i: T.TRUE, "B")
    return True


def np_nan_to_num(x, *a, **k):
    assumed("finite", "machine overflow, NaN and infinities are outside the model (floats as reals)")
    return x


def np_outer(a, b):
    a, b = asarr(a), asarr(b)
    ga, gb = a.freeze(), b.freeze()
    return Arr.from_fn((a.shape[0], b.shape[0]), lambda i: T.mul(ga((i[0],)), gb((i[1],))), "R")


def np_average(a, axis=None, weights=None, **k):
    plain(k)

    if weights is None:
        return np_mean(a, axis)
    return np_sum(asarr(a) * asarr(weights)) / np_sum(weights)


def np_cumsum(a, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum rank")
    g = a.freeze()

    def fn(idx):
        k = T.mk_atom("var", T.fresh_name("k"), "I")
        return T.ssum(T.ZERO, T.add(idx[0], T.ONE), k, g((T.of_atom(k),)))

    return Arr.from_fn(a.shape, fn, "R")


class interp1d:
    """scipy.interpolate.interp1d: a function of the place determined by its data"""

    def __init__(self, x, y, kind="linear", fill_value=None, **k):
        plain(k)
        if not isinstance(kind, str) or not (fill_value is None or fill_value == "extrapolate"):
            raise Unsupported("interp1d options")
        assumed("scipy.interpolate.interp1d", "a function of the place determined by its data, the kind and the extrapolation")
        x, y = asarr(x), asarr(y)
        if x.ndim != 1 or y.ndim != 1:
            raise Unsupported("interp1d of rank %d" % y.ndim)
        if not same_dim(x.shape[0], y.shape[0]):
            if not C.CTX.decide(T.eq(nf(x.shape[0]), nf(y.shape[0]))):
                raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        i = (T.var("spl!i", "I"),)
        self.name, self.fv = named("interp1d_%s_%s" % (kind, fill_value), (nf(x.shape[0]), x.freeze()(i), y.freeze()(i)))

    def __call__(self, p):
        f = lambda a: mk(T.app(self.name, (nf(a),) + self.fv))
        return elementwise(f, (p,), "R") if isinstance(p, (Arr, list, tuple)) else f(p)


def np_ptp(a, **k):
    plain(k)

    return np_max(a) - np_min(a)


def _argext(kind, n, g):
    n = nf(n)
    if not C.CTX.decide(T.lt(T.ZERO, n)):
        raise ValueError("attempt to get %s of an empty sequence" % kind)
    name, args = named(kind, (n, g((T.of_atom(T.mk_atom("var", "inv!i", "I")),))))
    w = T.app(name, args, "I") if args else T.var(name, "I")
    C.CTX.assume(T.And(T.le(T.ZERO, w), T.lt(w, n)))
    k = T.mk_atom("var", T.fresh_name("k"), "I")
    kt = T.of_atom(k)
    vw, vk = g((w,)), g((kt,))
    better = T.le(vw, vk) if kind == "argmin" else T.le(vk, vw)
    strict = T.lt(vw, vk) if kind == "argmin" else T.lt(vk, vw)
    C.CTX.assume(T.forall((k,), T.Implies(T.And(T.le(T.ZERO, kt), T.lt(kt, n)), better)))
    C.CTX.assume(T.forall((k,), T.Implies(T.And(T.le(T.ZERO, kt), T.lt(kt, w)), strict)))
    return w


def _argtrue(n, g, want):
    """the first true (false) element of a boolean array, or 0"""
    n = nf(n)
    if not C.CTX.decide(T.lt(T.ZERO, n)):
        raise ValueError("attempt to get argmax of an empty sequence")
    p = g if want else (lambda i: T.Not(g(i)))
    name, args = named("argtrue", (n, T.ite(p((T.of_atom(T.mk_atom("var", "inv!i", "I")),)), T.ONE, T.ZERO)))
    w = T.app(name, args, "I") if args else T.var(name, "I")
    k = T.mk_atom("var", T.fresh_name("k"), "I")
    kt = T.of_atom(k)
    if C.CTX.decide(T.bapp(name + "!any", tuple(args))):
        C.CTX.assume(T.And(T.le(T.ZERO, w), T.lt(w, n), p((w,))))
        C.CTX.assume(T.forall((k,), T.Implies(T.And(T.le(T.ZERO, kt), T.lt(kt, w)), T.Not(p((kt,))))))
    else:
        C.CTX.assume(T.eq(w, T.ZERO))
        C.CTX.assume(T.forall((k,), T.Implies(T.And(T.le(T.ZERO, kt), T.lt(kt, n)), T.Not(p((kt,))))))
    return w


def np_argext(kind):
    def f(a, axis=None):
        a = asarr(a)
        if a.ndim != 1:
            raise Unsupported("argmin rank")
        if a.kind == "B":
            return mk(_argtrue(a.shape[0], a.freeze(), kind == "argmax"))
        return mk(_argext(kind, a.shape[0], a.freeze()))

    return f


def np_flatnonzero(a):
    """indices of the true elements of a one dimensional array, increasing"""
    from . import load as LD

    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("nonzero of rank %d" % a.ndim)
    k = T.mk_atom("var", T.fresh_name("k"), "I")
    v = a.freeze()((T.of_atom(k),))
    cond = T.Not(T.eq(v, T.ZERO)) if isinstance(v, T.NF) else v
    cnt, at, rank = LD.L.selection(T.ZERO, nf(a.shape[0]), k, cond)
    return Arr.from_fn((C.mkdim(cnt),), lambda i: at(i[0]), "I")


def np_argwhere(a):
    a = np_flatnonzero(a)
    return a.reshape((a.shape[0], 1))


def np_nonzero(a):
    return (np_flatnonzero(a),)


def np_logical_not(x):
    return elementwise(lambda a: mk(T.Not(tb(a))), (x,)) if isinstance(x, Arr) else mk(T.Not(tb(x)))


def np_cross2(a, b):
    raise Unsupported("cross")


# ---------------------------------------------------------------------- scipy


def romb(y, dx=1.0, axis=-1, show=False):
    assumed(
        "scipy.integrate.romb",
        "a linear functional of the samples along one axis, scaled by dx (2^k+1 samples)",
    )
    y = asarr(y)
    if y.ndim == 0:
        raise IndexError("romb of a scalar")
    ax = conc(axis)
    if ax < 0:
        ax += y.ndim
    g = y.freeze()
    n = y.shape[ax]
    C.CTX.romb_dims.append(nf(n)) if hasattr(C.CTX, "romb_dims") else None
    rest = [d for i, d in enumerate(y.shape) if i != ax]

    def fn(idx):
        k = T.mk_atom("var", T.fresh_name("k"), "I")
        body = g(tuple(idx[:ax]) + (T.of_atom(k),) + tuple(idx[ax:]))
        return T.mul(nf(dx), T.bind("romb", (nf(n),), (k,), _n(body)))

    if not rest:
        return mk(fn(()))
    return Arr.from_fn(rest, fn, "R")


smt.BIND_RANGES["romb"] = lambda params, ks: [
    T.And(T.le(T.ZERO, T.of_atom(k)), T.lt(T.of_atom(k), params[0])) for k in ks
]
smt.BIND_RANGES["quad"] = lambda params, ks: [
    T.Or(
        T.And(T.le(params[0], T.of_atom(k)), T.le(T.of_atom(k), params[1])),
        T.And(T.le(params[1], T.of_atom(k)), T.le(T.of_atom(k), params[0])),
    )
    for k in ks
]


def explore_value(thunk):
    """run thunk on all its decision paths and merge the results"""
    ctx = C.CTX
    ex = C.Explorer()
    cases = []
    snap = C.snapshot()
    while True:
        npc = len(ctx.pc)
        ctx.explorers.append(ex)
        d0 = len(ctx.explorers)
        ex.start()
        try:
            v = thunk()
            if C.diff(snap):
                raise Unsupported("callback with side effects")
            cases.append((T.And(*ctx.pc[npc:]), v))
        except C.PathDead:
            pass
        finally:
            del ctx.explorers[d0 - 1:]
            del ctx.pc[npc:]
        if not ex.next():
            break
    if not cases:
        raise C.PathDead()
    return C.merge(cases) if len(cases) > 1 else cases[0][1]


def quad(f, a, b, args=(), **k):
    plain(k, "epsabs", "epsrel", "limit")

    assumed("scipy.integrate.quad", "returns (I, err) with I the integral of f over [a,b], linear in f")
    x = T.mk_atom("var", T.fresh_name("x"), "R")
    v = explore_value(lambda: f(mk(T.of_atom(x)), *args))
    body = nf(v)
    lo, hi = nf(a), nf(b)
    if lo == hi:
        return 0.0, 0.0
    body = smt.prune(list(C.CTX.pc) + smt.BIND_RANGES["quad"]((lo, hi), (x,)), body)
    return mk(T.bind("quad", (lo, hi), (x,), body)), mk(T.var(T.fresh_name("quaderr")))


class RectBivariateSpline:
    def __init__(self, x, y, z, **k):
        plain(k)
        assumed(
            "scipy.interpolate.RectBivariateSpline",
            "a function of position determined by its data, equal to z[i,j] at (x[i], y[j]), with "
            "dx/dy giving partial derivatives; x has shape[0] and y shape[1] points of z",
        )
        x, y, z = asarr(x), asarr(y), asarr(z)
        if not (same_dim(x.shape[0], z.shape[0]) and same_dim(y.shape[0], z.shape[1])):
            if not C.CTX.decide(
                T.And(T.eq(nf(x.shape[0]), nf(z.shape[0])), T.eq(nf(y.shape[0]), nf(z.shape[1])))
            ):
                raise ValueError("x dimension of z should have same number of elements as x")
        self.x, self.y, self.z = x.freeze(), y.freeze(), z.freeze()
        i, j = T.var("spl!i", "I"), T.var("spl!j", "I")
        self.name, self.fv = named(
            "spline", (nf(x.shape[0]), nf(y.shape[0]), self.x((i,)), self.y((j,)), self.z((i, j)))
        )
        self.shape = z.shape

    def _at(self, r, z, dx, dy):
        # interpolation: at a grid point the value is the datum
        return mk(T.app("%s_%d%d" % (self.name, dx, dy), (nf(r), nf(z)) + self.fv))

    def ev(self, r, z, dx=0, dy=0):
        dx, dy = conc(dx), conc(dy)
        f = lambda a, b: self._at(a, b, dx, dy)
        if isinstance(r, (Arr, list, tuple)) or isinstance(z, (Arr, list, tuple)):
            return elementwise(f, (r, z), "R")
        return f(r, z)

    def __call__(self, r, z, dx=0, dy=0, grid=True):
        dx, dy = conc(dx), conc(dy)
        if not grid:
            return self.ev(r, z, dx, dy)
        r1 = r if isinstance(r, Arr) else asarr([r] if _num(r) else r)
        z1 = z if isinstance(z, Arr) else asarr([z] if _num(z) else z)
        if r1.ndim == 0:
            r1 = r1.reshape((1,))
        if z1.ndim == 0:
            z1 = z1.reshape((1,))
        gr, gz = r1.freeze(), z1.freeze()
        return Arr.from_fn(
            (r1.shape[0], z1.shape[0]),
            lambda i: nf(self._at(mk(gr((i[0],))), mk(gz((i[1],))), dx, dy)),
            "R",
        )


class SpMat:
    """sparse N x N matrix, N = nx*ny, rows and columns decoded as (x, y)"""

    def __init__(self, n, fn=None):
        self.n = n
        hints = getattr(C.CTX, "grid_hints", [])
        for nx, ny in hints:
            if same_dim(n, nx * ny):
                self.nx, self.ny = nx, ny
                break
        else:
            raise Unsupported("sparse matrix of unknown grid")
        self.arr = Arr.from_fn((self.nx, self.ny, self.nx, self.ny), fn or (lambda i: T.ZERO), "R")

    def _dec(self, r):
        t = nf(r)
        n = nf(self.n)
        if t.is_const() and t.const() < 0:
            t = T.add(t, n)
        return C.split_digit(t, nf(self.ny))

    def _chk(self, x):
        if not C.CTX.decide(T.And(T.le(T.ZERO, x), T.lt(x, nf(self.nx)))):
            raise IndexError("index out of range in sparse matrix")

    def __getitem__(self, key):
        r, c = key
        (a, b), (d, e) = self._dec(r), self._dec(c)
        self._chk(a)
        self._chk(d)
        return mk(self.arr.at((a, b, d, e)))

    def __setitem__(self, key, v):
        r, c = key
        (a, b), (d, e) = self._dec(r), self._dec(c)
        self._chk(a)
        self._chk(d)
        Arr(self.arr.st, [("fix", a), ("fix", b), ("fix", d), ("fix", e)], ()).assign(v)

    def tocsr(self, *a, **k):
        assumed("scipy.sparse", "lil_matrix/eye/tocsr/item access behave as the mathematical matrix")
        m = SpMat(self.n)
        m.arr = self.arr.copy()
        return m

    tocsc = tocoo = tolil = asformat = tocsr

    def copy(self):
        return self.tocsr()

    def diagonal(self):
        g = self.arr.freeze()
        return Arr.from_fn((self.n,), lambda i: (lambda x, y: g((x, y, x, y)))(*C.split_digit(i[0], nf(self.ny))), "R")

    def __sub__(self, o):
        m = SpMat(self.n)
        m.arr = self.arr - o.arr
        return m

    def __add__(self, o):
        m = SpMat(self.n)
        m.arr = self.arr + o.arr
        return m

    def __mul__(self, o):
        if _num(o):
            m = SpMat(self.n)
            m.arr = self.arr * o
            return m
        return self.dot(o)

    __rmul__ = __mul__

    @property
    def shape(self):
        return (self.n, self.n)

    def dot(self, v):
        raise Unsupported("sparse matrix times vector")


def sp_eye(n, m=None, k=0, dtype=None, format=None):
    return SpMat(
        mkdim(nf(n)),
        lambda i: T.ite(T.And(T.eq(i[0], i[2]), T.eq(i[1], i[3])), T.ONE, T.ZERO),
    )


def lil_matrix(shape, dtype=None):
    return SpMat(mkdim(nf(shape[0])))


# --------------------------------------------------------------- builtins


class _Shadow(type):
    def __instancecheck__(cls, x):
        return cls.check(x)


class pvfloat(metaclass=_Shadow):
    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymB):
            return mk(nf(x))
        if B.isinstance(x, Arr):
            return x.item()
        return B.float(x)

    @staticmethod
    def check(x):
        return B.isinstance(x, B.float) or (B.isinstance(x, Sym) and not _isint(x))


def _isint(x):
    return T.is_int(x.nf) and all(c.denominator == 1 for c in x.nf.terms.values())


class pvint(metaclass=_Shadow):
    def __new__(cls, x=0, *a):
        if B.isinstance(x, Sym):
            if _isint(x):
                return x
            # truncation towards zero
            t = x.nf
            fl = T.app("floor", (t,), "I")
            nfl = T.neg(T.app("floor", (T.neg(t),), "I"))
            return mk(T.ite(T.le(T.ZERO, t), fl, nfl))
        if B.isinstance(x, SymB):
            return mk(nf(x))
        if B.isinstance(x, Arr):
            return pvint(x.item())
        return B.int(x, *a)

    @staticmethod
    def check(x):
        return B.isinstance(x, B.int) or (B.isinstance(x, Sym) and _isint(x))


class pvbool(metaclass=_Shadow):
    def __new__(cls, x=False):
        if B.isinstance(x, SymB):
            return x
        return B.bool(x)

    @staticmethod
    def check(x):
        return B.isinstance(x, (B.bool, SymB))


class pvlist(metaclass=_Shadow):
    def __new__(cls, x=()):
        if B.isinstance(x, PList):
            return x.copy()
        s = L.as_symbolic(x)
        if s is not None:
            if B.isinstance(x, Arr) and x.ndim == 1:
                x = x.copy()
                s = L.as_symbolic(x)
            lo, hi, item = s
            p = PList()
            p.seq = Seq(mkdim(T.sub(hi, lo)), lambda k: item(T.add(lo, k)))
            return p.back()
        if hasattr(x, "__pv_seq__"):
            x = x.__pv_seq__()
        return PList(x)

    @staticmethod
    def check(x):
        return B.isinstance(x, B.list)


def _pvdict(*a, **k):
    return PDict(*a, **k)


class pvdict(metaclass=_Shadow):
    def __new__(cls, *a, **k):
        return PDict(*a, **k)

    @staticmethod
    def check(x):
        return B.isinstance(x, B.dict)


def pv_len(x):
    if isinstance(x, PList):
        if x.poison:
            raise Unsupported("length of a loop-carried list")
        if x.bag is not None:
            raise Unsupported("length of a filtered list")
        if x.seq is not None:
            return x.seq.n
        return list.__len__(x)
    if isinstance(x, Seq):
        return x.n
    if isinstance(x, Arr):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if isinstance(x, L.SymRange):
        return x.as_seq().n
    if hasattr(x, "__pv_seq__"):
        return pv_len(x.__pv_seq__())
    return B.len(x)


def pv_zip(*its, **k):
    sy = []
    anysym = False
    for it in its:
        s = L.as_symbolic(it)
        if s is not None:
            anysym = True
        sy.append(s)
    if not anysym:
        its = [_plain(i) for i in its]
        return PList(zip(*its))
    n = None
    items = []
    for it, s in zip(its, sy):
        if s is None:
            c = list(_plain(it))
            ln = T.num(len(c))
            items.append((lambda k, c=c: C.merge([(T.eq(k, T.num(i)), v) for i, v in enumerate(c)])))
        else:
            lo, hi, item = s
            ln = T.sub(hi, lo)
            items.append((lambda k, item=item, lo=lo: item(T.add(lo, k))))
        if n is None:
            n = ln
        elif n != ln and not smt.entails(C.CTX.pc, T.eq(n, ln)):
            if C.CTX.decide(T.lt(ln, n)):
                n = ln
    return Seq(mkdim(n), lambda k: tuple(f(k) for f in items))


def _plain(it):
    if isinstance(it, PList) and it.seq is not None:
        return it.seq
    if hasattr(it, "__pv_seq__"):
        return it.__pv_seq__()
    return it


def pv_enumerate(it, start=0):
    s = L.as_symbolic(it)
    if s is None:
        c0 = conc(start)
        if c0 is None:
            return PList([(mk(T.add(nf(start), T.num(i))), v) for i, v in B.enumerate(_plain(it))])
        return PList(B.enumerate(_plain(it), c0))
    lo, hi, item = s
    st = nf(start)
    return Seq(mkdim(T.sub(hi, lo)), lambda k: (mk(T.add(st, k)), item(T.add(lo, k))))


def pv_reversed(it):
    s = L.as_symbolic(it)
    if s is None:
        return PList(B.reversed(B.list(_plain(it))))
    lo, hi, item = s
    return Seq(mkdim(T.sub(hi, lo)), lambda k: item(T.sub(T.sub(hi, T.ONE), k)))


def bag_sum(bag, start):
    tot = nf(start)
    for g, v, kb in bag:
        if isinstance(v, Seq):
            tot = T.add(tot, nf(builtin_sum(v)))
        elif kb is None:
            tot = T.add(tot, T.ite(g, nf(v), T.ZERO) if g is not T.TRUE else nf(v))
        else:
            # range constraints are the first conjuncts: use a sum over the index
            lo = hi = None
            rest = []
            kt = T.of_atom(kb)
            raise Unsupported("sum of a filtered list")
    return mk(tot)


def builtin_sum(it, start=0):
    if isinstance(it, PList) and it.bag is not None:
        return bag_sum(it.bag, start)
    s = L.as_symbolic(it)
    if s is None:
        r = start
        for x in _plain(it):
            r = r + x
        return r
    lo, hi, item = s
    k = T.mk_atom("var", T.fresh_name("k"), "I")
    v = item(T.of_atom(k))
    if isinstance(v, Arr):
        shape = v.shape
        g = v.freeze()

        def fn(idx):
            kk = T.mk_atom("var", T.fresh_name("k"), "I")
            return T.ssum(lo, hi, kk, T.subst(g(idx), {k: T.of_atom(kk)}))

        r = Arr.from_fn(shape, fn, "R")
        return r + start
    return mk(T.add(nf(start), T.ssum(lo, hi, k, nf(v))))


def _quantifier(kind):
    def f(it):
        s = L.as_symbolic(it)
        if s is None:
            it = _plain(it)
            if kind == "any":
                for x in it:
                    if x:
                        return True
                return False
            for x in it:
                if not x:
                    return False
            return True
        lo, hi, item = s
        k = T.mk_atom("var", T.fresh_name("k"), "I")
        kt = T.of_atom(k)
        b = tb(item(kt))
        rng = T.And(T.le(lo, kt), T.lt(kt, hi))
        if kind == "any":
            return mk(T.exists((k,), T.And(rng, b)))
        return mk(T.forall((k,), T.Implies(rng, b)))

    return f


def _ext(kind):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            it = a[0]
            if isinstance(it, Arr):
                return np_max(it) if kind == "max" else np_min(it)
            s = L.as_symbolic(it)
            if s is not None:
                if key is not None:
                    raise Unsupported("max with key over a symbolic list")
                lo, hi, item = s
                if not C.CTX.decide(T.lt(lo, hi)):
                    raise ValueError("%s() iterable argument is empty" % kind)
                arr = Seq(mkdim(T.sub(hi, lo)), lambda k: item(T.add(lo, k))).as_array()
                return np_max(arr) if kind == "max" else np_min(arr)
            a = list(_plain(it))
            if not a:
                if default is not None:
                    return default
                raise ValueError("%s() arg is an empty sequence" % kind)
        if key is not None:
            best = a[0]
            kb = key(best)
            for x in a[1:]:
                kx = key(x)
                if (kx > kb) if kind == "max" else (kx < kb):
                    best, kb = x, kx
            return best
        r = a[0]
        for x in a[1:]:
            if all(isinstance(v, (int, float)) for v in (r, x)):
                r = B.max(r, x) if kind == "max" else B.min(r, x)
            elif _num(r) and _num(x):
                if isinstance(r, float) and math.isinf(r) or isinstance(x, float) and math.isinf(x):
                    other, inf = (x, r) if isinstance(r, float) and math.isinf(r) else (r, x)
                    r = inf if (inf > 0) == (kind == "max") else other
                else:
                    r = _max2(r, x) if kind == "max" else _min2(r, x)
            else:
                if (x > r) if kind == "max" else (x < r):
                    r = x
        return r

    return f


def pv_hasattr(x, name):
    """a number is a Python float: the attributes the engine gives it for the
    benefit of numpy scalars are not there"""
    if isinstance(x, (Sym, SymB)):
        return B.hasattr(0.5, name)
    return B.hasattr(x, name)


def pv_isinstance(x, c):
    if isinstance(c, tuple):
        return any(pv_isinstance(x, k) for k in c)
    if c is B.float:
        c = pvfloat
    elif c is B.int:
        c = pvint
    elif c is B.bool:
        c = pvbool
    if hasattr(x, "__pv_isinstance__"):
        return x.__pv_isinstance__(c)
    if isinstance(c, Opaque):
        raise Unsupported("isinstance with unmodelled class")
    return B.isinstance(x, c)


def pv_sorted(it, key=None, reverse=False):
    if L.as_symbolic(it) is not None:
        raise Unsupported("sorting a symbolic list")
    xs = list(_plain(it))
    # insertion sort: stable, comparisons fork on symbolic keys
    out = []
    ks = []
    for x in xs:
        k = key(x) if key else x
        i = len(out)
        while i > 0 and ((k < ks[i - 1]) if not reverse else (ks[i - 1] < k)):
            i -= 1
        out.insert(i, x)
        ks.insert(i, k)
    return PList(out)


def _sort_symbolic(self, key):
    """a symbolic list sorted: a permutation of it with the keys in order"""
    seq, n = self.seq, nf(self.seq.n)
    nm = T.fresh_name("perm")
    perm = lambda k: T.app(nm, (k,), "I")
    back = lambda k: T.app(nm + "!inv", (k,), "I")
    it = seq.item
    a, b = T.mk_atom("var", T.fresh_name("pa"), "I"), T.mk_atom("var", T.fresh_name("pb"), "I")
    at, bt = T.of_atom(a), T.of_atom(b)
    inr = lambda k: T.And(T.le(T.ZERO, k), T.lt(k, n))
    C.CTX.assume(T.forall((a,), T.Implies(inr(at), T.And(inr(perm(at)), T.eq(back(perm(at)), at)))))
    C.CTX.assume(T.forall((a,), T.Implies(inr(at), T.And(inr(back(at)), T.eq(perm(back(at)), at)))))
    kf = key or (lambda x: x)
    ka, kb = nf(kf(it(perm(at)))), nf(kf(it(perm(bt))))
    C.CTX.assume(T.forall((a, b), T.Implies(T.And(inr(at), inr(bt), T.lt(at, bt)), T.le(ka, kb))))
    self.seq = Seq(seq.n, lambda k: it(perm(k)))
    self.seq.place = lambda k: mk(back(nf(k)))  # where the k-th element went
    self.store = None


def _plist_sort(self, key=None, reverse=False):
    if self.seq is not None and not self.poison and self.bag is None and not reverse and not C.CTX.loops:
        return _sort_symbolic(self, key)
    r = pv_sorted(self, key, reverse)
    list.clear(self)
    list.extend(self, list.__iter__(r))


PList.sort = _plist_sort


def pv_abs(x):
    return abs(x)


def pv_print(*a, **k):
    return None


def pv_round(x, n=None):
    if isinstance(x, Sym):
        if n is None and T.is_int(x.nf):
            return x
        raise Unsupported("round")
    return B.round(x) if n is None else B.round(x, n)


def pv_map(f, *its):
    if len(its) == 1 and L.as_symbolic(its[0]) is None:
        return PList(f(x) for x in _plain(its[0]))
    raise Unsupported("map")


_absent = object()


def pv_next(it, default=_absent):
    """next of a generator expression (which is a list here), once only"""
    if isinstance(it, list):
        seen = C.CTX.__dict__.setdefault("started", [])
        if B.any(x is it for x in seen):
            raise Unsupported("next of a generator already started")
        seen.append(it)
        if B.len(it):
            return list.__getitem__(it, 0)
        if default is _absent:
            raise StopIteration
        return default
    if L.as_symbolic(it) is not None:
        raise Unsupported("next of a symbolic sequence")
    return B.next(it) if default is _absent else B.next(it, default)


def builtin_overrides():
    return {
        "len": pv_len,
        "range": L.pv_range,
        "zip": pv_zip,
        "enumerate": pv_enumerate,
        "reversed": pv_reversed,
        "next": pv_next,
        "sum": builtin_sum,
        "any": _quantifier("any"),
        "all": _quantifier("all"),
        "max": _ext("max"),
        "min": _ext("min"),
        "isinstance": pv_isinstance,
        "hasattr": pv_hasattr,
        "sorted": pv_sorted,
        "float": pvfloat,
        "int": pvint,
        "bool": pvbool,
        "list": pvlist,
        "dict": pvdict,
        "print": pv_print,
        "round": pv_round,
        "map": pv_map,
        "open": Opaque("open"),
        "exec": Opaque("exec"),
        "eval": Opaque("eval"),
    }


PI = T.var("pi")
smt_pi_facts = [T.lt(T.num(Fraction(314159265358979, 10**14)), PI), T.lt(PI, T.num(Fraction(314159265358980, 10**14)))]


class _FloatType(metaclass=_Shadow):
    """numpy float scalar types"""

    __name__ = "float64"

    def __new__(cls, x=0.0):
        return pvfloat(x)

    check = staticmethod(pvfloat.check)


class _IntType(metaclass=_Shadow):
    __name__ = "int64"

    def __new__(cls, x=0):
        return pvint(x)

    check = staticmethod(pvint.check)


class _BoolType(metaclass=_Shadow):
    __name__ = "bool_"

    def __new__(cls, x=0):
        return pvbool(x)

    check = staticmethod(pvbool.check)


def modules():
    np = Mod("numpy")
    d = dict(
        pi=mk(PI),
        inf=float("inf"),
        nan=float("nan"),
        newaxis=None,
        ndarray=Arr,
        float64=_FloatType,
        floating=_FloatType,
        float32=_FloatType,
        int64=_IntType,
        int32=_IntType,
        bool_=_BoolType,
        dtype=np_dtype,
        array=np_array,
        asarray=np_asarray,
        zeros=np_zeros,
        ones=np_ones,
        full=np_full,
        empty=np_empty,
        zeros_like=np_zeros_like,
        ones_like=np_ones_like,
        full_like=np_full_like,
        linspace=np_linspace,
        arange=np_arange,
        meshgrid=np_meshgrid,
        concatenate=np_concatenate,
        append=np_append,
        stack=np_stack,
        vstack=np_stack,
        column_stack=np_column_stack,
        roll=np_roll,
        diff=np_diff,
        transpose=np_transpose,
        eye=np_eye,
        identity=np_eye,
        diag=np_diag,
        reshape=np_reshape,
        ravel=np_ravel,
        squeeze=np_squeeze,
        copy=np_copy,
        atleast_1d=np_atleast_1d,
        size=np_size,
        shape=np_shape,
        sum=np_sum,
        mean=np_mean,
        average=np_average,
        max=np_max,
        min=np_min,
        amax=np_max,
        amin=np_min,
        ptp=np_ptp,
        argmin=np_argext("argmin"),
        argmax=np_argext("argmax"),
        argwhere=np_argwhere,
        nonzero=np_nonzero,
        flatnonzero=np_flatnonzero,
        any=np_any,
        all=np_all,
        dot=np_dot,
        matmul=np_dot,
        outer=np_outer,
        cumsum=np_cumsum,
        sqrt=np_sqrt,
        exp=np_exp,
        log=uf1("log"),
        sin=_trig("sin"),
        cos=_trig("cos"),
        tan=uf1("tan"),
        arctan2=lift2(lambda a, b: mk(T.app("arctan2", (nf(a), nf(b))))),
        arctan=uf1("arctan"),
        hypot=lift2(lambda a, b: mk(T.sqrt(T.add(T.power(nf(a), 2), T.power(nf(b), 2))))),
        abs=np_abs,
        absolute=np_abs,
        fabs=np_abs,
        clip=np_clip,
        where=np_where,
        maximum=lift2(_max2),
        minimum=lift2(_min2),
        add=lift2(lambda a, b: a + b),
        subtract=lift2(lambda a, b: a - b),
        multiply=lift2(lambda a, b: a * b),
        divide=lift2(lambda a, b: a / b),
        power=lift2(lambda a, b: a ** b),
        square=lambda x: x * x,
        negative=lambda x: -x,
        copysign=lift2(lambda a, b: mk(T.ite(T.lt(nf(b), T.ZERO), T.neg(C.abs_nf(nf(a))), C.abs_nf(nf(a))))),
        sign=lambda x: elementwise(_sign, (x,)) if isinstance(x, Arr) else _sign(x),
        equal=lift2(lambda a, b: a == b),
        not_equal=lift2(lambda a, b: a != b),
        logical_or=lift2(lambda a, b: mk(T.Or(tb(a), tb(b)))),
        logical_and=lift2(lambda a, b: mk(T.And(tb(a), tb(b)))),
        logical_not=np_logical_not,
        isclose=np_isclose,
        allclose=np_allclose,
        isfinite=np_isfinite,
        isnan=lambda x: (Arr.from_fn(x.shape, lambda i: T.FALSE, "B") if isinstance(x, Arr) else False),
        nan_to_num=np_nan_to_num,
    )
    for k, v in d.items():
        setattr(np, k, v)
    la = Mod("numpy.linalg")
    la.inv = np_inv
    la.norm = np_norm
    np.linalg = la
    rnd = Mod("numpy.random")
    np.random = rnd
    sc = Mod("scipy")
    sp = Mod("scipy.special")
    sp.ellipk = uf1("ellipk")
    sp.ellipe = uf1("ellipe")
    si = Mod("scipy.integrate")
    si.romb = romb
    si.quad = quad
    ss = Mod("scipy.sparse")
    ss.lil_matrix = lil_matrix
    ss.eye = sp_eye
    ss.identity = sp_eye
    ssl = Mod("scipy.sparse.linalg")
    ss.linalg = ssl
    sip = Mod("scipy.interpolate")
    sip.RectBivariateSpline = RectBivariateSpline
    sip.interp1d = interp1d
    scon = Mod("scipy.constants")
    scon.mu_0 = mk(T.var("mu_0_codata"))
    slin = Mod("scipy.linalg")
    slin.inv = np_inv
    sopt = Mod("scipy.optimize")
    sc.special, sc.integrate, sc.sparse, sc.interpolate = sp, si, ss, sip
    sc.constants, sc.linalg, sc.optimize = scon, slin, sopt
    wm = Mod("warnings")
    wm.warn = lambda *a, **k: None
    wm.simplefilter = lambda *a, **k: None
    mth = Mod("math")
    mth.pi = mk(PI)
    mth.sqrt = np_sqrt
    mth.sin, mth.cos = _trig("sin"), _trig("cos")
    mth.log = uf1("log")
    mth.exp = np_exp
    mth.floor = lambda x: mk(T.app("floor", (nf(x),), "I")) if isinstance(x, Sym) else math.floor(x)
    mth.ceil = lambda x: mk(T.neg(T.app("floor", (T.neg(nf(x)),), "I"))) if isinstance(x, Sym) else math.ceil(x)
    mth.hypot = lambda a, b: mk(T.sqrt(T.add(T.power(nf(a), 2), T.power(nf(b), 2))))
    mth.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= _ext("max")(rel_tol * _ext("max")(abs(a), abs(b)), abs_tol)
    mth.inf = float("inf")
    mth.fabs = abs
    return {
        "numpy": np,
        "numpy.linalg": la,
        "numpy.random": rnd,
        "scipy": sc,
        "scipy.special": sp,
        "scipy.integrate": si,
        "scipy.sparse": ss,
        "scipy.sparse.linalg": ssl,
        "scipy.interpolate": sip,
        "scipy.constants": scon,
        "scipy.linalg": slin,
        "scipy.optimize": sopt,
        "warnings": wm,
        "math": mth,
    }


def _sign(v):
    t = nf(v)
    return mk(T.ite(T.lt(T.ZERO, t), T.ONE, T.ite(T.lt(t, T.ZERO), T.num(-1), T.ZERO)))
