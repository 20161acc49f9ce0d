"""Terms of the verifier: arithmetic kept in a normal form, plus boolean formulas.

Arithmetic values are polynomials with rational coefficients over *atoms*
(variables, applications of uninterpreted functions, inverses of polynomials,
square roots, conditionals, binders).  Integer and real values share the type;
floats are treated as mathematical reals.
"""
from fractions import Fraction
import itertools

_intern = {}
_counter = itertools.count()


_fresh = [0]


def reset_fresh():
    _fresh[0] = 0


def fresh_name(base):
    _fresh[0] += 1
    return "%s!%d" % (base, _fresh[0])


class Atom:
    """kind: var | app | inv | sqrt | ite | bind"""

    __slots__ = ("kind", "data", "sort", "id", "_free", "_key")

    def __repr__(self):
        return show_atom(self)


def mk_atom(kind, data, sort):
    key = ("atom", kind, data, sort)
    a = _intern.get(key)
    if a is None:
        a = Atom()
        a.kind = kind
        a.data = data
        a.sort = sort
        a.id = next(_counter)
        a._free = None
        a._key = None
        _intern[key] = a
    return a


class NF:
    """A normalised polynomial: terms = {monomial: Fraction}; a monomial is a
    tuple of (atom, exponent) sorted by atom id; exponents are non-zero integers
    (negative for inverses of a single atom)."""

    __slots__ = ("terms", "_hash", "_free")

    def __init__(self, terms):
        self.terms = terms
        self._hash = None
        self._free = None

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset(self.terms.items()))
        return self._hash

    def __eq__(self, other):
        return self is other or (isinstance(other, NF) and self.terms == other.terms)

    def __repr__(self):
        return show(self)

    def is_const(self):
        return not self.terms or (len(self.terms) == 1 and () in self.terms)

    def const(self):
        return self.terms.get((), Fraction(0))

    def is_zero(self):
        return not self.terms


ZERO = NF({})
ONE = NF({(): Fraction(1)})


def num(x):
    if isinstance(x, NF):
        return x
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise OverflowError("nan/inf literal")
        # the simplest fraction with that value (1.0/12 -> 1/12, 0.1 -> 1/10),
        # else the decimal literal as written
        f = Fraction(x).limit_denominator(100000)
        if float(f) != x:
            f = Fraction(repr(x))
    else:
        f = Fraction(x)
    return NF({(): f}) if f else ZERO


def of_atom(a):
    return NF({((a, 1),): Fraction(1)})


def var(name, sort="R"):
    return of_atom(mk_atom("var", name, sort))


# --------------------------------------------------------------- arithmetic


def add(a, b, cb=1):
    if not b.terms:
        return a
    t = dict(a.terms)
    for m, c in b.terms.items():
        n = t.get(m, 0) + c * cb
        if n:
            t[m] = n
        else:
            t.pop(m, None)
    return NF(t)


def neg(a):
    return NF({m: -c for m, c in a.terms.items()})


def sub(a, b):
    return add(a, b, -1)


def scale(a, c):
    c = Fraction(c)
    if not c:
        return ZERO
    if c == 1:
        return a
    return NF({m: v * c for m, v in a.terms.items()})


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            del d[a]
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def _needs_reduce(m):
    for a, e in m:
        if a.kind == "sqrt" and (e >= 2 or e < 0):
            return True
        if a.kind == "inv" and e < 0:
            return True
    return False


LIMIT = [40000]


class TooBig(Exception):
    pass


def mul(a, b):
    if not a.terms or not b.terms:
        return ZERO
    if len(b.terms) == 1 and () in b.terms:
        return scale(a, b.terms[()])
    if len(a.terms) == 1 and () in a.terms:
        return scale(b, a.terms[()])
    if len(a.terms) * len(b.terms) > LIMIT[0]:
        raise TooBig("product of %d x %d terms" % (len(a.terms), len(b.terms)))
    out = {}
    special = False
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m = _mono_mul(m1, m2)
            n = out.get(m, 0) + c1 * c2
            if n:
                out[m] = n
            else:
                out.pop(m, None)
    for m in out:
        if _needs_reduce(m) or any(x.kind == "inv" for x, e in m):
            special = True
            break
    r = NF(out)
    if special:
        r = _reduce(r)
    return r


def _lead(p):
    """leading monomial of a polynomial (positive exponents): graded by degree then ids"""
    best = None
    for m in p.terms:
        k = (sum(e for _, e in m), tuple((-x.id, e) for x, e in m))
        if best is None or k > best[0]:
            best = (k, m)
    return best[1]


def _divides(m, n):
    d = dict(n)
    for a, e in m:
        if d.get(a, 0) < e:
            return False
    return True


def _reduce(p):
    """apply sqrt(x)^2 -> x, inv(q)^-1 -> q and lm(q)*inv(q) -> 1 - tail*inv(q)"""
    for _ in range(400):
        todo = None
        for m, c in p.terms.items():
            for a, e in m:
                if a.kind == "sqrt" and (e >= 2 or e < 0):
                    todo = (m, c, a, e, "sqrt")
                    break
                if a.kind == "inv" and e < 0:
                    todo = (m, c, a, e, "inv")
                    break
                if a.kind == "inv":
                    lm = _lead(a.data)
                    if lm and _divides(lm, m):
                        todo = (m, c, a, e, "div")
                        break
            if todo:
                break
        if not todo:
            return p
        m, c, a, e, what = todo
        rest = NF({k: v for k, v in p.terms.items() if k != m})
        d = dict(m)
        if what == "sqrt":
            # e = 2h + r, r in {0,1}
            h, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            base = NF({tuple(sorted(d.items(), key=lambda q: q[0].id)): c})
            repl = mul(base, power(a.data, h))
        elif what == "inv":
            del d[a]
            base = NF({tuple(sorted(d.items(), key=lambda q: q[0].id)): c})
            repl = mul(base, power(a.data, -e))
        else:
            lm = _lead(a.data)
            lc = a.data.terms[lm]
            for x, k in lm:
                d[x] -= k
                if not d[x]:
                    del d[x]
            d_keep = dict(d)
            # m = lm * d ; d contains inv^e ; lm*inv = (1 - tail*inv)/lc
            base_keep = {tuple(sorted(d_keep.items(), key=lambda q: q[0].id)): c / lc}
            d[a] -= 1
            if not d[a]:
                del d[a]
            base_less = {tuple(sorted(d.items(), key=lambda q: q[0].id)): c / lc}
            tail = NF({k: v for k, v in a.data.terms.items() if k != lm})
            repl = _raw_sub(NF(base_less), _raw_mul(NF(base_keep), tail))
        p = add(rest, repl)
    return p


def _raw_mul(a, b):
    out = {}
    for m1, c1 in a.terms.items():
        for m2, c2 in b.terms.items():
            m = _mono_mul(m1, m2)
            n = out.get(m, 0) + c1 * c2
            if n:
                out[m] = n
            else:
                out.pop(m, None)
    return NF(out)


def _raw_sub(a, b):
    return add(a, b, -1)


def inverse(a):
    if not a.terms:
        raise ZeroDivisionError("division by literal zero")
    if len(a.terms) == 1:
        ((m, c),) = a.terms.items()
        r = NF({tuple((x, -e) for x, e in m): 1 / c})
        if _needs_reduce(next(iter(r.terms))):
            r = _reduce(r)
        return r
    # pull the common monomial content out, make the leading coefficient 1
    common = None
    for m in a.terms:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {x: min(e, d.get(x, 0)) for x, e in common.items()}
            # negative exponents must be cleared
            for x, e in d.items():
                if e < 0:
                    common[x] = min(common.get(x, 0), e)
    for m in a.terms:
        d = dict(m)
        for x in list(common):
            if d.get(x, 0) < common[x]:
                common[x] = d.get(x, 0)
    common = {x: e for x, e in common.items() if e}
    if any(x.kind == "sqrt" for x in common):
        common = {x: e for x, e in common.items() if x.kind != "sqrt"}
    mono = tuple(sorted(((x, -e) for x, e in common.items()), key=lambda q: q[0].id))
    p = _raw_mul(a, NF({mono: Fraction(1)}))
    p = _reduce(p)
    if len(p.terms) <= 1:
        return mul(NF({mono: Fraction(1)}), inverse(p))
    lc = p.terms[_lead(p)]
    p = scale(p, 1 / lc)
    at = mk_atom("inv", p, "R")
    return mul(NF({mono: 1 / lc}), of_atom(at))


def div(a, b):
    return mul(a, inverse(b))


def power(a, n):
    n = int(n)
    if n < 0:
        return inverse(power(a, -n))
    r = ONE
    base = a
    while n:
        if n & 1:
            r = mul(r, base)
        n >>= 1
        if n:
            base = mul(base, base)
    return r


def _int_sqrt(n):
    import math

    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(a):
    if a.is_const():
        c = a.const()
        if c >= 0:
            p, q = _int_sqrt(c.numerator), _int_sqrt(c.denominator)
            if p is not None and q is not None:
                return num(Fraction(p, q))
    # scalar square content
    if len(a.terms) >= 1:
        c = next(iter(sorted(a.terms.values())))
        vals = list(a.terms.values())
        import math

        g_num = 0
        g_den = 1
        for v in vals:
            g_num = math.gcd(g_num, abs(v.numerator))
            g_den = g_den * v.denominator // math.gcd(g_den, v.denominator)
        # content g_num/g_den; extract its largest square
        g = Fraction(g_num, g_den)
        s = Fraction(_sqpart(g.numerator), 1) / _sqpart(g.denominator)
        # make remaining denominators square free
        if s != 1:
            return scale(of_atom(mk_atom("sqrt", scale(a, 1 / (s * s)), "R")), s)
    return of_atom(mk_atom("sqrt", a, "R"))


def _sqpart(n):
    r = 1
    d = 2
    m = n
    while d * d <= m and d < 1000:
        while m % (d * d) == 0:
            m //= d * d
            r *= d
        d += 1
    return r


def app(f, args, sort="R"):
    return of_atom(mk_atom("app", (f,) + tuple(args), sort))


def ite(c, a, b):
    if c.kind == "true":
        return a
    if c.kind == "false":
        return b
    if a == b:
        return a
    if c.kind == "not":
        return ite(c.data, b, a)
    # nested same-condition simplification
    a = assume_in(a, c, True)
    b = assume_in(b, c, False)
    if a == b:
        return a
    return of_atom(mk_atom("ite", (c, a, b), "R"))


def assume_in(t, c, truth):
    """simplify top-level ite atoms on exactly condition c"""
    if not any(x.kind == "ite" for m in t.terms for x, e in m):
        return t

    def f(atom):
        if atom.kind == "ite" and atom.data[0] is c:
            return atom.data[1] if truth else atom.data[2]
        return None

    return map_atoms(t, f, deep=False)


# binders ---------------------------------------------------------------
# bind(kind, params, bv, body): linear functional in body.


NONLINEAR = {"max", "min", "amax", "amin"}


def bind(kind, params, bvs, body):
    """kind e.g. 'sum' with params (lo, hi); bvs: tuple of bound var atoms"""
    if kind in NONLINEAR:
        return _bind1(kind, params, bvs, body)
    body = indicators(body)
    if not body.terms:
        return ZERO
    out = ZERO
    groups = {}
    for m, c in body.terms.items():
        outer = []
        inner = []
        for x, e in m:
            if free_atoms(x) & set(bvs):
                inner.append((x, e))
            else:
                outer.append((x, e))
        groups.setdefault(tuple(outer), {})[tuple(inner)] = c
    for outer, inn in groups.items():
        # one binder atom per inner monomial (linearity)
        for im, c in inn.items():
            if kind == "sum":
                sw = _swap_sums(params, bvs, im)
                if sw is not None:
                    out = add(out, mul(NF({outer: c}), sw))
                    continue
            at = _bind1(kind, params, bvs, NF({im: Fraction(1)}))
            out = add(out, mul(NF({outer: c}), at))
    return out


def _swap_sums(params, bvs, im):
    """nested sums over independent ranges are nested in a fixed order"""
    k = bvs[0]
    for i, (x, e) in enumerate(im):
        if x.kind == "bind" and e == 1 and x.data[0] == "sum":
            _, p2, b2, body2 = x.data
            if any(k in free_atoms(p) for p in p2) or str(p2) >= str(params):
                continue
            f = mk_atom("var", fresh_name("sw"), "I")
            inner = mul(NF({im[:i] + im[i + 1:]: Fraction(1)}), subst(body2, {b2[0]: of_atom(f)}))
            return ssum(p2[0], p2[1], f, bind("sum", params, (k,), inner))
    return None


def _indicator(b):
    if b.kind == "not":
        return mk_atom("ite", (b.data, ZERO, ONE), "R")
    return mk_atom("ite", (b, ONE, ZERO), "R")


def indicators(t):
    """ite(c, a, 0) = [c]*a at top level, [c and d] = [c]*[d], [c]^n = [c]"""
    if not any(x.kind == "ite" for m in t.terms for x, e in m):
        return t
    out = ZERO
    changed = False
    for m, c in t.terms.items():
        cur = [NF({(): c})]
        rest = []
        inds = []
        poly = None
        for x, e in m:
            if x.kind == "ite" and e > 0:
                b, p, q = x.data
                if q.is_zero():
                    cond = b
                elif p.is_zero():
                    cond, p = Not(b), q
                else:
                    rest.append((x, e))
                    continue
                cs = list(conj(cond))
                inds.extend(cs)
                if p != ONE:
                    changed = True
                    for _ in range(e):
                        poly = p if poly is None else mul(poly, p)
                elif e > 1 or len(cs) != 1 or _indicator(cs[0]) is not x:
                    changed = True
            else:
                rest.append((x, e))
        if not inds:
            out = add(out, NF({m: c}))
            continue
        r = NF({tuple(rest): c})
        seen = set()
        for b in inds:
            if b in seen:
                changed = True
                continue
            seen.add(b)
            r = mul(r, of_atom(_indicator(b)))
        if poly is not None:
            r = mul(r, poly)
        out = add(out, r)
    return indicators(out) if changed else out


def _bind1(kind, params, bvs, body):
    if kind == "sum" and body == ONE:
        lo, hi = params
        n = sub(hi, lo)
        # length of the range; the range is assumed well formed (lo <= hi) only
        # when it is syntactically so; otherwise keep it as max(0, n)
        return n if n.is_const() and n.const() >= 0 else _count(n)
    # canonical bound variables
    canon = tuple(
        mk_atom("var", "#%d" % i, b.sort) for i, b in enumerate(_depth_names(bvs, body))
    )
    d = _maxdepth(body)
    canon = tuple(mk_atom("var", "#%d" % (d + i), b.sort) for i, b in enumerate(bvs))
    body2 = subst(body, {b: of_atom(c) for b, c in zip(bvs, canon)})
    return of_atom(mk_atom("bind", (kind, tuple(params), canon, body2), "R"))


def _count(n):
    return of_atom(mk_atom("app", ("max0", n), "I"))


def _depth_names(bvs, body):
    return bvs


def _maxdepth(t):
    d = 0
    for a in all_atoms(t):
        if a.kind == "bind":
            for b in a.data[2]:
                d = max(d, int(b.data[1:]) + 1)
    return d


def ssum(lo, hi, k, body):
    if SUM_RULES and lo.is_zero() and len(hi.terms) == 1:
        ((m, c),) = hi.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app" and m[0][0].data[0] in SUM_RULES:
            a = m[0][0]
            return SUM_RULES[a.data[0]](a.data[1:], body, k)
    if lo.is_zero() and not hi.is_const():
        r = _split_flat(hi, k, body)
        if r is not None:
            return r
    return bind("sum", (lo, hi), (k,), body)


def _split_flat(hi, k, body):
    """sum over a flat index known by quotient and remainder only: a double sum"""
    kt = of_atom(k)
    for a in all_atoms(body):
        if a.kind != "app" or a.data[0] != "floordiv" or a.data[1] != kt or k in free_atoms(a.data[2]):
            continue
        n = a.data[2]
        m = _divide(hi, n)
        if m is None or not is_int(m):
            continue
        q, r = mk_atom("var", fresh_name("sq"), "I"), mk_atom("var", fresh_name("sr"), "I")
        qt, rt = of_atom(q), of_atom(r)
        b = subst(map_atoms(body, lambda x: qt if x is a else None), {k: add(mul(qt, n), rt)})
        if n.is_const():
            if n.const() > 12:
                return None
            tot = ZERO
            for i in range(int(n.const())):
                tot = add(tot, subst(b, {r: num(i)}))
            return ssum(ZERO, m, q, tot)
        return ssum(ZERO, m, q, ssum(ZERO, n, r, b))
    return None


def _divide(t, n):
    """t / n when n divides t"""
    if n.is_const():
        c = n.const()
        if c <= 0 or c.denominator != 1 or any((v / c).denominator != 1 for v in t.terms.values()):
            return None
        return scale(t, 1 / c)
    for m, c in n.terms.items():
        if len(m) != 1 or m[0][1] != 1:
            continue
        a = m[0][0]
        if any(x is a and len(mm) > 1 for mm in n.terms for x, _ in mm):
            continue
        out = {}
        for mm, cc in t.terms.items():
            es = [e for x, e in mm if x is a]
            if es and es[0] != 1:
                return None
            if es:
                out[tuple((x, e) for x, e in mm if x is not a)] = cc / c
        v = NF(out)
        return v if out and mul(v, n) == t else None
    return None


# traversal ---------------------------------------------------------------


def free_atoms(x):
    """free variable atoms of an Atom / NF / Bool"""
    if isinstance(x, Atom):
        if x._free is None:
            if x.kind == "var":
                r = frozenset((x,))
            elif x.kind in ("inv", "sqrt"):
                r = free_atoms(x.data)
            elif x.kind == "app":
                r = frozenset().union(*[free_atoms(a) for a in x.data[1:]], frozenset())
            elif x.kind == "ite":
                r = frozenset().union(*[free_atoms(a) for a in x.data])
            elif x.kind == "bind":
                kind, params, bvs, body = x.data
                r = free_atoms(body) - frozenset(bvs)
                for p in params:
                    r = r | free_atoms(p)
            else:
                raise AssertionError(x.kind)
            x._free = r
        return x._free
    if isinstance(x, NF):
        if x._free is None:
            s = set()
            for m in x.terms:
                for a, e in m:
                    s |= free_atoms(a)
            x._free = frozenset(s)
        return x._free
    if isinstance(x, Bool):
        if x._free is None:
            if x.kind in ("true", "false"):
                r = frozenset()
            elif x.kind in ("lt", "le", "eq"):
                r = free_atoms(x.data)
            elif x.kind == "not":
                r = free_atoms(x.data)
            elif x.kind in ("and", "or"):
                r = frozenset().union(*[free_atoms(a) for a in x.data])
            elif x.kind == "bapp":
                r = frozenset().union(*[free_atoms(a) for a in x.data[1:]], frozenset())
            elif x.kind in ("forall", "exists"):
                bvs, body = x.data
                r = free_atoms(body) - frozenset(bvs)
            else:
                raise AssertionError(x.kind)
            x._free = r
        return x._free
    return frozenset()


def all_atoms(t, acc=None, seen=None):
    """every atom occurring anywhere (also under binders and conditions)"""
    if acc is None:
        acc = []
        seen = set()
    if isinstance(t, NF):
        for m in t.terms:
            for a, e in m:
                _aa(a, acc, seen)
    elif isinstance(t, Bool):
        if t.kind in ("lt", "le", "eq"):
            all_atoms(t.data, acc, seen)
        elif t.kind == "not":
            all_atoms(t.data, acc, seen)
        elif t.kind in ("and", "or"):
            for x in t.data:
                all_atoms(x, acc, seen)
        elif t.kind == "bapp":
            for x in t.data[1:]:
                all_atoms(x, acc, seen)
        elif t.kind in ("forall", "exists"):
            all_atoms(t.data[1], acc, seen)
    elif isinstance(t, Atom):
        _aa(t, acc, seen)
    return acc


def _aa(a, acc, seen):
    if a in seen:
        return
    seen.add(a)
    acc.append(a)
    if a.kind in ("inv", "sqrt"):
        all_atoms(a.data, acc, seen)
    elif a.kind == "app":
        for x in a.data[1:]:
            all_atoms(x, acc, seen)
    elif a.kind == "ite":
        for x in a.data:
            all_atoms(x, acc, seen)
    elif a.kind == "bind":
        for p in a.data[1]:
            all_atoms(p, acc, seen)
        all_atoms(a.data[3], acc, seen)


def map_atoms(t, f, deep=True, memo=None):
    """rebuild t; f(atom) -> NF replacement or None (then recursed into)"""
    if memo is None:
        memo = {}
    return _ma(t, f, deep, memo)


def _ma(t, f, deep, memo):
    key = t
    if key in memo:
        return memo[key]
    if isinstance(t, NF):
        out = ZERO
        changed = False
        plain = {}
        for m, c in t.terms.items():
            prod = None
            keep = []
            for a, e in m:
                r = _mat(a, f, deep, memo)
                if r is None:
                    keep.append((a, e))
                else:
                    changed = True
                    pe = power(r, e)
                    prod = pe if prod is None else mul(prod, pe)
            if prod is None:
                plain[m] = plain.get(m, 0) + c
            else:
                out = add(out, mul(NF({tuple(keep): c}), prod))
        res = add(NF(plain), out) if changed else t
    elif isinstance(t, Bool):
        res = _mb(t, f, deep, memo)
    else:
        res = t
    memo[key] = res
    return res


def _mat(a, f, deep, memo):
    k = ("atom", a)
    if k in memo:
        return memo[k]
    r = f(a)
    if r is None:
        if a.kind == "var":
            r = None
        elif not deep and a.kind != "ite":
            r = None
        elif a.kind == "inv":
            n = _ma(a.data, f, deep, memo)
            r = None if n == a.data else inverse(n)
        elif a.kind == "sqrt":
            n = _ma(a.data, f, deep, memo)
            r = None if n == a.data else sqrt(n)
        elif a.kind == "app":
            n = tuple(_ma(x, f, deep, memo) for x in a.data[1:])
            r = None if n == a.data[1:] else rebuild_app(a.data[0], n, a.sort)
        elif a.kind == "ite":
            c, x, y = a.data
            c2, x2, y2 = _ma(c, f, deep, memo), _ma(x, f, deep, memo), _ma(y, f, deep, memo)
            r = None if (c2 is c and x2 == x and y2 == y) else ite(c2, x2, y2)
        elif a.kind == "bind":
            kind, params, bvs, body = a.data
            p2 = tuple(_ma(x, f, deep, memo) for x in params)
            b2 = _ma(body, f, deep, memo)
            r = None if (p2 == params and b2 == body) else bind(kind, p2, bvs, b2)
    memo[k] = r
    return r


def _mb(t, f, deep, memo):
    if t.kind in ("true", "false"):
        return t
    if t.kind in ("lt", "le", "eq"):
        n = _ma(t.data, f, deep, memo)
        return t if n == t.data else _cmp(t.kind, n)
    if t.kind == "not":
        n = _ma(t.data, f, deep, memo)
        return t if n is t.data else Not(n)
    if t.kind in ("and", "or"):
        n = [_ma(x, f, deep, memo) for x in t.data]
        return And(*n) if t.kind == "and" else Or(*n)
    if t.kind == "bapp":
        n = tuple(_ma(x, f, deep, memo) for x in t.data[1:])
        return t if n == t.data[1:] else bapp(t.data[0], n)
    if t.kind in ("forall", "exists"):
        bvs, body = t.data
        n = _ma(body, f, deep, memo)
        return t if n is body else quant(t.kind, bvs, n)
    raise AssertionError(t.kind)


# hooks: special application simplifiers (name -> fn(args)->NF or None)
APP_RULES = {}
INVERSES = {}  # function symbol -> its inverse (bijections of the integers)
SUM_RULES = {}  # function symbol of an upper summation bound -> rewriting


def single_app(x):
    """(symbol, arguments) of a term that is one application, or None"""
    if isinstance(x, NF) and len(x.terms) == 1:
        ((m, c),) = x.terms.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "app":
            return m[0][0].data[0], m[0][0].data[1:]
    return None


def rebuild_app(f, args, sort):
    r = APP_RULES.get(f)
    if r:
        v = r(*args)
        if v is not None:
            return v
    return app(f, args, sort)


def subst(t, mapping):
    """simultaneous substitution of variable atoms by NFs"""
    if not mapping:
        return t
    keys = set(mapping)
    # avoid capture: bound variables '#d' never appear in user terms

    def f(a):
        if a.kind == "var":
            return mapping.get(a)
        if not (free_atoms(a) & keys):
            return of_atom(a)
        return None

    if not (free_atoms(t) & keys):
        return t

    def g(a):
        if a.kind == "var":
            return mapping.get(a)
        return None

    return map_atoms(t, g)


# booleans ----------------------------------------------------------------


class Bool:
    __slots__ = ("kind", "data", "id", "_free")

    def __repr__(self):
        return show_bool(self)


def _mkb(kind, data):
    key = ("bool", kind, data)
    b = _intern.get(key)
    if b is None:
        b = Bool()
        b.kind = kind
        b.data = data
        b.id = next(_counter)
        b._free = None
        _intern[key] = b
    return b


TRUE = _mkb("true", None)
FALSE = _mkb("false", None)


def _norm_sign(t):
    """scale so the leading coefficient has absolute value 1 (keeps sign)"""
    lc = t.terms[_lead(t)] if t.terms else Fraction(1)
    return scale(t, 1 / abs(lc))


INF = None  # the term standing for infinity, once used


class Infinity(Exception):
    pass


def infinity():
    global INF
    INF = mk_atom("var", "inf!", "R")
    return of_atom(INF)


def _cmp(kind, t):
    """t <kind> 0"""
    if INF is not None and INF in free_atoms(t):
        raise Infinity("comparison with infinity")
    if t.is_const():
        c = t.const()
        r = {"lt": c < 0, "le": c <= 0, "eq": c == 0}[kind]
        return TRUE if r else FALSE
    t = _norm_sign(t)
    if kind == "eq" and t.terms[_lead(t)] < 0:
        t = neg(t)
    # integers: a strict comparison of integer polynomials becomes non-strict
    if kind == "lt" and all(a.sort == "I" and e > 0 for m in t.terms for a, e in m):
        den = 1
        for c in t.terms.values():
            den = den * c.denominator // _gcd(den, c.denominator)
        t2 = scale(t, den)
        kind = "le"
        t = add(t2, ONE)
    return _mkb(kind, t)


def _gcd(a, b):
    import math

    return math.gcd(a, b)


def is_int(t):
    for m, c in t.terms.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if a.sort != "I" or e < 0:
                return False
    return True


def lt(a, b):
    return _cmp("lt", sub(a, b))


def le(a, b):
    return _cmp("le", sub(a, b))


def eq(a, b):
    return _cmp("eq", sub(a, b))


def Not(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.kind == "not":
        return b.data
    if b.kind == "lt":
        return _cmp("le", neg(b.data))
    if b.kind == "le":
        return _cmp("lt", neg(b.data))
    return _mkb("not", b)


def And(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.kind == "and":
            out.extend(b.data)
        else:
            out.append(b)
    s = []
    seen = set()
    for b in out:
        if b not in seen:
            seen.add(b)
            s.append(b)
    for b in s:
        if Not(b) in seen:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mkb("and", tuple(sorted(s, key=lambda x: x.id)))


def Or(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.kind == "or":
            out.extend(b.data)
        else:
            out.append(b)
    s = []
    seen = set()
    for b in out:
        if b not in seen:
            seen.add(b)
            s.append(b)
    for b in s:
        if Not(b) in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return _mkb("or", tuple(sorted(s, key=lambda x: x.id)))


def Implies(a, b):
    return Or(Not(a), b)


def bapp(f, args=()):
    return _mkb("bapp", (f,) + tuple(args))


def quant(kind, bvs, body):
    if body in (TRUE, FALSE):
        return body
    fr = free_atoms(body)
    bvs = tuple(b for b in bvs if b in fr)
    if not bvs:
        return body
    return _mkb(kind, (bvs, body))


def forall(bvs, body):
    return quant("forall", bvs, body)


def exists(bvs, body):
    return quant("exists", bvs, body)


def conj(b):
    return b.data if b.kind == "and" else (b,)


# zero test -------------------------------------------------------------


def clear_denominators(t):
    """multiply by enough positive powers so no inverse remains (denominators
    are assumed non-zero)"""
    for _ in range(60):
        invs = {}
        for m in t.terms:
            for a, e in m:
                if a.kind == "inv":
                    invs[a] = max(invs.get(a, 0), e)
                elif e < 0:
                    invs[a] = max(invs.get(a, 0), -e)
        if not invs:
            return t
        # most nested first: highest id
        a = max(invs, key=lambda x: x.id)
        n = invs[a]
        acc = {}
        base = a.data if a.kind == "inv" else of_atom(a)
        pw = [ONE]
        for i in range(2 * n + 1):
            pw.append(_mulclean(pw[-1], base))
        for m, c in t.terms.items():
            d = dict(m)
            e = d.pop(a, 0)
            rest = NF({tuple(sorted(d.items(), key=lambda q: q[0].id)): c})
            if a.kind == "inv":
                pr = _raw_mul(rest, pw[n - e])
            else:
                pr = _raw_mul(rest, NF({((a, n + e),): Fraction(1)}) if n + e else ONE)
            for mm, cc in pr.terms.items():
                x = acc.get(mm, 0) + cc
                if x:
                    acc[mm] = x
                else:
                    acc.pop(mm, None)
        t = NF(acc)
        if any(x.kind == "sqrt" and e >= 2 for m in t.terms for x, e in m):
            t = _sqrt_reduce(t)
        if len(t.terms) > 60000:
            raise TooBig("denominators")
    return t


def _mulclean(a, b):
    return _raw_mul(a, b)


def _sqrt_reduce(t):
    for _ in range(50):
        hit = None
        for m in t.terms:
            for a, e in m:
                if a.kind == "sqrt" and e >= 2:
                    hit = (m, a, e)
                    break
            if hit:
                break
        if not hit:
            return t
        m, a, e = hit
        c = t.terms[m]
        d = dict(m)
        h, r = divmod(e, 2)
        if r:
            d[a] = 1
        else:
            del d[a]
        rest = NF({k: v for k, v in t.terms.items() if k != m})
        repl = NF({tuple(sorted(d.items(), key=lambda q: q[0].id)): c})
        for _i in range(h):
            repl = _raw_mul(repl, a.data)
        t = add(rest, repl)
    return t


def is_identically_zero(t):
    if t.is_zero():
        return True
    try:
        return clear_denominators(t).is_zero()
    except TooBig:
        return False


# printing --------------------------------------------------------------


def show_atom(a):
    if a.kind == "var":
        return a.data
    if a.kind == "inv":
        return "1/(%s)" % show(a.data)
    if a.kind == "sqrt":
        return "sqrt(%s)" % show(a.data)
    if a.kind == "app":
        return "%s(%s)" % (a.data[0], ", ".join(_sh(x) for x in a.data[1:]))
    if a.kind == "ite":
        return "ite(%s, %s, %s)" % tuple(_sh(x) for x in a.data)
    if a.kind == "bind":
        k, p, b, body = a.data
        return "%s[%s; %s](%s)" % (
            k,
            ",".join(x.data for x in b),
            ", ".join(_sh(x) for x in p),
            show(body),
        )
    return "?"


def _sh(x):
    if isinstance(x, NF):
        return show(x)
    if isinstance(x, Bool):
        return show_bool(x)
    return str(x)


def show(t, limit=40):
    if not t.terms:
        return "0"
    parts = []
    for m, c in list(t.terms.items())[:limit]:
        fs = []
        for a, e in m:
            fs.append(show_atom(a) + ("" if e == 1 else "^%d" % e))
        s = "*".join(fs)
        if not fs:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s*%s" % (c, s)
        parts.append(s)
    if len(t.terms) > limit:
        parts.append("... (%d terms)" % len(t.terms))
    return " + ".join(parts)


def show_bool(b):
    if b.kind in ("true", "false"):
        return b.kind
    if b.kind in ("lt", "le", "eq"):
        return "(%s %s 0)" % (show(b.data), {"lt": "<", "le": "<=", "eq": "=="}[b.kind])
    if b.kind == "not":
        return "not " + show_bool(b.data)
    if b.kind in ("and", "or"):
        return "(" + (" %s " % b.kind).join(show_bool(x) for x in b.data) + ")"
    if b.kind == "bapp":
        return "%s(%s)" % (b.data[0], ", ".join(_sh(x) for x in b.data[1:]))
    return "%s %s. %s" % (b.kind, ",".join(x.data for x in b.data[0]), show_bool(b.data[1]))
