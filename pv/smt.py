"""Discharging obligations: own normal-form back end first, z3 for the rest."""
import itertools
import time
from fractions import Fraction
import z3
from . import terms as T

STATS = {"nf": 0, "z3": 0, "z3_time": 0.0, "z3_queries": 0, "feas": 0}
TIMEOUT_MS = [8000]


_SKEL = {}


class Tr:
    """translation to z3; one instance per query"""

    def __init__(self, formulas=None):
        self.cache = {}
        self.side = []
        self.made = []  # fresh variables and what defines them
        self.vars = {}
        # argument places that are integers throughout the query become Int
        self.realpos = None
        if formulas is not None:
            self.realpos = set()
            for b in formulas:
                self.realpos |= real_places(b)

    def arg(self, f, n, i, x):
        if isinstance(x, T.Bool):
            return self.boolean(x), z3.BoolSort()
        if self.realpos is not None and f not in AXIOMS and (f, n, i) not in self.realpos:
            return self.intish(x), z3.IntSort()
        return self.real(x), z3.RealSort()

    def sort(self, s):
        return z3.IntSort() if s == "I" else z3.RealSort()

    def atom(self, a):
        r = self.cache.get(a)
        if r is not None:
            return r
        if a.kind == "var":
            r = z3.Int(a.data) if a.sort == "I" else z3.Real(a.data)
            self.vars[a.data] = r
        elif a.kind == "inv":
            d = self.real(a.data)
            r = z3.FreshReal("inv")
            self.side.append(d * r == 1)
            self.made.append((r, d))
            self.side.append(d != 0)
        elif a.kind == "sqrt":
            d = self.real(a.data)
            r = z3.FreshReal("sqrt")
            self.side.append(r * r == d)
            self.made.append((r, d))
            self.side.append(r >= 0)
        elif a.kind == "ite":
            c, x, y = a.data
            r = z3.If(self.boolean(c), self.real(x), self.real(y))
        elif a.kind == "app":
            f = a.data[0]
            args = a.data[1:]
            if f == "max0":
                n = self.intish(args[0])
                r = z3.If(n > 0, n, z3.IntVal(0))
            elif f == "floordiv" and T.is_int(args[0]) and T.is_int(args[1]):
                x, y = self.intish(args[0]), self.intish(args[1])
                r = x / y if args[1].is_const() and args[1].const() > 0 else z3.If(y > 0, x / y, (-x) / (-y))
            elif f == "mod" and T.is_int(args[0]) and T.is_int(args[1]):
                r = self.intish(args[0]) % self.intish(args[1])
            elif f == "floor":
                r = z3.ToInt(self.real(args[0]))
            elif f == "abs":
                x = self.real(args[0])
                r = z3.If(x >= 0, x, -x)
            else:
                zs = []
                ss = []
                for i, x in enumerate(args):
                    z, so = self.arg(f, len(args), i, x)
                    zs.append(z)
                    ss.append(so)
                fn = z3.Function(
                    "%s/%d%s" % (f, len(zs), a.sort), *(ss + [self.sort(a.sort)])
                )
                r = fn(*zs)
                for ax in AXIOMS.get(f, ()):
                    self.side.extend(ax(r, zs))
        elif a.kind == "bind":
            # opaque: one function symbol per closed skeleton, applied to its
            # free variables so substitution instances stay related
            fv = sorted(T.free_atoms(a), key=lambda x: x.data)
            sk = T.subst(
                T.of_atom(a),
                {v: T.of_atom(T.mk_atom("var", "%%%d" % i, v.sort)) for i, v in enumerate(fv)},
            )
            name = "bind:%d" % _SKEL.setdefault(sk, len(_SKEL))
            ss = [self.sort(v.sort) for v in fv]
            if ss:
                r = z3.Function(name, *(ss + [z3.RealSort()]))(*[self.atom(v) for v in fv])
            else:
                r = z3.Real(name)
        else:
            raise AssertionError(a.kind)
        self.cache[a] = r
        return r

    def intish(self, t):
        """z3 integer expression for an integer polynomial"""
        out = None
        den = 1
        for c in t.terms.values():
            den = den * c.denominator // T._gcd(den, c.denominator)
        if den != 1:
            return z3.ToInt(self.real(t))
        for m, c in t.terms.items():
            e = z3.IntVal(int(c))
            for a, k in m:
                x = self.atom(a)
                if x.sort() != z3.IntSort():
                    x = z3.ToInt(x)
                for _ in range(k):
                    e = e * x
            out = e if out is None else out + e
        return out if out is not None else z3.IntVal(0)

    def real(self, t):
        if T.is_int(t) and all(c.denominator == 1 for c in t.terms.values()):
            return z3.ToReal(self.intish(t))
        out = None
        for m, c in t.terms.items():
            e = z3.RealVal(c)
            dn = None
            for a, k in m:
                x = self.atom(a)
                if x.sort() == z3.IntSort():
                    x = z3.ToReal(x)
                if k > 0:
                    for _ in range(k):
                        e = e * x
                else:
                    iv = self.cache.get(("inv", a))
                    if iv is None:
                        iv = z3.FreshReal("inv")
                        self.side.append(x * iv == 1)
                        self.made.append((iv, x))
                        self.cache[("inv", a)] = iv
                    for _ in range(-k):
                        e = e * iv
            out = e if out is None else out + e
        return out if out is not None else z3.RealVal(0)

    def boolean(self, b):
        if b.kind == "true":
            return z3.BoolVal(True)
        if b.kind == "false":
            return z3.BoolVal(False)
        if b.kind in ("lt", "le", "eq"):
            t = b.data
            # clear rational coefficients for integers
            den = 1
            for c in t.terms.values():
                den = den * c.denominator // T._gcd(den, c.denominator)
            if T.is_int(t):
                e = self.intish(T.scale(t, den))
                zero = z3.IntVal(0)
            else:
                e = self.real(t)
                zero = z3.RealVal(0)
            return {"lt": e < zero, "le": e <= zero, "eq": e == zero}[b.kind]
        if b.kind == "not":
            return z3.Not(self.boolean(b.data))
        if b.kind == "and":
            return z3.And([self.boolean(x) for x in b.data])
        if b.kind == "or":
            return z3.Or([self.boolean(x) for x in b.data])
        if b.kind == "bapp":
            zs = []
            ss = []
            for i, x in enumerate(b.data[1:]):
                z, so = self.arg(b.data[0], len(b.data) - 1, i, x)
                zs.append(z)
                ss.append(so)
            if not zs:
                return z3.Bool(str(b.data[0]))
            return z3.Function("%s/%dB" % (b.data[0], len(zs)), *(ss + [z3.BoolSort()]))(*zs)
        if b.kind in ("forall", "exists"):
            bvs, body = b.data
            n0, m0 = len(self.side), len(self.made)
            zb = [self.atom(v) for v in bvs]
            e = self.boolean(body)
            extra = self.side[n0:]
            del self.side[n0:]
            # what depends on the bound variables is bound with them
            own = {z.get_id() for z in zb}
            also = []
            for r, d in self.made[m0:]:
                if _mentions(d, own):
                    own.add(r.get_id())
                    also.append(r)
            self.side += [x for x in extra if not _mentions(x, own)]
            extra = [x for x in extra if _mentions(x, own)]
            if extra:
                e = z3.Implies(z3.And(extra), e) if b.kind == "forall" else z3.And(extra + [e])
                # drop cached encodings that mention the bound variables
                self.cache = {
                    k: v
                    for k, v in self.cache.items()
                    if not (T.free_atoms(k if isinstance(k, T.Atom) else k[1]) & set(bvs))
                }
            zb = zb + also
            return z3.ForAll(zb, e) if b.kind == "forall" else z3.Exists(zb, e)
        raise AssertionError(b.kind)


def _mentions(e, ids):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i not in seen:
            seen.add(i)
            todo.extend(x.children())
    return False


_PLACES = {}
_EMPTY = frozenset()


def _intarg(x):
    return T.is_int(x) and all(c.denominator == 1 for c in x.terms.values())


def real_places(x):
    """(function, arity, place) with a non-integer argument somewhere in x"""
    r = _PLACES.get(x)
    if r is not None:
        return r
    out = set()
    if isinstance(x, T.NF):
        for m in x.terms:
            for a, _ in m:
                out |= real_places(a)
    elif isinstance(x, T.Bool):
        if x.kind in ("lt", "le", "eq", "not"):
            out |= real_places(x.data)
        elif x.kind in ("and", "or"):
            for y in x.data:
                out |= real_places(y)
        elif x.kind == "bapp":
            _app_places(x.data, out)
        elif x.kind in ("forall", "exists"):
            out |= real_places(x.data[1])
    elif x.kind == "app":
        _app_places(x.data, out)
    elif x.kind == "ite":
        for y in x.data:
            out |= real_places(y)
    elif x.kind in ("inv", "sqrt"):
        out |= real_places(x.data)
    r = frozenset(out) if out else _EMPTY
    _PLACES[x] = r
    return r


def _app_places(data, out):
    f, args = data[0], data[1:]
    for i, y in enumerate(args):
        if isinstance(y, T.NF) and not _intarg(y):
            out.add((f, len(args), i))
        out |= real_places(y)


# axioms about assumed library functions: name -> list of fn(result, args) -> [z3]
AXIOMS = {}


def relevant(pc, goal_free):
    """transitively relevant hypotheses"""
    fr = set(goal_free)
    rest = list(pc)
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for p in rest:
            f = T.free_atoms(p)
            if not f or f & fr:
                out.append(p)
                if not f <= fr:
                    fr |= f
                    changed = True
            else:
                nxt.append(p)
        rest = nxt
    return out


# axioms of named symbols: ((names), [formulas]) added when a symbol occurs
GLOBAL = []


def _names(pc, goal):
    seen = set()
    for b in list(pc) + [goal]:
        for a in T.all_atoms(b):
            if a.kind == "app":
                seen.add(a.data[0])
    return seen


def _with_globals(pc, goal):
    if not GLOBAL:
        return pc
    out = list(pc)
    used = set()
    while True:
        names = _names(out, goal)
        add = [i for i, (ns, ax) in enumerate(GLOBAL) if i not in used and any(n in names for n in ns)]
        if not add:
            return out
        for i in add:
            used.add(i)
            out.extend(GLOBAL[i][1])


def query(pc, neg_goal, timeout=None, want_model=False):
    """check satisfiability of pc and neg_goal. returns ('unsat'|'sat'|'unknown', model|None)"""
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS[0])
    t0 = time.time()
    pc = _with_globals(pc, neg_goal)
    tr = Tr(list(pc) + [neg_goal])
    fs = [tr.boolean(p) for p in pc]
    g = tr.boolean(neg_goal)
    for f in fs:
        s.add(f)
    s.add(g)
    for f in tr.side:
        s.add(f)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS["z3_time"] += dt
    STATS["z3_queries"] += 1
    if DUMP is not None:
        DUMP.append((s.to_smt2(), str(r)))
    if r == z3.unsat:
        return "unsat", None
    if r == z3.sat:
        m = s.model()
        vals = {}
        for n, v in tr.vars.items():
            try:
                x = m.eval(v, model_completion=True)
                vals[n] = _pyval(x)
            except Exception:
                pass
        return "sat", vals
    return "unknown", None


DUMP = None


def _pyval(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        y = x.approx(20)
        return float(Fraction(y.numerator_as_long(), y.denominator_as_long()))
    return str(x)


_feas_cache = {}


def _cheap(b):
    """only formulas z3 decides quickly take part in feasibility pruning"""
    return True


# feasibility from the quantifier free part of the path condition only
LIGHT = [False]


def skolem_prove(pc, goal):
    """a universally quantified goal put to z3 as it is"""
    if goal.kind == "forall":
        bvs, body = goal.data
        goal = T.subst(body, {v: T.of_atom(T.mk_atom("var", T.fresh_name(v.data), v.sort)) for v in bvs})
    return _z3_goal(pc, goal)


FEAS_MS = [1500]


def feasible(pc, extra, timeout=None):
    """may return True for an infeasible condition (sound over-approximation)"""
    timeout = timeout or FEAS_MS[0]
    if extra is T.FALSE:
        return False
    if Tfalse(pc):
        return False
    if LIGHT[0]:
        pc = [p for p in pc if not has_quantifier(p)]
    rel = relevant(pc, T.free_atoms(extra))
    key = (frozenset(rel), extra)
    r = _feas_cache.get(key)
    if r is None and not feasible_qf(rel, extra, timeout):
        r = _feas_cache[key] = False
    if r is None:
        STATS["feas"] += 1
        st, _ = query(rel, extra, timeout=timeout)
        r = st != "unsat"
        _feas_cache[key] = r
    return r


def feasible_qf(pc, extra, timeout=None):
    """the same from the quantifier-free facts only"""
    qf = [p for p in pc if not has_quantifier(p)]
    if len(qf) == len(pc) or not qf and has_quantifier(extra):
        return True
    rel = relevant(qf, T.free_atoms(extra))
    key = (frozenset(rel), extra)
    r = _feas_cache.get(key)
    if r is None:
        STATS["feas"] += 1
        st, _ = query(rel, extra, timeout=timeout or FEAS_MS[0])
        r = _feas_cache[key] = st != "unsat"
    return r


def _int_only(b):
    return not has_quantifier(b) and all(a.sort == "I" and a.kind == "var" for a in T.all_atoms(b))


def feasible_int(pc, extra):
    """(extra, its negation) feasible by the facts about integers alone; None when extra is about more"""
    if not _int_only(extra):
        return None
    ints = [p for p in pc if _int_only(p)]
    if len(ints) == len(pc):
        return None
    out = []
    for x in (extra, T.Not(extra)):
        rel = relevant(ints, T.free_atoms(x))
        key = (frozenset(rel), x)
        r = _feas_cache.get(key)
        if r is None:
            STATS["feas"] += 1
            st, _ = query(rel, x, timeout=FEAS_MS[0])
            r = _feas_cache[key] = st != "unsat"
        out.append(r)
    return out


def has_quantifier(b):
    if b.kind in ("forall", "exists"):
        return True
    if b.kind == "not":
        return has_quantifier(b.data)
    if b.kind in ("and", "or"):
        return any(has_quantifier(x) for x in b.data)
    return False


def Tfalse(pc):
    return any(p is T.FALSE for p in pc)


def entails(pc, b, timeout=None):
    if b is T.TRUE:
        return True
    if b in pc:
        return True
    return not feasible(pc, T.Not(b), timeout)


# --------------------------------------------------------------- equality


def _solve_equalities(pc):
    """substitution from equalities in pc whose some variable occurs linearly
    with constant coefficient (and nowhere else in the equality)"""
    sub = {}
    for p in pc:
        for q in T.conj(p):
            if q.kind != "eq":
                continue
            t = T.subst(q.data, sub)
            cand = None
            for m, c in t.terms.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
                    a = m[0][0]
                    others = [x for mm in t.terms if mm != m for x, _ in mm]
                    if any(a in T.free_atoms(x) for x in others):
                        continue
                    if a.sort == "I" and not (T.is_int(t) and abs(c) == 1):
                        continue
                    if cand is None or a.id > cand[0].id:
                        cand = (a, c)
            if cand:
                a, c = cand
                val = T.scale(T.sub(t, T.scale(T.of_atom(a), c)), -1 / c)
                sub = {k: T.subst(v, {a: val}) for k, v in sub.items()}
                sub[a] = val
    return sub


def _top_ites(t):
    """ite conditions occurring outside binders"""
    out = []
    seen = set()

    def walk(x):
        if isinstance(x, T.NF):
            for m in x.terms:
                for a, e in m:
                    walk(a)
        elif isinstance(x, T.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind == "ite":
                walkb(x.data[0])
                out.append(x.data[0])
                walk(x.data[1])
                walk(x.data[2])
            elif x.kind in ("inv", "sqrt"):
                walk(x.data)
            elif x.kind == "app":
                for y in x.data[1:]:
                    if isinstance(y, T.NF):
                        walk(y)
                    else:
                        walkb(y)
            elif x.kind == "bind":
                for y in x.data[1]:
                    walk(y)

    def walkb(b):
        if b.kind in ("lt", "le", "eq"):
            walk(b.data)
        elif b.kind == "not":
            walkb(b.data)
        elif b.kind in ("and", "or"):
            for y in b.data:
                walkb(y)

    walk(t)
    return out


def decide_cond(t, c, truth):
    """replace ites on condition c (also where c is a conjunct/disjunct)"""
    known = {}
    if truth:
        for q in T.conj(c):
            known[q] = T.TRUE
            known[T.Not(q)] = T.FALSE
    else:
        if c.kind == "or":
            for q in c.data:
                known[q] = T.FALSE
                known[T.Not(q)] = T.TRUE
    known[c] = T.TRUE if truth else T.FALSE
    known[T.Not(c)] = T.FALSE if truth else T.TRUE

    def simp(b):
        r = known.get(b)
        if r is not None:
            return r
        if b.kind == "not":
            return T.Not(simp(b.data))
        if b.kind == "and":
            return T.And(*[simp(x) for x in b.data])
        if b.kind == "or":
            return T.Or(*[simp(x) for x in b.data])
        return b

    def f(a):
        if a.kind == "ite":
            cc, x, y = a.data
            c2 = simp(cc)
            if c2 is T.TRUE:
                return T.map_atoms(x, f)
            if c2 is T.FALSE:
                return T.map_atoms(y, f)
            if c2 is not cc:
                return T.ite(c2, T.map_atoms(x, f), T.map_atoms(y, f))
        return None

    return T.map_atoms(t, f)


class Result:
    def __init__(self, status, detail="", model=None, backend="nf"):
        self.status = status  # proved | refuted | unknown
        self.detail = detail
        self.model = model
        self.backend = backend

    def __repr__(self):
        return "Result(%s,%s,%s)" % (self.status, self.backend, self.detail[:200])


def _zero(d):
    if d.is_zero():
        return True
    if len(d.terms) > 400 and _top_ites(d):
        return False
    return T.is_identically_zero(d)


def prune(pc, d):
    """resolve the conditionals of d whose condition is settled by pc"""
    for _ in range(200):
        hit = False
        for c in _top_ites(d):
            if not feasible(pc, c):
                d = decide_cond(d, c, False)
                hit = True
            elif not feasible(pc, T.Not(c)):
                d = decide_cond(d, c, True)
                hit = True
        if not hit:
            break
    return d


def prove_zero(pc, d, depth=0, budget=None):
    """prove the arithmetic term d equals zero under pc"""
    if budget is None:
        budget = [600, time.time() + 60]
    budget[0] -= 1
    if budget[0] < 0 or time.time() > budget[1]:
        return Result("unknown", "case-split budget")
    if _zero(d):
        return Result("proved")
    sub = _solve_equalities(pc)
    if sub:
        d2 = T.subst(d, sub)
        if _zero(d2):
            return Result("proved")
        pc2 = [T.subst(p, sub) for p in pc]
    else:
        d2, pc2 = d, list(pc)
    conds = _top_ites(d2)
    if len(conds) > 2:
        d2 = prune(pc2, d2)
        if _zero(d2):
            return Result("proved", backend="nf+z3")
        conds = _top_ites(d2)
    if conds:
        # prefer conditions without nested ite
        c = conds[0]
        backend = "nf"
        for truth in (True, False):
            cc = c if truth else T.Not(c)
            if not feasible(pc2, cc):
                backend = "nf+z3"
                continue
            d3 = decide_cond(d2, c, truth)
            r = prove_zero(pc2 + [cc], d3, depth + 1, budget)
            if r.status != "proved":
                return r
            if r.backend != "nf":
                backend = r.backend
        return Result("proved", backend=backend)
    # binders: combine those of the same range and prove the body pointwise
    r = _prove_binders(pc2, d2, budget)
    if r is not None and r.status == "proved":
        return r
    # abs / max0 and the rest: z3
    goal = T.eq(d2, T.ZERO)
    r3 = _z3_goal(pc2, goal)
    if r3.status == "unknown" and sub:
        r3b = _z3_goal(list(pc), T.eq(d, T.ZERO))
        if r3b.status != "unknown":
            r3 = r3b
    if r3.status == "refuted" and sub:
        # complete the model with the solved variables
        m = dict(r3.model or {})
        for a, v in sub.items():
            try:
                m[a.data] = eval_model(v, m)
            except Exception:
                pass
        r3.model = m
    return r3


def eval_model(t, m):
    tot = 0
    for mono, c in t.terms.items():
        v = Fraction(c)
        for a, e in mono:
            x = m[a.data]
            v = v * (Fraction(x) ** e)
        tot += v
    return int(tot) if Fraction(tot).denominator == 1 else float(tot)


def _prove_binders(pc, d, budget):
    groups = {}
    rest = {}
    for m, c in d.terms.items():
        bs = [(a, e) for a, e in m if a.kind == "bind"]
        if len(bs) == 1 and bs[0][1] == 1:
            a = bs[0][0]
            kind, params, bvs, body = a.data
            other = tuple(x for x in m if x[0] is not a)
            groups.setdefault((kind, params, len(bvs)), []).append((other, c, bvs, body))
        else:
            rest[m] = c
    if not groups:
        return None
    d_rest = T.NF(rest)
    # merge groups whose params are provably equal
    keys = list(groups)
    merged = []
    for k in keys:
        for mk, lst in merged:
            if mk[0] == k[0] and mk[2] == k[2] and len(mk[1]) == len(k[1]) and all(
                _eq_param(pc, x, y) for x, y in zip(mk[1], k[1])
            ):
                lst.extend(groups[k])
                break
        else:
            merged.append((k, list(groups[k])))
    if d_rest.terms:
        rr = prove_zero(pc, d_rest, 1, budget)
        if rr.status != "proved":
            return None
    backend = "nf"
    for (kind, params, nb), lst in merged:
        fresh = tuple(T.mk_atom("var", T.fresh_name("k"), "I") for _ in range(nb))
        tot = T.ZERO
        for other, c, bvs, body in lst:
            b = T.subst(body, {x: T.of_atom(y) for x, y in zip(bvs, fresh)})
            tot = T.add(tot, T.mul(T.NF({other: c}), b))
        rng = BIND_RANGES.get(kind, _range_sum)(params, fresh)
        r = prove_zero(list(pc) + rng, tot, 1, budget)
        if r.status != "proved":
            return Result("unknown", "binder body: " + r.detail)
        if r.backend != "nf":
            backend = r.backend
    return Result("proved", backend=backend)


def _eq_param(pc, x, y):
    if x == y:
        return True
    return entails(pc, T.eq(x, y))


def _range_sum(params, ks):
    out = []
    for i, k in enumerate(ks):
        lo, hi = params[2 * i], params[2 * i + 1]
        out.append(T.le(lo, T.of_atom(k)))
        out.append(T.lt(T.of_atom(k), hi))
    return out


BIND_RANGES = {}


def _ground(pc, goal):
    """integer constants of the goal, then witnesses of loops left early"""
    out = []
    for src in [goal] + list(reversed(pc)):
        for a in sorted(T.free_atoms(src), key=lambda a: a.id):
            if a.kind == "var" and a.sort == "I" and a not in out and (src is goal or a.data.startswith(("w!", "i!"))):
                out.append(a)
    return out[:6]


def _instances(b, pos, ground, out, depth=0):
    """quantifier-free consequences of b (of its negation when not pos)"""
    if b.kind == "not":
        return _instances(b.data, not pos, ground, out, depth)
    if b.kind in (("and",) if pos else ("or",)):
        for x in b.data:
            _instances(x, pos, ground, out, depth)
        return
    if b.kind == ("forall" if pos else "exists"):
        bvs, body = b.data
        if any(v.sort != "I" for v in bvs) or depth > 2:
            return
        for combo in itertools.product(ground, repeat=len(bvs)):
            _instances(T.subst(body, {v: T.of_atom(g) for v, g in zip(bvs, combo)}), pos, ground, out, depth + 1)
        return
    if b.kind in (("or",) if pos else ("and",)):
        # a disjunction: every part weakened to its quantifier-free consequences
        parts = []
        for x in b.data:
            sub = []
            _instances(x, pos, ground, sub, depth)
            parts.append(T.And(*sub) if sub else T.TRUE)
        out.append(T.Or(*parts))
        return
    if has_quantifier(b):
        return
    out.append(b if pos else T.Not(b))


def _witnesses(pc):
    """facts that something exists, of a named integer"""
    out, wit = [], []
    for p in pc:
        q = p if p.kind == "exists" else T.Not(p.data.data[1]) if p.kind == "not" and p.data.kind == "forall" else None
        if q is None:
            out.append(p)
            continue
        bvs, body = p.data if p.kind == "exists" else (p.data.data[0], q)
        if p.kind == "exists":
            q = body
        if any(v.sort != "I" for v in bvs):
            out.append(p)
            continue
        fresh = {v: T.mk_atom("var", T.fresh_name("w!"), "I") for v in bvs}
        wit += list(fresh.values())
        out += list(T.conj(T.subst(q, {v: T.of_atom(a) for v, a in fresh.items()})))
    return out, wit


def _instantiated(pc, goal):
    """goal from instances of the quantified facts at the integers at hand"""
    qs = [p for p in pc if has_quantifier(p)]
    if not qs and not has_quantifier(goal):
        return None
    pc, wit = _witnesses(pc)
    ground = (wit + _ground(pc, goal))[:6]
    if not ground:
        return None
    out = []
    for p in list(pc) + [T.Not(goal)]:
        _instances(p, True, ground, out)
        if len(out) > 600:
            return None
    st, _ = query(out, T.TRUE, timeout=4000)
    if st == "unsat":
        return Result("proved", backend="z3")
    return None


def _z3_goal(pc, goal):
    if goal is T.TRUE:
        return Result("proved")
    STATS["z3"] += 1
    rel = relevant(pc, T.free_atoms(goal))
    if any(has_quantifier(p) for p in pc) or has_quantifier(goal):
        if query(rel, T.Not(goal), timeout=800)[0] == "unsat":
            return Result("proved", backend="z3")
        r = _instantiated(pc, goal)
        if r is not None:
            return r
    st, model = query(rel, T.Not(goal))
    if st == "unsat":
        return Result("proved", backend="z3")
    if st == "sat":
        # confirm with the full path condition for a complete model
        st2, m2 = query(list(pc), T.Not(goal), timeout=3000)
        if st2 == "unsat":
            return Result("proved", backend="z3")
        return Result("refuted", "not " + T.show_bool(goal)[:800], m2 or model, backend="z3")
    return Result("unknown", "z3 unknown on " + T.show_bool(goal)[:800], backend="z3")


def prove(pc, goal, budget=None):
    """goal: Bool"""
    pc = [q for p in pc for q in T.conj(p)]
    if goal is T.TRUE:
        return Result("proved")
    if goal.kind == "and":
        backend = "nf"
        for g in goal.data:
            r = prove(pc, g, budget)
            if r.status != "proved":
                return r
            if r.backend != "nf":
                backend = r.backend
        return Result("proved", backend=backend)
    if goal.kind == "eq":
        return prove_zero(pc, goal.data, 0, budget)
    if goal in pc:
        return Result("proved")
    if goal.kind == "forall":
        bvs, body = goal.data
        fresh = {v: T.of_atom(T.mk_atom("var", T.fresh_name(v.data), v.sort)) for v in bvs}
        return prove(pc, T.subst(body, fresh), budget)
    if goal.kind == "or":
        # split implications: assume the negation of all but one equality
        eqs = [g for g in goal.data if g.kind == "eq"]
        if len(eqs) == 1:
            rest = [T.Not(g) for g in goal.data if g is not eqs[0]]
            r = prove_zero(pc + [q for p in rest for q in T.conj(p)], eqs[0].data, 0, budget)
            if r.status == "proved":
                return r
        eqs2 = [g for g in goal.data if g.kind in ("forall", "and")]
        if len(eqs2) == 1:
            rest = [T.Not(g) for g in goal.data if g is not eqs2[0]]
            r = prove(pc + [q for p in rest for q in T.conj(p)], eqs2[0], budget)
            if r.status == "proved":
                return r
    if budget is None and any(a.kind == "ite" for a in T.all_atoms(goal)):
        # before indices are solved away
        r = _instantiated(pc, goal)
        if r is not None:
            return r
    if goal.kind in ("le", "lt", "not", "or"):
        # case split on conditionals inside the goal
        conds = []
        src = goal
        for a in T.all_atoms(src):
            if a.kind == "ite":
                conds.append(a.data[0])
        if conds and len(conds) <= 12:
            c = conds[0]
            ok = True
            res = None
            for truth in (True, False):
                cc = c if truth else T.Not(c)
                if not feasible(pc, cc):
                    continue
                g2 = decide_cond(src, c, truth)
                res = prove(pc + list(T.conj(cc)), g2, budget)
                if res.status != "proved":
                    ok = False
                    break
            if ok:
                return res or Result("proved", backend="z3")
            if res.status == "refuted":
                return res
    sub = _solve_equalities(pc)
    if sub:
        g2 = T.subst(goal, sub)
        pc2 = [T.subst(p, sub) for p in pc]
        r = _z3_goal(pc2, g2)
        if r.status == "proved":
            return r
        r2 = _z3_goal(pc, goal)
        return r2 if r2.status != "unknown" else r
    return _z3_goal(pc, goal)
