"""C16: coil currents from constraints (freegs.control)."""
from types import SimpleNamespace

from pv.registry import contract

CT = "freegs.control"


class Minimiser:
    """scipy.optimize.minimize: records the problem it is given; symbolically the
    answer is arbitrary, natively it is SciPy's"""

    def __init__(self, M, mod):
        self.M, self.calls = M, []
        self.mod = mod
        self.real = getattr(mod.optimize, "minimize", None)
        mod.optimize.minimize = self

    def __call__(self, fun, x0, args=(), method=None, bounds=None, constraints=(), **k):
        M = self.M
        if not isinstance(args, tuple):
            args = (args,)
        n = M.length(x0)
        snap = x0.copy()
        if M.symbolic:
            if k:
                from pv.core import Unsupported

                raise Unsupported("options of minimize")
            x = M.array("xmin", (n,))
        else:
            sol = self.real(fun, x0, args=args, method=method, bounds=bounds, constraints=constraints, **k)
            x = sol.x
        self.calls.append(SimpleNamespace(fun=lambda v: fun(v, *args), x0=snap, bounds=bounds, cons=constraints, x=x, n=n, args=args))
        return SimpleNamespace(x=x, success=True)

    def done(self):
        if not self.M.symbolic:
            self.mod.optimize.minimize = self.real


def problem(M, ncon):
    mc, ct = M.module("freegs.machine"), M.module(CT)
    s = SimpleNamespace()
    n = s.n = M.int("n", lo=1, sample=(1, 6))
    s.coils = M.coils("c", n)
    s.machine = mc.Machine(s.coils)
    s.coil = lambda k: M.item(s.coils, k)[1]
    s.sel = M.selected(n, lambda k: s.coil(k).control)
    s.cur = M.snapshot(lambda k: s.coil(k).current, n)
    s.ctl = M.snapshot(lambda k: s.coil(k).control, n)
    # an equilibrium: total flux and field are anything
    P, BR, BZ = M.func("P", 2), M.func("BR", 2), M.func("BZ", 2)
    if not M.symbolic:
        a = [M.rng.uniform(-1, 1) for _ in range(6)]
        P = lambda R, Z: a[0] + a[1] * R + a[2] * Z * R
        BR, BZ = (lambda R, Z: a[3] + 0.1 * R), (lambda R, Z: a[4] * Z + a[5])
    s.eq = SimpleNamespace(getMachine=lambda: s.machine, tokamak=s.machine, psiRZ=P, Br=BR, Bz=BZ)

    def at(nm):
        if M.symbolic:
            return M.real("R" + nm, gt=0), M.real("Z" + nm)
        return M.rng.uniform(0.3, 2.0), M.rng.uniform(-1, 1)

    nx, ni, np_ = ncon
    s.xp = [at("x%d" % i) for i in range(nx)]
    s.iso = [at("i%d" % i) + at("j%d" % i) for i in range(ni)]
    s.pv = [at("p%d" % i) + (M.real("psi%d" % i, sample=(-1, 1)),) for i in range(np_)]
    s.gamma = M.real("gamma", gt=0, sample=(1e-12, 1e-6))
    # rows: response of coil k, and what is wanted
    rows = []
    for r, z in s.xp:
        rows.append((lambda k, r=r, z=z: s.coil(k).controlBr(r, z), -BR(r, z)))
        rows.append((lambda k, r=r, z=z: s.coil(k).controlBz(r, z), -BZ(r, z)))
    for r, z, q, w in s.iso:
        rows.append((lambda k, r=r, z=z, q=q, w=w: s.coil(k).controlPsi(r, z) - s.coil(k).controlPsi(q, w), P(q, w) - P(r, z)))
    for r, z, v in s.pv:
        rows.append((lambda k, r=r, z=z: s.coil(k).controlPsi(r, z), v - P(r, z)))
    s.rows = rows
    s.resp = lambda row, j: row[0](s.sel.at(j))
    s.misfit = lambda x: sum((M.sum(0, s.sel.n, lambda j: s.resp(row, j) * M.at(x, j)) - row[1]) ** 2 for row in rows) \
        + s.gamma ** 2 * M.sum(0, s.sel.n, lambda j: M.at(x, j) ** 2)
    return s, ct


COUNTS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (2, 0, 1), (0, 2, 0)]


@contract("C16", "constrain", [CT + ".constrain.__call__", CT + ".constrain.__init__"], samples=60, feas=400)
def constrain(M):
    counts, lims, tot = M.choice("problem", [(c, False, False) for c in COUNTS] + [((1, 1, 1), True, False), ((1, 1, 1), False, True), ((1, 0, 1), True, True)])
    s, ct = problem(M, counts)
    kw = {}
    if lims:
        if M.symbolic:
            lo, hi = M.array("lo", (s.n,)), M.array("hi", (s.n,))
            kw["current_lims"] = M.seq(s.n, lambda k: (M.at(lo, k), M.at(hi, k)))
        else:
            lo = M.np.array([s.cur(k) - M.rng.uniform(0, 2e4) for k in range(s.n)])
            hi = M.np.array([s.cur(k) + M.rng.uniform(0, 2e4) for k in range(s.n)])
            kw["current_lims"] = [(lo[k], hi[k]) for k in range(s.n)]
    if tot:
        kw["max_total_current"] = M.real("Imax", gt=0, sample=(1e5, 1e6))
    c = ct.constrain(xpoints=s.xp, isoflux=s.iso, psivals=s.pv, gamma=s.gamma, **kw)
    mini = Minimiser(M, ct)
    try:
        c(s.eq)
    finally:
        mini.done()
    m = s.sel.n
    none = not M.symbolic and m == 0
    if not mini.calls:
        M.check("nothing to solve only without controls", M.eq(m, 0))
        M.check_all("nothing changed", (s.n,), lambda k: M.eq(s.coil(k).current, s.cur(k)))
        return
    M.check("one problem", len(mini.calls) == 1)
    q = mini.calls[0]
    M.check("an unknown for every controlled coil", M.eq(q.n, m))
    x = M.array("anyx", (m,), sample=(-1e4, 1e4))
    M.check("objective", M.eq(q.fun(x), s.misfit(x), rtol=1e-7))
    # start: regularised least squares
    A = M.table((len(s.rows), m), lambda i, j: pick(M, i, [(lambda r=r: s.resp(r, j)) for r in s.rows]))
    b = M.table((len(s.rows),), lambda i: pick(M, i, [(lambda r=r: r[1]) for r in s.rows]))
    x0 = M.regularised(A, b, s.gamma)
    if M.symbolic:
        M.check_all("start is the regularised least squares solution", (m,), lambda j: M.eq(M.at(q.x0, j), M.at(x0, j)))
    else:
        M.check("start is the regularised least squares solution", s.misfit(q.x0) <= s.misfit(x0) * (1 + 1e-6) + 1e-12 * s.misfit(0 * x0))
        if not lims and not tot:
            M.check("not worse than regularised least squares", s.misfit(q.x) <= s.misfit(x0) * (1 + 1e-6) + 1e-12 * s.misfit(0 * x0))
    if lims:
        bd = q.bounds
        M.check_all("bounds keep every current within its limits", (m,), lambda j: M.And(
            M.eq(M.at(bd, j, 0), M.at(lo, s.sel.at(j)) - s.cur(s.sel.at(j)), scale=1.0), M.eq(M.at(bd, j, 1), M.at(hi, s.sel.at(j)) - s.cur(s.sel.at(j)), scale=1.0)))
    elif q.bounds is not None:
        M.check_all("no bounds", (m,), lambda j: M.And(M.infinite(M.at(q.bounds, j, 0), -1), M.infinite(M.at(q.bounds, j, 1))))
    cons = [q.cons] if isinstance(q.cons, dict) else list(q.cons)
    if tot:
        M.check("one total current constraint", len(cons) == 1 and cons[0]["type"] == "ineq")
        cur = M.snapshot(lambda k: s.coil(k).current, s.n)
        put(M, s, s.cur)
        v = cons[0]["fun"](x)
        put(M, s, cur)
        M.check("total current", M.eq(v, kw["max_total_current"] - M.sum(0, m, lambda j: M.abs(M.at(x, j) + s.cur(s.sel.at(j)))), scale=1.0))
    else:
        M.check("no other constraint", not cons)
    M.check_all("controlled coils get the solution", (s.n,), lambda k: M.eq(s.coil(k).current, s.cur(k) + M.at(q.x, s.sel.rank(k)), scale=1.0), where=s.ctl)
    M.check_all("other coils keep their current", (s.n,), lambda k: M.eq(s.coil(k).current, s.cur(k)), where=lambda k: M.Not(s.ctl(k)))
    M.check_all("change kept", (m,), lambda j: M.eq(M.at(c.current_change, j), M.at(q.x, j)))
    M.check("remembered", s.eq._constraints is c)


def put(M, s, cur):
    M.forall_set(s.n, lambda k: M.set_current(s.coil(k), cur(k)))


def pick(M, i, fs):
    if not M.symbolic:
        return fs[i]()
    r = fs[-1]()
    for k in range(len(fs) - 2, -1, -1):
        r = M.If(M.eq(i, k), fs[k](), r)
    return r


@contract("C16", "no-constraints", [CT + ".constrain.__call__"], samples=3)
def no_constraints(M):
    s, ct = problem(M, (0, 0, 0))
    M.raises("no constraints", ValueError, lambda: ct.constrain()(s.eq))
    M.check_all("nothing changed", (s.n,), lambda k: M.eq(s.coil(k).current, s.cur(k)))


class LeastSq:
    """scipy.optimize.leastsq: records the residual function; the answer is arbitrary (natively SciPy's)"""

    def __init__(self, M, mod):
        self.M, self.calls, self.mod = M, [], mod
        self.real = getattr(mod.optimize, "leastsq", None)
        mod.optimize.leastsq = self

    def __call__(self, func, x0, args=(), **k):
        M = self.M
        if not isinstance(args, tuple):
            args = (args,)
        n = M.length(x0)
        if M.symbolic:
            if k:
                from pv.core import Unsupported

                raise Unsupported("options of leastsq")
            x = M.array("xmin", (n,))
            ier = 1
        else:
            x, ier = self.real(func, x0, args=args, **k)[:2]
        self.calls.append(SimpleNamespace(fun=lambda v: func(v, *args), x=x, n=n))
        return x, ier

    def done(self):
        if not self.M.symbolic:
            self.mod.optimize.leastsq = self.real


class FitMachine:
    """what the psi fits use of a Machine: the currents of the controlled coils"""

    def __init__(self, M, x):
        self.M, self.x = M, x

    def controlCurrents(self):
        x = self.x.copy()
        return self.M.seq(self.M.length(x), lambda k: self.M.at(x, k))

    def setControlCurrents(self, currents):
        M = self.M
        n = M.length(self.x)
        M.check("setControlCurrents gets a current for every controlled coil", M.eq(M.length(currents), n))
        x = currents.copy() if hasattr(currents, "copy") else currents
        self.x = M.table((n,), lambda k: M.at(x, k))

    def __getattr__(self, name):
        from pv.core import Unsupported

        raise Unsupported("Machine." + name)


def fit(M, norm):
    """an equilibrium whose flux follows the coil currents, and a target"""
    mc, ct = M.module("freegs.machine"), M.module(CT)
    s = SimpleNamespace(updates=[])
    if M.symbolic:
        s.n, s.nx, s.ny = M.int("n", lo=1), M.int("nx", lo=2), M.int("ny", lo=2)
    else:
        s.n, s.nx, s.ny = M.rng.randint(1, 4), M.rng.randint(2, 6), M.rng.randint(2, 6)
    s.m = s.n
    if M.symbolic:
        # contracts of controlCurrents, setControlCurrents and psi (C02, C04)
        resp = M.func("resp", 3)
        s.machine = FitMachine(M, M.array("x_start", (s.m,)))
        s.flux = lambda i, j: M.sum(0, s.m, lambda k: M.at(s.machine.x, k) * resp(k, i, j))
        s.flux_of = lambda x, i, j: M.sum(0, s.m, lambda k: M.at(x, k) * resp(k, i, j))
    else:
        coils = M.coils("c", s.n)
        s.machine = mc.Machine(coils)
        s.controlled = [c for _, c in coils if c.control]
        s.others = [(c, c.current) for _, c in coils if not c.control]
        s.m = len(s.controlled)
        M.assume(s.m > 0 and s.m < s.nx * s.ny)
    R, Z = M.table((s.nx, s.ny), lambda i, j: 0.5 + 0.1 * i), M.table((s.nx, s.ny), lambda i, j: -0.3 + 0.15 * j)
    P = M.array("P", (s.nx, s.ny), sample=(-1, 1))
    s.target = M.array("target", (s.nx, s.ny), sample=(-1, 1))
    T0 = s.target.copy()
    s.form = M.choice("weights", ["default", "number", "array"])
    s.kw = {}
    w = lambda i, j: 1
    if s.form == "number":
        v = M.real("w", gt=0, sample=(0.1, 3))
        s.kw["weights"] = v
        w = lambda i, j: v
    elif s.form == "array":
        W = M.array("W", (s.nx, s.ny), sample=(0.1, 2), lo=0)
        s.kw["weights"] = W
        w = lambda i, j: M.at(W, i, j)
        if M.symbolic:
            M.assume(M.lt(0, M.sum(0, s.nx, lambda i: M.sum(0, s.ny, lambda j: M.at(W, i, j)))))
    eq = s.eq = SimpleNamespace(R=R, Z=Z)
    eq.getMachine = lambda: s.machine
    eq.tokamak = s.machine
    if M.symbolic:
        eq.psi = lambda: M.table((s.nx, s.ny), lambda i, j: M.at(P, i, j) + s.flux(i, j))
    else:
        eq.psi = lambda: P + s.machine.psi(R, Z)
    A, B = M.real("psi_axis", sample=(1, 2)), M.real("psi_bndry", sample=(-2, -1))
    if M.symbolic:
        M.assume(M.Not(M.eq(A, B)))

    def update(psi=None):
        s.updates.append(psi)
        eq.psi_axis, eq.psi_bndry = A, B

    eq._updateBoundaryPsi = update
    tot = lambda f: M.sum(0, s.nx, lambda i: M.sum(0, s.ny, lambda j: f(i, j)))
    avg = lambda f: tot(lambda i, j: f(i, j) * w(i, j)) / (tot(w) if s.form != "number" else w(0, 0) * s.nx * s.ny)

    def want(x):
        """difference of flux and target for currents x of the controlled coils"""
        if M.symbolic:
            psi = lambda i, j: M.at(P, i, j) + s.flux_of(x, i, j)
        else:
            tot0 = P + sum(c.current * c.controlPsi(R, Z) for c, _ in s.others) + sum(v * c.controlPsi(R, Z) for v, c in zip(x, s.controlled))
            psi = lambda i, j: tot0[i, j]
        if norm:
            return lambda i, j: ((psi(i, j) - A) / (B - A) - M.at(T0, i, j)) * w(i, j)
        off = avg(psi) - avg(lambda i, j: M.at(T0, i, j))
        return lambda i, j: (psi(i, j) - M.at(T0, i, j) - off) * w(i, j)

    s.want, s.ct = want, ct
    return s


def currents(M, s):
    return s.machine.x.copy() if M.symbolic else M.np.array([c.current for c in s.controlled])


def finish(M, s, c, q, now):
    M.check_all("controlled coils get the solution", (s.m,), lambda k: M.eq(M.at(now, k), M.at(q.x, k), scale=1.0))
    if not M.symbolic:
        M.check("other coils keep their current", all(c.current == v for c, v in s.others))
    M.check("remembered", s.eq._constraints is c)


def least_squares(M, norm):
    s = fit(M, norm)
    c = (s.ct.ConstrainPsiNorm2D if norm else s.ct.ConstrainPsi2D)(s.target, **s.kw)
    ls = LeastSq(M, s.ct)
    try:
        c(s.eq)
    finally:
        ls.done()
    M.check("one fit", len(ls.calls) == 1)
    q = ls.calls[0]
    M.check("an unknown for every controlled coil", M.eq(q.n, s.m))
    now = currents(M, s)
    x = M.array("anyx", (s.m,), sample=(-1e4, 1e4))
    r = q.fun(x)
    f = s.want(x)
    M.check_all("residual", (s.nx, s.ny), lambda i, j: M.eq(M.at(r, i * s.ny + j), f(i, j), rtol=1e-7, scale=1e-6))
    finish(M, s, c, q, now)


def bounded_fit(M, norm):
    s = fit(M, norm)
    lims = M.choice("limits", [True, False])
    if lims:
        if M.symbolic:
            l1, l2 = M.array("l1", (s.m,)), M.array("l2", (s.m,))
            s.kw["current_lims"] = M.seq(s.m, lambda k: (M.at(l1, k), M.at(l2, k)))
        else:
            l1, l2 = M.np.array([M.rng.uniform(-2e4, 2e4) for _ in range(s.m)]), M.np.array([M.rng.uniform(-2e4, 2e4) for _ in range(s.m)])
            s.kw["current_lims"] = [(l1[k], l2[k]) for k in range(s.m)]
    c = (s.ct.ConstrainPsiNorm2DAdvanced if norm else s.ct.ConstrainPsi2DAdvanced)(s.target, **s.kw)
    mini = Minimiser(M, s.ct)
    try:
        c(s.eq)
    finally:
        mini.done()
    M.check("one fit", len(mini.calls) == 1)
    q = mini.calls[0]
    m = s.m
    M.check("an unknown for every controlled coil", M.eq(q.n, m))
    if lims:
        lo = lambda j: M.min(M.at(l1, j), M.at(l2, j))
        hi = lambda j: M.max(M.at(l1, j), M.at(l2, j))
        M.check_all("limits", (m,), lambda j: M.And(M.eq(M.at(q.bounds, j, 0), lo(j)), M.eq(M.at(q.bounds, j, 1), hi(j))))
        M.check_all("start within the limits", (m,), lambda j: M.And(M.le(lo(j), M.at(q.x0, j)), M.le(M.at(q.x0, j), hi(j))))
        if not M.symbolic:
            M.check_all("result within the limits", (m,), lambda j: M.And(M.le(lo(j), M.at(q.x, j), tol=1e-6), M.le(M.at(q.x, j), hi(j), tol=1e-6)))
    elif q.bounds is not None:
        M.check_all("no limits", (m,), lambda j: M.And(M.infinite(M.at(q.bounds, j, 0), -1), M.infinite(M.at(q.bounds, j, 1))))
    now = currents(M, s)
    x = M.array("anyx", (m,), sample=(-1e4, 1e4))
    f = s.want(x)
    M.check("objective", M.eq(q.fun(x), M.sum(0, s.nx, lambda i: M.sum(0, s.ny, lambda j: f(i, j) ** 2)), rtol=1e-7))
    finish(M, s, c, q, now)


@contract("C16", "psi-fit", [CT + ".ConstrainPsi2D." + f for f in ("__init__", "__call__", "psi_difference")], samples=30, feas=400)
def psi_fit(M):
    least_squares(M, False)


@contract("C16", "psinorm-fit", [CT + ".ConstrainPsiNorm2D." + f for f in ("__init__", "__call__", "psinorm_difference")], samples=30, feas=400)
def psinorm_fit(M):
    least_squares(M, True)


@contract("C16", "psi-fit-limits", [CT + ".ConstrainPsi2DAdvanced." + f for f in ("__init__", "__call__", "psi_difference")], samples=30, feas=400)
def psi_fit_limits(M):
    bounded_fit(M, False)


@contract("C16", "psinorm-fit-limits", [CT + ".ConstrainPsiNorm2DAdvanced." + f for f in ("__init__", "__call__", "psinorm_difference")], samples=30, feas=400)
def psinorm_fit_limits(M):
    bounded_fit(M, True)
