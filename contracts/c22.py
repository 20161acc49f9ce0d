"""C22: flux surfaces, separatrix and safety factor (freegs.critical, Equilibrium)."""
from types import SimpleNamespace

from pv.registry import contract
from contracts.eqm import EQ, equilibrium

CR = "freegs.critical."
E = EQ + ".Equilibrium."


def fresh(base):
    from pv import terms as T

    return T.fresh_name(base)


def grid(M, big=5):
    s = SimpleNamespace()
    s.nx, s.ny = M.int("nx", lo=big, sample=(max(big, 17), 65)), M.int("ny", lo=big, sample=(max(big, 17), 65))
    s.Rmin, s.Zmin = M.real("Rmin", gt=0, sample=(0.1, 0.6)), M.real("Zmin", sample=(-1.5, -0.5))
    s.dR, s.dZ = M.real("dR", gt=0, sample=(0.02, 0.03)), M.real("dZ", gt=0, sample=(0.03, 0.06))
    s.Rat, s.Zat = (lambda i: s.Rmin + i * s.dR), (lambda j: s.Zmin + j * s.dZ)
    s.Rmax, s.Zmax = s.Rat(s.nx - 1), s.Zat(s.ny - 1)
    s.R, s.Z = M.table((s.nx, s.ny), lambda i, j: s.Rat(i)), M.table((s.nx, s.ny), lambda i, j: s.Zat(j))
    return s


def share(M, a, b, lo, hi):
    """how much of the way from a, within [lo, hi], to b lies within"""
    if M.decide(M.And(M.le(b - a, 1e-6), M.le(a - b, 1e-6))):
        return 1
    if M.decide(M.lt(b, lo)):
        return (a - lo) / (a - b)
    if M.decide(M.lt(hi, b)):
        return (hi - a) / (b - a)
    return 1


STEPS = [0, 1e-7, -1e-7, 0.3, -0.3, 4.0, -4.0, 0.1, -0.2, 1.1, -2.3, 10.0, -10.0]


@contract("C22", "surface-point", [CR + "find_psisurface"], samples=200)
def point(M):
    cr = M.module("freegs.critical")
    s = grid(M)
    n = M.int("n", lo=2, sample=(2, 200))
    r0, z0 = M.real("r0", sample=(s.Rmin, s.Rmax)), M.real("z0", sample=(s.Zmin, s.Zmax))
    M.assume(M.And(M.le(s.Rmin, r0), M.le(r0, s.Rmax), M.le(s.Zmin, z0), M.le(z0, s.Zmax)))
    r1, z1 = r0 + M.real("dr", choose=STEPS), z0 + M.real("dz", choose=STEPS)
    val = M.real("psival", sample=(0.01, 1.2))
    if M.symbolic:
        data = M.array("psin", (s.nx, s.ny))
    else:
        a, b = M.rng.uniform(0.5, 3), M.rng.uniform(0.5, 3)
        data = M.table((s.nx, s.ny), lambda i, j: a * (s.Rat(i) - r0) ** 2 + b * (s.Zat(j) - z0) ** 2)
    P = M.spline(s.R[:, 0], s.Z[0, :], data)
    eq = SimpleNamespace(Rmin=s.Rmin, Rmax=s.Rmax, Zmin=s.Zmin, Zmax=s.Zmax)
    f = M.interpolant(s.R[:, 0], s.Z[0, :], data)
    ends = {}
    part = M.choice("part", ["end", "rest"])
    if M.symbolic:
        # the ends of the way by what is proved of them
        lin = cr.linspace
        re, ze = M.real("re"), M.real("ze")

        def linspace(a, b, num=50, **k):
            M.require("samples of a way from the start", not k and M.same(num, n) and not ("r" in ends and "z" in ends))
            which = "r" if "r" not in ends and M.same(a, r0) else "z"
            if part == "rest":
                ends[which] = b
                return lin(a, re if which == "r" else ze, n)
            M.require("from the start", M.same(a, (r0, z0)[which == "z"]))
            ends[which] = b
            return lin(a, re if which == "r" else ze, n)

        M.contracted(CR + "linspace", linspace)
        if part == "end":
            # by cases; every sample beyond
            M.contracted(CR + "clip", lambda x, a, b: a if M.decide(M.lt(x, a)) else b if M.decide(M.lt(b, x)) else x)
            M.contracted(CR + "abs", lambda x: -x if M.decide(M.lt(x, 0)) else x)
            f = lambda r, z, grid=True: M.table((n,), lambda k: val + 1)
        else:
            # any end
            M.contracted(CR + "clip", lambda x, a, b: M.real(fresh("clipped")))
            M.contracted(CR + "abs", lambda x: M.real(fresh("abs"), lo=0))
    r, z = cr.find_psisurface(eq, f, r0, z0, r1, z1, psival=val, n=n)
    if M.symbolic:
        M.require("way of samples", len(ends) == 2)
        if part == "end":
            t = share(M, r0, r1, s.Rmin, s.Rmax)
            t = t * share(M, z0, z0 + (z1 - z0) * t, s.Zmin, s.Zmax)
            M.check("end of the way", M.And(M.eq(ends["r"], r0 + (r1 - r0) * t), M.eq(ends["z"], z0 + (z1 - z0) * t)))
            return
    else:
        t = share(M, r0, r1, s.Rmin, s.Rmax)
        t = t * share(M, z0, z0 + (z1 - z0) * t, s.Zmin, s.Zmax)
        re, ze = r0 + (r1 - r0) * t, z0 + (z1 - z0) * t
    # samples from the start to the end of the way within the domain
    at = lambda k: (r0 + (re - r0) * k / (n - 1), z0 + (ze - z0) * k / (n - 1))
    p = lambda k: P(*at(k))
    k = M.first(n, lambda k: M.lt(val, p(k)))
    if k is None:
        return
    M.check("the first sample beyond", M.And(M.le(0, k), M.lt(k, n), M.lt(val, p(k))))
    if M.decide(M.eq(k, 0)):
        M.check("start", M.And(M.eq(r, r0), M.eq(z, z0)))
        return
    M.check("last sample within", M.le(p(k - 1), val))
    g = (val - p(k - 1)) / (p(k) - p(k - 1))
    M.check("between the samples", M.And(M.le(0, g), M.lt(g, 1)))
    (ra, za), (rb, zb) = at(k - 1), at(k)
    M.check("linear interpolation", M.And(M.eq(r, ra + (rb - ra) * g), M.eq(z, za + (zb - za) * g)))


class Rays:
    """find_psisurface by its contract: a point determined by the flux, the ray and the value"""

    def __init__(self, M, s):
        self.M = M
        if M.symbolic:
            self.probe = M.real("probeR"), M.real("probeZ")
            self.f = [M.func("surf" + c, 6) for c in "RZ"]

            def find_psisurface(eq, psifunc, r0, z0, r1, z1, psival=1.0, n=100, axis=None):
                M.require("no fewer than 100 samples", isinstance(n, int) and n >= 100)
                M.require("of this equilibrium", eq is s.eq)
                return tuple(g(psifunc(*self.probe, grid=False), r0, z0, r1, z1, psival) for g in self.f)

            M.contracted(CR + "find_psisurface", find_psisurface)

    def __call__(self, s, flux, r0, z0, dr, dz, val, n):
        if self.M.symbolic:
            return tuple(g(flux.ev(*self.probe), r0, z0, r0 + dr, z0 + dz, val) for g in self.f)
        return self.M.module("freegs.critical").find_psisurface(s.eq, flux, r0, z0, r0 + dr, z0 + dz, psival=val, n=n)


def plasma(M, fields=True):
    """an equilibrium by contract: flux on its grid, field and f given"""
    s = grid(M)
    if M.symbolic:
        psi = M.array("psi", (s.nx, s.ny))
        s.axis = tuple(M.real(v) for v in ("Ro", "Zo", "Po"))
        s.bndry = M.real("Pb")
        s.xs = [tuple(M.real(v) for v in ("Rx", "Zx", "Px"))]
        Br, Bz = M.func("Br", 2), M.func("Bz", 2)
        s.Br, s.Bz = M.elementwise(Br), M.elementwise(Bz)
        F = M.func("fpol", 1)
        s.F = M.elementwise(F)
        M.assume(M.Not(M.eq(s.bndry, s.axis[2])))
    else:
        np, rng = M.np, M.rng
        W, H = s.Rmax - s.Rmin, s.Zmax - s.Zmin
        r0, z0 = s.Rmin + W * rng.uniform(0.4, 0.6), s.Zmin + H * rng.uniform(0.4, 0.6)
        sgn, a, b = rng.choice([1, -1]), rng.uniform(0.8, 1.2), rng.uniform(0.8, 1.2)
        w = min(W, H) * rng.uniform(0.25, 0.4)
        # contours are closed up to the boundary flux
        t = rng.uniform(0, 6.3)
        p = lambda r, z: sgn * (1 + ((r - r0) / w) ** 2 * a + ((z - z0) / w) ** 2 * b)
        s.p = p
        s.grad = lambda r, z: (sgn * 2 * a * (r - r0) / w ** 2, sgn * 2 * b * (z - z0) / w ** 2)
        psi = M.table((s.nx, s.ny), lambda i, j: p(s.Rat(i), s.Zat(j)))
        s.axis = (r0, z0, sgn)
        s.bndry = sgn * (1 + rng.uniform(0.3, 0.6))
        t = rng.choice([0, 1e-4, -1e-4, M.np.pi / 2, M.np.pi, rng.uniform(0, 6.3), 2 * M.np.pi / 8])
        s.xs = [(r0 + 0.5 * W * np.sin(t), z0 + 0.5 * W * np.cos(t), s.bndry * rng.choice([1, 1, 1.3]))]
        s.Br = lambda r, z: -s.grad(r, z)[1] / r
        s.Bz = lambda r, z: s.grad(r, z)[0] / r
        c0, c1 = rng.choice([1, -1]) * rng.uniform(1, 3), rng.uniform(-0.3, 0.3)
        s.F = lambda x: c0 * (1 + c1 * np.asarray(x))
    s.psi = psi
    s.eq = SimpleNamespace(R=s.R, Z=s.Z, Rmin=s.Rmin, Rmax=s.Rmax, Zmin=s.Zmin, Zmax=s.Zmax, psi_bndry=s.bndry, psi_axis=s.axis[2],
                           psi=lambda: psi, Br=s.Br, Bz=s.Bz, fpol=s.F)
    s.calls = []

    def find_critical(R, Z, p, discard_xpoints=True):
        s.calls.append((R, Z, p))
        return [s.axis], list(s.xs)

    if M.symbolic:
        M.contracted(CR + "find_critical", find_critical)
    n = lambda i, j: (M.at(psi, i, j) - s.axis[2]) / (s.bndry - s.axis[2])
    s.flux = M.interpolant(s.R[:, 0], s.Z[0, :], M.table((s.nx, s.ny), n))
    s.rays = Rays(M, s)
    return s


def angle(M, s):
    """the direction of the X-point from the axis, in [0, 2 pi)"""
    d = M.arctan2(s.xs[0][0] - s.axis[0], s.xs[0][1] - s.axis[1])
    return M.If(M.lt(d, 0), d + 2 * M.pi, d)


@contract("C22", "separatrix", [CR + "find_separatrix"], samples=60)
def separatrix(M):
    cr = M.module("freegs.critical")
    s = plasma(M)
    n = M.int("ntheta", lo=2, sample=(4, 40))
    val = M.choice("psival", [1.0, None])
    kw = {}
    if val is None:
        val = kw["psival"] = M.real("value", gt=0, sample=(0.2, 1.0))
    if not M.symbolic or M.choice("points given", [True, False]):
        kw.update(opoint=[s.axis], xpoint=list(s.xs))
    if M.choice("flux given", [True, False]):
        kw["psi"] = s.psi
    phi = angle(M, s)
    step = 2 * M.pi / n
    out = cr.find_separatrix(s.eq, ntheta=n, **kw)
    M.check("as many points", M.eq(M.length(out), n))
    close = M.Or(M.exists(((0, n),), lambda k: M.lt(M.abs(k * step - phi), 1e-3)), M.lt(2 * M.pi - phi, 1e-3))
    sh = M.If(close, step / 2, 0)
    def ray(k):
        th = k * step + sh
        return s.rays(s, s.flux, s.axis[0], s.axis[1], 10 * M.sin(th), 10 * M.cos(th), val, 1000)
    M.check_all("points on the rays", (n,), lambda k: M.And(*[M.eq(a, b, scale=1e-9) for a, b in zip(M.item(out, k)[:2], ray(k))]))
    M.check_all("the X-point", (n,), lambda k: M.And(*[M.eq(a, b) for a, b in zip(M.item(out, k)[2:4], s.xs[0][:2])]))
    if not M.symbolic:
        for k in range(n):
            r, z = out[k][:2]
            th = k * step + (step / 2 if close else 0)
            d = M.np.hypot(r - s.axis[0], z - s.axis[1])
            M.check("in this direction", abs((r - s.axis[0]) - d * M.np.sin(th)) + abs((z - s.axis[1]) - d * M.np.cos(th)) < 1e-9)
            M.check("flux at the point", abs(s.p(r, z) - s.axis[2] - val * (s.bndry - s.axis[2])) < 2e-3)


@contract("C22", "safety-factor", [CR + "find_safety"], samples=25)
def safety(M):
    cr = M.module("freegs.critical")
    s = plasma(M)
    n = M.int("ntheta", lo=3, sample=(100, 140))
    kind = M.choice("surfaces", ["array", "one", "none"] if M.symbolic else ["array"] * 6 + ["one"] * 3 + ["none"])
    kw = {}
    if kind == "array":
        m = M.int("npsi", lo=1, sample=(1, 4))
        v = kw["psinorm"] = M.array("psinorm", (m,), sample=(0.05, 0.95))
        val = lambda i: M.at(v, i)
    elif kind == "one":
        m, v = 1, M.real("psinorm0", sample=(0.05, 0.95))
        kw["psinorm"] = v
        val = lambda i: v
    else:
        m = 100
        val = lambda i: (i + 1) / 101
    if not M.symbolic or M.choice("points given", [True, False]):
        kw.update(opoint=[s.axis], xpoint=list(s.xs))
    if M.choice("flux given", [True, False]):
        kw["psi"] = s.psi
    q = cr.find_safety(s.eq, ntheta=n, **kw)
    phi = angle(M, s)
    step = 2 * M.pi / n
    close = M.Or(M.exists(((0, n),), lambda k: M.lt(M.abs(k * step - phi), 1e-3)), M.lt(2 * M.pi - phi, 1e-3))
    sh = M.If(close, step / 2, 0)
    W, H = M.ptp(s.R), M.ptp(s.Z)

    def surface(i, j):
        th = j * step + sh
        return s.rays(s, s.flux, s.axis[0], s.axis[1], W * M.sin(th), H * M.cos(th), val(i), 100)

    if not M.symbolic:
        import functools

        surface = functools.lru_cache(None)(surface)

    def term(i, j):
        (r, z) = surface(i, j)
        a, b = surface(i, M.If(M.eq(j, 0), n - 1, j - 1)), surface(i, M.If(M.eq(j, n - 1), 0, j + 1))
        dl = M.sqrt(((a[0] - b[0]) / 2) ** 2 + ((a[1] - b[1]) / 2) ** 2)
        bp = M.sqrt(s.Br(r, z) ** 2 + s.Bz(r, z) ** 2)
        return s.F(val(i)) / (r ** 2 * bp) * dl

    M.check_shape("one for every surface", q, (m,))
    M.check_all("loop integral of f / (R^2 Bp)", (m,), lambda i: M.eq(M.at(q, i), M.sum(0, n, lambda j: term(i, j)) / (2 * M.pi), scale=1e-9))
    if not M.symbolic:
        np = M.np
        t = np.linspace(0, 2 * np.pi, 4001)[:-1]
        for i in range(m):
            if val(i) < 0.1:
                continue  # the 100 samples of a ray are too coarse to compare with
            # along an ellipse of constant flux
            c = val(i) * (s.bndry - s.axis[2])
            r0, z0 = s.axis[:2]
            k1 = c / (s.p(r0 + 1, z0) - s.p(r0, z0)), c / (s.p(r0, z0 + 1) - s.p(r0, z0))
            r, z = r0 + np.sqrt(k1[0]) * np.cos(t), z0 + np.sqrt(k1[1]) * np.sin(t)
            dl = np.hypot(np.sqrt(k1[0]) * np.sin(t), np.sqrt(k1[1]) * np.cos(t)) * 2 * np.pi / len(t)
            want = np.sum(s.F(val(i)) / (r ** 2 * np.hypot(s.Br(r, z), s.Bz(r, z))) * dl) / (2 * np.pi)
            M.check("close to the integral over the surface", abs(q[i] - want) < 0.02 * abs(want))


def diverted(M):
    """an equilibrium with an X-point"""
    if M.symbolic:
        s = equilibrium(M, xpoints=(1,))
    else:
        rng, np = M.rng, M.np
        r0, z0, zx = rng.uniform(0.9, 1.1), rng.uniform(-0.15, 0.15), rng.choice([1, -1]) * rng.uniform(0.5, 0.65)
        sgn, a = rng.choice([1, -1]), rng.uniform(0.7, 1.4)
        s = SimpleNamespace()
        p = lambda r, z: sgn * (0.3 + a * (r - r0) ** 2 + (z - z0) ** 2 - 2 / (3 * zx) * (z - z0) ** 3)
        n, box = rng.choice([33, 65]), (0.1, 2.0, -1.0, 1.0)
        R, Z = np.meshgrid(np.linspace(*box[:2], n), np.linspace(*box[2:], n), indexing="ij")
        s = SimpleNamespace(nx=n, ny=n, Rmin=box[0], Rmax=box[1], Zmin=box[2], Zmax=box[3])
        s.Rat, s.Zat = (lambda i: R[i, 0]), (lambda j: Z[0, j])
        s.eq = M.module(EQ).Equilibrium(tokamak=M.module("freegs.machine").Machine([]), Rmin=s.Rmin, Rmax=s.Rmax, Zmin=s.Zmin, Zmax=s.Zmax,
                                        nx=n, ny=n, psi=p(R, Z), current=1.0, check_limited=False)
        c0, c1 = rng.choice([1, -1]) * rng.uniform(1, 3), rng.uniform(-0.3, 0.3)
        s.eq._profiles = SimpleNamespace(fpol=lambda x: c0 * (1 + c1 * np.asarray(x)))
        s.axis = (r0, z0)
    return s


@contract("C22", "safety-factor-profile", [E + "q"], samples=12)
def profile(M):
    s = diverted(M)
    em, cr = M.module(EQ), M.module("freegs.critical")
    if M.symbolic:
        f = M.func("safety", 1)

        def find_safety(eq, npsi=1, psinorm=None, ntheta=128, psi=None, opoint=None, xpoint=None, axis=None):
            M.require("of this equilibrium, by default", eq is s.eq and ntheta == 128 and psi is None and opoint is None and xpoint is None)
            M.require("the surfaces", psinorm is not None)
            v = M.np_asarray(psinorm)
            return M.table((1,), lambda i: f(v)) if len(v.shape) == 0 else M.table(v.shape, lambda i: f(M.at(v, i)))

        M.contracted(CR + "find_safety", find_safety)
        safety = lambda v: f(v)
    else:
        safety = lambda v: cr.find_safety(s.eq, psinorm=M.np.array([v]))[0]
    kw = {}
    n = 100
    if M.choice("resolution", ["default", "given"]) == "given":
        n = kw["npsi"] = M.int("npsi", lo=3, sample=(10, 40))
    kind = M.choice("values", ["none", "scalar", "array", "list"])
    if kind == "none":
        out = s.eq.q(**kw)
        M.check("values and safety factor", isinstance(out, tuple) and len(out) == 2)
        M.check_shape("values", out[0], (n,))
        M.check_shape("safety factor", out[1], (n,))
        at = lambda i: (i + 1) / (n + 1)
        M.check_all("a uniform grid", (n,), lambda i: M.eq(M.at(out[0], i), at(i)))
        M.check_all("safety factor there", (n,) if M.symbolic else (min(n, 10),), lambda i: M.eq(M.at(out[1], i), safety(at(i))))
        return
    # beyond [0.01, 0.99] from the values within
    def want(v, beyond):
        if not beyond:
            return safety(v)
        x = lambda i: 0.01 + 0.98 * i / (n - 1)
        if M.symbolic:
            inner = M.table((n,), x), M.table((n,), lambda i: safety(x(i)))
        else:
            if not hasattr(s, "inner"):
                x = M.np.array([x(i) for i in range(n)])
                s.inner = x, cr.find_safety(s.eq, psinorm=x)
            inner = s.inner
        return M.interpolant1(*inner, "quadratic")(v)

    outside = lambda v: M.Or(M.lt(v, 0.01), M.lt(0.99, v))
    lo, hi = M.choice("range", [(0.05, 0.95), (0.05, 0.95), (0.0, 1.0)]) if not M.symbolic else (0, 1)
    if kind == "scalar":
        v = M.real("psinorm", sample=(lo, hi))
        M.check("safety factor", M.eq(s.eq.q(v, **kw), want(v, M.decide(outside(v))), scale=1e-6))
        return
    if kind == "array":
        m = M.int("m", lo=1, sample=(1, 4))
        v = M.array("psinorms", (m,), sample=(lo, hi))
        arg = v
    else:
        m = M.choice("length", [1, 3])
        arg = [M.real("psinorm%d" % i, sample=(lo, hi)) for i in range(m)]
        v = M.np_asarray(arg)
    beyond = M.decide(M.exists(((0, m),), lambda i: outside(M.at(v, i))))
    before = M.snapshot(lambda i: M.at(v, i), m)
    out = s.eq.q(arg, **kw)
    if M.decide(M.eq(m, 1)):
        M.check("one value", M.eq(out, want(M.at(v, 0), beyond), scale=1e-6))
        return
    M.check_shape("one for every surface", out, (m,))
    M.check_all("safety factor", (m,), lambda i: M.eq(M.at(out, i), want(before(i), beyond), scale=1e-6))


@contract("C22", "inner-outer-separatrix", [E + "innerOuterSeparatrix"], samples=40, feas=400)
def inner_outer(M):
    s = diverted(M)
    eq = s.eq
    kw = {}
    Z = 0.0
    if M.choice("height given", [True, False]):
        Z = kw["Z"] = M.real("height", sample=(-0.8, 0.8))
    axis = eq.Rmagnetic()
    if M.symbolic:
        # any flux: that of the axis, and from there in units of the way to the boundary
        a, d, g = M.real("Pa"), M.real("dP"), M.array("unit", (s.nx, s.ny))
        flux = M.table((s.nx, s.ny), lambda i, j: a + d * M.at(g, i, j))
        eq.psi, eq.psi_axis, eq.psi_bndry = (lambda: flux), a, a + d
        eq.Rmagnetic = lambda: axis
    jz = M.argmin(s.ny, lambda j: M.abs(s.Zat(j) - Z))
    ia = M.argmin(s.nx, lambda i: M.abs(s.Rat(i) - axis))
    psi = eq.psi()
    p = lambda i: (M.at(psi, i, jz) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    # the column of the axis is within the plasma at this height
    M.assume(M.And(M.lt(p(ia), 1), M.lt(0, ia), M.Not(M.eq(eq.psi_axis, eq.psi_bndry))))
    ra, rb = eq.innerOuterSeparatrix(**kw)

    def crossing(a, b):
        """where the line from the sample a to the sample b reaches the boundary"""
        g = (1 - p(a)) / (p(b) - p(a))
        return s.Rat(a) + g * (s.Rat(b) - s.Rat(a))

    out = M.selected(ia, lambda i: M.lt(1, p(i)))
    k = out.n - 1
    M.check("inboard", M.eq(ra, s.Rmin if M.decide(M.eq(out.n, 0)) else crossing(out.at(k), out.at(k) + 1)))
    out = M.selected(s.nx - ia, lambda i: M.lt(1, p(ia + i)))
    k = ia + out.at(0) if not M.decide(M.eq(out.n, 0)) else None
    M.check("outboard", M.eq(rb, s.Rmax if k is None else crossing(k - 1, k)))
    if not M.symbolic:
        M.check("either side of the axis", ra <= axis + 1e-9 + (s.Rmax - s.Rmin) / (s.nx - 1) and rb >= axis - 1e-9 - (s.Rmax - s.Rmin) / (s.nx - 1))
