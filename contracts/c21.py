"""C21: global quantities are the documented integrals and shape measures of the present equilibrium."""
from pv.registry import contract
from contracts.eqm import EQ, equilibrium, place

E = EQ + ".Equilibrium."


class Prof:
    def __init__(self, M, fv):
        self.M, self.fv = M, fv
        self.f, self.p = M.func("f", 1), M.func("p", 1)
        if not M.symbolic:
            a, b = M.rng.uniform(0.5, 3), M.rng.uniform(-0.3, 0.3)
            self.p = lambda x: 1e3 * a * (1.0 - x) ** 2
            self.f = lambda x: fv * (1.0 + b * (1.0 - x))

    def pressure(self, x):
        return self.p(x)

    def fpol(self, x):
        return self.f(x)

    def fvac(self):
        return self.fv


def setup(M, xp=(0, 1)):
    bd = M.module("freegs.boundary")
    fv = M.real("fvac", sample=(0.4, 3))
    if M.symbolic:
        cr = M.module("freegs.critical")
        s = equilibrium(M, xpoints=xp, boundary=bd.fixedBoundary)
        SR, SZ = M.func("sepR", 2), M.func("sepZ", 2)

        def count(n):
            """a fixed number of points as a variable of that value (else loops over the points unroll)"""
            if not isinstance(n, int):
                return n
            v = M.int("points=%d" % n)
            M.assume(M.eq(v, n))
            return v

        s.count = count

        def find_separatrix(eq, opoint=None, xpoint=None, ntheta=20, psi=None, axis=None, psival=1.0):
            ntheta = count(ntheta)
            return M.table((ntheta, 4), lambda i, k: M.If(M.eq(k, 0), SR(ntheta, i), SZ(ntheta, i)))

        M.contracted("freegs.critical.find_separatrix", find_separatrix)
        s.sep = lambda n: (lambda i: SR(n, i), lambda i: SZ(n, i))
    else:
        rng, np = M.rng, M.np
        s = equilibrium(M, boundary=bd.fixedBoundary)
        eq = s.eq
        for _, c in s.coils:
            c.current = 0.0
        # a maximum within the domain, a weaker one beyond: an X-point between them
        r0, z0 = (s.Rmin + s.Rmax) / 2 + rng.uniform(-0.1, 0.1), (s.Zmin + s.Zmax) / 2 + rng.uniform(-0.1, 0.1)
        w = rng.uniform(0.3, 0.5)
        d = rng.choice([-1, 1]) * rng.uniform(1.6, 1.9) * w
        P = np.exp(-((eq.R - r0) ** 2 + (eq.Z - z0) ** 2) / w ** 2) + rng.choice([0.0, 0.8, 0.5]) * np.exp(
            -((eq.R - r0) ** 2 + (eq.Z - z0 - d) ** 2) / w ** 2)
        eq._updatePlasmaPsi(rng.choice([1.0, -1.0]) * rng.uniform(0.2, 2) * P)
        cr = M.module("freegs.critical")
        opt, xpt = cr.find_critical(eq.R, eq.Z, eq.psi())
        M.assume(bool(opt) and (bool(xpt) if xp == (1,) else True))
        s.has_x = bool(xpt)
        eq._current = rng.choice([-1, 1]) * rng.uniform(1e5, 1e6)
        memo = {}

        def sep(n):
            if n not in memo:
                memo[n] = np.array(cr.find_separatrix(eq, ntheta=n, psi=eq.psi()))
            return (lambda i: memo[n][i, 0]), (lambda i: memo[n][i, 1])

        s.sep, s.count = sep, lambda n: n
    s.prof = Prof(M, fv)
    s.eq._profiles = s.prof
    s.Ip = s.eq._current
    if M.symbolic:
        M.assume(M.Not(M.eq(s.Ip, 0)))
    m = s.eq.mask
    s.mask = (lambda i, j: 1.0) if m is None else (lambda i, j: M.at(m, i, j))
    psi = s.eq.psi()
    s.x = lambda i, j: (M.at(psi, i, j) - s.eq.psi_axis) / (s.eq.psi_bndry - s.eq.psi_axis)
    s.dV = lambda i, j: 2 * M.pi * s.Rat(i) * s.dR * s.dZ * s.mask(i, j)
    s.int = lambda g: M.romb2(lambda i, j: g(i, j) * s.dV(i, j), s.nx, s.ny)
    s.bp2 = lambda i, j: s.eq.Br(s.Rat(i), s.Zat(j)) ** 2 + s.eq.Bz(s.Rat(i), s.Zat(j)) ** 2
    s.bt2 = lambda i, j: s.eq.Btor(s.Rat(i), s.Zat(j)) ** 2
    s.pr = lambda i, j: s.prof.p(s.x(i, j))
    return s


def rel(M, a, b):
    return M.eq(a, b, scale=1e-12, rtol=1e-7)


@contract("C21", "energies", [E + f for f in ("plasmaVolume", "w_th", "pressure_ave", "poloidalBeta", "poloidalBeta2", "toroidalBeta", "totalBeta", "internalInductance2", "pressure")], samples=25)
def energies(M):
    s = setup(M)
    eq = s.eq
    V = s.int(lambda i, j: 1.0)
    W = s.int(s.pr)
    B = s.int(s.bp2)
    T = s.int(s.bt2)
    P0 = eq.plasma_psi.copy()
    M.check("volume", rel(M, eq.plasmaVolume(), V))
    M.check("thermal energy", rel(M, eq.w_th(), 1.5 * W))
    M.check("average pressure", rel(M, eq.pressure_ave(), W / V))
    M.check("poloidal beta", rel(M, eq.poloidalBeta(), 2 * M.mu0 * W / B))
    M.check("poloidal beta from the current", rel(M, eq.poloidalBeta2(), 8 * M.pi / M.mu0 * M.romb2(
        lambda i, j: s.pr(i, j) * s.mask(i, j), s.nx, s.ny) * s.dR * s.dZ / s.Ip ** 2))
    M.check("toroidal beta", rel(M, eq.toroidalBeta(), 2 * M.mu0 * W / T))
    M.check("total beta", rel(M, eq.totalBeta(), 1 / (B / (2 * M.mu0 * W) + T / (2 * M.mu0 * W))))
    M.check("internal inductance 2", rel(M, eq.internalInductance2(), 2 * B / ((M.mu0 * s.Ip) ** 2 * axis(M, s)[0])))
    M.check("axis", M.And(M.eq(eq.Rmagnetic(), axis(M, s)[0]), M.eq(eq.Zmagnetic(), axis(M, s)[1])))
    M.check_all("equilibrium unchanged", (s.nx, s.ny), lambda i, j: M.eq(M.at(eq.plasma_psi, i, j), M.at(P0, i, j)))
    M.check("again", rel(M, eq.plasmaVolume(), V))


def axis(M, s):
    if M.symbolic:
        return s.crit[-1].opt[0]
    cr = M.module("freegs.critical")
    return cr.find_critical(s.eq.R, s.eq.Z, s.eq.psi())[0][0]


SHAPE = ("separatrix", "geometricAxis", "Rgeometric", "Zgeometric", "minorRadius", "aspectRatio", "inverseAspectRatio", "elongation",
         "elongationUpper", "elongationLower", "triangularityUpper", "triangularityLower", "triangularity", "shafranovShift")


def shape(M, s, n):
    r, z = s.sep(n)
    rM, rm = r(M.argmax(n, r)), r(M.argmin(n, r))
    zM, zm = z(M.argmax(n, z)), z(M.argmin(n, z))
    R0, Z0, a = 0.5 * (rM + rm), 0.5 * (z(M.argmax(n, r)) + z(M.argmin(n, r))), 0.5 * (rM - rm)
    return dict(R0=R0, Z0=Z0, a=a, zM=zM, zm=zm, ru=r(M.argmax(n, z)), rl=r(M.argmin(n, z)))


@contract("C21", "shape", [E + f for f in SHAPE], samples=20)
def shapes(M):
    s = setup(M, xp=(1,))
    eq = s.eq
    n = M.int("points", lo=2, sample=(8, 60))
    q = shape(M, s, n)
    a, R0, Z0 = q["a"], q["R0"], q["Z0"]
    if M.symbolic:
        M.assume(M.And(M.lt(0, a), M.lt(0, R0)))
    sp = eq.separatrix(npoints=n)
    M.check_all("separatrix", (n,), lambda i: M.And(M.eq(M.at(sp, i, 0), s.sep(n)[0](i)), M.eq(M.at(sp, i, 1), s.sep(n)[1](i))))
    g = eq.geometricAxis(npoints=n)
    M.check("geometric axis", M.And(M.eq(g[0], R0), M.eq(g[1], Z0), M.eq(eq.Rgeometric(npoints=n), R0), M.eq(eq.Zgeometric(npoints=n), Z0)))
    M.check("minor radius", M.eq(eq.minorRadius(npoints=n), a))
    M.check("aspect ratio", M.And(rel(M, eq.aspectRatio(npoints=n), R0 / a), rel(M, eq.inverseAspectRatio(npoints=n), a / R0)))
    M.check("elongation", rel(M, eq.elongation(npoints=n), (q["zM"] - q["zm"]) / (2 * a)))
    M.check("upper elongation", rel(M, eq.elongationUpper(npoints=n), (q["zM"] - Z0) / a))
    M.check("lower elongation", rel(M, eq.elongationLower(npoints=n), (Z0 - q["zm"]) / a))
    tu, tl = (R0 - q["ru"]) / a, (R0 - q["rl"]) / a
    M.check("upper triangularity", M.eq(eq.triangularityUpper(npoints=n), tu))
    M.check("lower triangularity", M.eq(eq.triangularityLower(npoints=n), tl))
    M.check("triangularity", M.eq(eq.triangularity(npoints=n), (tu + tl) / 2))
    sh = eq.shafranovShift(npoints=n)
    ax = axis(M, s)
    M.check("shafranov shift", M.And(M.eq(sh[0], ax[0] - R0), M.eq(sh[1], ax[1] - Z0)))


@contract("C21", "shape-and-integrals", [E + f for f in (
    "effectiveElongation", "internalInductance1", "internalInductance3", "internalInductance", "poloidalBeta3", "betaN", "qcyl")], samples=12)
def shape_integrals(M):
    s = setup(M, xp=(1,))
    eq = s.eq
    n = M.int("points", lo=2, sample=(8, 60))
    q, q0 = shape(M, s, n), shape(M, s, s.count(360))
    if M.symbolic:
        for v in (q, q0):
            M.assume(M.And(M.lt(0, v["a"]), M.lt(0, v["R0"])))
    V, W, B, T = s.int(lambda i, j: 1.0), s.int(s.pr), s.int(s.bp2), s.int(s.bt2)
    kap = lambda q: (q["zM"] - q["zm"]) / (2 * q["a"])
    ke = V / (2 * M.pi * q["R0"] * M.pi * q["a"] ** 2)
    muI = (M.mu0 * s.Ip) ** 2
    M.check("effective elongation", rel(M, eq.effectiveElongation(npoints=n), ke))
    M.check("internal inductance", rel(M, eq.internalInductance(npoints=n), 2 * B / (muI * q["R0"])))
    M.check("internal inductance 3", rel(M, eq.internalInductance3(npoints=n), 2 * B / (muI * q["R0"])))
    M.check("internal inductance 1", rel(M, eq.internalInductance1(npoints=n), 2 * B / (muI * q["R0"]) * (1 + kap(q) ** 2) / (2 * ke)))
    M.check("poloidal beta 3", rel(M, eq.poloidalBeta3(), 4 * W / (M.mu0 * s.Ip ** 2 * q0["R0"])))
    M.check("normalised beta", rel(M, eq.betaN(npoints=n), 1e8 * (2 * M.mu0 * W / T) * q["a"] * eq.Btor(q["R0"], q["Z0"]) / s.Ip))
    M.check("cylindrical safety factor", rel(M, eq.qcyl(), 0.5 * (1 + kap(q0) ** 2) * 2 * M.pi * q0["a"] * (q0["a"] / q0["R0"]) * (s.prof.fv / q0["R0"]) / (M.mu0 * s.Ip)))
