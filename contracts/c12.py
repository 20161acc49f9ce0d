"""C12: current density, pressure and poloidal current function from p' and ff'."""
from pv.registry import contract
from contracts.flux import flux

J = "freegs.jtor"


@contract("C12", "given-profiles", [J + ".ProfilesPprimeFfprime.Jtor"], samples=40)
def given(M):
    """J = R p'(psi_n) + ff'(psi_n)/(mu0 R) in the core, 0 outside it"""
    nx, ny, R, Z, psi, dR, dZ, pa, xp, core = flux(M)
    pf, ff = M.func("pp", 1), M.func("ffp", 1)
    fvac = M.real("fvac", sample=(-3, 3))
    prof = M.module(J).ProfilesPprimeFfprime(pf, ff, fvac)
    known = M.choice("boundary flux", ["known", "unknown"])
    if known == "known":
        pb = M.real("psi_b") if M.symbolic else pa + (M.at(psi, 0, 0) - pa) * M.rng.uniform(0.3, 0.95)
        M.assume(M.Or(M.lt(pb, pa), M.lt(pa, pb)))
        out = prof.Jtor(R, Z, psi, pb)
        mask = core(pb)
    else:
        pb = xp[0] if xp else M.at(psi, 0, 0)
        M.assume(M.Or(M.lt(pb, pa), M.lt(pa, pb)))
        out = prof.Jtor(R, Z, psi)
        mask = core(pb) if xp else (lambda i, j: 1.0)
    M.check_shape("shape", out, (nx, ny))
    M.check("axis and boundary flux recorded", M.And(M.eq(prof.psi_axis, pa), M.eq(prof.psi_bndry, pb)))

    def f(i, j):
        pn = (M.at(psi, i, j) - pa) / (pb - pa)
        pn = M.max(M.min(pn, 1.0), 0.0)
        r = M.at(R, i, j)
        return M.eq(M.at(out, i, j), (r * pf(pn) + ff(pn) / (M.mu0 * r)) * mask(i, j), scale=1e-6 if M.symbolic else 1e6)

    M.check_all("current density", (nx, ny), f)
    M.check("vacuum f", M.eq(prof.fvac(), fvac))


@contract("C12", "no-axis-is-an-error", [J + ".ProfilesPprimeFfprime.Jtor", J + ".ConstrainPaxisIp.Jtor", J + ".ConstrainBetapIp.Jtor"], samples=10)
def no_axis(M):
    """a flux without magnetic axis is refused, not given a current"""
    jm = M.module(J)
    from contracts.flux import Eq

    nx, ny = M.int("nx", lo=9, sample=(9, 17)), M.int("ny", lo=9, sample=(9, 17))
    R = M.table((nx, ny), lambda i, j: 1.0 + 0.1 * i)
    Z = M.table((nx, ny), lambda i, j: 0.1 * j)
    psi = M.table((nx, ny), lambda i, j: 0.3 * i + 0.2 * j)
    if M.symbolic:
        M.contracted("freegs.critical.find_critical", lambda r, z, p, *a, **k: ([], []))
    which = M.choice("profile", ["given", "paxis", "betap"])
    eq = Eq(M, None)
    if which == "given":
        p = jm.ProfilesPprimeFfprime(M.func("pp", 1), M.func("ffp", 1), 1.0)
    elif which == "paxis":
        p = jm.ConstrainPaxisIp(eq, 1e3, 1e5, 1.0)
    else:
        p = jm.ConstrainBetapIp(eq, 0.5, 1e5, 1.0)
    M.raises("no magnetic axis", ValueError, lambda: p.Jtor(R, Z, psi))


def profile(M, kind=None):
    jm = M.module(J)
    pa, pb = M.real("psi_a", sample=(0.5, 1)), M.real("psi_b", sample=(-1, 0.4))
    fvac = M.real("fvac", sample=(-3, 3))
    kind = kind or M.choice("profile", ["given", "paxis", "betap"])
    if kind == "given":
        pf, ff = M.func("pp", 1), M.func("ffp", 1)
        prof = jm.ProfilesPprimeFfprime(pf, ff, fvac)
    else:
        am, an = M.real("alpha_m", gt=0, sample=(0.5, 2.5)), M.real("alpha_n", gt=0, sample=(0.5, 2.5))
        Ra = M.real("Raxis", gt=0, sample=(0.5, 2))
        cls = jm.ConstrainPaxisIp if kind == "paxis" else jm.ConstrainBetapIp
        prof = cls(None, 1.0, 1e5, fvac, alpha_m=am, alpha_n=an, Raxis=Ra)
        L, b0 = M.real("L", sample=(-1e6, 1e6)), M.real("beta0", sample=(-1, 2))
        prof.L, prof.Beta0 = L, b0
        shape = lambda x: (1.0 - M.max(M.min(x, 1.0), 0.0) ** am) ** an
        pf = lambda x: L * b0 / Ra * shape(x)
        ff = lambda x: M.mu0 * L * (1 - b0) * Ra * shape(x)
    prof.psi_axis, prof.psi_bndry = pa, pb
    return prof, pf, ff, pa, pb, fvac


@contract("C12", "profile-functions", [J + "." + c + "." + f for c in ("ConstrainPaxisIp", "ConstrainBetapIp") for f in ("pprime", "ffprime", "fvac")], samples=60)
def functions(M):
    prof, pf, ff, pa, pb, fvac = profile(M)
    x = M.real("x", sample=(-0.2, 1.2))
    M.check("p'", M.eq(prof.pprime(x), pf(x)))
    M.check("ff'", M.eq(prof.ffprime(x), ff(x)))
    M.check("vacuum f", M.eq(prof.fvac(), fvac))


@contract("C12", "pressure", [J + ".Profile.pressure"], samples=30)
def pressure(M):
    """p(x) = integral of p' from the boundary; zero at the boundary"""
    prof, pf, ff, pa, pb, fvac = profile(M)
    x = M.real("x", lo=0, hi=1, sample=(0, 1))
    w = lambda x: M.quad(pf, x, 1.0) * (pa - pb)
    M.check("scalar", M.eq(prof.pressure(x), w(x), scale=1e-3))
    M.check("boundary", M.eq(prof.pressure(1.0), 0.0))
    n = M.int("n", lo=1, sample=(1, 5))
    a = M.array("pn", (n,), sample=(0, 1), lo=0, hi=1)
    v = prof.pressure(a)
    M.check_shape("vector shape", v, (n,))
    M.check_all("vector", (n,), lambda i: M.eq(M.at(v, i), w(M.at(a, i)), scale=1e-3))
    m = M.int("m", lo=1, sample=(1, 4))
    a2 = M.array("pn2", (n, m), sample=(0, 1), lo=0, hi=1)
    v2 = prof.pressure(a2)
    M.check_shape("matrix shape", v2, (n, m))
    M.check_all("matrix", (n, m), lambda i, j: M.eq(M.at(v2, i, j), w(M.at(a2, i, j)), scale=1e-3))


@contract("C12", "poloidal-current-function", [J + ".Profile.fpol"], samples=30)
def fpol(M):
    """f^2 = fvac^2 + 2 integral of ff', with the sign of the vacuum field"""
    prof, pf, ff, pa, pb, fvac = profile(M, "given")
    M.assume(M.Or(M.lt(fvac, 0), M.lt(0, fvac)))
    sgn = M.If(fvac < 0, -1.0, 1.0)
    x = M.real("x", lo=0, hi=1, sample=(0, 1))
    f2 = lambda x: fvac ** 2 + 2 * M.quad(ff, x, 1.0) * (pa - pb)
    if not M.symbolic:
        M.assume(f2(0.0) > 0 and f2(x) > 0 and min(f2(t / 20) for t in range(20)) > 0)
    M.check("scalar", M.eq(prof.fpol(x), sgn * M.sqrt(f2(x)), scale=1e-3))
    M.check("boundary", M.eq(prof.fpol(1.0), fvac))
    n = M.int("n", lo=1, sample=(1, 5))
    a = M.array("pn", (n,), sample=(0, 1), lo=0, hi=1)
    v = prof.fpol(a)
    M.check_shape("vector shape", v, (n,))
    M.check_all("vector", (n,), lambda i: M.eq(M.at(v, i), sgn * M.sqrt(f2(M.at(a, i))), scale=1e-3))
    m = M.int("m", lo=1, sample=(1, 4))
    a2 = M.array("pn2", (n, m), sample=(0, 1), lo=0, hi=1)
    v2 = prof.fpol(a2)
    M.check_shape("matrix shape", v2, (n, m))
    M.check_all("matrix", (n, m), lambda i, j: M.eq(M.at(v2, i, j), sgn * M.sqrt(f2(M.at(a2, i, j))), scale=1e-3))


@contract("C12", "given-functions", [J + ".ProfilesPprimeFfprime.pressure", J + ".ProfilesPprimeFfprime.fpol"], samples=30)
def given_functions(M):
    """functions supplied for p and f are used as they are"""
    P, F = M.func("pfun", 1), M.func("ffun", 1)
    prof = M.module(J).ProfilesPprimeFfprime(M.func("pp", 1), M.func("ffp", 1), 1.0, p_func=P, f_func=F)
    prof.psi_axis, prof.psi_bndry = 1.0, 0.0
    x = M.real("x", lo=0, hi=1, sample=(0, 1))
    M.check("pressure", M.eq(prof.pressure(x), P(x)))
    M.check("fpol", M.eq(prof.fpol(x), F(x)))
