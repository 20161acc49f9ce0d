"""C11: profiles fulfil the constraints they are named after."""
from pv.registry import contract
from contracts.flux import Eq, flux

J = "freegs.jtor"


def setup(M, make):
    nx, ny, R, Z, psi, dR, dZ, pa, xp, core = flux(M)
    given = M.choice("boundary flux", ["known", "unknown"])
    if given == "known":
        pb = M.real("psi_b", sample=(0, 1)) if M.symbolic else pa + (M.at(psi, 0, 0) - pa) * M.rng.uniform(0.3, 0.95)
    else:
        pb = None
    eq = Eq(M, pb)
    am, an = M.real("alpha_m", gt=0, sample=(0.5, 2.5)), M.real("alpha_n", gt=0, sample=(0.5, 2.5))
    Ra = M.real("Raxis", gt=0, sample=(0.5, 2))
    Ip = M.real("Ip", sample=(1e5, 1e6))
    M.assume(M.Or(M.lt(Ip, 0), M.lt(0, Ip)))
    fvac = M.real("fvac", sample=(0.5, 3))
    prof = make(eq, Ip, fvac, am, an, Ra)
    if pb is None:
        use, msk = (xp[0], core(xp[0])) if xp else (M.at(psi, 0, 0), lambda i, j: 1.0)
    else:
        use, msk = pb, core(pb)
    M.assume(M.Or(M.lt(use, pa), M.lt(pa, use)))
    out = prof.Jtor(R, Z, psi)
    M.check_shape("shape", out, (nx, ny))
    return dict(nx=nx, ny=ny, R=R, Z=Z, psi=psi, dR=dR, dZ=dZ, pa=pa, pb=use, mask=msk, eq=eq, am=am, an=an, Ra=Ra, Ip=Ip, fvac=fvac, prof=prof, J=out)


def common(M, s):
    nx, ny, prof = s["nx"], s["ny"], s["prof"]
    M.check("axis and boundary flux recorded", M.And(M.eq(prof.psi_axis, s["pa"]), M.eq(prof.psi_bndry, s["pb"])))
    M.check("total current", M.eq(M.romb2(lambda i, j: M.at(s["J"], i, j), nx, ny) * s["dR"] * s["dZ"], s["Ip"], rtol=1e-7))
    M.check("boundary looked up for this flux", len(s["eq"].updated) == 1 and s["eq"].updated[0] is s["psi"])


def consistent(M, s):
    """J = R p' + ff'/(mu0 R) with the profile's own p' and ff', zero outside the core"""
    psi, prof = s["psi"], s["prof"]
    J0 = 1.0 if M.symbolic else float(M.np.max(M.np.abs(s["J"])))

    def f(i, j):
        pn = (M.at(psi, i, j) - s["pa"]) / (s["pb"] - s["pa"])
        R = M.at(s["R"], i, j)
        return M.eq(M.at(s["J"], i, j), (R * prof.pprime(pn) + prof.ffprime(pn) / (M.mu0 * R)) * s["mask"](i, j), scale=J0)

    M.check_all("J from p' and ff' inside the core", (s["nx"], s["ny"]), f)


@contract("C11", "pressure-on-axis", [J + ".ConstrainPaxisIp.Jtor", J + ".ConstrainPaxisIp.pprime", J + ".Profile.pressure"], samples=25)
def paxis(M):
    p = M.real("paxis", gt=0, sample=(1e2, 1e4))
    s = setup(M, lambda eq, Ip, fvac, am, an, Ra: M.module(J).ConstrainPaxisIp(eq, p, Ip, fvac, alpha_m=am, alpha_n=an, Raxis=Ra))
    common(M, s)
    M.check("pressure on axis", M.eq(s["prof"].pressure(0.0), p, rtol=1e-6))
    consistent(M, s)


@contract("C11", "poloidal-beta", [J + ".ConstrainBetapIp.Jtor", J + ".ConstrainBetapIp.pprime", J + ".Profile.pressure"], samples=12, budget=3)
def betap(M):
    b = M.real("betap", gt=0, sample=(0.05, 2))
    s = setup(M, lambda eq, Ip, fvac, am, an, Ra: M.module(J).ConstrainBetapIp(eq, b, Ip, fvac, alpha_m=am, alpha_n=an, Raxis=Ra))
    common(M, s)
    nx, ny, R, Z, psi, prof = (s[k] for k in ("nx", "ny", "R", "Z", "psi", "prof"))

    def p(i, j):
        pn = (M.at(psi, i, j) - s["pa"]) / (s["pb"] - s["pa"])
        inside = M.And(M.le(0, pn, tol=0), M.lt(pn, 1), M.lt(0, i), M.lt(i, nx - 1), M.lt(0, j), M.lt(j, ny - 1))
        return M.ifelse(inside, lambda: prof.pressure(pn), lambda: 0.0) * s["mask"](i, j) * M.at(R, i, j)

    def B2(i, j):
        r, z = M.at(R, i, j), M.at(Z, i, j)
        return (s["eq"].Br(r, z) ** 2 + s["eq"].Bz(r, z) ** 2) * s["mask"](i, j) * r

    M.check("poloidal beta", M.eq(2 * M.mu0 * M.romb2(p, nx, ny), b * M.romb2(B2, nx, ny), rtol=1e-6))
    consistent(M, s)
