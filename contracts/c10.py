"""C10: total flux and field are plasma plus coils; the linear Grad-Shafranov solve."""
from pv.registry import contract
from contracts.eqm import EQ, currents, equilibrium, new_currents, place

E = EQ + ".Equilibrium."


@contract("C10", "grid", [E + "__init__"], samples=20)
def grid(M):
    s = equilibrium(M, xpoints=(0,))
    eq = s.eq
    M.check_shape("R shape", eq.R, (s.nx, s.ny))
    M.check_shape("Z shape", eq.Z, (s.nx, s.ny))
    M.check_all("R", (s.nx, s.ny), lambda i, j: M.eq(M.at(eq.R, i, j), s.Rat(i)))
    M.check_all("Z", (s.nx, s.ny), lambda i, j: M.eq(M.at(eq.Z, i, j), s.Zat(j)))
    M.check_all("R_1D", (s.nx,), lambda i: M.eq(M.at(eq.R_1D, i), s.Rat(i)))
    M.check_all("Z_1D", (s.ny,), lambda j: M.eq(M.at(eq.Z_1D, j), s.Zat(j)))
    M.check("spacing", M.And(M.eq(eq.dR, s.dR), M.eq(eq.dZ, s.dZ)))
    M.check("domain kept", M.And(M.eq(eq.Rmin, s.Rmin), M.eq(eq.Rmax, s.Rmax), M.eq(eq.Zmin, s.Zmin), M.eq(eq.Zmax, s.Zmax)))
    M.check_all("flux given", (s.nx, s.ny), lambda i, j: M.eq(M.at(eq.plasma_psi, i, j), M.at(s.P, i, j)))
    M.check("machine", eq.getMachine() is s.machine)


@contract("C10", "flux-and-field", [E + f for f in ("psi", "psiRZ", "Br", "Bz", "plasmaBr", "plasmaBz", "Bpol", "_updatePlasmaPsi")], samples=40)
def fields(M):
    """with whatever currents the coils have now"""
    s = equilibrium(M, xpoints=(0,))
    eq = s.eq
    new_currents(M, s)
    cur = currents(M, s)
    R, Z = place(M, s)
    S = M.spline(M.arr(eq.R_1D), M.arr(eq.Z_1D), s.P)
    psi = eq.psi()
    M.check_shape("flux shape", psi, (s.nx, s.ny))
    M.check_all("total flux on the grid", (s.nx, s.ny), lambda i, j: M.eq(
        M.at(psi, i, j), M.at(s.P, i, j) + s.machine.psi(s.Rat(i), s.Zat(j)), scale=1e-4))
    M.check("total flux anywhere", M.eq(eq.psiRZ(R, Z), S(R, Z) + s.machine.psi(R, Z), scale=1e-4))
    pr, pz = -S(R, Z, dy=1) / R, S(R, Z, dx=1) / R
    M.check("plasma Br", M.eq(eq.plasmaBr(R, Z), pr, scale=1e-4))
    M.check("plasma Bz", M.eq(eq.plasmaBz(R, Z), pz, scale=1e-4))
    br, bz = pr + s.machine.Br(R, Z), pz + s.machine.Bz(R, Z)
    M.check("Br", M.eq(eq.Br(R, Z), br, scale=1e-4))
    M.check("Bz", M.eq(eq.Bz(R, Z), bz, scale=1e-4))
    M.check("Bpol", M.eq(eq.Bpol(R, Z), M.sqrt(br * br + bz * bz), scale=1e-4))
    m = M.int("m", lo=1, sample=(1, 4))
    a = M.array("Rs", (m,), sample=(float(s.Rmin), float(s.Rmax)) if not M.symbolic else None, lo=s.Rmin if M.symbolic else None)
    b = M.array("Zs", (m,), sample=(float(s.Zmin), float(s.Zmax)) if not M.symbolic else None)
    for nm in ("psiRZ", "Br", "Bz", "Bpol"):
        v = M.full(getattr(eq, nm)(a, b), (m,))
        M.check_all(nm + " of many places", (m,), lambda i: M.eq(M.at(v, i), getattr(eq, nm)(M.at(a, i), M.at(b, i)), scale=1e-4))
    M.check_all("currents untouched", (s.n,), lambda k: M.eq(M.item(s.coils, k)[1].current, cur(k)))


class Prof:
    def __init__(self, M, s):
        self.M, self.s, self.calls = M, s, []
        self.f = M.func("f", 1)

    def Jtor(self, R, Z, psi, psi_bndry=None):
        self.calls.append((R, Z, psi, psi_bndry))
        return self.J

    def fpol(self, x):
        return self.f(x)

    def fvac(self):
        return self.M.at(self.M.table((1,), lambda i: 1.3), 0)


@contract("C10", "toroidal-field", [E + f for f in ("Btor", "Btot", "psiN", "psiNRZ", "fpol", "fvac")], samples=30)
def btor(M):
    s = equilibrium(M, xpoints=(0, 1))
    eq = s.eq
    pr = Prof(M, s)
    eq._profiles = pr
    pa, pb = M.real("pa", sample=(0.5, 1)), M.real("pb", sample=(-0.5, 0.4))
    M.assume(M.Or(M.lt(pa, pb), M.lt(pb, pa)))
    eq.psi_axis, eq.psi_bndry = pa, pb
    mask = None
    if M.symbolic:
        if s.nxp:
            mask = M.spline(M.arr(eq.R_1D), M.arr(eq.Z_1D), s.masks[-1].mask)
    elif not hasattr(eq, "mask"):
        M.assume(False)
    elif eq.mask is not None:
        mask = M.spline(eq.R_1D, eq.Z_1D, eq.mask)
    R, Z = place(M, s)
    x = (eq.psiRZ(R, Z) - pa) / (pb - pa)
    f = pr.f(x)
    if mask is not None:
        w = mask(R, Z)
        f = f * w + (1.0 - w) * pr.fvac()
    M.check("normalised flux", M.eq(eq.psiNRZ(R, Z), x))
    M.check("Btor", M.eq(eq.Btor(R, Z), f / R))
    M.check("Btot", M.eq(eq.Btot(R, Z), M.sqrt(eq.Br(R, Z) ** 2 + eq.Bz(R, Z) ** 2 + (f / R) ** 2)))
    n = eq.psiN()
    p = eq.psi()
    M.check_all("normalised flux on the grid", (s.nx, s.ny), lambda i, j: M.eq(M.at(n, i, j), (M.at(p, i, j) - pa) / (pb - pa)))
    M.check("f", M.And(M.eq(eq.fpol(x), pr.f(x)), M.eq(eq.fvac(), pr.fvac())))


@contract("C10", "solve", [E + "solve", E + "_updatePlasmaPsi", E + "callSolver"], samples=20)
def solve(M):
    """Delta* psi = -mu0 R J inside, the boundary condition on the edge"""
    if M.symbolic:
        Bv = M.func("bval", 2)

        def boundary(e, J, psi):
            applied.append((e, J, psi))
            for sl in ((0, slice(None)), (-1, slice(None)), (slice(None), 0), (slice(None), -1)):
                psi[sl] = M.table((s.nx, s.ny), lambda i, j: Bv(i, j))[sl]
    else:
        c = [M.rng.uniform(-1, 1) for _ in range(6)]
        # flux with a vanishing remainder of both finite difference operators
        F = lambda r, z: c[0] + c[1] * z + c[2] * r ** 2 + c[3] * z ** 2 + c[4] * r ** 2 * z
        GS = lambda r, z: 2 * c[3]
        Bv = lambda i, j: F(s.Rat(i), s.Zat(j))

        def boundary(e, J, psi):
            applied.append((e, J, psi))
            for i in range(s.nx):
                for j in range(s.ny):
                    if i in (0, s.nx - 1) or j in (0, s.ny - 1):
                        psi[i, j] = Bv(i, j)
    applied = []
    order = M.choice("order", [2, 4])
    s = equilibrium(M, boundary=boundary, order=order, xpoints=(0, 1))
    eq = s.eq
    pr = Prof(M, s)
    pr.J = M.array("J", (s.nx, s.ny)) if M.symbolic else M.table((s.nx, s.ny), lambda i, j: -GS(s.Rat(i), s.Zat(j)) / (M.mu0 * s.Rat(i)))
    J0 = pr.J.copy()
    total = eq.psi()
    cur = currents(M, s)
    how = M.choice("current density", ["profile", "profile for a given flux", "given"])
    args = {}
    pb = M.real("pb")
    if how == "given":
        args = dict(Jtor=pr.J)
    elif how != "profile":
        args = dict(psi=M.array("given psi", (s.nx, s.ny)), psi_bndry=pb)
    applied.clear()
    eq.solve(pr, **args)
    if how == "given":
        M.check("profile not asked", not pr.calls)
    else:
        M.check("profile asked once", len(pr.calls) == 1)
        R_, Z_, p_, b_ = pr.calls[0]
        M.check_all("for the present flux" if how == "profile" else "for the flux given", (s.nx, s.ny), lambda i, j: M.And(
            M.eq(M.at(p_, i, j), M.at(total if how == "profile" else args["psi"], i, j)), M.eq(M.at(R_, i, j), s.Rat(i)), M.eq(M.at(Z_, i, j), s.Zat(j))))
        M.check("boundary flux passed on", b_ is None if how == "profile" else b_ is pb)
    M.check("boundary condition applied once to this equilibrium", len(applied) == 1 and applied[0][0] is eq)
    M.check_all("for this current density", (s.nx, s.ny), lambda i, j: M.eq(M.at(applied[0][1], i, j), M.at(J0, i, j)))
    edge = lambda i, j: M.Or(M.eq(i, 0), M.eq(j, 0), M.eq(i, s.nx - 1), M.eq(j, s.ny - 1))
    if M.symbolic:
        M.check("one linear solve", len(s.solver) == 1)
        rhs, sol = s.solver[0].b, s.solver[0].out
        M.check_all("right hand side", (s.nx, s.ny), lambda i, j: M.eq(
            M.at(rhs, i, j), M.If(edge(i, j), Bv(i, j), -M.mu0 * s.Rat(i) * M.at(J0, i, j))))
        b = s.built[-1]
        gs = M.module("freegs.gradshafranov")
        M.check("operator of the order asked for", type(b.generator) is (gs.GSsparse if order == 2 else gs.GSsparse4thOrder))
        g = b.generator
        M.check("operator for this domain", M.And(M.eq(g.Rmin, s.Rmin), M.eq(g.Rmax, s.Rmax), M.eq(g.Zmin, s.Zmin), M.eq(g.Zmax, s.Zmax), M.eq(b.nx, s.nx), M.eq(b.ny, s.ny)))
        M.check("solved directly", b.direct is True and b.nlevels == 1)
        want = lambda i, j: M.at(sol, i, j)
    else:
        want = lambda i, j: F(s.Rat(i), s.Zat(j))
    M.check_all("plasma flux is the solution", (s.nx, s.ny), lambda i, j: M.eq(M.at(eq.plasma_psi, i, j), want(i, j), scale=1.0))
    M.check_all("current density kept", (s.nx, s.ny), lambda i, j: M.And(M.eq(M.at(eq.Jtor, i, j), M.at(J0, i, j)), M.eq(M.at(pr.J, i, j), M.at(J0, i, j))))
    M.check("plasma current", M.eq(eq.plasmaCurrent(), M.romb2(lambda i, j: M.at(J0, i, j), s.nx, s.ny) * s.dR * s.dZ))
    R, Z = place(M, s)
    S = M.spline(M.arr(eq.R_1D), M.arr(eq.Z_1D), M.table((s.nx, s.ny), want))
    M.check("flux between grid points follows", M.eq(eq.psiRZ(R, Z), S(R, Z) + s.machine.psi(R, Z), scale=1.0))
    M.check_all("currents untouched", (s.n,), lambda k: M.eq(M.item(s.coils, k)[1].current, cur(k)))
    M.check("profile kept", eq._profiles is pr)
    if M.symbolic:
        last = s.crit[-1]
        M.check_all("axis and boundary looked up for the new flux", (s.nx, s.ny), lambda i, j: M.eq(
            M.at(last.psi, i, j), want(i, j) + s.machine.psi(s.Rat(i), s.Zat(j))))
        M.check("axis flux", M.eq(eq.psi_axis, last.opt[0][2]))


@contract("C10", "order-of-operator", [E + "__init__"], samples=5)
def bad_order(M):
    M.raises("order 3", ValueError, lambda: equilibrium(M, xpoints=(0,), order=3))
