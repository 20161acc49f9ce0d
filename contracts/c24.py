"""C24: a finer or coarser grid, or another domain, keeps the plasma (freegs.equilibrium)."""
from pv.registry import contract

from .eqm import EQ, equilibrium, place

E = EQ + "."


def boundary(M, log):
    """a boundary condition: sets the edge, and says what it was given"""
    B = M.func("bval", 2) if M.symbolic else (lambda i, j: 0.01 * M.np.sin(i + 2 * j))

    def apply(e, J, psi):
        log.append((e, J, psi))
        nx, ny = psi.shape
        b = M.table((nx, ny), lambda i, j: B(i, j))
        for sl in ((0, slice(None)), (-1, slice(None)), (slice(None), 0), (slice(None), -1)):
            psi[sl] = b[sl]

    apply.value = B
    return apply


def given(M, log=None):
    s = equilibrium(M, boundary=boundary(M, [] if log is None else log), order=M.choice("order", [2, 4]), xpoints=(1,))
    s.eq.check_limited = M.choice("limited", [False, True])
    return s


def settings(M, s, new, nx, ny, box=None):
    eq = s.eq
    Rmin, Rmax, Zmin, Zmax = box or (s.Rmin, s.Rmax, s.Zmin, s.Zmax)
    M.check("a new equilibrium", new is not eq)
    M.check("the same machine", new.tokamak is s.machine and eq.tokamak is s.machine)
    M.check("the same boundary condition", new._applyBoundary is eq._applyBoundary)
    M.check("the same order", new.order == s.order)
    M.check("limiter checked as before", new.check_limited is eq.check_limited)
    M.check("the domain", M.And(M.eq(new.Rmin, Rmin), M.eq(new.Rmax, Rmax), M.eq(new.Zmin, Zmin), M.eq(new.Zmax, Zmax)))
    M.check("the resolution", M.And(M.eq(new.nx, nx), M.eq(new.ny, ny)))
    M.check_shape("flux on the grid", new.plasma_psi, (nx, ny))
    M.check_all("the grid", (nx, ny), lambda i, j: M.And(M.eq(M.at(new.R, i, j) * (nx - 1), Rmin * (nx - 1) + i * (Rmax - Rmin)),
                                                      M.eq(M.at(new.Z, i, j) * (ny - 1), Zmin * (ny - 1) + j * (Zmax - Zmin), scale=100)))
    if M.symbolic:
        b = s.built[-1]
        gs = M.module("freegs.gradshafranov")
        g = b.generator
        M.check("operator of the same order", type(g) is (gs.GSsparse if s.order == 2 else gs.GSsparse4thOrder))
        M.check("operator for this grid", M.And(M.eq(g.Rmin, Rmin), M.eq(g.Rmax, Rmax), M.eq(g.Zmin, Zmin), M.eq(g.Zmax, Zmax), M.eq(b.nx, nx), M.eq(b.ny, ny)))


def kept(M, s, was):
    M.check_shape("grid as it was", s.eq.plasma_psi, (s.nx, s.ny))
    M.check_all("flux as it was", (s.nx, s.ny), lambda i, j: M.eq(M.at(s.eq.plasma_psi, i, j), was(i, j)))


class Profile:
    pass


def profile(M, s):
    p = M.choice("profile", [False, True])
    if p:
        s.eq._profiles = Profile()
    return p


@contract("C24", "refine", [E + "refine"], samples=30)
def refining(M):
    em = M.module(EQ)
    s = given(M)
    eq = s.eq
    was = M.snapshot2(eq.plasma_psi)
    Ip = eq.plasmaCurrent()
    has = profile(M, s)
    nx, ny = 2 * (s.nx - 1) + 1, 2 * (s.ny - 1) + 1
    kw = {}
    if M.choice("nx", ["default", "given"]) == "given":
        nx = kw["nx"] = M.int("newnx", lo=3, sample=(6, 40))
    if M.choice("ny", ["default", "given"]) == "given":
        ny = kw["ny"] = M.int("newny", lo=3, sample=(6, 40))
    new = em.refine(eq, **kw)
    settings(M, s, new, nx, ny)
    flux = M.interpolant(s.eq.R[:, 0], s.eq.Z[0, :], M.table((s.nx, s.ny), was))
    want = flux(new.R, new.Z, grid=False)
    M.check_all("the plasma flux, interpolated", (nx, ny), lambda i, j: M.eq(M.at(new.plasma_psi, i, j), M.at(want, i, j), scale=1.0))
    R, Z = place(M, s)
    S = M.spline(new.R[:, 0], new.Z[0, :], want)
    M.check("flux between the points follows", M.eq(new.psiRZ(R, Z), S(R, Z) + s.machine.psi(R, Z), scale=1.0))
    M.check("the plasma current", M.eq(new.plasmaCurrent(), Ip))
    M.check("the profiles", getattr(new, "_profiles", None) is getattr(eq, "_profiles", None))
    kept(M, s, was)


@contract("C24", "coarsen", [E + "coarsen"], samples=30)
def coarsening(M):
    em = M.module(EQ)
    s = given(M)
    eq = s.eq
    was = M.snapshot2(eq.plasma_psi)
    Ip = eq.plasmaCurrent()
    profile(M, s)
    even = M.decide(M.And(M.eq((s.nx - 1) % 2, 0), M.eq((s.ny - 1) % 2, 0))) if M.symbolic else True
    nx, ny = ((s.nx - 1) // 2 + 1, (s.ny - 1) // 2 + 1) if even else (s.nx, s.ny)
    # the fourth order operator needs six points
    M.assume(s.order == 2 or M.And(M.lt(5, nx), M.lt(5, ny)))
    new = em.coarsen(eq)
    f = 2 if even else 1
    settings(M, s, new, nx, ny)
    M.check_all("the plasma flux at the points kept", (nx, ny), lambda i, j: M.eq(M.at(new.plasma_psi, i, j), was(f * i, f * j), scale=1.0))
    M.check("the plasma current", M.eq(new.plasmaCurrent(), Ip))
    M.check("the profiles", getattr(new, "_profiles", None) is getattr(eq, "_profiles", None))
    kept(M, s, was)


@contract("C24", "new-domain", [E + "newDomain"], samples=20)
def domain(M):
    em = M.module(EQ)
    log, calls = [], []
    s = given(M, log)
    eq = s.eq
    B = eq._applyBoundary.value
    was = M.snapshot2(eq.plasma_psi)
    total = eq.psi()
    J0 = M.array("J", (s.nx, s.ny), sample=(0, 1e5))

    class Current:
        def Jtor(self, R, Z, psi, psi_bndry=None):
            calls.append((R, Z, psi, psi_bndry))
            if len(calls) == 1:
                return J0
            J1.append(M.array("J1", psi.shape, sample=(0, 1e5)))
            return J1[0]

    J1 = []
    pr = eq._profiles = Current()
    kw = {}
    nx, ny, box = s.nx, s.ny, [s.Rmin, s.Rmax, s.Zmin, s.Zmax]
    if M.choice("resolution", ["default", "given"]) == "given":
        if M.symbolic:
            kx, ky = M.int("newmx", lo=2), M.int("newmy", lo=2)
            nx, ny = kx + 1, ky + 1
        else:
            nx, ny = M.rng.choice([9, 17, 33]), M.rng.choice([9, 17, 33])
        kw.update(nx=nx, ny=ny)
    if M.choice("domain", ["default", "given"]) == "given":
        if M.symbolic:
            box = [M.real("newRmin", gt=0), None, M.real("newZmin"), None]
            box[1], box[3] = box[0] + (nx - 1) * M.real("newdR", gt=0), box[2] + (ny - 1) * M.real("newdZ", gt=0)
        else:
            r = M.rng.uniform
            box = [s.Rmin + r(-0.05, 0.3), s.Rmax + r(-0.3, 0.2), s.Zmin + r(-0.2, 0.3), s.Zmax + r(-0.3, 0.3)]
        kw.update(zip(("Rmin", "Rmax", "Zmin", "Zmax"), box))
    M.assume(hasattr(eq, "psi_bndry"))
    log.clear()
    n0 = len(s.solver)
    new = em.newDomain(eq, **kw)
    settings(M, s, new, nx, ny, box)
    M.check("current asked for twice", len(calls) == 2)
    R_, Z_, p_, b_ = calls[0]
    M.check("within the boundary there", b_ is eq.psi_bndry)
    M.check_all("on the old grid", (s.nx, s.ny), lambda i, j: M.And(
        M.eq(M.at(p_, i, j), M.at(total, i, j)), M.eq(M.at(R_, i, j), s.Rat(i)), M.eq(M.at(Z_, i, j), s.Zat(j))))
    M.check_shape("then on the new", calls[1][2], (nx, ny))
    M.check_all("on the new grid", (nx, ny), lambda i, j: M.And(M.eq(M.at(calls[1][0], i, j), M.at(new.R, i, j)), M.eq(M.at(calls[1][1], i, j), M.at(new.Z, i, j))))
    M.check("boundary condition applied to the new one", len(log) == 2 and log[0][0] is new and log[1][0] is new)
    J = M.interpolant(eq.R[:, 0], eq.Z[0, :], J0)(new.R, new.Z, grid=False)
    M.check_all("for the current interpolated", (nx, ny), lambda i, j: M.eq(M.at(log[0][1], i, j), M.at(J, i, j), scale=1e5))
    M.check_all("for the current on the new grid", (nx, ny), lambda i, j: M.eq(M.at(log[1][1], i, j), M.at(J1[0], i, j)))
    edge = lambda i, j: M.Or(M.eq(i, 0), M.eq(j, 0), M.eq(i, nx - 1), M.eq(j, ny - 1))
    rhs = lambda J: lambda i, j: M.If(edge(i, j), B(i, j), -M.mu0 * M.at(new.R, i, j) * M.at(J, i, j))
    if M.symbolic:
        M.require("two linear solves", len(s.solver) - n0 == 2)
        for c, J in zip(s.solver[n0:], (J, J1[0])):
            M.check_all("right hand side", (nx, ny), lambda i, j, c=c, J=J: M.eq(M.at(c.b, i, j), rhs(J)(i, j)))
        first, last = s.solver[n0].out, s.solver[n0 + 1].out
    else:
        gs = M.module("freegs.gradshafranov")
        A = (gs.GSsparse if s.order == 2 else gs.GSsparse4thOrder)(*box)(nx, ny)
        from scipy.sparse.linalg import spsolve

        solve = lambda J: spsolve(A.tocsc(), M.np.reshape(M.table((nx, ny), rhs(J)), -1)).reshape((nx, ny))
        first, last = solve(J), solve(J1[0])
    M.check_all("current for the first solution", (nx, ny), lambda i, j: M.eq(
        M.at(calls[1][2], i, j), M.at(first, i, j) + s.machine.psi(M.at(new.R, i, j), M.at(new.Z, i, j)), scale=1.0))
    M.check_all("plasma flux is the solution", (nx, ny), lambda i, j: M.eq(M.at(new.plasma_psi, i, j), M.at(last, i, j), scale=1.0))
    M.check("plasma current", M.eq(new.plasmaCurrent(), M.romb2(lambda i, j: M.at(J1[0], i, j), nx, ny) * (box[1] - box[0]) / (nx - 1) * (box[3] - box[2]) / (ny - 1)))
    M.check("the profiles", new._profiles is pr and eq._profiles is pr)
    kept(M, s, was)
