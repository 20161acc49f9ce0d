"""C08: magnetic axis, boundary flux, limiter contact point and core mask of the present flux."""
from pv.registry import contract
from contracts.eqm import EQ, currents, equilibrium, exists, new_currents

E = EQ + ".Equilibrium."


@contract("C08", "boundary-flux", [E + "_updateBoundaryPsi"], samples=60)
def boundary_flux(M):
    """axis, boundary flux, core mask and limiter contact point of the present total flux"""
    fixed, limited, walled, given = M.choice("setting", [
        (False, False, False, "given"), (True, False, True, "its own"), (True, True, False, "its own"),
        (False, True, True, "its own"), (True, True, True, "given")][:4 if M.symbolic else None])
    mc, bd, cr = M.module("freegs.machine"), M.module("freegs.boundary"), M.module("freegs.critical")
    wall = mc.Wall([0.2, 1.5, 1.5, 0.2], [-0.7, -0.7, 0.8, 0.8]) if walled and not M.symbolic else None
    s = equilibrium(M, xpoints=(0, 1), wall=wall, boundary=bd.fixedBoundary if fixed else bd.freeBoundary, limited=False)
    eq = s.eq
    m = M.int("limit points", lo=1, sample=(1, 9))
    # the limiter points in use, wherever they lie
    RL = M.array("RL", (m,), sample=None if M.symbolic else (s.Rmin, s.Rmax))
    ZL = M.array("ZL", (m,), sample=None if M.symbolic else (s.Zmin, s.Zmax))
    if walled:
        if M.symbolic:
            s.machine.wall = mc.Wall([0.2, 1.5, 1.5, 0.2], [-0.7, -0.7, 0.8, 0.8])
        s.machine.limit_points_R, s.machine.limit_points_Z = RL, ZL
    eq.check_limited = limited
    if not M.symbolic and M.rng.random() < 0.6:
        # several maxima: X-points
        a = [(M.rng.uniform(s.Rmin, s.Rmax), M.rng.uniform(s.Zmin, s.Zmax), M.rng.uniform(0.2, 1)) for _ in range(3)]
        eq.plasma_psi = M.table((s.nx, s.ny), lambda i, j: sum(
            h * M.np.exp(-((s.Rat(i) - r) ** 2 + (s.Zat(j) - z) ** 2) / 0.25) for r, z, h in a))
    new_currents(M, s)
    psi = eq.psi()
    if M.symbolic:
        pass
    else:
        opt, xpt = cr.find_critical(eq.R, eq.Z, psi)
        if not opt:
            M.assume(False)
    nearby = lambda zx: (lambda k: M.lt(M.abs(M.at(ZL, k)), M.abs(0.75 * zx)))
    if walled and limited:
        # at least one limiter point is considered
        if M.symbolic:
            w = M.int("w", lo=0)
            M.assume(M.lt(w, m))
            if s.nxp:
                nc = len(s.crit)
                M.assume(nearby(M.real("Zx0@%d" % nc))(w))
        elif xpt:
            M.assume(any(nearby(xpt[0][1])(k) for k in range(m)))
    P0, cur = eq.plasma_psi.copy(), currents(M, s)
    eq._updateBoundaryPsi() if given == "its own" else eq._updateBoundaryPsi(psi)
    if M.symbolic:
        c = s.crit[-1]
        opt, xpt = c.opt, c.xpt
        M.check_all("critical points of the total flux", (s.nx, s.ny), lambda i, j: M.And(
            M.eq(M.at(c.psi, i, j), M.at(psi, i, j)), M.eq(M.at(c.R, i, j), s.Rat(i)), M.eq(M.at(c.Z, i, j), s.Zat(j))))
    M.check("axis", M.eq(eq.psi_axis, opt[0][2]))
    S = M.spline(M.arr(eq.R_1D), M.arr(eq.Z_1D), psi)
    bndry = None
    if limited and walled:
        near = nearby(xpt[0][1]) if xpt else (lambda k: True)
        at = lambda k: S(M.at(RL, k), M.at(ZL, k))
        M.check_all("limiter flux is the largest", (m,), lambda k: M.implies(near(k), M.le(at(k), eq.psi_limit, tol=1e-9)))
        M.check("attained at the contact point", M.eq(S(eq.Rlim, eq.Zlim), eq.psi_limit, scale=1e-6))
        hit = lambda k: M.And(near(k), M.eq(M.at(RL, k), eq.Rlim), M.eq(M.at(ZL, k), eq.Zlim))
        M.check("contact point is a limiter point", exists(M, m, hit))
        bndry = M.If(M.lt(eq.psi_limit, xpt[0][2]), xpt[0][2], eq.psi_limit) if xpt else eq.psi_limit
        M.check("boundary flux", M.eq(eq.psi_bndry, bndry))
        islim = M.le(xpt[0][2], eq.psi_limit) if xpt else True
        M.check("limited", M.iff(eq.is_limited, islim))
    else:
        M.check("not limited", M.Not(eq.is_limited))
        if xpt:
            M.check("boundary is the X-point's", M.eq(eq.psi_bndry, xpt[0][2]))
        elif fixed:
            M.check("boundary is the edge's", M.eq(eq.psi_bndry, M.at(psi, 0, 0)))
        else:
            M.check("no boundary", eq.psi_bndry is None)
    if not xpt:
        M.check("all is core", eq.mask is None)
    elif M.symbolic:
        k = s.masks[-1]
        M.check("core of this flux", M.And(k.opt == opt, k.xpt == xpt))
        M.check_all("core of this flux on the grid", (s.nx, s.ny), lambda i, j: M.And(M.eq(M.at(k.psi, i, j), M.at(psi, i, j)), M.eq(
            M.at(eq.mask, i, j), M.at(k.mask, i, j)), M.eq(M.at(k.R, i, j), s.Rat(i)), M.eq(M.at(k.Z, i, j), s.Zat(j))))
        M.check("inside this boundary", M.eq(k.psi_bndry, bndry) if bndry is not None else (k.psi_bndry is None or M.eq(k.psi_bndry, xpt[0][2])))
    else:
        want = cr.core_mask(eq.R, eq.Z, psi, opt, xpt, bndry)
        M.check_all("core", (s.nx, s.ny), lambda i, j: M.eq(eq.mask[i, j], want[i, j]))
    M.check_all("plasma flux untouched", (s.nx, s.ny), lambda i, j: M.eq(M.at(eq.plasma_psi, i, j), M.at(P0, i, j)))
    M.check_all("currents untouched", (s.n,), lambda k: M.eq(M.item(s.coils, k)[1].current, cur(k)))


@contract("C08", "limiter-points", ["freegs.machine.Machine.generate_limit_points", "freegs.machine.Machine.__init__"], samples=200, sym=False)
def limiter_points(M):
    """points equally spaced along the whole closed wall, every one of them on the wall"""
    np, rng = M.np, M.rng
    mc = M.module("freegs.machine")
    n = rng.randint(3, 9)
    R, Z = [rng.uniform(0.2, 2) for _ in range(n)], [rng.uniform(-1, 1) for _ in range(n)]
    if rng.random() < 0.4:
        R.append(R[0])
        Z.append(Z[0])
    k = rng.randint(0, 3)
    if k == 1:
        R, Z = np.array(R), np.array(Z)
    elif k == 2:
        R, Z = tuple(R), tuple(Z)
    R0, Z0 = list(R), list(Z)
    nl = rng.randint(2, 60)
    m = mc.Machine([], mc.Wall(R, Z), nlimit=nl)
    pr, pz = list(R0), list(Z0)
    if (pr[0], pz[0]) != (pr[-1], pz[-1]):
        pr.append(pr[0])
        pz.append(pz[0])
    d = [0.0]
    for i in range(len(pr) - 1):
        d.append(d[-1] + ((pr[i + 1] - pr[i]) ** 2 + (pz[i + 1] - pz[i]) ** 2) ** 0.5)
    M.check("number of points", len(m.limit_points_R) == nl and len(m.limit_points_Z) == nl)
    for j in range(nl):
        s = d[-1] * j / (nl - 1)
        i = max(q for q in range(len(d) - 1) if d[q] <= s)
        f = min(1.0, (s - d[i]) / (d[i + 1] - d[i]))
        M.check("at its distance along the wall", M.And(
            M.eq(m.limit_points_R[j], pr[i] + f * (pr[i + 1] - pr[i]), scale=1.0, rtol=1e-6),
            M.eq(m.limit_points_Z[j], pz[i] + f * (pz[i + 1] - pz[i]), scale=1.0, rtol=1e-6)))
    M.check("wall unchanged", list(m.wall.R) == R0 and list(m.wall.Z) == Z0)
    M.check("no wall, no points", mc.Machine([]).limit_points_R is None)
