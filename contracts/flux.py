"""inputs shared by the profile contracts: a flux map with its critical points"""


class Eq:
    """what the profile classes see of an equilibrium"""

    def __init__(self, M, bndry):
        self._b = bndry
        self.psi_bndry = None
        self.psi_axis = None
        self.updated = []
        self.Br, self.Bz = M.func("eqBr", 2), M.func("eqBz", 2)

    def _updateBoundaryPsi(self, psi=None):
        self.updated.append(psi)
        self.psi_bndry = self._b


def flux(M, power2=True):
    """-> nx, ny, R, Z, psi, dR, dZ, axis flux, [X point fluxes], mask(psi_bndry or None)(i, j)"""
    if M.symbolic:
        nx, ny = M.int("nx", lo=3), M.int("ny", lo=3)
        R0, dR = M.real("R0", gt=0), M.real("dR", gt=0)
        Z0, dZ = M.real("Z0"), M.real("dZ", gt=0)
        R = M.table((nx, ny), lambda i, j: R0 + i * dR)
        Z = M.table((nx, ny), lambda i, j: Z0 + j * dZ)
        psi = M.array("psi", (nx, ny))
        pa = M.real("psi_o")
        nxp = M.choice("xpoints", [0, 1, 2])
        xp = [M.real("psi_x%d" % i) for i in range(nxp)]
        opt = [(M.real("Ro"), M.real("Zo"), pa)]
        xpt = [(M.real("Rx%d" % i), M.real("Zx%d" % i), p) for i, p in enumerate(xp)]
        T = M.func("core", 3)

        def core(pb):
            return lambda i, j: M.If(M.lt(0, T(pb, i, j)), 1.0, 0.0)

        def find_critical(r, z, p, discard_xpoints=True, *a, **k):
            M.check("critical points of the flux given", r is R and z is Z and p is psi and not a and not k)
            return list(opt), list(xpt)

        def core_mask(r, z, p, o, x, psi_bndry=None):
            M.check("core of the flux given", r is R and z is Z and p is psi and list(o) == opt and list(x) == xpt)
            return M.table((nx, ny), core(psi_bndry if psi_bndry is not None else x[0][2]))

        M.contracted("freegs.critical.find_critical", find_critical)
        M.contracted("freegs.critical.core_mask", core_mask)
        return nx, ny, R, Z, psi, dR, dZ, pa, xp, core
    import numpy as np

    rng = M.rng
    nx, ny = rng.choice([17, 33]), rng.choice([17, 33])
    Rmin, Rmax, Zmin, Zmax = 0.2, 1.9, -1.2, 1.3
    R, Z = np.meshgrid(np.linspace(Rmin, Rmax, nx), np.linspace(Zmin, Zmax, ny), indexing="ij")
    s = rng.choice([1.0, -1.0])
    r0, z0, w = rng.uniform(0.9, 1.2), rng.uniform(-0.15, 0.15), rng.uniform(0.25, 0.4)
    psi = np.exp(-((R - r0) ** 2 + (Z - z0) ** 2) / w ** 2)
    nxp = rng.choice([0, 1, 2])
    for k in range(nxp):
        zc = z0 + (0.9 if k else -0.9)
        psi = psi + rng.uniform(0.6, 0.9) * np.exp(-((R - r0 - 0.05) ** 2 + (Z - zc) ** 2) / w ** 2)
    psi = s * psi * rng.choice([1.0, 0.3]) + rng.choice([0.0, 0.2])
    crit = M.module("freegs.critical")
    opt, xpt = crit.find_critical(R, Z, psi)
    if not opt:
        M.assume(False)
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]

    def core(pb):
        m = crit.core_mask(R, Z, psi, opt, xpt, pb)
        return lambda i, j: m[i, j]

    return nx, ny, R, Z, psi, dR, dZ, opt[0][2], [x[2] for x in xpt], core


def pick_bndry(M, eqb, pa, xp, psi):
    """the boundary flux to be used, in the documented order of preference"""
    if eqb is not None:
        return eqb
    if xp:
        return xp[0]
    return None
