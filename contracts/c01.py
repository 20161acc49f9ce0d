"""C01: Green's functions of a circular current loop."""
from pv.registry import contract

GS = "freegs.gradshafranov"
F = [GS + ".Greens"]


def points(M):
    Rc = M.real("Rc", gt=0, sample=(0.05, 4.0))
    Zc = M.real("Zc", sample=(-3.0, 3.0))
    R = M.real("R", gt=0, sample=(0.05, 4.0))
    Z = M.real("Z", sample=(-3.0, 3.0))
    return Rc, Zc, R, Z


def loop_flux(M, Rc, Zc, R, Z):
    """poloidal flux per radian at (R,Z) of a unit current loop, k^2 limited to
    [1e-10, 1-1e-10]"""
    k2 = 4.0 * R * Rc / ((R + Rc) ** 2 + (Z - Zc) ** 2)
    k2 = M.If(k2 < 1e-10, 1e-10, k2)
    k2 = M.If(k2 > 1.0 - 1e-10, 1.0 - 1e-10, k2)
    return (
        M.mu0 / (2.0 * M.pi) * M.sqrt(R * Rc)
        * ((2.0 - k2) * M.ellipk(k2) - 2.0 * M.ellipe(k2)) / M.sqrt(k2)
    )


@contract("C01", "flux-formula", F, samples=400)
def flux_formula(M):
    Rc, Zc, R, Z = points(M)
    on = M.choice("place", ["generic", "on the coil", "same radius", "near axis"])
    if on == "on the coil":
        R, Z = Rc, Zc
    elif on == "same radius":
        R = Rc
    elif on == "near axis":
        R = M.real("Rs", gt=0, sample=(1e-9, 1e-4))
    G = M.module(GS)
    M.check("formula", M.eq(G.Greens(Rc, Zc, R, Z), loop_flux(M, Rc, Zc, R, Z), scale=1e-12))


@contract("C01", "flux-elementwise", F, samples=60)
def flux_elementwise(M):
    """arrays are handled point by point, also when both places are arrays"""
    G = M.module(GS)
    n, m = M.int("n", lo=1), M.int("m", lo=1)
    R = M.array("Rarr", (n, m), sample=(0.05, 4.0), lo=0.001)
    Z = M.array("Zarr", (n, m), sample=(-3, 3))
    Rc = M.real("Rc", gt=0, sample=(0.05, 4.0))
    Zc = M.real("Zc", sample=(-3, 3))
    g = G.Greens(Rc, Zc, R, Z)
    br = G.GreensBr(Rc, Zc, R, Z)
    bz = G.GreensBz(Rc, Zc, R, Z)
    M.check_shape("shape", g, (n, m))
    M.check_all("elementwise", (n, m), lambda i, j: M.And(
        M.eq(M.at(g, i, j), G.Greens(Rc, Zc, M.at(R, i, j), M.at(Z, i, j)), scale=1e-12),
        M.eq(M.at(br, i, j), G.GreensBr(Rc, Zc, M.at(R, i, j), M.at(Z, i, j)), scale=1e-9),
        M.eq(M.at(bz, i, j), G.GreensBz(Rc, Zc, M.at(R, i, j), M.at(Z, i, j)), scale=1e-9)))


@contract("C01", "reciprocity", F, samples=300)
def reciprocity(M):
    Rc, Zc, R, Z = points(M)
    G = M.module(GS)
    M.check("swap", M.eq(G.Greens(Rc, Zc, R, Z), G.Greens(R, Z, Rc, Zc), scale=1e-12))


@contract("C01", "shift-and-mirror", F, samples=300)
def shift(M):
    """axisymmetric physics: only the height difference matters, not its sign"""
    Rc, Zc, R, Z = points(M)
    d = M.real("d", sample=(-2, 2))
    G = M.module(GS)
    a = G.Greens(Rc, Zc, R, Z)
    M.check("shift", M.eq(a, G.Greens(Rc, Zc + d, R, Z + d), scale=1e-9))
    M.check("mirror", M.eq(a, G.Greens(Rc, Z, R, Zc), scale=1e-9))


@contract("C01", "vertical-field", [GS + ".GreensBz"], samples=300)
def bz(M):
    """Bz = (1/R) dpsi/dR of the same flux function (centred difference)"""
    Rc, Zc, R, Z = points(M)
    eps = M.real("eps", gt=0, sample=(1e-4, 1e-2))
    M.assume(R > eps)
    G = M.module(GS)
    flux = G.Greens
    want = lambda e: (flux(Rc, Zc, R + e, Z) - flux(Rc, Zc, R - e, Z)) / (2.0 * e) / R
    M.check("given step", M.eq(G.GreensBz(Rc, Zc, R, Z, eps=eps), want(eps), scale=1e-9))
    M.assume(R > 1e-3)
    M.check("default step", M.eq(G.GreensBz(Rc, Zc, R, Z), want(1e-3), scale=1e-9))


@contract("C01", "radial-field", [GS + ".GreensBr"], samples=300)
def br(M):
    """Br = -(1/R) dpsi/dZ of the same flux function (centred difference)"""
    Rc, Zc, R, Z = points(M)
    eps = M.real("eps", gt=0, sample=(1e-4, 1e-2))
    G = M.module(GS)
    flux = G.Greens
    want = lambda e: -(flux(Rc, Zc, R, Z + e) - flux(Rc, Zc, R, Z - e)) / (2.0 * e) / R
    M.check("given step", M.eq(G.GreensBr(Rc, Zc, R, Z, eps=eps), want(eps), scale=1e-9))
    M.check("default step", M.eq(G.GreensBr(Rc, Zc, R, Z), want(1e-3), scale=1e-9))
