"""C02: field of a coil = turns-weighted filament sum, linear in its current."""
from pv.registry import contract

CO = "freegs.coil"
FIELDS = (("psi", "controlPsi", "Greens"), ("Br", "controlBr", "GreensBr"), ("Bz", "controlBz", "GreensBz"))


def methods(cls):
    return [cls + "." + m for m in ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz", "createPsiGreens", "calcPsiFromGreens")]


def fields(M, coil, filaments, I, turns=None):
    """filaments(f): sum over the coil's filaments of weight * f(r, z)"""
    G = M.greens()
    R = M.real("R", gt=0, sample=(0.1, 3.0))
    Z = M.real("Z", sample=(-2.0, 2.0))
    I2 = M.real("I2", sample=(-1e5, 1e5))
    for what, resp, g in FIELDS:
        unit = filaments(lambda r, z: getattr(G, g)(r, z, R, Z))
        M.check(resp + " is the unit-current filament sum", M.eq(getattr(coil, resp)(R, Z), unit, scale=1e-12))
        M.check(what + " is current times response", M.eq(getattr(coil, what)(R, Z), I * unit, scale=1e-9))
    pg = coil.createPsiGreens(R, Z)
    unit = filaments(lambda r, z: G.Greens(r, z, R, Z))
    M.check("flux from cached response", M.eq(coil.calcPsiFromGreens(pg), I * unit, scale=1e-9))
    coil.current = I2
    M.check("cached response does not depend on the current", M.eq(coil.calcPsiFromGreens(pg), I2 * unit, scale=1e-9))
    for what, resp, g in FIELDS:
        unit = filaments(lambda r, z: getattr(G, g)(r, z, R, Z))
        M.check(what + " follows the current", M.eq(getattr(coil, what)(R, Z), I2 * unit, scale=1e-9))
    # arrays of points
    n, m = M.int("an", lo=1, sample=(1, 3)), M.int("am", lo=1, sample=(1, 3))
    Ra = M.array("Ra", (n, m), sample=(0.1, 3.0))
    Za = M.array("Za", (n, m), sample=(-2, 2))
    for what, resp, g in FIELDS:
        v = getattr(coil, what)(Ra, Za)
        M.check_shape(what + " array shape", v, (n, m))
        M.check_all(what + " on arrays", (n, m), lambda i, j: M.eq(
            M.at(v, i, j), getattr(coil, what)(M.at(Ra, i, j), M.at(Za, i, j)), scale=1e-9))


def common(M):
    I = M.real("I", sample=(-1e5, 1e5))
    turns = M.int("turns", lo=1, sample=(1, 30))
    return I, turns


@contract("C02", "point-coil", methods(CO + ".Coil"), samples=60)
def point(M):
    M.greens()
    I, turns = common(M)
    Rc = M.real("Rc", gt=0, sample=(0.1, 3))
    Zc = M.real("Zc", sample=(-2, 2))
    c = M.module(CO).Coil(Rc, Zc, current=I, turns=turns)
    fields(M, c, lambda f: turns * f(Rc, Zc), I)


@contract("C02", "shaped-coil", methods("freegs.shaped_coil.ShapedCoil"), samples=40)
def shaped(M):
    M.greens()
    I, turns = common(M)
    shape = outline(M)
    n = M.choice("npoints", [1, 3, 6])
    if M.symbolic:
        np_ = M.int("nquad", lo=1)
        quad = M.seq(np_, lambda k: (M.at(qr, k), M.at(qz, k), M.at(qw, k)))
        qr, qz, qw = M.array("qr", (np_,)), M.array("qz", (np_,)), M.array("qw", (np_,))
        polygon_quad = M.contracted("freegs.quadrature.polygon_quad", lambda polygon, n=6: quad)
    else:
        quad = M.module("freegs.quadrature").polygon_quad(shape, n=n)
    c = M.module("freegs.shaped_coil").ShapedCoil(shape, current=I, turns=turns, npoints=n)
    fields(M, c, lambda f: turns * M.sum(0, M.length(quad), lambda k: M.item(quad, k)[2] * f(M.item(quad, k)[0], M.item(quad, k)[1])), I)


def outline(M):
    """a simple polygon with at least three corners"""
    if M.symbolic:
        n = M.int("corners", lo=3)
        r, z = M.array("sr", (n,)), M.array("sz", (n,))
        return M.seq(n, lambda k: (M.at(r, k), M.at(z, k)))
    import math

    k = M.rng.randint(3, 6)
    R0, Z0, a = M.rng.uniform(0.6, 2), M.rng.uniform(-1, 1), M.rng.uniform(0.05, 0.4)
    th = sorted(M.rng.uniform(0, 2 * math.pi) for _ in range(k))
    th = [t + 2 * math.pi * i / k * 1e-3 for i, t in enumerate(th)]
    if M.rng.random() < 0.5:
        th = th[::-1]
    p = [(R0 + a * math.cos(t), Z0 + a * math.sin(t)) for t in th]
    A = 0.5 * abs(sum(p[i][0] * p[(i + 1) % k][1] - p[(i + 1) % k][0] * p[i][1] for i in range(k)))
    M.assume(A > 0.05 * a * a)
    return p


@contract("C02", "filament-coil", methods("freegs.filament_coil.FilamentCoil"), samples=40)
def filament(M):
    M.greens()
    I, turns = common(M)
    nf = M.int("nfil", lo=1, sample=(1, 6))
    r = M.array("fr", (nf,), sample=(1.0, 1.3))
    z = M.array("fz", (nf,), sample=(-0.2, 0.2))
    shape = M.choice("shape", [None, "given"])
    c = M.module("freegs.filament_coil").FilamentCoil(
        r, z, shape=outline(M) if shape else None, current=I, turns=turns)
    fields(M, c, lambda f: turns * M.sum(0, nf, lambda k: f(M.at(r, k), M.at(z, k))) / nf, I)


@contract("C02", "multi-coil", methods("freegs.multi_coil.MultiCoil"), samples=40)
def multi(M):
    """one turn per listed filament, optionally mirrored, with the wiring polarity"""
    M.greens()
    I = M.real("I", sample=(-1e5, 1e5))
    nf = M.int("nfil", lo=1, sample=(1, 5))
    r = M.array("fr", (nf,), sample=(1.0, 1.3))
    z = M.array("fz", (nf,), sample=(0.2, 0.5))
    mirror = M.choice("mirror", [False, True])
    p0, p1 = M.real("p0", sample=(-1, 1)), M.real("p1", sample=(-1, 1))
    c = M.module("freegs.multi_coil").MultiCoil(r, z, current=I, mirror=mirror, polarity=[p0, p1])

    def fil(f):
        t = p0 * M.sum(0, nf, lambda k: f(M.at(r, k), M.at(z, k)))
        if mirror:
            t = t + p1 * M.sum(0, nf, lambda k: f(M.at(r, k), -M.at(z, k)))
        return t

    fields(M, c, fil, I)


@contract("C02", "multi-coil-single-point", methods("freegs.multi_coil.MultiCoil"), samples=30)
def multi1(M):
    M.greens()
    I, turns = common(M)
    Rc = M.real("Rc", gt=0, sample=(0.1, 3))
    Zc = M.real("Zc", sample=(-2, 2))
    mirror = M.choice("mirror", [False, True])
    p0, p1 = M.real("p0", sample=(-1, 1)), M.real("p1", sample=(-1, 1))
    c = M.module("freegs.multi_coil").MultiCoil(Rc, Zc, current=I, turns=turns, mirror=mirror, polarity=[p0, p1])
    fields(M, c, lambda f: turns * (p0 * f(Rc, Zc) + (p1 * f(Rc, -Zc) if mirror else 0.0)), I)


@contract("C02", "solenoid", methods("freegs.machine.Solenoid"), samples=40)
def solenoid(M):
    """one filament per turn, evenly spaced between the two ends"""
    M.greens()
    I = M.real("I", sample=(-1e5, 1e5))
    ns = M.int("Ns", lo=2, sample=(2, 20))
    Rs = M.real("Rs", gt=0, sample=(0.1, 1))
    z0 = M.real("z0", sample=(-2, 0))
    L = M.real("L", gt=0, sample=(0.2, 3))
    c = M.module("freegs.machine").Solenoid(Rs, z0, z0 + L, ns, current=I)
    fields(M, c, lambda f: M.sum(0, ns, lambda k: f(Rs, z0 + L * k / (ns - 1))), I)


@contract("C02", "mirrored-pair", ["freegs.machine.MirroredCoil"], samples=40)
def mirrored(M):
    """a coil and its mirror image below the midplane, currents in series or opposed"""
    M.greens()
    I, turns = common(M)
    Rc = M.real("Rc", gt=0, sample=(0.1, 3))
    Zc = M.real("Zc", sample=(-2, 2))
    sym = M.choice("symmetric", [True, False])
    c = M.module("freegs.machine").MirroredCoil(Rc, Zc, current=I, turns=turns, symmetric=sym)
    fields(M, c, lambda f: turns * (f(Rc, Zc) + (1.0 if sym else -1.0) * f(Rc, -Zc)), I)


@contract("C02", "precalculated-coil", methods("freegs.pre_calc_coil.PreCalcCoil"), samples=20)
def precalc(M):
    """interpolated maps per ampere-turn, times the number of turns"""
    I, turns = common(M)
    nr, nz = M.int("nr", lo=4, sample=(4, 8)), M.int("nz", lo=4, sample=(4, 8))
    rg, zg = grid1(M, "rg", nr, 0.5, 2.0), grid1(M, "zg", nz, -1.0, 1.0)
    # the maps are given on (Z, R) meshes
    Rg = M.table((nz, nr), lambda i, j: M.at(rg, j))
    Zg = M.table((nz, nr), lambda i, j: M.at(zg, i))
    maps = {w: M.array("map" + w, (nz, nr)) for w in ("psi", "Br", "Bz")}
    c = M.module("freegs.pre_calc_coil").PreCalcCoil(
        outline(M), Rg, Zg, maps["Br"], maps["Bz"], maps["psi"], current=I, turns=turns)
    I2 = M.real("I2", sample=(-1e5, 1e5))
    n, m = M.int("an", lo=1, sample=(1, 3)), M.int("am", lo=1, sample=(1, 3))
    Ra = M.array("Ra", (n, m), sample=(0.6, 1.9))
    Za = M.array("Za", (n, m), sample=(-0.9, 0.9))
    i, j = M.int("gi", lo=0, sample=(0, 7)), M.int("gj", lo=0, sample=(0, 7))
    M.assume(M.And(M.lt(i, nz), M.lt(j, nr)))
    for what, resp, g in FIELDS:
        u = M.spline(rg, zg, M.table((nr, nz), lambda a, b: M.at(maps[what], b, a)))
        R, Z = M.real("R", sample=(0.6, 1.9)), M.real("Z", sample=(-0.9, 0.9))
        M.check(resp + " is the interpolated map times turns", M.eq(getattr(c, resp)(R, Z), turns * u(R, Z), scale=1e-9))
        M.check(what + " is current times response", M.eq(getattr(c, what)(R, Z), I * turns * u(R, Z), scale=1e-9))
        v = getattr(c, what)(Ra, Za)
        M.check_shape(what + " array shape", v, (n, m))
        M.check_all(what + " on arrays", (n, m), lambda a, b: M.eq(M.at(v, a, b), I * turns * u(M.at(Ra, a, b), M.at(Za, a, b)), scale=1e-9))
    c.current = I2
    u = M.spline(rg, zg, M.table((nr, nz), lambda a, b: M.at(maps["psi"], b, a)))
    M.check("psi follows the current", M.eq(c.psi(1.0, 0.0), I2 * turns * u(1.0, 0.0), scale=1e-9))


def grid1(M, name, n, a, b):
    h = (b - a) / (n - 1)
    return M.table((n,), lambda i: a + h * i)
