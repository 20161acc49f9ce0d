"""C20: sensors (freegs.machine)."""
from types import SimpleNamespace

from pv.registry import contract
from contracts import c02

MC = "freegs.machine"


def region(M):
    """the outline of a Rogowski sensor and whether a point is inside it"""
    if M.symbolic:
        from pv import shapes

        g = shapes.Region("rog")
        return g, lambda r, z: g.contains(shapes.Point(r, z))
    from shapely.geometry import Point, Polygon
    import math

    k = M.rng.randint(3, 7)
    R0, Z0 = M.rng.uniform(0.5, 2), M.rng.uniform(-0.8, 0.8)
    th = sorted(M.rng.uniform(0, 2 * math.pi) for _ in range(k))
    pts = [(R0 + M.rng.uniform(0.2, 0.9) * math.cos(t), Z0 + M.rng.uniform(0.2, 0.9) * math.sin(t)) for t in th]
    g = Polygon(pts)
    M.assume(g.is_valid and g.area > 1e-3)
    M.outline_points = pts
    return g, lambda r, z: bool(g.contains(Point(r, z)))


def count(M, inside, n, at):
    return M.sum(0, n, lambda k: M.If(inside(*at(k)), 1, 0))


def turns_of(M):
    return M.int("turns", lo=1, sample=(1, 30))


@contract("C20", "turns-of-a-point-coil", ["freegs.coil.Coil.inShape"], samples=60)
def coil(M):
    g, inside = region(M)
    N = turns_of(M)
    r, z = M.real("Rc", gt=0, sample=(0.1, 3)), M.real("Zc", sample=(-2, 2))
    c = M.module("freegs.coil").Coil(r, z, current=3.0, turns=N)
    M.check("all or no turns", M.eq(c.inShape(g), M.If(inside(r, z), N, 0)))


@contract("C20", "turns-of-a-shaped-coil", ["freegs.shaped_coil.ShapedCoil.inShape"], samples=40)
def shaped(M):
    g, inside = region(M)
    N = turns_of(M)
    shape = c02.outline(M)
    if M.symbolic:
        from pv import shapes

        M.contracted("freegs.quadrature.polygon_quad", lambda polygon, n=6: [])
        area = M.contracted("freegs.polygons.area", lambda p: M.real("area"))
        P, A = shapes.Polygon(shape), M.abs(M.real("area"))
    else:
        from shapely.geometry import Polygon

        P = Polygon(shape)
        A = P.area
    c = M.module("freegs.shaped_coil").ShapedCoil(shape, current=3.0, turns=N)
    M.check("share of the cross section", M.eq(c.inShape(g), N * g.intersection(P).area / A, scale=1e-6))


@contract("C20", "turns-of-a-filament-coil", ["freegs.filament_coil.FilamentCoil.inShape"], samples=40)
def filament(M):
    g, inside = region(M)
    N = turns_of(M)
    n = M.int("nfil", lo=1, sample=(1, 6))
    r, z = M.array("fr", (n,), sample=(0.4, 2.0)), M.array("fz", (n,), sample=(-1, 1))
    c = M.module("freegs.filament_coil").FilamentCoil(r, z, current=3.0, turns=N)
    M.check("share of the filaments", M.eq(c.inShape(g), N * count(M, inside, n, lambda k: (M.at(r, k), M.at(z, k))) / n))


@contract("C20", "turns-of-a-multi-coil", ["freegs.multi_coil.MultiCoil.inShape"], samples=40)
def multi(M):
    g, inside = region(M)
    n = M.int("nfil", lo=1, sample=(1, 6))
    r, z = M.array("fr", (n,), sample=(0.4, 2.0)), M.array("fz", (n,), sample=(-1, 1))
    mirror = M.choice("mirror", [False, True])
    p0, p1 = M.real("p0", sample=(-1, 1)), M.real("p1", sample=(-1, 1))
    c = M.module("freegs.multi_coil").MultiCoil(r, z, current=3.0, mirror=mirror, polarity=[p0, p1])
    want = p0 * count(M, inside, n, lambda k: (M.at(r, k), M.at(z, k)))
    if mirror:
        want = want + p1 * count(M, inside, n, lambda k: (M.at(r, k), -M.at(z, k)))
    M.check("filaments and mirrored filaments, with polarity", M.eq(c.inShape(g), want))


@contract("C20", "turns-of-a-solenoid", [MC + ".Solenoid.inShape"], samples=40)
def solenoid(M):
    g, inside = region(M)
    n = M.int("Ns", lo=2, sample=(2, 20))
    Rs, z0, L = M.real("Rs", gt=0, sample=(0.1, 1.5)), M.real("z0", sample=(-2, 0)), M.real("L", gt=0, sample=(0.2, 3))
    c = M.module(MC).Solenoid(Rs, z0, z0 + L, n, current=3.0)
    M.check("turns", M.eq(c.inShape(g), count(M, inside, n, lambda k: (Rs, z0 + L * k / (n - 1)))))


@contract("C20", "turns-of-a-circuit", [MC + ".Circuit.inShape"], samples=40)
def circuit(M):
    g, inside = region(M)
    n = M.int("n", lo=0, sample=(0, 5))
    coils = M.circuit_coils("c", n)
    c = M.module(MC).Circuit(coils, current=3.0)
    M.check("multiplier times the turns of every coil", M.eq(
        c.inShape(g), M.sum(0, n, lambda k: M.item(coils, k)[1].inShape(g) * M.item(coils, k)[2])))


def switched(M):
    """on or off, with an earlier measurement or none"""
    on = M.choice("switched on", [True, False])
    return on, M.real("old", sample=(0, 1)) if M.choice("measured before", [True, False]) else None


def keeps(M, sensor, old):
    if old is None:
        return sensor.measurement is None
    return sensor.measurement is not None and M.eq(sensor.measurement, old)


def machine(M):
    s = SimpleNamespace(n=M.int("n", lo=0, sample=(0, 6)))
    s.coils = M.coils("c", s.n)
    s.coil = lambda k: M.item(s.coils, k)[1]
    s.machine = M.module(MC).Machine(s.coils)
    s.cur = M.snapshot(lambda k: s.coil(k).current, s.n)
    return s


@contract("C20", "rogowski", [MC + ".RogowskiSensor.__init__", MC + ".RogowskiSensor.get_measure", MC + ".Sensor.__init__"], samples=80)
def rogowski(M):
    s = machine(M)
    g, inside = region(M)
    on, old = switched(M)
    if M.symbolic:
        k = M.int("corners", lo=3)
        r, z = M.array("sr", (k,)), M.array("sz", (k,))
    else:
        k = len(M.outline_points)
        r, z = [p[0] for p in M.outline_points], [p[1] for p in M.outline_points]
    x = M.module(MC).RogowskiSensor(r, z, status=on, measurement=old)
    if M.symbolic:
        M.check("as many corners as points", M.eq(M.length(x.polygon.points), k))
        M.check_all("outline through the given points", (k,), lambda q: M.And(*[
            M.eq(M.item(x.polygon.points, q)[c], M.at(v, q)) for c, v in ((0, r), (1, z))]))
    x.polygon = g
    want = M.sum(0, s.n, lambda k: s.coil(k).inShape(g) * s.cur(k))
    eq = None
    if M.choice("plasma", [True, False]):
        nx, ny = M.int("nx", lo=2, sample=(2, 5)), M.int("ny", lo=2, sample=(2, 5))
        R0, Z0, dR, dZ = M.real("R0", gt=0, sample=(0.2, 1)), M.real("Z0", sample=(-1, 0)), M.real("dR", gt=0, sample=(0.1, 0.5)), M.real("dZ", gt=0, sample=(0.1, 0.5))
        J = M.array("J", (nx, ny), sample=(-1e6, 1e6))
        eq = SimpleNamespace(R=M.table((nx, ny), lambda i, j: R0 + i * dR), Z=M.table((nx, ny), lambda i, j: Z0 + j * dZ), dR=dR, dZ=dZ, Jtor=J)

        def cell(i, j):
            a, b, c, d = R0 + i * dR - dR / 2, Z0 + j * dZ - dZ / 2, R0 + i * dR + dR / 2, Z0 + j * dZ + dZ / 2
            if M.symbolic:
                from pv.shapes import box
            else:
                from shapely.geometry import box
            return g.intersection(box(a, b, c, d)).area

        want = want + M.sum(0, nx, lambda i: M.sum(0, ny, lambda j: M.at(J, i, j) * cell(i, j)))
    x.get_measure(s.machine, eq)
    if on:
        M.check("enclosed current", M.eq(x.measurement, want, scale=1.0))
    else:
        M.check("switched off", keeps(M, x, old))
    M.check_all("currents unchanged", (s.n,), lambda k: M.eq(s.coil(k).current, s.cur(k)))


@contract("C20", "field-and-flux", [MC + "." + c + ".get_measure" for c in ("PoloidalFieldSensor", "FluxLoopSensor")], samples=80)
def field(M):
    s = machine(M)
    r, z, th = M.real("R", gt=0, sample=(0.3, 2)), M.real("Z", sample=(-1, 1)), M.real("theta", sample=(-4, 4))
    on, old = switched(M)
    a = M.module(MC).PoloidalFieldSensor(r, z, th, status=on, measurement=old)
    b = M.module(MC).FluxLoopSensor(r, z, status=on, measurement=old)
    br, bz, p = (M.sum(0, s.n, lambda k: getattr(s.coil(k), f)(r, z)) for f in ("Br", "Bz", "psi"))
    eq = None
    if M.choice("plasma", [True, False]):
        P, BR, BZ = M.func("P", 2), M.func("BR", 2), M.func("BZ", 2)
        if not M.symbolic:
            P, BR, BZ = (lambda R, Z: 0.3 + R * Z), (lambda R, Z: 0.1 - 2 * Z), (lambda R, Z: R * R - 0.3 * Z)
        tot = s.machine
        eq = SimpleNamespace(plasmaBr=BR, plasmaBz=BZ, plasma_psi=None, tokamak=tot, getMachine=lambda: tot,
                             psiRZ=lambda R, Z: P(R, Z) + tot.psi(R, Z), Br=lambda R, Z: BR(R, Z) + tot.Br(R, Z), Bz=lambda R, Z: BZ(R, Z) + tot.Bz(R, Z))
        br, bz, p = br + BR(r, z), bz + BZ(r, z), p + P(r, z)
    a.get_measure(s.machine, eq)
    b.get_measure(s.machine, eq)
    if on:
        M.check("field along the direction of the sensor", M.eq(a.measurement, br * M.cos(th) + bz * M.sin(th), scale=1e-6))
        M.check("flux of coils and plasma", M.eq(b.measurement, p, scale=1e-6))
    else:
        M.check("switched off", M.And(keeps(M, a, old), keeps(M, b, old)))


@contract("C20", "all-sensors", [MC + ".Machine.takeMeasurements"], samples=10)
def every(M):
    calls = []

    class Probe:
        def __init__(self, q):
            self.q = q

        def get_measure(self, tokamak, eq):
            calls.append((self.q, tokamak, eq))

    for n in (0, 1, 2, 5):
        for eq in (None, object()):
            del calls[:]
            tok = M.module(MC).Machine([], sensors=[Probe(q) for q in range(n)])
            tok.takeMeasurements(eq)
            M.check("each of %d sensors once" % n, sorted(c[0] for c in calls) == list(range(n)))
            M.check("given this machine and equilibrium", all(c[1] is tok and c[2] is eq for c in calls))
