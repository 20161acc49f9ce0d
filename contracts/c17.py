"""C17: polygon geometry and quadrature over polygons (freegs.polygons, freegs.quadrature)."""
from math import factorial

from contracts.c21 import setup
from pv.registry import contract

PG, QD = "freegs.polygons", "freegs.quadrature"
DEGREE = {1: 1, 3: 2, 6: 4}  # polynomials up to this degree are averaged exactly


@contract("C17", "triangle-rule", [QD + ".triangle_quad"], samples=20)
def triangle(M):
    f = M.module(QD).triangle_quad
    r, z = [M.real("r%d" % k, sample=(-3, 3)) for k in range(3)], [M.real("z%d" % k, sample=(-3, 3)) for k in range(3)]
    for n, deg in DEGREE.items():
        got = f([(r[k], z[k]) for k in range(3)], n=n)
        M.check("number of points", len(got) == n)
        # barycentric coordinates of the points
        ab = f([(1.0, 0.0), (0.0, 1.0), (0.0, 0.0)], n=n)
        bc = f([(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)], n=n)
        M.check("as many points for every triangle", len(ab) == len(bc) == n)
        pts = [(a, b, c, w) for (a, b, w), (_, c, _) in zip(ab, bc)]
        for q, (a, b, c, w) in enumerate(pts):
            M.check("point %d of %d moves with the corners" % (q, n), M.And(
                M.eq(got[q][0], a * r[0] + b * r[1] + c * r[2], scale=1.0), M.eq(got[q][1], a * z[0] + b * z[1] + c * z[2], scale=1.0)))
            M.check("weight %d of %d does not depend on the triangle" % (q, n), M.eq(got[q][2], w))
            M.check("barycentric coordinates of point %d of %d add to one" % (q, n), abs(a + b + c - 1) < 1e-12)
            M.check("point %d of %d lies in the triangle" % (q, n), min(a, b, c) >= 0)
        for i in range(deg + 1):
            for j in range(deg + 1 - i):
                for k in range(deg + 1 - i - j):
                    mean = 2 * factorial(i) * factorial(j) * factorial(k) / factorial(i + j + k + 2)
                    M.check("%d points average of monomial %d%d%d" % (n, i, j, k), abs(sum(w * a ** i * b ** j * c ** k for a, b, c, w in pts) - mean) < 1e-12)
    M.raises("no other number of points", ValueError, lambda: f([(r[k], z[k]) for k in range(3)], n=M.choice("n", [0, 2, 4, 5, 7])))


def points(M, name, lo=3, hi=8, scale=3):
    n = M.int("n_" + name, lo=lo, sample=(lo, hi))
    w = scale if not M.symbolic else 3
    r, z = M.array("r_" + name, (n,), sample=(-w, w)), M.array("z_" + name, (n,), sample=(-w, w))
    return n, lambda k: M.at(r, k), lambda k: M.at(z, k)


def shoelace(M, n, r, z):
    """positive for clockwise polygons"""
    nxt = lambda k: M.If(M.eq(k + 1, n), 0, k + 1) if M.symbolic else (k + 1) % n
    return M.sum(0, n, lambda k: (r(nxt(k)) - r(k)) * (z(k) + z(nxt(k)))) / 2


@contract("C17", "area", [PG + ".area", PG + ".clockwise"], samples=60)
def area(M):
    n, r, z = points(M, "p")
    P = M.seq(n, lambda k: (r(k), z(k)))
    want = shoelace(M, n, r, z)
    got = M.module(PG).area(P)
    M.check("signed area", M.eq(got, want, scale=1.0))
    if M.symbolic or abs(want) > 1e-9:
        M.check("clockwise exactly if positive", M.iff(M.module(PG).clockwise(P), M.lt(0, got)))


def crossings(M, lines, closed):
    """-> numbers of segments, and whether segment i of the first line properly crosses segment j of the second"""
    segs = []
    for (n, r, z), cl in zip(lines, closed):
        nx = lambda k, n=n: M.If(M.eq(k + 1, n), 0, k + 1) if M.symbolic else (k + 1) % n
        segs.append((n if cl else n - 1, r, z, nx))
    (na, ra, za, xa), (nb, rb, zb, xb) = segs

    def crossing(i, j):
        a, c = ra(xa(i)) - ra(i), za(xa(i)) - za(i)
        b, d = rb(xb(j)) - rb(j), zb(xb(j)) - zb(j)
        det = a * d - b * c
        dr, dz = rb(xb(j)) - ra(i), zb(xb(j)) - za(i)
        s, t = (d * dr - b * dz) / det if M.symbolic or det else 0, (a * dz - c * dr) / det if M.symbolic or det else 0
        return M.And(M.Not(M.lt(M.abs(det), 1e-6)), M.lt(0, s), M.lt(s, 1), M.lt(0, t), M.lt(t, 1))

    return na, nb, crossing


def judge(M, got, na, nb, crossing):
    if M.decide(got) if M.symbolic else got:
        M.check("two segments cross", M.exists(((0, na), (0, nb)), crossing))
    else:
        M.check_all("no two segments cross", (na, nb), lambda i, j: M.Not(crossing(i, j)))


@contract("C17", "intersect", [PG + ".intersect"], samples=150, feas=100)
def intersect(M):
    closed = [M.choice("closed%d" % q, [True, False]) for q in (1, 2)]
    scale = None if M.symbolic else M.rng.choice([3, 0.01])
    lines = [points(M, n, lo=2, hi=6, scale=scale) for n in ("a", "b")]
    arrays = []
    for n, r, z in lines:
        arrays += [M.seq(n, r), M.seq(n, z)]
    got = M.module(PG).intersect(*arrays, closed1=closed[0], closed2=closed[1])
    judge(M, got, *crossings(M, lines, closed))


@contract("C17", "plasma-touches-wall", ["freegs.equilibrium.Equilibrium.intersectsWall"], samples=12, feas=100)
def touches(M):
    """the closed separatrix properly crosses the closed wall"""
    s = setup(M, xp=(1,))
    n = s.count(360)
    sr, sz = s.sep(n)
    if M.symbolic:
        m, wr, wz = points(M, "wall")
    else:
        # a box, sometimes through the plasma
        q = [M.rng.uniform(-0.02, 0.5) * w for w in (s.Rmax - s.Rmin, s.Zmax - s.Zmin)]
        R = [s.Rmin + q[0], s.Rmin + q[0], s.Rmax - q[0], s.Rmax - q[0]]
        Z = [s.Zmin + q[1], s.Zmax - q[1], s.Zmax - q[1], s.Zmin + q[1]]
        m, wr, wz = 4, lambda k: R[k], lambda k: Z[k]
    s.machine.wall = M.module("freegs.machine").Wall(M.seq(m, wr), M.seq(m, wz))
    judge(M, s.eq.intersectsWall(), *crossings(M, [(n, sr, sz), (m, wr, wz)], (True, True)))


@contract("C17", "polygon-rule", [QD + ".polygon_quad", QD + ".average"], samples=40)
def polygon(M):
    """any splitting into triangles: the mean over the polygon is the area-weighted mean over the triangles"""
    n = M.choice("n", sorted(DEGREE))
    m = M.int("triangles", lo=1, sample=(1, 5))
    x = M.array("x", (m, 3), sample=(0.5, 3))
    y = M.array("y", (m, 3), sample=(-2, 2))
    tri = lambda t: [(M.at(x, t, c), M.at(y, t, c)) for c in range(3)]

    def two_areas(t):
        (r1, z1), (r2, z2), (r3, z3) = tri(t)
        return (r2 - r1) * (z1 + z2) + (r3 - r2) * (z2 + z3) + (r1 - r3) * (z3 + z1)

    if M.symbolic:
        shape, asked = object(), []

        def split(polygon):
            asked.append(polygon is shape)
            return M.seq(m, tri)

        M.contracted(PG + ".triangulate", split)
    else:
        shape = outline(M.rng)
        M._log("outline", shape)
        T = M.module(PG).triangulate(shape)
        m, tri = len(T), lambda t: T[t]
    quad = M.module(QD).polygon_quad(shape, n=n)
    if M.symbolic:
        M.check("the polygon is split", asked == [True])
    f = M.func("f", 2) if M.symbolic else (lambda r, z: 0.3 + r * z - 0.7 * z * z)
    rule = M.module(QD).triangle_quad
    mean = lambda t: sum(w * f(r, z) for r, z, w in rule(tri(t), n=n))
    total = M.sum(0, m, two_areas)
    M.check("points", M.eq(M.length(quad), m * n))
    M.check("area-weighted mean", M.eq(M.module(QD).average(f, quad), M.sum(0, m, lambda t: two_areas(t) * mean(t)) / total, scale=1e-6))


def outline(rng):
    """simple polygons: star shaped, and blocks with corners inwards and points along the edges"""
    from math import cos, pi, sin

    kind = rng.choice(["star", "rect", "L", "comb", "dart"])
    if kind == "star":
        th = sorted(rng.uniform(0, 2 * pi) for _ in range(rng.randint(3, 12)))
        p = [(r * cos(t), r * sin(t)) for r, t in ((rng.uniform(0.1, 1), t) for t in th)]
    else:
        base = {"rect": [(0, 0), (0, 1), (2, 1), (2, 0)], "L": [(0, 0), (0, 2), (1, 2), (1, 1), (3, 1), (3, 0)],
                "comb": [(0, 0), (0, 2), (1, 2), (1, 1), (2, 1), (2, 2), (3, 2), (3, 1), (4, 1), (4, 2), (5, 2), (5, 0)],
                "dart": [(1, 3), (2, 0), (1, rng.uniform(0.1, 2.5)), (0, 0)]}[kind]
        p, most = [], rng.choice([1, 4])
        for a, b in zip(base, base[1:] + base[:1]):
            m = rng.randint(1, most)
            p += [(a[0] + (b[0] - a[0]) * q / m, a[1] + (b[1] - a[1]) * q / m) for q in range(m)]
        w = rng.choice([0, rng.uniform(0, 7)])
        p = [(x * cos(w) - y * sin(w) + 0.3, x * sin(w) + y * cos(w)) for x, y in p]
    if rng.random() < 0.5:
        p = p[::-1]
    k = rng.randrange(len(p))
    return p[k:] + p[:k]


@contract("C17", "triangulation", [PG + ".triangulate"], samples=400, sym=False, hang=20, hang_fails=True)
def triangulation(M):
    from shapely.geometry import Polygon

    p = outline(M.rng)
    P = Polygon(p)
    M.assume(P.is_valid and P.area > 1e-4)
    M._log("outline", p)
    start = list(p)
    T = M.module(PG).triangulate(p)
    area = M.module(PG).area
    M.check("outline unchanged", p == start)
    M.check("two triangles less than corners", len(T) == len(p) - 2 and all(len(t) == 3 for t in T))
    M.check("corners are corners of the outline", all(tuple(v) in p for t in T for v in t))
    M.check("clockwise", all(area(t) > -1e-9 * P.area for t in T))
    M.check("areas add up", abs(sum(area(t) for t in T) - P.area) < 1e-9 * P.area)
    M.check("inside the outline", all(abs(P.intersection(Polygon(t)).area - area(t)) < 1e-9 * P.area for t in T if area(t) > 1e-9 * P.area))
