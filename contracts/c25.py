"""C25: field lines follow the magnetic field and stop at the wall or edge of the domain (freegs.fieldtracer)."""
from types import SimpleNamespace

from pv.registry import contract

from .c22 import CR, plasma

FT = "freegs.fieldtracer"
F = FT + ".FieldTracer."


class Wall:
    def __init__(self, R, Z):
        self.R, self.Z = R, Z


class Parity:
    """invariant of the loop over wall segments: outside is the parity of the
    crossings so far, P(w, k) for the first w segments and point k"""

    def __init__(self, M, n, m, cross, regular, shares):
        self.M, self.n, self.corners, self.regular, self.used = M, n, m, regular, False
        self.f = M.func("parity", 2)
        self.cross, self.shares = cross, shares
        M.for_invariant(F + "wallDomain", 0, self)

    def P(self, w, k):
        return self.M.lt(0, self.f(w, k))

    def start(self, L, lo, hi):
        from pv import core as C

        M = self.M
        names = [n for n in L.names if isinstance(L.v0.get(n), C.Arr)]
        self.used = True
        M.require("one array in the loop", len(names) == 1)
        self.name = names[0]
        M.require("over all segments", M.same(lo, 0))
        M.check("as many segments as corners", M.eq(hi, self.corners))
        M.assume_all((self.n,), lambda k: M.Not(self.P(0, k)))
        M.check_all("not outside before the first segment", (self.n,), lambda k: M.Not(M.at(L.v0[self.name], k)))

    def state(self, L, w):
        from pv import core as C

        return {self.name: C.Arr.from_fn((self.n,), lambda i: C.tb(self.P(w, C.mk(i[0]))), "B")}

    def step(self, L, w, loc):
        M = self.M
        k = M.fresh_index((self.n,))[0]
        new = M.at(loc[self.name], k)
        c = self.cross(w, k)
        M.assume(self.regular(w, k))
        # a share of the way between 0 and 1, without division
        between = lambda x, d: M.implies(M.lt(1e-6, M.abs(d)), M.iff(M.And(M.lt(0, x / d), M.lt(x / d, 1)), M.Or(M.And(M.lt(0, x), M.lt(x, d)), M.And(M.lt(x, 0), M.lt(d, x)))))
        u = [M.real("u"), M.real("v")]
        M.check("lemma: shares", between(*u))
        for x, d in self.shares(w, k):
            M.assume(between(x, d))
        M.check("a crossing changes sides", M.iff(new, M.Not(M.iff(self.P(w, k), c))))


def tracer(M, wall=None):
    s = SimpleNamespace()
    s.Rmin, s.Zmin = M.real("Rmin", gt=0, sample=(0.1, 0.6)), M.real("Zmin", sample=(-1.5, -0.5))
    s.Rmax, s.Zmax = s.Rmin + M.real("W", gt=0, sample=(0.8, 2)), s.Zmin + M.real("H", gt=0, sample=(1, 3))
    if M.symbolic:
        g = {n: M.elementwise(M.func(n, 2)) for n in ("Br", "Bz", "Btor")}
    else:
        r = M.rng.uniform
        a, b, c, d = r(-0.5, 0.5), r(-0.5, 0.5), r(-3, 3), r(0.5, 3) * M.rng.choice([1, -1])
        g = {"Br": lambda R, Z: a * M.np.cos(3 * Z) * R, "Bz": lambda R, Z: b * M.np.sin(2 * R) + a * Z, "Btor": lambda R, Z: d / R + 0 * Z}
    s.g = g
    s.eq = SimpleNamespace(Rmin=s.Rmin, Rmax=s.Rmax, Zmin=s.Zmin, Zmax=s.Zmax, tokamak=SimpleNamespace(wall=wall), **g)
    s.ft = M.module(FT).FieldTracer(s.eq)
    return s


@contract("C25", "direction", [F + "fieldDirection", F + "__init__", F + "eqDomain"], samples=60)
def direction(M):
    s = tracer(M)
    n = M.int("n", lo=1, sample=(1, 12))
    pos = M.array("pos", (3 * n,), sample=(-2, 2.5))
    at = lambda k, c: M.at(was, 3 * k + c)
    was = M.table((3 * n,), lambda i: M.at(pos, i))
    e = M.array("evolving", (n,), sample=(0, 1))
    if not M.symbolic:
        for k in range(n):
            e[k] = M.rng.choice([0.0, 1.0, 1.0])
    before = M.table((n,), lambda k: M.at(e, k))
    angle = M.real("angle", sample=(0, 10))
    back = M.choice("backward", [False, True])
    out = s.ft.fieldDirection(pos, angle, e, back)
    M.check_shape("a rate for every coordinate", out, (3 * n,))
    eps = 0.01

    def live(k):
        R, Z = at(k, 0), at(k, 1)
        beyond = M.Or(M.lt(R, s.Rmin + eps), M.lt(s.Rmax - eps, R), M.lt(Z, s.Zmin + eps), M.lt(s.Zmax - eps, Z))
        return M.If(beyond, 0, M.at(before, k))

    sg = -1 if back else 1
    B = lambda c, k: s.g[c](at(k, 0), at(k, 1))
    scale = 1.0
    M.check_all("along the radial field", (n,), lambda k: M.eq(M.at(out, 3 * k) * B("Btor", k), sg * live(k) * at(k, 0) * B("Br", k), scale=scale))
    M.check_all("along the vertical field", (n,), lambda k: M.eq(M.at(out, 3 * k + 1) * B("Btor", k), sg * live(k) * at(k, 0) * B("Bz", k), scale=scale))
    mod = lambda k: M.sqrt(B("Br", k) * B("Br", k) + B("Bz", k) * B("Bz", k) + B("Btor", k) * B("Btor", k))
    M.check_all("length along the line", (n,), lambda k: M.eq(M.at(out, 3 * k + 2) * M.abs(B("Btor", k)), live(k) * at(k, 0) * mod(k), scale=scale))
    M.check_all("lines beyond the edge have stopped", (n,), lambda k: M.eq(M.at(e, k), live(k)))
    M.check_all("place unchanged", (3 * n,), lambda i: M.eq(M.at(pos, i), M.at(was, i)))


@contract("C25", "wall", [F + "wallDomain", F + "__init__"], samples=150)
def wall(M):
    m, n = M.int("m", lo=3, sample=(3, 14)), M.int("n", lo=1, sample=(1, 20))
    if M.symbolic:
        W = Wall(M.array("Rwall", (m,)), M.array("Zwall", (m,)))
        s = tracer(M, W)
        R, Z = M.array("R", (n,)), M.array("Z", (n,))
    else:
        s = tracer(M)
        np, rng = M.np, M.rng
        mid = (s.Rmin + s.Rmax) / 2, (s.Zmin + s.Zmax) / 2
        t = sorted(rng.uniform(0, 2 * np.pi) for _ in range(m))
        # around the middle of the domain
        gaps = [b - a for a, b in zip(t, t[1:] + [t[0] + 2 * np.pi])]
        M.assume(max(gaps) < 2.9)
        rad = [rng.uniform(0.1, 0.5) for _ in t]
        if rng.random() < 0.5:
            t, rad = t[::-1], rad[::-1]
        x = [mid[0] + r * (s.Rmax - s.Rmin) * np.cos(a) for a, r in zip(t, rad)]
        y = [mid[1] + r * (s.Zmax - s.Zmin) * np.sin(a) for a, r in zip(t, rad)]
        if rng.random() < 0.3:
            x, y = x + x[:1], y + y[:1]
        W = Wall(x, y) if rng.random() < 0.5 else Wall(np.array(x), np.array(y))
        s.eq.tokamak.wall = W
        s.ft = M.module(FT).FieldTracer(s.eq)
        R = np.array([rng.uniform(s.Rmin, s.Rmax) for _ in range(n)])
        Z = np.array([rng.uniform(s.Zmin, s.Zmax) for _ in range(n)])
    Rm, Zm = (s.Rmin + s.Rmax) / 2, (s.Zmin + s.Zmax) / 2
    e = M.array("evolving", (n,), sample=(0.5, 1))
    before = M.table((n,), lambda k: M.at(e, k))
    corner = lambda w: (M.at(W.R, w), M.at(W.Z, w))
    side = lambda p, q, r: (q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])
    opposite = lambda a, b: M.Or(M.And(M.lt(a, 0), M.lt(0, b)), M.And(M.lt(0, a), M.lt(b, 0)))

    def ends(w):
        return corner(w), corner(M.If(M.eq(w, m - 1), 0, w + 1))

    def cross(w, k):
        """the way from the middle to the point crosses the segment"""
        a, b = ends(w)
        c, p = (Rm, Zm), (M.at(R, k), M.at(Z, k))
        return M.And(opposite(side(c, p, a), side(c, p, b)), opposite(side(a, b, c), side(a, b, p)))

    def regular(w, k):
        """not all but parallel"""
        a, b = ends(w)
        c, p = (Rm, Zm), (M.at(R, k), M.at(Z, k))
        return M.lt(1e-6, M.abs(side(c, p, b) - side(c, p, a)))

    def shares(w, k):
        """of the way to the point, and of the segment, as numerator and denominator"""
        a, b = ends(w)
        c, p = (Rm, Zm), (M.at(R, k), M.at(Z, k))
        d = side(c, p, b) - side(c, p, a)
        return (side(a, b, c), side(a, b, c) - side(a, b, p)), (side(c, p, b), d)

    if M.symbolic:
        par = Parity(M, n, m, cross, regular, shares)
        s.ft.updateEvolving(R, Z, e)
        M.require("the loop over the wall", par.used)
        M.check_all("lines across the wall have stopped", (n,), lambda k: M.eq(M.at(e, k), M.If(par.P(m, k), 0, M.at(before, k))))
        return
    s.ft.updateEvolving(R, Z, e)
    from shapely.geometry import Point, Polygon

    poly = Polygon(list(zip(W.R, W.Z)))
    mid = Point(Rm, Zm)
    M.assume(poly.is_valid and poly.contains(mid))
    k2 = len(W.R)
    for k in range(n):
        p = Point(R[k], Z[k])
        d = M.np.hypot(R[k] - Rm, Z[k] - Zm)
        near = [abs(side((Rm, Zm), (R[k], Z[k]), (W.R[w], W.Z[w]))) / d < 1e-3 for w in range(k2)]
        # clear of the wall, and of its corners on the way
        if poly.exterior.distance(p) < 1e-3 or any(near):
            continue
        M.check("lines across the wall have stopped", M.eq(e[k], M.at(before, k) if poly.contains(p) else 0))


class Lines:
    """odeint by contract: a solution determined by the rates, the start and the angles"""

    def __init__(self, M):
        self.M, self.calls = M, []
        if M.symbolic:
            M.contracted(FT + ".odeint", self)

    def __call__(self, func, y0, t, args=(), rtol=None, **k):
        M = self.M
        M.require("as many options as known", not k)
        c = SimpleNamespace(func=func, y0=y0, t=t, args=args, rtol=rtol)
        c.out = M.array("lines%d" % len(self.calls), (t.shape[0], y0.shape[0]))
        self.calls.append(c)
        return c.out


def followed(M, s, c, n, R, Z, back, angles):
    """solved for n lines from the starts R(k), Z(k), with length zero, along the field"""
    M.check_shape("a start for every coordinate", c.y0, (3 * n,))
    M.check_all("the starts", (n,), lambda k: M.And(M.eq(M.at(c.y0, 3 * k), R(k)), M.eq(M.at(c.y0, 3 * k + 1), Z(k)), M.eq(M.at(c.y0, 3 * k + 2), 0)))
    na = M.shape(angles)[0]
    M.check_shape("the angles", c.t, (na,))
    M.check_all("the angles", (na,), lambda a: M.eq(M.at(c.t, a), M.at(angles, a)))
    # the rates, at any place
    pos, angle = M.array("place%d" % back, (3 * n,)), M.real("angle")
    rate = c.func(pos, angle, *c.args)
    want = s.ft.fieldDirection(pos, angle, M.full(1.0, (n,)) if M.symbolic else M.np.ones(n), back)
    M.check_all("the rates are those of the field, from the first", (3 * n,), lambda i: M.eq(M.at(rate, i), M.at(want, i)))


def runge_kutta(M, s, y, angles, back):
    """the same lines, independently"""
    np = M.np
    sg = -1 if back else 1

    def f(y):
        R, Z, _ = y
        br, bz, bt = (s.g[n](R, Z) for n in ("Br", "Bz", "Btor"))
        return np.array([sg * R * br / bt, sg * R * bz / bt, R * np.sqrt(br * br + bz * bz + bt * bt) / abs(bt)])

    out, y = [np.array(y, dtype=float)], np.array(y, dtype=float)
    for a, b in zip(angles, angles[1:]):
        h = (b - a) / 20
        for _ in range(20):
            k1 = f(y)
            k2 = f(y + h / 2 * k1)
            k3 = f(y + h / 2 * k2)
            k4 = f(y + h * k3)
            y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        out.append(y)
    return out


@contract("C25", "follow", [F + "follow", F + "fieldDirection"], samples=40)
def follow(M):
    s = tracer(M)
    lines = Lines(M)
    na = M.int("na", lo=1, sample=(2, 6))
    kind = M.choice("starts", ["list", "grid", "one"])
    shape = {"list": (M.int("n", lo=1, sample=(1, 6)),), "grid": (M.int("n1", lo=1, sample=(1, 3)), M.int("n2", lo=1, sample=(1, 3))), "one": ()}[kind]
    back = M.choice("backward", [False, True])
    angles = M.array("angles", (na,), sample=(0, 1)) if M.symbolic else M.np.linspace(0, M.rng.uniform(0.05, 0.4), na)
    kw = {"backward": True} if back else {}
    rtol = None
    if M.choice("rtol", [False, True]):
        rtol = kw["rtol"] = 1e-9
    inner = lambda lo, hi: (lo + 0.2 * (hi - lo), lo + 0.8 * (hi - lo))
    if kind == "one":
        R, Z = M.real("Rstart", sample=inner(s.Rmin, s.Rmax)), M.real("Zstart", sample=inner(s.Zmin, s.Zmax))
        at = lambda k: (R, Z)
        n = 1
    else:
        R, Z = M.array("Rstart", shape, sample=inner(s.Rmin, s.Rmax)), M.array("Zstart", shape, sample=inner(s.Zmin, s.Zmax))
        if kind == "list":
            at, n = (lambda k: (M.at(R, k), M.at(Z, k))), shape[0]
        else:
            at, n = (lambda k: (M.at(R, k // shape[1], k % shape[1]), M.at(Z, k // shape[1], k % shape[1]))), shape[0] * shape[1]
    out = s.ft.follow(R, Z, angles, **kw)
    M.check_shape("place and length of every line at every angle", out, (na,) + shape + (3,))
    where = {"list": lambda k: (k,), "grid": lambda k: (k // shape[1], k % shape[1]), "one": lambda k: ()}[kind]
    if M.symbolic:
        M.require("one solution", len(lines.calls) == 1)
        c = lines.calls[0]
        M.check("tolerance as asked for", c.rtol == rtol)
        followed(M, s, c, n, lambda k: at(k)[0], lambda k: at(k)[1], back, angles)
        M.check_all("lines in the order of their starts", (na, n), lambda a, k: M.And(*[M.eq(M.at(out, a, *where(k), j), M.at(c.out, a, 3 * k + j)) for j in range(3)]))
        return
    for k in range(n):
        y = runge_kutta(M, s, at(k) + (0,), angles, back)
        # the solver looks ahead: clear of the edge for some way beyond
        beyond = runge_kutta(M, s, at(k) + (0,), 4 * angles, back)
        eps = 0.05
        if all(s.Rmin + eps < p[0] < s.Rmax - eps and s.Zmin + eps < p[1] < s.Zmax - eps for p in y + beyond):
            M.check("the line follows the field", all(abs(out[(a,) + where(k) + (j,)] - y[a][j]) < 1e-5 for a in range(na) for j in range(3)))


@contract("C25", "outboard-lines", [FT + ".traceFieldLines", FT + ".LineCoordinates"], samples=12)
def trace(M):
    s = plasma(M)
    lines = Lines(M)
    if M.symbolic:
        s.g = {"Br": s.eq.Br, "Bz": s.eq.Bz, "Btor": M.elementwise(M.func("Btor", 2))}
    else:
        c0 = M.rng.choice([1, -1]) * M.rng.uniform(8, 12)
        # with an X-point above, beyond the boundary
        r0, z0, sgn = s.axis
        w, h = M.rng.uniform(0.25, 0.4) * min(s.Rmax - s.Rmin, s.Zmax - s.Zmin), M.rng.uniform(0.25, 0.3) * (s.Zmax - s.Zmin)
        up = M.rng.choice([0.25, 0.3])
        v = lambda Z: (Z - z0) / h
        s.p = lambda R, Z: sgn * (1 + ((R - r0) / w) ** 2 + v(Z) ** 2 - up * M.np.maximum(v(Z), 0) ** 4)
        s.eq.Br = lambda R, Z: -sgn * (2 * v(Z) - 4 * up * M.np.maximum(v(Z), 0) ** 3) / h / R
        s.eq.Bz = lambda R, Z: sgn * 2 * (R - r0) / w ** 2 / R
        s.g = {"Br": s.eq.Br, "Bz": s.eq.Bz, "Btor": lambda R, Z: c0 / R}
        s.psi = s.p(s.R, s.Z)
        s.eq.psi = lambda: s.psi
        s.bndry = s.eq.psi_bndry = sgn * (1 + M.rng.uniform(0.3, 0.6))
    s.eq.Btor = s.g["Btor"]
    s.eq.tokamak = SimpleNamespace(wall=None)
    ft = M.module(FT)
    s.ft = ft.FieldTracer(s.eq)
    kw = {}
    n, turns, na, w = 10, 50, 200, 0.03
    if M.symbolic:
        given = M.choice("given", [False, True])
    else:
        given = True
    if given:
        w = kw["solwidth"] = M.real("solwidth", gt=0, sample=(0.005, 0.02))
        n = kw["nlines"] = M.int("nlines", lo=1, sample=(1, 4))
        turns = kw["nturns"] = M.int("nturns", lo=1, sample=(1, 2))
        na = kw["npoints"] = M.int("npoints", lo=2, sample=(5, 20))
    fwd, bwd = ft.traceFieldLines(s.eq, **kw)
    if M.symbolic:
        rm, zm = s.rays(s, s.flux, s.axis[0], s.axis[1], 10.0, 0, 1.0, 100)
    else:
        axis = M.module(CR[:-1]).find_critical(s.R, s.Z, s.psi)[0][0]
        f = M.interpolant(s.R[:, 0], s.Z[0, :], (s.psi - axis[2]) / (s.bndry - axis[2]))
        rm, zm = M.module(CR[:-1]).find_psisurface(s.eq, f, axis[0], axis[1], axis[0] + 10.0, axis[1], psival=1.0)
    # equally spaced over the width, the first a step from the separatrix
    start = lambda k: rm + w / n + (0 if not M.symbolic and n == 1 else k * (w - w / n) / (n - 1))
    for c, back in ((fwd, False), (bwd, True)):
        for x in (c.R, c.Z, c.length):
            M.check_shape("points of every line", x, (na, n))
    if M.symbolic:
        M.require("two solutions", len(lines.calls) == 2)
        angles = M.table((na,), lambda a: a * (turns * 2 * M.pi) / (na - 1))
        for call, c, back in zip(lines.calls, (fwd, bwd), (False, True)):
            followed(M, s, call, n, start, lambda k: zm, back, angles)
            for j, x in enumerate((c.R, c.Z, c.length)):
                M.check_all("the lines", (na, n), lambda a, k: M.eq(M.at(x, a, k), M.at(call.out, a, 3 * k + j)))
        return
    for c, sg in ((fwd, 1), (bwd, -1)):
        for k in range(n):
            M.check("starts at the outboard midplane", M.And(M.eq(c.R[0, k], start(k), scale=1.0), M.eq(c.Z[0, k], zm, scale=1.0), c.length[0, k] == 0))
            # ten steps between the points, and as many points beyond the last
            y = runge_kutta(M, s, (start(k), zm, 0), M.np.linspace(0, turns * 4 * M.np.pi, 20 * (na - 1) + 1), sg < 0)
            out = [i for i, p in enumerate(y) if not (s.Rmin + 0.05 < p[0] < s.Rmax - 0.05 and s.Zmin + 0.05 < p[1] < s.Zmax - 0.05)]
            for a in range(na):
                if out and 10 * a > out[0] / 2:
                    break
                p = y[10 * a]
                M.check("follows the field", abs(c.R[a, k] - p[0]) + abs(c.Z[a, k] - p[1]) < 1e-3 and abs(c.length[a, k] - p[2]) < 1e-2)
