"""C14: magnetic axes and X-points (freegs.critical.find_critical)."""
from types import SimpleNamespace

from pv.registry import contract

FN = "freegs.critical.find_critical"
MARGIN = 1e-5  # squared distance of duplicates


def unsupported(why):
    from pv.core import Unsupported

    raise Unsupported(why)


def fresh(base):
    from pv import terms as T

    return T.fresh_name(base)


def set_list(lst, seq):
    """the list object now has this content"""
    if not isinstance(lst, list):
        unsupported("find_critical with other lists")
    list.clear(lst)
    lst.seq = seq.seq
    return lst


def abstract(M, n, tag):
    """any list of n points"""
    nm = fresh(tag)
    f = [M.func(nm + c, 1) for c in "RZP"]
    p = M.seq(n, lambda k: tuple(g(k) for g in f))
    p.n, p.f, p.tag = n, f, nm
    return p


def dist2(a, b):
    return (a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2


class Search:
    """the loops over the grid points and Newton's iteration, cut by invariants"""

    def __init__(self, M, s):
        self.M, self.s = M, s
        M.for_invariant(FN, 0, Rows(M, s, self))
        M.for_invariant(FN, 1, Columns(M, s, self))
        M.invariant(FN, 0, Newton(M, s, self))
        M.for_invariant(FN, 2, Filter(M, s, self))
        self.dup = Duplicates(M, s, self)
        M.for_invariant(FN + ".remove_dup", 0, self.dup)

    def havoc(self, loc):
        """lists of any length of points found before"""
        M, s = self.M, self.s
        out = {}
        for nm in ("opoint", "xpoint"):
            n = M.int(fresh("n_" + nm), lo=0)
            p = abstract(M, n, nm)
            M.assume_all((n,), lambda k, p=p, nm=nm: s.found(nm, *M.item(p, k)))
            set_list(loc[nm], p)
            out[nm] = p
        self.now = out
        s.inner = None
        return out


class Rows:
    names = ("opoint", "xpoint")

    def __init__(self, M, s, g):
        self.M, self.s, self.g = M, s, g

    def check_names(self, loop):
        for n in self.names:
            if n not in loop.loc:
                unsupported("find_critical with other variables")

    def start(self, loop, lo, hi):
        M, s = self.M, self.s
        self.check_names(loop)
        M.require("every row but two at either end", M.And(M.eq(lo, 2), M.eq(hi, s.nx - 2)))
        for n in self.names:
            M.require("no points at first", len(loop.loc[n]) == 0)
        M.require("two lists", loop.loc["opoint"] is not loop.loc["xpoint"])

    def state(self, loop, k):
        self.g.havoc(loop.loc)
        self.s.i = k
        return {}

    def step(self, loop, k, loc):
        self.untouched(loc, "row")

    def untouched(self, loc, where):
        for n in self.names:
            if loc[n].seq is not self.g.now[n].seq:
                unsupported("list changed outside the loop over columns")
        self.M.check(where + ": points found are kept", True)


class Columns(Rows):
    def start(self, loop, lo, hi):
        M, s = self.M, self.s
        self.check_names(loop)
        M.require("every column but two at either end", M.And(M.eq(lo, 2), M.eq(hi, s.ny - 2)))
        self.untouched(loop.loc, "columns")

    def state(self, loop, k):
        self.g.havoc(loop.loc)
        self.s.j, self.s.newton = k, None
        self.before = dict(self.g.now)
        return {}

    def step(self, loop, k, loc):
        M, s = self.M, self.s
        i, j = s.i, s.j
        low = s.minimum(i, j)
        grown = []
        for n in self.names:
            p, lst = self.before[n], loc[n]
            m = M.length(lst) - p.n
            M.require("%s: at most one point more" % n, M.Or(M.eq(m, 0), M.eq(m, 1)))
            M.check_all("%s: points found before are kept" % n, (p.n,), lambda q: M.And(*[M.eq(a, b) for a, b in zip(M.item(lst, q), M.item(p, q))]))
            if M.decide(M.eq(m, 1)):
                grown.append((n, M.item(lst, p.n)))
        M.require("not in both lists", len(grown) <= 1)
        if not grown:
            if s.newton is None:
                M.check("only minima of the field start an iteration", M.Not(low))
            else:
                r, z, c = s.newton
                M.check("not converged", M.Not(s.converged(r, z)))
                s.check_step(r, z, loc["R1"], loc["Z1"])
                M.check("given up when far from the grid point or after 100 steps", M.Or(M.lt(s.radius, s.away(i, j, loc["R1"], loc["Z1"])), M.le(100, c)))
            return
        n, (r, z, p) = grown[0]
        M.check("point from a minimum of the field", low)
        M.require("point of an iteration", s.newton is not None)
        M.require("the iterate", M.And(M.eq(r, s.newton[0]), M.eq(z, s.newton[1])))
        M.check("no field at the point", s.converged(r, z))
        M.check("near the grid point", M.le(s.away(i, j, r, z), s.radius))
        M.check("flux at the point", M.eq(p, s.f(r, z)))
        M.check("X-point at a saddle, otherwise O-point", M.iff(n == "xpoint", M.lt(s.hessian(i, j), 0)))


class Newton:
    def __init__(self, M, s, g):
        self.M, self.s, self.g = M, s, g

    def enter(self, loop):
        M, s = self.M, self.s
        for n in ("R1", "Z1", "count"):
            if n not in loop.loc:
                unsupported("Newton iteration with other variables")
        M.require("starts at a minimum of the field", s.minimum(s.i, s.j))
        M.require("starts at the grid point", M.And(M.eq(loop.loc["R1"], s.Rat(s.i)), M.eq(loop.loc["Z1"], s.Zat(s.j)), M.eq(loop.loc["count"], 0)))
        r, z, c = M.real(fresh("R1")), M.real(fresh("Z1")), M.int(fresh("count"), lo=0)
        M.assume(M.And(M.le(c, 100), M.le(s.away(s.i, s.j, r, z), s.radius)))
        s.newton = (r, z, c)
        return {"R1": r, "Z1": z, "count": c}

    def leave(self, loop, loc):
        M, s = self.M, self.s
        r, z, c = s.newton
        M.check("continues only without convergence", M.Not(s.converged(r, z)))
        s.check_step(r, z, loc["R1"], loc["Z1"])
        M.check("near the grid point", M.le(s.away(s.i, s.j, loc["R1"], loc["Z1"]), s.radius))
        M.require("steps are counted", M.And(M.eq(loc["count"], c + 1), M.le(loc["count"], 100)))


class Duplicates:
    """remove_dup: points far from each other, and one near every point given"""

    def __init__(self, M, s, g):
        self.M, self.s, self.g = M, s, g
        self.calls = []

    def start(self, loop, lo, hi):
        M = self.M
        if "result" not in loop.loc or "points" not in loop.loc:
            unsupported("remove_dup with other variables")
        self.points = loop.loc["points"]
        M.require("every point in turn", M.And(M.eq(lo, 0), M.eq(hi, M.length(self.points))))
        M.require("nothing kept at first", len(loop.loc["result"]) == 0)

    def state(self, loop, k):
        M, pts = self.M, self.points
        n = M.int(fresh("kept"), lo=0)
        M.assume(M.le(n, k))
        nm = fresh("src")
        from pv import terms as T
        from pv.core import mk, nf

        src = lambda q: mk(T.app(nm, (nf(q),), "I"))
        near = lambda q: mk(T.app(nm + "!near", (nf(q),), "I"))
        res = M.seq(n, lambda q: M.item(pts, src(q)))
        M.assume_all((n,), lambda q: M.And(M.le(0, src(q)), M.lt(src(q), k)))
        M.assume_all((n, n), lambda a, b: M.implies(M.lt(a, b), M.le(MARGIN, dist2(M.item(res, a), M.item(res, b)))))
        M.assume_all((k,), lambda q: M.And(M.le(0, near(q)), M.lt(near(q), n), M.lt(dist2(M.item(pts, q), M.item(res, near(q))), MARGIN)))
        res.n, res.near, res.src = n, near, src
        self.res = res
        set_list(loop.loc["result"], res)
        self.out = SimpleNamespace(points=pts, res=loop.loc["result"], n=n, near=near, src=src, k=k)
        self.calls.append(self.out)
        return {}

    def step(self, loop, k, loc):
        M, pts, res = self.M, self.points, self.res
        lst, p = loc["result"], M.item(self.points, k)
        m = M.length(lst) - res.n
        M.check_all("points kept before", (res.n,), lambda q: M.And(*[M.eq(a, b) for a, b in zip(M.item(lst, q), M.item(res, q))]))
        if M.decide(M.eq(m, 0)):
            M.check("left out only near a point kept", M.exists(((0, res.n),), lambda q: M.lt(dist2(p, M.item(res, q)), MARGIN)))
            return
        M.check("one point more", M.eq(m, 1))
        M.check("the point itself", M.And(*[M.eq(a, b) for a, b in zip(M.item(lst, res.n), p)]))
        M.check_all("far from those kept before", (res.n,), lambda q: M.le(MARGIN, dist2(M.item(res, q), p)))


class Filter:
    """X-points seen from the axis without a hill between"""

    def __init__(self, M, s, g):
        self.M, self.s, self.g = M, s, g

    def start(self, loop, lo, hi):
        M, s = self.M, self.s
        if "xpt_keep" not in loop.loc or "xpoint" not in loop.loc or "opoint" not in loop.loc:
            unsupported("find_critical with other variables")
        self.xs, self.axis = loop.loc["xpoint"], M.item(loop.loc["opoint"], 0)
        M.require("every X-point in turn", M.And(M.eq(lo, 0), M.eq(hi, M.length(self.xs))))
        M.require("nothing kept at first", len(loop.loc["xpt_keep"]) == 0)
        M.require("only when asked for", s.discard)

    def state(self, loop, k):
        from pv import terms as T
        from pv.core import mk, nf

        M, s = self.M, self.s
        n = M.int(fresh("visible"), lo=0)
        nm = fresh("vis")
        src = lambda q: mk(T.app(nm, (nf(q),), "I"))
        rank = lambda q: mk(T.app(nm + "!rank", (nf(q),), "I"))
        res = M.seq(n, lambda q: M.item(self.xs, src(q)))
        see = lambda q: s.visible(*M.item(self.xs, q))
        M.assume_all((n,), lambda q: M.And(M.le(0, src(q)), M.lt(src(q), k), M.eq(rank(src(q)), q), see(src(q))))
        M.assume_all((k,), lambda q: M.implies(see(q), M.And(M.le(0, rank(q)), M.lt(rank(q), n), M.eq(src(rank(q)), q))))
        res.n = n
        self.res = res
        set_list(loop.loc["xpt_keep"], res)
        s.vis = SimpleNamespace(xs=self.xs, n=n, src=src, rank=rank)
        return {}

    def step(self, loop, k, loc):
        M, s, res = self.M, self.s, self.res
        lst, x = loc["xpt_keep"], M.item(self.xs, k)
        m = M.length(lst) - res.n
        M.check_all("X-points kept before", (res.n,), lambda q: M.And(*[M.eq(a, b) for a, b in zip(M.item(lst, q), M.item(res, q))]))
        M.check("at most one more", M.Or(M.eq(m, 0), M.eq(m, 1)))
        M.check("kept if seen from the axis", M.iff(M.eq(m, 1), seen(M, s, self.axis, x)))
        if M.decide(M.eq(m, 1)):
            M.check("the X-point itself", M.And(*[M.eq(a, b) for a, b in zip(M.item(lst, res.n), x)]))


def seen(M, s, axis, x):
    """along the straight line from the axis (50 points) flux falls from its extreme towards the X-point by no more than
    0.1% of its range, and the other extreme is within 1 cm of the axis"""
    (Ro, Zo, Po), (Rx, Zx, Px) = axis, x
    r = lambda t: Ro + (Rx - Ro) * t / 49
    z = lambda t: Zo + (Zx - Zo) * t / 49
    sign = M.If(M.lt(Px, Po), -1, 1)
    p = lambda t: sign * s.f(r(t), z(t))
    n = s.count50
    top, bot = p(M.argmax(n, p)), M.argmin(n, p)
    return M.And(M.Not(M.lt(0.001, (top - p(49)) / (top - p(0)))), M.Not(M.lt(1e-4, dist2((r(bot), z(bot)), (Ro, Zo)))))


def place(M, lst, k):
    """where the element k of a list was sorted to"""
    return lst.seq.place(k) if hasattr(lst.seq, "place") else k


def at(M, n, k, f):
    """f at k, one of 0, ..., n-1"""
    return M.And(M.le(0, k), M.lt(k, n), f(k))


@contract("C14", "search", [FN], samples=0, conc=False, feas=200, standin="known-flux")
def search(M):
    from pv import terms as T
    from pv.core import mk, nf

    cr = M.module("freegs.critical")
    s = SimpleNamespace()
    s.nx, s.ny = M.int("nx", lo=5), M.int("ny", lo=5)
    Rmin, Zmin, dR, dZ = M.real("Rmin", gt=0), M.real("Zmin"), M.real("dR", gt=0), M.real("dZ", gt=0)
    s.Rat, s.Zat = (lambda i: Rmin + i * dR), (lambda j: Zmin + j * dZ)
    R, Z = M.table((s.nx, s.ny), lambda i, j: s.Rat(i)), M.table((s.nx, s.ny), lambda i, j: s.Zat(j))
    psi = M.array("psi", (s.nx, s.ny))
    from pv import models

    spl = models.RectBivariateSpline(R[:, 0], Z[0, :], psi)
    s.f = lambda r, z, dx=0, dy=0: spl.ev(r, z, dx=dx, dy=dy)
    s.field2 = lambda r, z: (s.f(r, z, dx=1) ** 2 + s.f(r, z, dy=1) ** 2) / r ** 2
    b2 = lambda i, j: s.field2(s.Rat(i), s.Zat(j))
    s.minimum = lambda i, j: M.And(*[M.lt(b2(i, j), b2(i + a, j + b)) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a, b) != (0, 0)])
    s.converged = lambda r, z: M.lt(s.field2(r, z), 1e-6)
    s.radius = 9 * (dR ** 2 + dZ ** 2)
    s.away = lambda i, j, r, z: (r - s.Rat(i)) ** 2 + (z - s.Zat(j)) ** 2
    p = lambda i, j: M.at(psi, i, j)

    def hessian(i, j):
        rr = (p(i + 2, j) - 2 * p(i, j) + p(i - 2, j)) / (4 * dR ** 2)
        zz = (p(i, j + 2) - 2 * p(i, j) + p(i, j - 2)) / (4 * dZ ** 2)
        rz = (p(i + 2, j + 2) - p(i + 2, j - 2) - p(i - 2, j + 2) + p(i - 2, j - 2)) / (16 * dR * dZ)
        return rr * zz - rz ** 2

    s.hessian = hessian

    def check_step(r, z, r2, z2):
        """(r2, z2) solves the linearised Br = Bz = 0 at (r, z)"""
        br, bz = -s.f(r, z, dy=1) / r, s.f(r, z, dx=1) / r
        brr, brz = -s.f(r, z, dx=1, dy=1) / r - br / r, -s.f(r, z, dy=2) / r
        bzr, bzz = s.f(r, z, dx=2) / r - bz / r, s.f(r, z, dx=1, dy=1) / r
        M.check("Newton step for Br", M.eq(br + brr * (r2 - r) + brz * (z2 - z), 0))
        M.check("Newton step for Bz", M.eq(bz + bzr * (r2 - r) + bzz * (z2 - z), 0))

    s.check_step = check_step
    s.found = lambda kind, r, z, q: mk(T.bapp("found_" + kind, (nf(r), nf(z), nf(q))))
    s.visible = lambda r, z, q: mk(T.bapp("visible", (nf(r), nf(z), nf(q))))
    s.count50 = M.int("line")
    M.assume(M.eq(s.count50, 50))
    s.discard = M.choice("discard", [True, False])
    s.vis = None
    g = Search(M, s)
    opt, xpt = cr.find_critical(R, Z, psi, **({} if s.discard else {"discard_xpoints": False}))
    M.require("duplicates removed from both lists", len(g.dup.calls) == 2)
    raw = {}
    for c in g.dup.calls:
        kind = [n for n in ("opoint", "xpoint") if c.points.seq is g.now[n].seq]
        M.require("the points found", len(kind) == 1 and kind[0] not in raw)
        raw[kind[0]] = c
    n, m = M.length(opt), M.length(xpt)
    mid = (s.Rat(0) + s.Rat(s.nx - 1)) / 2, (s.Zat(0) + s.Zat(s.ny - 1)) / 2
    o, x = (lambda k: M.item(opt, k)), (lambda k: M.item(xpt, k))
    M.check_all("O-points are O-points found", (n,), lambda k: s.found("opoint", *o(k)))
    M.check_all("X-points are X-points found", (m,), lambda k: s.found("xpoint", *x(k)))
    for nm, k_, pt in (("O", n, o), ("X", m, x)):
        M.check_all(nm + "-points apart", (k_, k_), lambda a, b, pt=pt: M.implies(M.Not(M.eq(a, b)), M.le(MARGIN, dist2(pt(a), pt(b)))))
    c = raw["opoint"]
    M.check_all("an O-point near every one found", (M.length(c.points),), lambda q: 
                at(M, n, place(M, opt, c.near(q)), lambda k: M.lt(dist2(M.item(c.points, q), o(k)), MARGIN)))
    M.check_all("O-points by distance from the middle", (n, n), lambda a, b: M.implies(M.lt(a, b), M.le(dist2(o(a), mid), dist2(o(b), mid))))
    if M.decide(M.lt(0, n)):
        axis = o(0)
        M.check_all("X-points by flux from the axis", (m, m), lambda a, b: M.implies(M.lt(a, b), M.le((x(a)[2] - axis[2]) ** 2, (x(b)[2] - axis[2]) ** 2)))
        M.require("X-points selected when asked for", (s.vis is not None) == s.discard)
        c = raw["xpoint"]
        if s.discard:
            M.require("selected among those without duplicates", s.vis.xs.seq is c.res.seq)
            M.check_all("X-points kept are seen from the axis", (m,), lambda k: s.visible(*x(k)))
            M.check_all("X-points seen from the axis are kept", (c.n,), lambda q: M.implies(s.visible(*M.item(c.res, q)), at(M, m, place(M, xpt, s.vis.rank(q)), lambda k: M.And(
                *[M.eq(a, b) for a, b in zip(M.item(c.res, q), x(k))]))))
        else:
            M.check_all("an X-point near every one found", (M.length(c.points),), lambda q: 
                        at(M, m, place(M, xpt, c.near(q)), lambda k: M.lt(dist2(M.item(c.points, q), x(k)), MARGIN)))


@contract("C14", "known-flux", [FN], samples=60, sym=False, hang=30, hang_fails=True)
def known(M):
    """bounded: bumps of flux, whose axes and X-points are found independently"""
    np, rng, cr = M.np, M.rng, M.module("freegs.critical")
    nx, ny = rng.choice([40, 65, 81]), rng.choice([40, 65, 81])
    Rmin, Zmin = rng.uniform(0.1, 0.6), rng.uniform(-1.2, -0.6)
    Rmax, Zmax = Rmin + rng.uniform(0.8, 1.6), Zmin + rng.uniform(1.2, 2.4)
    W, H = Rmax - Rmin, Zmax - Zmin
    bumps = [(rng.choice([1, 1, 1, -0.5]) * rng.uniform(0.3, 1.5), Rmin + W * rng.uniform(-0.1, 1.1), Zmin + H * rng.uniform(-0.1, 1.1), rng.uniform(0.25, 0.5) * W)
             for _ in range(rng.randint(1, 5))]
    flip = rng.choice([1, -1])

    def flux(r, z):
        """flux, gradient and second derivatives"""
        out = [0.0] * 6
        for a, r0, z0, w in bumps:
            x, y = (r - r0) / w, (z - z0) / w
            e = flip * a * np.exp(-x * x - y * y)
            for q, v in enumerate((e, -2 * x * e / w, -2 * y * e / w, (4 * x * x - 2) * e / w ** 2, (4 * y * y - 2) * e / w ** 2, 4 * x * y * e / w ** 2)):
                out[q] = out[q] + v
        return out

    R, Z = np.meshgrid(np.linspace(Rmin, Rmax, nx), np.linspace(Zmin, Zmax, ny), indexing="ij")
    psi = flux(R, Z)[0]
    dR, dZ = W / (nx - 1), H / (ny - 1)
    h = max(dR, dZ)
    # Newton's method on the flux itself, from many places
    r, z = R[1:-1:2, 1:-1:2].ravel().copy(), Z[1:-1:2, 1:-1:2].ravel().copy()
    with np.errstate(all="ignore"):
        for _ in range(40):
            _, gr, gz, rr, zz, rz = flux(r, z)
            det = rr * zz - rz * rz
            r, z = r - (zz * gr - rz * gz) / det, z - (rr * gz - rz * gr) / det
        _, gr, gz, rr, zz, rz = flux(r, z)
    ok = np.isfinite(r + z) & (np.abs(gr) + np.abs(gz) < 1e-10) & (r > Rmin) & (r < Rmax) & (z > Zmin) & (z < Zmax)
    true = []
    for q in np.flatnonzero(ok):
        if all((r[q] - p[0]) ** 2 + (z[q] - p[1]) ** 2 > 1e-8 for p in true):
            true.append((float(r[q]), float(z[q])))
    before = psi.copy(), R.copy(), Z.copy()
    opt, xall = cr.find_critical(R, Z, psi, discard_xpoints=False)
    opt2, xpt = cr.find_critical(R, Z, psi)
    M._log("bumps", bumps)
    # of interpolation, near the edges
    err = sum(abs(a) / w * (h / w) ** 3 for a, _, _, w in bumps)
    M.check("arguments unchanged", all((a == b).all() for a, b in zip((psi, R, Z), before)))
    M.check("O-points do not depend on discarding", [tuple(p) for p in opt] == [tuple(p) for p in opt2])
    for kind, pts in (("O", opt), ("X", xall)):
        for k, (a, b, p) in enumerate(pts):
            v, gr, gz, rr, zz, rz = flux(a, b)
            M.check("within three grid diagonals of the grid", Rmin - 3 * np.hypot(dR, dZ) <= a <= Rmax + 3 * np.hypot(dR, dZ) and abs(b - (Zmin + Zmax) / 2) <= H / 2 + 3 * np.hypot(dR, dZ))
            M.check(kind + ": no field at the point", np.hypot(gr, gz) < 1.05e-3 * a + 3 * err)
            M.check(kind + ": flux at the point", abs(v - p) < 1e-4 + 3 * err * h)
            det, size = rr * zz - rz * rz, rr * rr + zz * zz + 2 * rz * rz
            alone = sum(np.hypot(a - q[0], b - q[1]) < 8 * h for q in true) == 1
            if alone and abs(det) > 0.25 * size and size > 0.05 ** 2 and Rmin < a < Rmax and Zmin < b < Zmax:
                M.check(kind + ": kind of point", (det > 0) == (kind == "O"))
            M.check(kind + ": no duplicates", all((a - q[0]) ** 2 + (b - q[1]) ** 2 >= 0.999e-5 for q in pts[:k]))
    clear = 0
    for a, b in true:
        v, gr, gz, rr, zz, rz = flux(a, b)
        e = np.abs(np.linalg.eigvalsh([[rr, rz], [rz, zz]]))
        alone = all(np.hypot(a - q[0], b - q[1]) > 8 * h for q in true if q != (a, b))
        inside = Rmin + 5 * dR < a < Rmax - 5 * dR and Zmin + 5 * dZ < b < Zmax - 5 * dZ
        if alone and inside and max(e) < 2.5 * min(e) and max(dR, dZ) < 1.4 * min(dR, dZ) and min(e) * h > 0.02 * a:
            pts = opt if rr * zz - rz * rz > 0 else xall
            M._log("critical point", (a, b))
            M.check("every clear point is found", any(np.hypot(a - q[0], b - q[1]) < 0.2 * h for q in pts))
    if not opt:
        return
    mid = ((Rmin + Rmax) / 2, (Zmin + Zmax) / 2)
    d = [np.hypot(p[0] - mid[0], p[1] - mid[1]) for p in opt]
    M.check("O-points by distance from the middle", all(a <= b + 1e-12 for a, b in zip(d, d[1:])))
    for pts in (xpt, xall):
        d = [abs(p[2] - opt[0][2]) for p in pts]
        M.check("X-points by flux from the axis", all(a <= b + 1e-12 for a, b in zip(d, d[1:])))
    M.check("X-points selected, not changed", all(any(tuple(p) == tuple(q) for q in xall) for p in xpt))
    ro, zo, po = opt[0]
    t = np.linspace(0, 1, 50)
    for a, b, p in xall:
        line = flux(ro + (a - ro) * t, zo + (b - zo) * t)[0] * (1 if p > po else -1)
        top = line.max()
        drop, low = (top - line[-1]) / (top - line[0]), t[line.argmin()] * np.hypot(a - ro, b - zo)
        kept = any(tuple(q) == (a, b, p) for q in xpt)
        if abs(p - po) > 0.01 and abs(drop - 1e-3) > 5e-4 and abs(low - 0.01) > 2e-3:
            M.check("X-points kept are seen from the axis", kept == bool(drop < 1e-3 and low < 0.01))


@contract("C14", "exact-flux", [FN], samples=120, sym=False, hang=20, hang_fails=True)
def exact(M):
    """bounded: flux of second order, with its only critical point on a grid point at least two from the edge, or far away"""
    np, rng, cr = M.np, M.rng, M.module("freegs.critical")
    nx, ny = rng.randint(6, 14), rng.randint(6, 14)
    Rmin, Zmin = rng.uniform(0.3, 1.0), rng.uniform(-1.0, 0.3)
    dR = rng.uniform(0.03, 0.2)
    dZ = dR * rng.uniform(0.7, 1.4)
    R, Z = np.meshgrid(Rmin + dR * np.arange(nx), Zmin + dZ * np.arange(ny), indexing="ij")
    i, j = rng.randint(2, nx - 3), rng.randint(2, ny - 3)
    r, z = R[i, j], Z[i, j]
    a, b, s = rng.choice([1, -1]) * rng.uniform(0.5, 3), rng.uniform(0.5, 3), rng.choice([1, -1])
    c = rng.choice([0.0, rng.uniform(-0.3, 0.3), rng.uniform(-1.9, 1.9) * abs(a * b) ** 0.5])
    p0 = rng.uniform(-1, 1)
    low = np.abs(np.linalg.eigvalsh([[2 * a, c], [c, 2 * b]])).min()
    s *= max(1, 3 * R.max() / low)  # so that the tolerance on the field, 1e-3, means less than 0.4 mm
    psi = p0 + s * (a * (R - r) ** 2 + b * (Z - z) ** 2 + c * (R - r) * (Z - z))
    M._log("grid and point", (nx, ny, Rmin, Zmin, dR, dZ, i, j, a, b, c, s, p0))
    opt, xpt = cr.find_critical(R, Z, psi, discard_xpoints=False)
    pts, none = (opt, xpt) if a * b > c * c / 4 else (xpt, opt)
    M.check("the only critical point", len(pts) == 1 and not none)
    M.check("where it is", np.hypot(pts[0][0] - r, pts[0][1] - z) < 4e-4 and abs(pts[0][2] - p0) < 4e-7 * R.max())
