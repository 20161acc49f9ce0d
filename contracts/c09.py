"""C09: boundary conditions on the plasma flux."""
from types import SimpleNamespace

from pv.registry import contract

B = "freegs.boundary."


def grid(M):
    """a uniform grid, arbitrary current density and flux on it"""
    s = SimpleNamespace()
    if M.symbolic:
        mx, my = M.int("mx", lo=4), M.int("my", lo=4)
        s.nx, s.ny = mx + 1, my + 1
        s.Rmin, s.Zmin = M.real("Rmin", gt=0), M.real("Zmin")
        s.dR, s.dZ = M.real("dR", gt=0), M.real("dZ", gt=0)
        s.J, s.P = M.array("J", (s.nx, s.ny)), M.array("P", (s.nx, s.ny))
    else:
        rng = M.rng
        s.nx, s.ny = rng.choice([5, 9, 17]), rng.choice([5, 9, 17])
        s.Rmin, s.Zmin = rng.uniform(0.05, 1), rng.uniform(-1.5, 0)
        s.dR, s.dZ = rng.uniform(0.5, 2) / (s.nx - 1), rng.uniform(0.5, 2) / (s.ny - 1)
        form = rng.choice(["any", "zero", "patch", "patch"])
        sg, ci, cj, w = rng.choice([-1, 1]), rng.randrange(s.nx), rng.randrange(s.ny), rng.choice([0, 1, 3])
        draw = {"any": lambda i, j: rng.uniform(-1e6, 1e6), "zero": lambda i, j: 0.0,
                "patch": lambda i, j: sg * rng.uniform(0, 1e6) if abs(i - ci) <= w and abs(j - cj) <= w else 0.0}[form]
        s.J = M.table((s.nx, s.ny), draw)
        s.P = M.table((s.nx, s.ny), lambda i, j: rng.uniform(-1, 1))
    s.Rat, s.Zat = (lambda i: s.Rmin + i * s.dR), (lambda j: s.Zmin + j * s.dZ)
    s.R = M.table((s.nx, s.ny), lambda i, j: s.Rat(i))
    s.Z = M.table((s.nx, s.ny), lambda i, j: s.Zat(j))
    s.J0, s.P0, s.R0, s.Z0 = s.J.copy(), s.P.copy(), s.R.copy(), s.Z.copy()
    s.edge = lambda i, j: M.Or(M.eq(i, 0), M.eq(j, 0), M.eq(i, s.nx - 1), M.eq(j, s.ny - 1))
    s.eq = SimpleNamespace(R=s.R, Z=s.Z)
    return s


def rest(M, s):
    both = (s.nx, s.ny)
    M.check_all("interior flux untouched", both, lambda i, j: M.Or(s.edge(i, j), M.eq(M.at(s.P, i, j), M.at(s.P0, i, j))))
    M.check_all("current density untouched", both, lambda i, j: M.eq(M.at(s.J, i, j), M.at(s.J0, i, j)))
    M.check_all("grid untouched", both, lambda i, j: M.And(M.eq(M.at(s.R, i, j), M.at(s.R0, i, j)), M.eq(M.at(s.Z, i, j), M.at(s.Z0, i, j))))


def edges(s, M):
    """the four edges: name, length, index -> (i, j)"""
    return [("lower", s.nx, lambda k: (k, 0)), ("upper", s.nx, lambda k: (k, s.ny - 1)),
            ("inner", s.ny, lambda k: (0, k)), ("outer", s.ny, lambda k: (s.nx - 1, k))]


@contract("C09", "fixed", [B + "fixedBoundary"], samples=16)
def fixed(M):
    s = grid(M)
    M.module("freegs.boundary").fixedBoundary(s.eq, s.J, s.P)
    for nm, n, at in edges(s, M):
        M.check_all("zero on the %s edge" % nm, (n,), lambda k: M.eq(M.at(s.P, *at(k)), 0))
    rest(M, s)


@contract("C09", "free", [B + "freeBoundary"], samples=16)
def free(M):
    G = M.greens()
    s = grid(M)
    M.module("freegs.boundary").freeBoundary(s.eq, s.J, s.P)

    def want(x, y):
        def g(i, j):
            same = M.And(M.eq(i, x), M.eq(j, y))
            if not M.symbolic:
                return 0.0 if same else G.Greens(s.Rat(i), s.Zat(j), s.Rat(x), s.Zat(y)) * M.at(s.J0, i, j)
            return M.If(same, 0, G.Greens(s.Rat(i), s.Zat(j), s.Rat(x), s.Zat(y)) * M.at(s.J0, i, j))

        return M.romb2(g, s.nx, s.ny) * s.dR * s.dZ

    for nm, n, at in edges(s, M):
        M.check_all("flux of the plasma on the %s edge" % nm, (n,), lambda k: M.eq(M.at(s.P, *at(k)), want(*at(k)), scale=1e-6))
    rest(M, s)


@contract("C09", "hagenow", [B + "freeBoundaryHagenow"], samples=16)
def hagenow(M):
    """flux outside a current in terms of the normal derivative, on the edge of the domain,
    of the flux U of that current held to zero there (von Hagenow)"""
    G = M.greens()
    s = grid(M)
    calls = []
    U = M.array("U", (s.nx, s.ny)) if M.symbolic else M.table((s.nx, s.ny), lambda i, j: M.rng.uniform(-1, 1))
    U0 = U.copy()

    def solver(psi, rhs):
        calls.append((psi.copy(), rhs.copy()))
        return U

    s.eq.callSolver = solver
    M.module("freegs.boundary").freeBoundaryHagenow(s.eq, s.J, s.P)
    M.check("one solve", len(calls) == 1)
    rhs = calls[0][1]
    M.check_all("for this current density, zero on the edge", (s.nx, s.ny), lambda i, j: M.eq(
        M.at(rhs, i, j), M.If(s.edge(i, j), 0, s.Rat(i) * M.at(s.J0, i, j)) if M.symbolic else (0 if s.edge(i, j) else s.Rat(i) * M.at(s.J0, i, j))))
    C = [25.0 / 12, -4.0, 3.0, -16.0 / 12, 1.0 / 4]
    u = lambda i, j: M.at(U0, i, j)
    X, Y = s.nx - 1, s.ny - 1
    dd = M.sqrt(s.dR ** 2 + s.dZ ** 2)

    def ite(c, a, b):
        return M.If(c, a, b) if M.symbolic else (a if c else b)

    def slope(f, h):
        return sum(w * f(q) for q, w in enumerate(C)) / h

    def normal(i, j, di, dj, h):
        return slope(lambda q: u(i + q * di, j + q * dj), h)

    c00, c0Y = normal(0, 0, 1, 1, dd), normal(0, Y, 1, -1, dd)
    cX0, cXY = normal(X, 0, -1, 1, dd), normal(X, Y, -1, -1, dd)
    dL = lambda j: ite(M.eq(j, 0), c00, ite(M.eq(j, Y), c0Y, normal(0, j, 1, 0, s.dR)))
    dR = lambda j: ite(M.eq(j, 0), cX0, ite(M.eq(j, Y), cXY, normal(X, j, -1, 0, s.dR)))
    dD = lambda i: ite(M.eq(i, 0), c00, ite(M.eq(i, X), cX0, normal(i, 0, 0, 1, s.dZ)))
    dU = lambda i: ite(M.eq(i, 0), c0Y, ite(M.eq(i, X), cXY, normal(i, Y, 0, -1, s.dZ)))

    def want(r, z):
        g = lambda i, j: G.Greens(s.Rat(i), s.Zat(j), r, z) / s.Rat(i)
        return (M.romb1(lambda j: g(0, j) * dL(j), s.ny) * s.dZ + M.romb1(lambda j: g(X, j) * dR(j), s.ny) * s.dZ
                + M.romb1(lambda i: g(i, 0) * dD(i), s.nx) * s.dR + M.romb1(lambda i: g(i, Y) * dU(i), s.nx) * s.dR)

    e = 1e-2
    M.check_all("lower edge", (s.nx,), lambda i: M.eq(M.at(s.P, i, 0), want(s.Rat(i), s.Zat(0) - e), rtol=1e-8), where=lambda i: M.And(M.lt(0, i), M.lt(i, X)))
    M.check_all("upper edge", (s.nx,), lambda i: M.eq(M.at(s.P, i, Y), want(s.Rat(i), s.Zat(Y) + e), rtol=1e-8), where=lambda i: M.And(M.lt(0, i), M.lt(i, X)))
    M.check_all("inner edge", (s.ny,), lambda j: M.eq(M.at(s.P, 0, j), want(s.Rat(0) - e, s.Zat(j)), rtol=1e-8))
    M.check_all("outer edge", (s.ny,), lambda j: M.eq(M.at(s.P, X, j), want(s.Rat(X) + e, s.Zat(j)), rtol=1e-8))
    rest(M, s)
