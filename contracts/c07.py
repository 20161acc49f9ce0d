"""C07: discrete Grad-Shafranov operators."""
from pv.registry import contract

GS = "freegs.gradshafranov"


def poly(M, deg):
    """an arbitrary polynomial of total degree <= deg in Taylor form about a grid
    point: value at an offset (a, b) from the point, and Delta* at the point"""
    cs = [(M.real("c%d%d" % (p, q), sample=(-1, 1)), p, q) for p in range(deg + 1) for q in range(deg + 1 - p)]
    c = {(p, q): v for v, p, q in cs}

    def val(a, b):
        t = 0.0
        for v, p, q in cs:
            t = t + v * a ** p * b ** q
        return t

    def dstar(R):
        return 2 * c[2, 0] + 2 * c[0, 2] - c[1, 0] / R

    return val, dstar


def domain(M, nx, ny):
    """any domain with Rmin >= 0, given by its corner and its grid spacing"""
    Rmin = M.real("Rmin", lo=0, sample=(0.0, 2.0))
    dR = M.real("dR", gt=0, sample=(0.03, 0.3))
    Zmin = M.real("Zmin", sample=(-2.0, 1.0))
    dZ = M.real("dZ", gt=0, sample=(0.03, 0.3))
    return Rmin, Rmin + dR * (nx - 1), Zmin, Zmin + dZ * (ny - 1), dR, dZ


def matrix(M, cls, nmin, reach, deg):
    G = M.module(GS)
    nx = M.int("nx", lo=nmin, sample=(nmin, nmin + 7))
    ny = M.int("ny", lo=nmin, sample=(nmin, nmin + 7))
    Rmin, Rmax, Zmin, Zmax, dR, dZ = domain(M, nx, ny)
    M.grid_hint(nx, ny)
    A = getattr(G, cls)(Rmin, Rmax, Zmin, Zmax)(nx, ny)
    grid = (nx, ny)
    edge = lambda x, y: M.Or(M.eq(x, 0), M.eq(x, nx - 1), M.eq(y, 0), M.eq(y, ny - 1))

    M.check_all("boundary rows identity", (nx, ny, nx, ny), lambda x, y, a, b: M.eq(
        M.sparse_at(A, grid, (x, y), (a, b)), M.If(M.And(M.eq(x, a), M.eq(y, b)), 1.0, 0.0)), where=lambda x, y, a, b: edge(x, y))
    far = lambda x, y, a, b: M.Or(M.lt(reach, a - x), M.lt(reach, x - a), M.lt(reach, b - y), M.lt(reach, y - b))
    M.check_all("local stencil", (nx, ny, nx, ny), lambda x, y, a, b: M.eq(
        M.sparse_at(A, grid, (x, y), (a, b)), 0.0), where=lambda x, y, a, b: M.And(M.Not(edge(x, y)), far(x, y, a, b)))
    val, dstar = poly(M, deg)

    def exact(x, y):
        t = 0.0
        for i in range(-reach, reach + 1):
            for j in range(-reach, reach + 1):
                a = M.simp(M.sparse_at(A, grid, (x, y), (x + i, y + j)))
                if not M.symbolic and a == 0:
                    continue
                t = t + a * val(i * dR, j * dZ)
        sc = 1.0 if M.symbolic else 10 / min(dR, dZ) ** 2
        return M.eq(t, dstar(Rmin + x * dR), scale=sc, rtol=1e-10)

    # first and last interior line, then everything between
    pos = {"first": lambda n: 1, "last": lambda n: n - 2}
    for px in ("first", "last", "mid"):
        for py in ("first", "last", "mid"):
            name = "exact on polynomials: R %s, Z %s" % (px, py)
            if px != "mid" and py != "mid":
                M.check(name, exact(pos[px](nx), pos[py](ny)))
            elif px != "mid":
                M.check_all(name, (ny,), lambda y: exact(pos[px](nx), y), where=lambda y: M.And(M.lt(1, y), M.lt(y, ny - 2)))
            elif py != "mid":
                M.check_all(name, (nx,), lambda x: exact(x, pos[py](ny)), where=lambda x: M.And(M.lt(1, x), M.lt(x, nx - 2)))
            else:
                M.check_all(name, (nx, ny), exact, where=lambda x, y: M.And(M.lt(1, x), M.lt(x, nx - 2), M.lt(1, y), M.lt(y, ny - 2)))


@contract("C07", "second-order-matrix", [GS + ".GSsparse.__call__"], samples=25)
def second(M):
    """interior rows reproduce Delta* of every quadratic and only use the
    neighbouring points; boundary rows are rows of the identity"""
    matrix(M, "GSsparse", 3, 1, 2)


@contract("C07", "fourth-order-matrix", [GS + ".GSsparse4thOrder.__call__"], samples=25, timeout=400)
def fourth(M):
    """interior rows reproduce Delta* of every quartic"""
    matrix(M, "GSsparse4thOrder", 6, 4, 4)


@contract("C07", "operator", [GS + ".GSElliptic.__call__"], samples=40)
def operator(M):
    """the operator applied to grid data: exact on quadratics, zero on the edge,
    linear in the data and uses the five-point neighbourhood"""
    G = M.module(GS)
    nx = M.int("nx", lo=3, sample=(3, 9))
    ny = M.int("ny", lo=3, sample=(3, 9))
    Rmin, Rmax, Zmin, Zmax, dR, dZ = domain(M, nx, ny)
    op = G.GSElliptic(Rmin)
    psi = M.array("psi", (nx, ny))
    b = op(psi, dR, dZ)
    M.check_shape("shape", b, (nx, ny))
    edge = lambda x, y: M.Or(M.eq(x, 0), M.eq(x, nx - 1), M.eq(y, 0), M.eq(y, ny - 1))
    M.check_all("zero on the edge", (nx, ny), lambda x, y: M.eq(M.at(b, x, y), 0.0), where=edge)

    def want(x, y):
        R = Rmin + x * dR
        p = lambda i, j: M.at(psi, x + i, y + j)
        return (
            (p(1, 0) - 2.0 * p(0, 0) + p(-1, 0)) / dR ** 2
            + (p(0, 1) - 2.0 * p(0, 0) + p(0, -1)) / dZ ** 2
            - (p(1, 0) - p(-1, 0)) / (2.0 * dR) / R
        )

    M.check_all("second order differences", (nx, ny), lambda x, y: M.eq(
        M.at(b, x, y), want(x, y), scale=1e-6 if M.symbolic else 1 / min(dR, dZ) ** 2), where=lambda x, y: M.Not(edge(x, y)))
    M.check("diagonal", M.eq(op.diag(dR, dZ), -2.0 / dR ** 2 - 2.0 / dZ ** 2))


@contract("C07", "matrix-matches-operator", [GS + ".GSsparse.__call__", GS + ".GSElliptic.__call__"], samples=25)
def agree(M):
    """the second-order matrix is the operator applied to any grid function"""
    G = M.module(GS)
    nx = M.int("nx", lo=3, sample=(3, 9))
    ny = M.int("ny", lo=3, sample=(3, 9))
    Rmin, Rmax, Zmin, Zmax, dR, dZ = domain(M, nx, ny)
    M.grid_hint(nx, ny)
    grid = (nx, ny)
    A = G.GSsparse(Rmin, Rmax, Zmin, Zmax)(nx, ny)
    psi = M.array("psi", (nx, ny))
    b = G.GSElliptic(Rmin)(psi, dR, dZ)

    def row(x, y):
        t = 0.0
        for i, j in [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1)]:
            t = t + M.sparse_at(A, grid, (x, y), (x + i, y + j)) * M.at(psi, x + i, y + j)
        return t

    M.check_all("same rows", (nx, ny), lambda x, y: M.eq(row(x, y), M.at(b, x, y), scale=1e-6 if M.symbolic else 1 / min(dR, dZ) ** 2), where=lambda x, y: M.And(
        M.lt(0, x), M.lt(x, nx - 1), M.lt(0, y), M.lt(y, ny - 1)))
