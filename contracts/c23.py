"""C23: multigrid transfers, smoothers and cycles (freegs.multigrid)."""
from types import SimpleNamespace

from pv.registry import contract

MG = "freegs.multigrid."


def size(M, nm, even=None):
    """points of a grid with an even number of intervals, and half of them"""
    h = M.int("half" + nm, lo=1, sample=(1, 6))
    return 2 * h + 1, h + 1


@contract("C23", "restriction", [MG + "restrict"], samples=60)
def restriction(M):
    mg = M.module("freegs.multigrid")
    if M.choice("even", [True, False]):
        (nx, cx), (ny, cy) = size(M, "x"), size(M, "y")
        a = M.array("orig", (nx, ny), sample=(-1, 1))
        was = M.snapshot2(a)
        kw = {}
        avg = M.choice("avg", [None, False, True])
        if avg is not None:
            kw["avg"] = avg
        out = mg.restrict(a, **kw)
        M.check_shape("coarse grid", out, (cx, cy))
        f = 1 if avg else 4

        def full(x, y):
            t = 0
            for i, wi in ((-1, 1), (0, 2), (1, 1)):
                for j, wj in ((-1, 1), (0, 2), (1, 1)):
                    t = t + M.at(a, 2 * x + i, 2 * y + j) * (wi * wj) / 16
            return t * f

        edge = lambda x, y: M.Or(M.eq(x, 0), M.eq(x, cx - 1), M.eq(y, 0), M.eq(y, cy - 1))
        M.check_all("full weighting", (cx, cy), lambda x, y: M.eq(M.at(out, x, y), full(x, y)), where=lambda x, y: M.Not(edge(x, y)))
        M.check_all("zero at the edge", (cx, cy), lambda x, y: M.eq(M.at(out, x, y), 0), where=edge)
    else:
        nx, ny = M.int("nx", lo=2, sample=(2, 12)), M.int("ny", lo=2, sample=(2, 12))
        M.assume(M.Or(M.eq((nx - 1) % 2, 1), M.eq((ny - 1) % 2, 1)))
        a = M.array("orig", (nx, ny), sample=(-1, 1))
        was = M.snapshot2(a)
        out = mg.restrict(a)
        M.check_shape("the same grid", out, (nx, ny))
        M.check_all("the same values", (nx, ny), lambda x, y: M.eq(M.at(out, x, y), was(x, y)))
    M.check_all("argument left alone", (nx, ny), lambda x, y: M.eq(M.at(a, x, y), was(x, y)))


@contract("C23", "interpolation", [MG + "interpolate"], samples=60)
def interpolation(M):
    """bilinear interpolation of the values inside, taken as zero on the edge"""
    mg = M.module("freegs.multigrid")
    nx, ny = M.int("nx", lo=2, sample=(2, 8)), M.int("ny", lo=2, sample=(2, 8))
    a = M.array("orig", (nx, ny), sample=(-1, 1))
    was = M.snapshot2(a)
    out = mg.interpolate(a)
    M.check_shape("fine grid", out, (2 * nx - 1, 2 * ny - 1))
    inside = lambda x, y: M.And(M.lt(0, x), M.lt(x, nx - 1), M.lt(0, y), M.lt(y, ny - 1))
    v = lambda x, y: M.If(inside(x, y), M.at(a, M.If(inside(x, y), x, 0), M.If(inside(x, y), y, 0)), 0)
    M.check_all("at the points of both", (nx, ny), lambda x, y: M.eq(M.at(out, 2 * x, 2 * y), v(x, y)))
    M.check_all("between two in R", (nx - 1, ny), lambda x, y: M.eq(M.at(out, 2 * x + 1, 2 * y), (v(x, y) + v(x + 1, y)) / 2))
    M.check_all("between two in Z", (nx, ny - 1), lambda x, y: M.eq(M.at(out, 2 * x, 2 * y + 1), (v(x, y) + v(x, y + 1)) / 2))
    M.check_all("between four", (nx - 1, ny - 1), lambda x, y: M.eq(M.at(out, 2 * x + 1, 2 * y + 1), (v(x, y) + v(x + 1, y) + v(x, y + 1) + v(x + 1, y + 1)) / 4))
    M.check_all("argument left alone", (nx, ny), lambda x, y: M.eq(M.at(a, x, y), was(x, y)))


class Matrix:
    """a square matrix, known by its products and its diagonal"""

    def __init__(self, M, nx, ny):
        self.M, self.n = M, nx * ny
        if M.symbolic:
            self.d = M.array("diag", (nx * ny,))
            i, j = M.int("probe_x", lo=0), M.int("probe_y", lo=0)
            M.assume(M.And(M.lt(i, nx), M.lt(j, ny)))
            self.probe, self.probe2 = i * ny + j, (i, j)
            self.f = M.func("A", 2)

    def dot(self, v):
        M = self.M
        c = M.at(v, self.probe)
        return M.table((self.n,), lambda i: self.f(i, c))

    def diagonal(self):
        return self.d


def flat(M, a, n):
    return M.snapshot(lambda k: M.at(a, k), n)


@contract("C23", "cycle", [MG + "MGJacobi.__init__", MG + "MGJacobi.__call__"], samples=30)
def cycle(M):
    mg = M.module("freegs.multigrid")
    sub = M.choice("levels", [False, True])
    nx, ny = (size(M, "x")[0], size(M, "y")[0]) if sub and not M.symbolic else (M.int("nx", lo=2, sample=(3, 9)), M.int("ny", lo=2, sample=(3, 9)))
    N = nx * ny
    niter, ncycle = M.choice("sweeps", [0, 1, 2] if M.symbolic else [0, 1, 2, 15]), M.choice("cycles", [0, 1, 2])
    how = M.choice("given", ["at first", "at call"])
    log = []
    if M.symbolic:
        A = Matrix(M, nx, ny)
        diag = A.d

        def dot(x):
            c = M.at(x, *A.probe2)
            return M.table((nx, ny), lambda i, j: A.f(i * ny + j, c))

        probe2 = M.int("pi", lo=0), M.int("pj", lo=0)
        M.assume(M.And(M.lt(probe2[0], nx), M.lt(probe2[1], ny), M.lt(probe2[0], (nx - 1) // 2 + 1), M.lt(probe2[1], (ny - 1) // 2 + 1)))
        R, S, P = M.func("restrict", 3), M.func("subsolve", 3), M.func("interpolate", 3)
        cx, cy = (nx - 1) // 2 + 1, (ny - 1) // 2 + 1

        def restrict(e, out=None, avg=False):
            M.require("new array", out is None)
            c = M.at(e, *probe2)
            return M.table((cx, cy), lambda i, j: R(i, j, c) * (1 if avg else 4))

        def interpolate(x, out=None):
            M.require("new array", out is None)
            c = M.at(x, *probe2)
            return M.table((nx, ny), lambda i, j: P(i, j, c))

        def solver(x, b):
            M.check_all("from zero", (cx, cy), lambda i, j: M.eq(M.at(x, i, j), 0))
            c = M.at(b, *probe2)
            return M.table((cx, cy), lambda i, j: S(i, j, c))

        M.contracted(MG + "restrict", restrict)
        M.contracted(MG + "interpolate", interpolate)
        subsolver = solver
    else:
        np = M.np
        gen = mg.LaplaceSparse(1.0, 1.3)
        A = gen(nx, ny)
        diag = A.diagonal()
        dot = lambda x: np.reshape(A.dot(np.reshape(x, -1)), (nx, ny))
        subsolver = None
        if sub:
            direct = mg.MGDirect(gen((nx - 1) // 2 + 1, (ny - 1) // 2 + 1))
            subsolver = lambda x, b: direct(x, b)
        restrict, interpolate = mg.restrict, mg.interpolate
        solver = lambda x, b: direct(x, b)
    kw, call = {}, {}
    (kw if how == "at first" else call).update(ncycle=ncycle, niter=niter)
    if sub:
        kw["subsolver"] = subsolver
    solve = mg.MGJacobi(A, **kw)
    exact = M.choice("right hand side", ["any", "of the guess"])
    xi = M.array("x0", (nx, ny), sample=(-1, 1))
    x = M.table((nx, ny), lambda i, j: M.at(xi, i, j))
    bi = M.array("b", (nx, ny), sample=(-1, 1)) if exact == "any" else dot(x)
    wasx, wasb = M.snapshot2(xi), M.snapshot2(bi)
    out = solve(xi, bi, **call)
    M.check_shape("on the grid", out, (nx, ny))
    tol = dict(scale=100)
    if exact != "any" and not sub:
        M.check_all("a solution stays", (nx, ny), lambda i, j: M.eq(M.at(out, i, j), wasx(i, j), **tol))
    else:
        def sweep(x):
            ax = dot(x)
            return M.table((nx, ny), lambda i, j: M.at(x, i, j) + (wasb(i, j) - M.at(ax, i, j)) / M.at(diag, i * ny + j))

        for c in range(ncycle):
            for i in range(niter):
                x = sweep(x)
            if sub:
                ax = dot(x)
                e = restrict(M.table((nx, ny), lambda i, j: wasb(i, j) - M.at(ax, i, j)), avg=True)
                u = interpolate(solver(M.table(e.shape, lambda i, j: 0), e))
                y = x
                x = M.table((nx, ny), lambda i, j, y=y, u=u: M.at(y, i, j) + M.at(u, i, j))
            for i in range(niter):
                x = sweep(x)
        M.check_all("sweeps and corrections", (nx, ny), lambda i, j: M.eq(M.at(out, i, j), M.at(x, i, j), **tol))
    M.check_all("guess left alone", (nx, ny), lambda i, j: M.eq(M.at(xi, i, j), wasx(i, j)))
    M.check_all("right hand side left alone", (nx, ny), lambda i, j: M.eq(M.at(bi, i, j), wasb(i, j)))


@contract("C23", "direct", [MG + "MGDirect.__init__", MG + "MGDirect.__call__"], samples=30)
def direct(M):
    mg = M.module("freegs.multigrid")
    nx, ny = M.int("nx", lo=2, sample=(3, 9)), M.int("ny", lo=2, sample=(3, 9))
    b = M.array("b", (nx, ny), sample=(-1, 1))
    was = M.snapshot2(b)
    x0 = M.choice("guess", ["none", "some"])
    x0 = None if x0 == "none" else M.array("x0", (nx, ny), sample=(-1, 1))
    if M.symbolic:
        A = SimpleNamespace()
        A.tocsc = lambda: A
        probe, f = M.int("probe", lo=0), M.func("inverse", 2)

        def factorized(B):
            M.require("this matrix", B is A)

            def solve(v):
                c = M.at(v, probe)
                return M.table((nx * ny,), lambda i: f(i, c))

            return solve

        M.contracted(MG + "factorized", factorized)
        solve = mg.MGDirect(A)
        out = solve(x0, b)
        c = was(probe // ny, probe % ny)
        M.check_all("solution", (nx, ny), lambda i, j: M.eq(M.at(out, i, j), f(i * ny + j, c)))
    else:
        A = mg.LaplaceSparse(1.0, 1.3)(nx, ny)
        out = mg.MGDirect(A)(x0, b)
        r = A.dot(M.np.reshape(out, -1)) - M.np.reshape(b, -1)
        M.check("solution", bool(abs(r).max() < 1e-9))
    M.check_shape("on the grid", out, (nx, ny))
    M.check_all("right hand side left alone", (nx, ny), lambda i, j: M.eq(M.at(b, i, j), was(i, j)))


@contract("C23", "levels", [MG + "createVcycle"], samples=60)
def levels(M):
    mg = M.module("freegs.multigrid")
    nx, ny = M.int("nx", lo=3, sample=(3, 34)), M.int("ny", lo=3, sample=(3, 34))
    n = M.int("nlevels", lo=1, sample=(1, 4))
    kw = dict(nlevels=n)
    ncycle, niter, direct = 1, 10, True
    if M.choice("iterations", ["default", "given"]) == "given":
        ncycle = kw["ncycle"] = M.int("ncycle", lo=1, sample=(1, 3))
        niter = kw["niter"] = M.int("niter", lo=0, sample=(0, 5))
    direct = M.choice("direct", [None, True, False])
    if direct is not None:
        kw["direct"] = direct
    direct = direct is not False
    even = lambda nx, ny: M.And(M.eq((nx - 1) % 2, 0), M.eq((ny - 1) % 2, 0))
    if M.symbolic:
        real = mg.createVcycle
        gen = lambda a, b: ("matrix", a, b)

        def cycle(nx, ny, generator, nlevels=4, ncycle=1, niter=10, direct=True):
            return SimpleNamespace(kind="levels", size=(nx, ny), gen=generator, nlevels=nlevels, ncycle=ncycle, niter=niter, direct=direct)

        M.contracted(MG + "createVcycle", cycle)
        M.contracted(MG + "MGDirect", lambda A: SimpleNamespace(kind="direct", A=A))
        M.contracted(MG + "MGJacobi", lambda A, ncycle=4, niter=10, subsolver=None: SimpleNamespace(kind="jacobi", A=A, ncycle=ncycle, niter=niter, subsolver=subsolver))
        s = real(nx, ny, gen, **kw)
        M.require("a solver of the matrix", getattr(s, "A", ("",))[0] == "matrix")
        M.check("at this resolution", M.And(M.eq(s.A[1], nx), M.eq(s.A[2], ny)))
        below = M.decide(M.And(M.lt(1, n), even(nx, ny)))
        M.check("direct at the lowest", s.kind == ("direct" if direct and not below else "jacobi"))
        if s.kind == "jacobi":
            M.check("cycles and sweeps", M.And(M.eq(s.ncycle, ncycle), M.eq(s.niter, niter)))
            M.check("coarser level", (s.subsolver is not None) == below)
        if below and s.kind == "jacobi" and s.subsolver is not None:
            t = s.subsolver
            M.require("levels below", t.kind == "levels" and t.gen is gen)
            M.check("half the intervals", M.And(M.eq(2 * (t.size[0] - 1), nx - 1), M.eq(2 * (t.size[1] - 1), ny - 1)))
            M.check("one level less, the same sweeps, one cycle", M.And(M.eq(t.nlevels, n - 1), M.eq(t.niter, niter), M.eq(t.ncycle, 1)))
            M.check("the same lowest level", t.direct is direct)
        return
    gen = mg.LaplaceSparse(1.0, 1.3)
    s = mg.createVcycle(nx, ny, gen, **kw)
    top = True
    while n > 1 and even(nx, ny):
        M.check("smoothing", isinstance(s, mg.MGJacobi) and s.A.shape == (nx * ny, nx * ny) and s.niter == niter and s.ncycle == (ncycle if top else 1))
        top, n, nx, ny, s = False, n - 1, (nx - 1) // 2 + 1, (ny - 1) // 2 + 1, s.subsolver
    if direct:
        M.check("direct at the lowest", isinstance(s, mg.MGDirect) and s(None, M.np.zeros((nx, ny))).shape == (nx, ny))
    else:
        M.check("smoothing at the lowest", isinstance(s, mg.MGJacobi) and s.A.shape == (nx * ny, nx * ny) and not s.subsolver
                and s.niter == niter and s.ncycle == (ncycle if top else 1))


@contract("C23", "convergence", [MG + "createVcycle", MG + "MGJacobi.__call__"], samples=12, sym=False)
def convergence(M):
    """cycles over the levels converge to the solution"""
    mg, gs, np, rng = M.module("freegs.multigrid"), M.module("freegs.gradshafranov"), M.np, M.rng
    n = rng.choice([17, 33, 65])
    gen = rng.choice([mg.LaplaceSparse(1.0, 1.0), gs.GSsparse(0.2, 1.4, -0.6, 0.6)])
    b, x = rng.uniform(-1, 1) * np.ones((n, n)), np.zeros((n, n))
    xx, zz = np.meshgrid(np.linspace(0, 1, n), np.linspace(0, 1, n), indexing="ij")
    b = b + np.sin(rng.uniform(1, 5) * xx) * np.cos(rng.uniform(1, 5) * zz)
    for e in (0, -1):
        b[e, :] = b[:, e] = 0
    want = mg.MGDirect(gen(n, n))(None, b)
    s = mg.createVcycle(n, n, gen, nlevels=rng.choice([2, 3]), ncycle=1, niter=5)
    for c in range(4):
        x = s(x, b)
    M.check("close to the solution", bool(abs(x - want).max() < 5e-4 * abs(want).max()))


def laplacian(M, at, dx, dy, x, y):
    return (at(x - 1, y) - 2 * at(x, y) + at(x + 1, y)) / dx ** 2 + (at(x, y - 1) - 2 * at(x, y) + at(x, y + 1)) / dy ** 2


@contract("C23", "laplacian", [MG + "LaplacianOp.__call__", MG + "LaplacianOp.diag", MG + "smoothJacobi"], samples=40)
def operator(M):
    mg = M.module("freegs.multigrid")
    nx, ny = M.int("nx", lo=2, sample=(2, 9)), M.int("ny", lo=2, sample=(2, 9))
    dx, dy = M.real("dx", gt=0, sample=(0.1, 1)), M.real("dy", gt=0, sample=(0.1, 1))
    f = M.array("f", (nx, ny), sample=(-1, 1))
    b = M.array("b", (nx, ny), sample=(-1, 1))
    was = M.snapshot2(f)
    A = mg.LaplacianOp()
    edge = lambda x, y: M.Or(M.eq(x, 0), M.eq(x, nx - 1), M.eq(y, 0), M.eq(y, ny - 1))
    at = lambda x, y: M.at(f, x, y)
    want = lambda x, y: laplacian(M, at, dx, dy, x, y)
    out = A(f, dx, dy)
    M.check_shape("on the grid", out, (nx, ny))
    M.check_all("Laplacian", (nx, ny), lambda x, y: M.eq(M.at(out, x, y), want(x, y), scale=100), where=lambda x, y: M.Not(edge(x, y)))
    M.check_all("zero at the edge", (nx, ny), lambda x, y: M.eq(M.at(out, x, y), 0), where=edge)
    d = -2 / dx ** 2 - 2 / dy ** 2
    M.check("diagonal", M.eq(A.diag(dx, dy), d, scale=100))
    s = mg.smoothJacobi(A, f, b, dx, dy)
    M.check_shape("smooth on the grid", s, (nx, ny))
    M.check_all("Jacobi sweep", (nx, ny), lambda x, y: M.eq(M.at(s, x, y), was(x, y) + (M.at(b, x, y) - M.at(out, x, y)) / d, scale=100))
    M.check_all("argument left alone", (nx, ny), lambda x, y: M.eq(M.at(f, x, y), was(x, y)))


@contract("C23", "laplacian-matrix", [MG + "LaplaceSparse.__init__", MG + "LaplaceSparse.__call__"], samples=25)
def matrix(M):
    mg = M.module("freegs.multigrid")
    nx, ny = M.int("nx", lo=3, sample=(3, 9)), M.int("ny", lo=3, sample=(3, 9))
    dx, dy = M.real("dx", gt=0, sample=(0.1, 1)), M.real("dy", gt=0, sample=(0.1, 1))
    M.grid_hint(nx, ny)
    A = mg.LaplaceSparse(dx * (nx - 1), dy * (ny - 1))(nx, ny)
    grid = (nx, ny)
    edge = lambda x, y: M.Or(M.eq(x, 0), M.eq(x, nx - 1), M.eq(y, 0), M.eq(y, ny - 1))
    near = lambda x, y, a, b: M.Or(M.And(M.eq(x, a), M.Or(M.eq(y - b, 1), M.eq(b - y, 1))), M.And(M.eq(y, b), M.Or(M.eq(x - a, 1), M.eq(a - x, 1))))
    e = lambda x, y, a, b: M.sparse_at(A, grid, (x, y), (a, b))
    sq = (nx, ny, nx, ny)
    same = lambda x, y, a, b: M.And(M.eq(x, a), M.eq(y, b))
    M.check_all("boundary rows identity", sq, lambda x, y, a, b: M.eq(e(x, y, a, b), M.If(same(x, y, a, b), 1.0, 0.0)), where=lambda x, y, a, b: edge(x, y))
    M.check_all("five points", sq, lambda x, y, a, b: M.eq(e(x, y, a, b), 0.0),
                where=lambda x, y, a, b: M.And(M.Not(edge(x, y)), M.Not(same(x, y, a, b)), M.Not(near(x, y, a, b))))
    inside = lambda x, y: M.Not(edge(x, y))
    M.check_all("diagonal", grid, lambda x, y: M.eq(e(x, y, x, y), -2 / dx ** 2 - 2 / dy ** 2, scale=100), where=inside)
    for i, j, w in ((1, 0, 1 / dx ** 2), (-1, 0, 1 / dx ** 2), (0, 1, 1 / dy ** 2), (0, -1, 1 / dy ** 2)):
        M.check_all("neighbours", grid, lambda x, y: M.eq(e(x, y, x + i, y + j), w, scale=100), where=inside)


class Operator:
    """an operator on a grid, with its spacings"""

    def __init__(self, M, nx, ny):
        self.M, self.shape = M, (nx, ny)
        i, j = M.int("probe_x", lo=0), M.int("probe_y", lo=0)
        M.assume(M.And(M.lt(i, nx), M.lt(j, ny)))
        self.probe = i, j
        self.f, self.d = M.func("A", 5), M.func("diag", 2)

    def __call__(self, f, dx, dy):
        M = self.M
        c = M.at(f, *self.probe)
        return M.table(self.shape, lambda i, j: self.f(i, j, c, dx, dy))

    def diag(self, dx, dy):
        return self.d(dx, dy)


@contract("C23", "smooth-cycle", [MG + "smoothVcycle", MG + "smoothMG"], samples=30)
def smooth_cycle(M):
    mg = M.module("freegs.multigrid")
    levels = M.choice("sublevels", [0, 1, 2])
    nx, ny = (4 * M.int("qx", lo=1, sample=(1, 3)) + 1, 4 * M.int("qy", lo=1, sample=(1, 3)) + 1) if not M.symbolic else (M.int("nx", lo=3), M.int("ny", lo=3))
    dx, dy = M.real("dx", gt=0, sample=(0.1, 1)), M.real("dy", gt=0, sample=(0.1, 1))
    niter, ncycle = M.choice("sweeps", [0, 1, 2] if M.symbolic else [0, 1, 2, 7]), M.choice("cycles", [0, 1, 2])
    x = M.array("x", (nx, ny), sample=(-1, 1))
    b = M.array("b", (nx, ny), sample=(-1, 1))
    wasx, wasb = M.snapshot2(x), M.snapshot2(b)
    vcycle = mg.smoothVcycle
    if M.symbolic:
        A = Operator(M, nx, ny)
        cx, cy = M.int("cx", lo=2), M.int("cy", lo=2)
        pi, pj = M.int("pi", lo=0), M.int("pj", lo=0)
        M.assume(M.And(M.lt(pi, nx), M.lt(pj, ny), M.lt(pi, cx), M.lt(pj, cy)))
        R, S, P = M.func("restrict", 3), M.func("subsolve", 6), M.func("interpolate", 3)

        def restrict(e, out=None, avg=False):
            M.require("new array", out is None)
            c = M.at(e, pi, pj)
            return M.table((cx, cy), lambda i, j: R(i, j, c) * (1 if avg else 4))

        def interpolate(u, out=None):
            M.require("new array", out is None)
            c = M.at(u, pi, pj)
            return M.table((nx, ny), lambda i, j: P(i, j, c))

        def below(A_, u, e, hx, hy, niter_=10, sublevels=0, direct=True):
            M.require("of the same operator", A_ is A)
            M.check("the same sweeps", M.eq(niter_, niter))
            M.check_all("from zero", (cx, cy), lambda i, j: M.eq(M.at(u, i, j), 0))
            c = M.at(e, pi, pj)
            return M.table((cx, cy), lambda i, j: S(i, j, c, hx, hy, sublevels))

        M.contracted(MG + "restrict", restrict)
        M.contracted(MG + "interpolate", interpolate)
        M.contracted(MG + "smoothVcycle", below)
    else:
        A = mg.LaplacianOp()
        restrict, interpolate = mg.restrict, mg.interpolate
        below = lambda A, u, e, hx, hy, niter, n: reference(A, u, M.snapshot2(e), hx, hy, niter, n)

    def reference(A, x, b, dx, dy, niter, levels):
        def sweep(x):
            ax, d = A(x, dx, dy), A.diag(dx, dy)
            return M.table(ax.shape, lambda i, j: M.at(x, i, j) + (b(i, j) - M.at(ax, i, j)) / d)

        x = M.table(x.shape, lambda i, j, x=x: M.at(x, i, j))
        for i in range(niter):
            x = sweep(x)
        if levels > 0:
            ax = A(x, dx, dy)
            e = restrict(M.table(ax.shape, lambda i, j: b(i, j) - M.at(ax, i, j)), avg=True)
            u = interpolate(below(A, M.table(e.shape, lambda i, j: 0), e, 2 * dx, 2 * dy, niter, levels - 1))
            y = x
            x = M.table(ax.shape, lambda i, j: M.at(y, i, j) + M.at(u, i, j))
        for i in range(niter):
            x = sweep(x)
        return x

    out = vcycle(A, x, b, dx, dy, niter, levels)
    want = reference(A, x, wasb, dx, dy, niter, levels)
    M.check_shape("on the grid", out, (nx, ny))
    M.check_all("sweeps and correction", (nx, ny), lambda i, j: M.eq(M.at(out, i, j), M.at(want, i, j), scale=1e3))
    if not M.symbolic:
        out = mg.smoothMG(A, x, b, dx, dy, niter=niter, sublevels=levels, ncycle=ncycle)
        want = x
        for c in range(ncycle):
            want = reference(A, want, wasb, dx, dy, niter, levels)
        M.check_all("cycles", (nx, ny), lambda i, j: M.eq(M.at(out, i, j), M.at(want, i, j), scale=1e3 * max(1, abs(want).max())))
    M.check_all("guess left alone", (nx, ny), lambda i, j: M.eq(M.at(x, i, j), wasx(i, j)))
    M.check_all("right hand side left alone", (nx, ny), lambda i, j: M.eq(M.at(b, i, j), wasb(i, j)))


@contract("C23", "smooth-cycles", [MG + "smoothMG"], conc=False)
def smooth_cycles(M):
    mg = M.module("freegs.multigrid")
    nx, ny = M.int("nx", lo=3), M.int("ny", lo=3)
    dx, dy = M.real("dx", gt=0), M.real("dy", gt=0)
    A = Operator(M, nx, ny)
    x, b = M.array("x", (nx, ny)), M.array("b", (nx, ny))
    ncycle, niter, levels = M.choice("cycles", [0, 1, 2, 3]), M.int("niter", lo=0), M.int("sublevels", lo=0)
    S = M.func("vcycle", 8)
    log = []

    def vcycle(A_, u, b_, hx, hy, niter=10, sublevels=0, direct=True):
        M.require("of the same operator", A_ is A)
        c, d = M.at(u, *A.probe), M.at(b_, *A.probe)
        log.append(1)
        return M.table((nx, ny), lambda i, j: S(i, j, c, d, hx, hy, niter, sublevels))

    M.contracted(MG + "smoothVcycle", vcycle)
    out = mg.smoothMG(A, x, b, dx, dy, niter=niter, sublevels=levels, ncycle=ncycle)
    want = x
    for k in range(ncycle):
        want = vcycle(A, want, b, dx, dy, niter, levels)
    M.check_all("cycles", (nx, ny), lambda i, j: M.eq(M.at(out, i, j), M.at(want, i, j)))
