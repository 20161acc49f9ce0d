"""C13: the core mask marks exactly the region connected to the magnetic axis inside the boundary."""
from pv.registry import contract

F = "freegs.critical.core_mask"


@contract("C13", "core-mask", [F], samples=150, hang=10, hang_fails=True)
def core_mask(M):
    cr = M.module("freegs.critical")
    nxp, own = M.choice("xpoints, boundary flux given", [(0, True), (1, False), (2, True)] if M.symbolic else [(0, True), (1, False), (1, True), (2, False), (2, True), (3, False)])
    if M.symbolic:
        nx, ny = M.int("nx", lo=3), M.int("ny", lo=3)
        R1, Z1 = M.array("R1", (nx,)), M.array("Z1", (ny,))
        opt = [(M.real("Ro"), M.real("Zo"), M.real("Po"))]
        xpt = [(M.real("Rx%d" % k), M.real("Zx%d" % k), M.real("Px%d" % k)) for k in range(nxp)]
        pb = M.real("pb")
        # any flux is Po + N (bnd - Po) with N its normalised value
        N = M.array("N", (nx, ny))
        b_ = pb if own else xpt[0][2]
        M.assume(M.Not(M.eq(b_, opt[0][2])))
        psi = M.table((nx, ny), lambda i, j: opt[0][2] + M.at(N, i, j) * (b_ - opt[0][2]))
    else:
        np, rng = M.np, M.rng
        nx, ny = rng.randint(3, 14), rng.randint(3, 14)
        R1, Z1 = np.linspace(0.3, 0.3 + rng.uniform(0.5, 2), nx), np.linspace(-rng.uniform(0.5, 1), rng.uniform(0.5, 1), ny)
        psi = maze(M, nx, ny)
        cell = lambda: (R1[rng.randrange(nx)] + rng.uniform(-0.02, 0.02), Z1[rng.randrange(ny)] + rng.uniform(-0.02, 0.02))
        sign = rng.choice([1, -1])
        base = rng.uniform(-1, 1)
        psi = base + sign * psi
        opt = [cell() + (base,)]
        xpt = [cell() + (base + sign * rng.choice([1.0, 0.8, 1.3]),) for _ in range(nxp)]
        pb = base + sign * rng.choice([1.0, 0.8, 1.3])
    R, Z = M.table((nx, ny), lambda i, j: M.at(R1, i)), M.table((nx, ny), lambda i, j: M.at(Z1, j))
    bnd = pb if own else xpt[0][2]
    M.assume(M.Not(M.eq(bnd, opt[0][2])))
    near = nearest(M)
    i0, j0 = near(R1, opt[0][0]), near(Z1, opt[0][1])
    xs = [(near(R1, x[0]), near(Z1, x[1])) for x in xpt]
    inx = lambda i, j: M.Or(*[M.And(M.le(i, a + 1), M.le(a - 1, i), M.le(j, b + 1), M.le(b - 1, j)) for a, b in xs]) if xs else False
    inside = (lambda i, j: M.lt(M.at(N, i, j), 1.0)) if M.symbolic else lambda i, j: M.lt((M.at(psi, i, j) - opt[0][2]) / (bnd - opt[0][2]), 1.0)
    M.assume(M.Not(inx(i0, j0)))
    P0 = psi.copy()
    if M.symbolic:
        m = symbolic(M, cr, R, Z, psi, opt, xpt, pb if own else None, nx, ny, (i0, j0), inside, inx)
    else:
        m = cr.core_mask(R, Z, psi, opt, xpt, pb) if own else cr.core_mask(R, Z, psi, opt, xpt)
        M.check_shape("shape", m, (nx, ny))
        seen, todo = set(), [(i0, j0)]
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for d in ((0, 1), (0, -1), (1, 0), (-1, 0)):
                q = (p[0] + d[0], p[1] + d[1])
                if 0 <= q[0] < nx and 0 <= q[1] < ny and inside(*q) and not inx(*q):
                    todo.append(q)
        M.check_all_z3("core", (nx, ny), lambda i, j: M.eq(m[i, j], float(inside(i, j)) if inx(i, j) else float((i, j) in seen)))
    M.check_all_z3("near X-points the core is what lies inside the boundary", (nx, ny), lambda i, j: M.implies(
        inx(i, j), M.eq(M.at(m, i, j), M.If(inside(i, j), 1.0, 0.0))))
    M.check_all_z3("the axis is in the core", (1,), lambda _: M.eq(M.at(m, i0, j0), 1))
    M.check_all_z3("flux unchanged", (nx, ny), lambda i, j: M.eq(M.at(psi, i, j), M.at(P0, i, j)))


def maze(M, nx, ny):
    """fluxes below and above one in connected and disconnected patches"""
    np, rng = M.np, M.rng
    k = rng.randrange(3)
    if k == 0:
        p = np.array([[rng.choice([0.2, 0.5, 0.9, 1.1, 2.0][: rng.randint(3, 5)]) for _ in range(ny)] for _ in range(nx)])
    elif k == 1:
        p = np.full((nx, ny), 1.5)
        i, j = rng.randrange(nx), rng.randrange(ny)
        for _ in range(rng.randint(1, 3 * (nx + ny))):
            p[i, j] = rng.uniform(0, 0.75)
            d = rng.choice([(0, 1), (0, -1), (1, 0), (-1, 0)])
            i, j = min(max(i + d[0], 0), nx - 1), min(max(j + d[1], 0), ny - 1)
    else:
        x, y = np.meshgrid(np.linspace(-1, 1, nx), np.linspace(-1, 1, ny), indexing="ij")
        p = 1.2 * (x ** 2 + y ** 2) + rng.uniform(-0.5, 0.5) * np.sin(5 * x) * np.sin(4 * y)
    return p


def symbolic(M, cr, R, Z, psi, opt, xpt, pb, nx, ny, start, inside, inx):
    from contracts.flood import Fill, forall2
    from pv import terms as T
    from pv.core import mk, nf, tb

    # any set of points that contains the start and every open neighbour of its points
    Cset = lambda a, b: T.bapp("Cset", (a, b))
    start = tuple(nf(x) for x in start)
    ins = lambda a, b: tb(inside(mk(a), mk(b)))
    f = Fill(M, nx, ny, ins, start, Cset)
    shifts = ((0, 1), (0, -1), (1, 0), (-1, 0))
    f.inx = lambda a, b: tb(inx(mk(a), mk(b)))
    m = cr.core_mask(R, Z, psi, opt, xpt, mk(nf(pb))) if pb is not None else cr.core_mask(R, Z, psi, opt, xpt)
    M.check_shape("shape", m, (nx, ny))
    at = lambda i, j: M.at(m, i, j)
    M.check_all_z3("zero or one", (nx, ny), lambda i, j: M.Or(M.eq(at(i, j), 0), M.eq(at(i, j), 1)))
    M.check_all_z3("core points are connected to the axis", (nx, ny), lambda i, j: M.implies(
        M.And(M.eq(at(i, j), 1), M.Not(inx(i, j))), mk(Cset(nf(i), nf(j)))))
    for da, db in shifts:
        def closed(i, j):
            x, y = mk(T.add(nf(i), T.num(da))), mk(T.add(nf(j), T.num(db)))
            g = mk(f.grid(nf(x), nf(y)))
            return M.implies(M.And(M.eq(at(i, j), 1), M.Not(inx(i, j)), g, M.Not(inx(x, y)), mk(ins(nf(x), nf(y)))), mk(T.eq(m.freeze()((nf(x), nf(y))), T.ONE)))
        M.check_all_z3("neighbours (%d,%d) inside the boundary are in the core" % (da, db), (nx, ny), closed)
    return m


def nearest(M):
    if M.symbolic:
        from pv import models

        return lambda a, v: models.np_argext("argmin")(abs(a - v))
    return lambda a, v: int(M.np.argmin(abs(a - v)))
