"""an Equilibrium with everything it calls given by contract (symbolic) or real (native)"""
from types import SimpleNamespace

EQ = "freegs.equilibrium"


def equilibrium(M, axis=True, xpoints=(0, 1), wall=None, boundary=None, psi="given", order=4, limited=False, coils=None):
    """-> namespace: eq, machine, coils, n, nx, ny, box, crit (calls of find_critical), ..."""
    s = SimpleNamespace(crit=[], masks=[], solver=[], built=[])
    mc, em = M.module("freegs.machine"), M.module(EQ)
    if M.symbolic:
        # any grid and any domain: nx = mx + 1 points, Rmax = Rmin + mx*dR
        mx, my = M.int("mx", lo=2), M.int("my", lo=2)
        s.nx, s.ny = mx + 1, my + 1
        s.Rmin, s.Zmin = M.real("Rmin", gt=0), M.real("Zmin")
        s.Rmax, s.Zmax = s.Rmin + mx * M.real("dR", gt=0), s.Zmin + my * M.real("dZ", gt=0)
        s.n = M.int("ncoils", lo=0)
        s.nxp = M.choice("xpoints", list(xpoints)) if len(xpoints) > 1 else xpoints[0]

        def find_critical(R, Z, psi, discard_xpoints=True):
            # a function of its arguments: the same psi gives the same points
            key = (content(M, s, R), content(M, s, Z), content(M, s, psi), discard_xpoints)
            for c in s.crit:
                if c.key == key:
                    s.crit.append(c)
                    return list(c.opt), list(c.xpt)
            k = len(s.crit)
            nm = "@%d" % k
            opt = [(M.real("Ro" + nm), M.real("Zo" + nm), M.real("Po" + nm))] if axis else []
            xpt = [(M.real("Rx%d" % i + nm), M.real("Zx%d" % i + nm), M.real("Px%d" % i + nm)) for i in range(s.nxp)]
            s.crit.append(SimpleNamespace(key=key, R=R, Z=Z, psi=psi, opt=opt, xpt=xpt))
            return list(opt), list(xpt)

        def core_mask(R, Z, psi, opoint, xpoint=[], psi_bndry=None):
            k = len(s.masks)
            m = M.array("mask@%d" % k, psi.shape)
            s.masks.append(SimpleNamespace(R=R, Z=Z, psi=psi, opt=opoint, xpt=xpoint, psi_bndry=psi_bndry, mask=m))
            return m

        def createVcycle(nx, ny, generator, nlevels=4, ncycle=1, niter=10, direct=True):
            s.built.append(SimpleNamespace(nx=nx, ny=ny, generator=generator, nlevels=nlevels, ncycle=ncycle, niter=niter, direct=direct))

            def solve(x, b):
                k = len(s.solver)
                r = M.array("sol@%d" % k, (nx, ny))
                s.solver.append(SimpleNamespace(x=x, b=b, out=r.copy()))
                return r

            return solve

        M.contracted("freegs.critical.find_critical", find_critical)
        M.contracted("freegs.critical.core_mask", core_mask)
        M.contracted("freegs.multigrid.createVcycle", createVcycle)
    else:
        rng = M.rng
        s.nx, s.ny = rng.choice([9, 17, 33]), rng.choice([9, 17, 33])
        s.Rmin, s.Zmin = rng.uniform(0.1, 0.5), rng.uniform(-1.5, -0.8)
        s.Rmax, s.Zmax = s.Rmin + rng.uniform(0.8, 1.8), s.Zmin + rng.uniform(1.2, 2.5)
        s.n = rng.randint(0, 4)
    if coils is not None:
        s.n = len(coils)
    s.coils = M.coils("c", s.n) if coils is None else coils
    s.machine = mc.Machine(s.coils, wall)
    s.dR, s.dZ = (s.Rmax - s.Rmin) / (s.nx - 1), (s.Zmax - s.Zmin) / (s.ny - 1)
    s.Rat, s.Zat = (lambda i: s.Rmin + i * s.dR), (lambda j: s.Zmin + j * s.dZ)
    s.P = given_psi(M, s) if psi == "given" else psi
    kw = {} if boundary is None else dict(boundary=boundary)
    s.order = order
    s.eq = em.Equilibrium(tokamak=s.machine, Rmin=s.Rmin, Rmax=s.Rmax, Zmin=s.Zmin, Zmax=s.Zmax, nx=s.nx, ny=s.ny,
                          psi=s.P, order=order, check_limited=limited, current=M.real("I0", sample=(0, 1e5)), **kw)
    return s


def content(M, s, a):
    """what an array on the grid holds now (normal form of its general element)"""
    if not hasattr(s, "general"):
        from pv import terms as T

        s.general = (T.var("content!i", "I"), T.var("content!j", "I"))
    return a.at(s.general)


def given_psi(M, s):
    if M.symbolic:
        return M.array("P", (s.nx, s.ny))
    rng = M.rng
    r0, z0, w = s.Rmin + (s.Rmax - s.Rmin) * rng.uniform(0.4, 0.6), s.Zmin + (s.Zmax - s.Zmin) * rng.uniform(0.4, 0.6), rng.uniform(0.2, 0.5)
    a = rng.choice([0.05, 0.5, -0.3])
    return M.table((s.nx, s.ny), lambda i, j: a * M.np.exp(-((s.Rat(i) - r0) ** 2 + (s.Zat(j) - z0) ** 2) / w ** 2))


def currents(M, s):
    return M.snapshot(lambda k: M.item(s.coils, k)[1].current, s.n)


def new_currents(M, s):
    a = M.array("newI", (s.n,), sample=(-1e5, 1e5))
    M.forall_set(s.n, lambda k: M.set_current(M.item(s.coils, k)[1], M.at(a, k)))
    return a


def place(M, s):
    """an observation place in the domain"""
    if M.symbolic:
        return M.real("R", gt=0), M.real("Z")
    return M.rng.uniform(s.Rmin, s.Rmax), M.rng.uniform(s.Zmin, s.Zmax)


def exists(M, n, f):
    if not M.symbolic:
        return any(f(k) for k in range(int(n)))
    from pv import terms as T
    from pv.core import mk, nf, tb

    k = T.mk_atom("var", T.fresh_name("k"), "I")
    kt = T.of_atom(k)
    return mk(T.exists((k,), T.And(T.le(T.ZERO, kt), T.lt(kt, nf(n)), tb(f(mk(kt))))))
