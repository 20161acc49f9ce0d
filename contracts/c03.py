"""C03: superposition over the coils of a machine and of a circuit."""
from pv.registry import contract

MC = "freegs.machine"
Ma = [MC + ".Machine." + f for f in ("psi", "Br", "Bz", "createPsiGreens", "calcPsiFromGreens")]
Ci = [MC + ".Circuit." + f for f in ("psi", "Br", "Bz", "controlPsi", "controlBr", "controlBz", "createPsiGreens", "calcPsiFromGreens")]


def point(M):
    R = M.real("R", gt=0, sample=(0.1, 3.0))
    Z = M.real("Z", sample=(-2.0, 2.0))
    return R, Z


def frozen(M, coils, n):
    """currents and control switches before"""
    cur = [None]
    return M.snapshot(lambda k: M.item(coils, k)[1].current, n)


@contract("C03", "machine-superposition", Ma, samples=60)
def machine(M):
    mc = M.module(MC)
    n = M.int("n", lo=0, sample=(0, 5))
    cs = M.coils("c", n)
    m = mc.Machine(cs)
    R, Z = point(M)
    before = frozen(M, cs, n)
    for what in ("psi", "Br", "Bz"):
        M.check(what, M.eq(
            getattr(m, what)(R, Z), M.sum(0, n, lambda k: getattr(M.item(cs, k)[1], what)(R, Z)), scale=1e-9))
    M.check_all("evaluation changes no current", (n,), lambda k: M.eq(M.item(cs, k)[1].current, before(k)))


@contract("C03", "machine-cached-greens", Ma, samples=60)
def cached(M):
    """flux from cached Green's functions equals direct evaluation for whatever
    currents the coils have when it is evaluated"""
    mc = M.module(MC)
    n = M.int("n", lo=0, sample=(0, 5))
    cs = M.coils("c", n)
    m = mc.Machine(cs)
    nx, ny = M.int("nx", lo=1, sample=(1, 4)), M.int("ny", lo=1, sample=(1, 4))
    R = M.array("R", (nx, ny), sample=(0.1, 3))
    Z = M.array("Z", (nx, ny), sample=(-2, 2))
    g = m.createPsiGreens(R, Z)
    new = M.array("newcur", (n,))
    M.forall_set(n, lambda k: M.set_current(M.item(cs, k)[1], M.at(new, k)))
    psi = M.full(m.calcPsiFromGreens(g), (nx, ny))
    M.check_all("cached flux", (nx, ny), lambda i, j: M.eq(
        M.at(psi, i, j), m.psi(M.at(R, i, j), M.at(Z, i, j)), scale=1e-9))
    again = M.full(m.calcPsiFromGreens(g), (nx, ny))
    M.check_all("cached flux evaluated again", (nx, ny), lambda i, j: M.eq(
        M.at(again, i, j), m.psi(M.at(R, i, j), M.at(Z, i, j)), scale=1e-9))


@contract("C03", "circuit-superposition", Ci, samples=60)
def circuit(M):
    """a circuit is the sum of its coils, each carrying multiplier * current"""
    mc = M.module(MC)
    n = M.int("n", lo=1, sample=(1, 4))
    cs = M.circuit_coils("c", n)
    I = M.real("I", sample=(-1e5, 1e5))
    c = mc.Circuit(cs, current=I, control=True)
    R, Z = point(M)
    for what, resp in (("psi", "controlPsi"), ("Br", "controlBr"), ("Bz", "controlBz")):
        unit = M.sum(0, n, lambda k: M.item(cs, k)[2] * getattr(M.item(cs, k)[1], resp)(R, Z))
        M.check(resp, M.eq(getattr(c, resp)(R, Z), unit, scale=1e-9))
        M.check(what, M.eq(getattr(c, what)(R, Z), I * unit, scale=1e-9))
    I2 = M.real("I2", sample=(-1e5, 1e5))
    g = c.createPsiGreens(R, Z)
    c.current = I2
    M.check("cached flux", M.eq(
        c.calcPsiFromGreens(g), I2 * M.sum(0, n, lambda k: M.item(cs, k)[2] * M.item(cs, k)[1].controlPsi(R, Z)), scale=1e-9))


@contract("C03", "circuit-currents", [MC + ".Circuit.current", MC + ".Circuit.control"], samples=60)
def currents(M):
    """setting a circuit's current/control sets every coil in it"""
    mc = M.module(MC)
    n = M.int("n", lo=1, sample=(1, 4))
    cs = M.circuit_coils("c", n)
    I = M.real("I", sample=(-1e5, 1e5))
    on = M.bool("on")
    c = mc.Circuit(cs, current=I, control=on)
    ok = lambda I, on: lambda k: M.And(
        M.eq(M.item(cs, k)[1].current, M.item(cs, k)[2] * I), M.iff(M.item(cs, k)[1].control, on))
    M.check_all("constructor", (n,), ok(I, on))
    I2 = M.real("I2", sample=(-1e5, 1e5))
    on2 = M.bool("on2")
    c.current = I2
    M.check("current", M.eq(c.current, I2))
    M.check_all("set current", (n,), ok(I2, on))
    c.control = on2
    M.check("control", M.iff(c.control, on2))
    M.check_all("set control", (n,), ok(I2, on2))
    R, Z = point(M)
    c.psi(R, Z), c.Br(R, Z), c.Bz(R, Z)
    M.check_all("evaluation leaves currents", (n,), ok(I2, on2))
