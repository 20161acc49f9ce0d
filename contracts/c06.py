"""C06: forces on coils."""
from pv.registry import contract

MC = "freegs.machine"


class Field:
    """a given external field on top of which the coils' own fields act"""

    def __init__(self, br, bz, sources):
        self.br, self.bz, self.sources = br, bz, sources

    def Br(self, R, Z):
        t = self.br(R, Z)
        for s in self.sources:
            t = t + s.Br(R, Z)
        return t

    def Bz(self, R, Z):
        t = self.bz(R, Z)
        for s in self.sources:
            t = t + s.Bz(R, Z)
        return t


def want(M, R, It, area, Br, Bz):
    """Lorentz force of the field of everything else, plus the hoop force"""
    if not M.symbolic and It == 0:
        return 0.0, 0.0
    a = M.sqrt(area / M.pi)
    hoop = M.mu0 * It * It / (4 * M.pi * R) * (M.log(8 * R / a) - 1 + 0.25)
    return (It * Bz + hoop) * (2 * M.pi * R), -It * Br * (2 * M.pi * R)


def check_force(M, name, F, w):
    M.check_shape(name + " shape", F, (2,))
    M.check(name + " radial", M.eq(M.at(F, 0), w[0], scale=1e-3))
    M.check(name + " vertical", M.eq(M.at(F, 1), w[1], scale=1e-3))


@contract("C06", "single-coil", ["freegs.coil.Coil.getForces", "freegs.coil.AreaCurrentLimit.__call__"], samples=80)
def single(M):
    M.greens()
    Rc, Zc = M.real("Rc", gt=0, sample=(0.3, 3)), M.real("Zc", sample=(-2, 2))
    turns = M.int("turns", lo=1, sample=(1, 20))
    I = M.real("I", sample=(-1e5, 1e5))
    co = M.module("freegs.coil")
    sized = M.choice("area", ["given", "limit", "default"])
    if sized == "given":
        area = M.real("area", gt=0, sample=(1e-4, 0.1))
        c = co.Coil(Rc, Zc, current=I, turns=turns, area=area)
    else:
        jmax = M.real("jmax", gt=0, sample=(1e6, 1e10))
        M.assume(M.Or(M.lt(I, 0), M.lt(0, I)))
        if sized == "limit":
            c = co.Coil(Rc, Zc, current=I, turns=turns, area=co.AreaCurrentLimit(jmax))
        else:
            jmax = 3.5e9
            c = co.Coil(Rc, Zc, current=I, turns=turns)
        area = M.abs(I * turns) / jmax
    br, bz = M.func("extBr", 2), M.func("extBz", 2)
    eq = Field(br, bz, [c])
    F = c.getForces(eq)
    check_force(M, "force", F, want(M, Rc, I * turns, area, br(Rc, Zc), bz(Rc, Zc)))
    M.check("current kept", M.eq(c.current, I))
    M.check("place kept", M.And(M.eq(c.R, Rc), M.eq(c.Z, Zc), M.eq(c.turns, turns)))


@contract("C06", "unpowered-coil", ["freegs.coil.Coil.getForces"], samples=30)
def unpowered(M):
    M.greens()
    Rc, Zc = M.real("Rc", gt=0, sample=(0.3, 3)), M.real("Zc", sample=(-2, 2))
    c = M.module("freegs.coil").Coil(Rc, Zc, current=0.0, turns=M.int("turns", lo=1, sample=(1, 20)))
    F = c.getForces(Field(M.func("extBr", 2), M.func("extBz", 2), [c]))
    M.check("no force", M.And(M.eq(M.at(F, 0), 0.0), M.eq(M.at(F, 1), 0.0)))


@contract("C06", "machine-forces", [MC + ".Machine.getForces"], samples=60)
def machine(M):
    """one entry per coil, each with the equilibrium given (default: the machine alone)"""
    mc = M.module(MC)
    if M.symbolic:
        n = M.int("n", lo=0)
        cs = M.coils("c", n)
        m = mc.Machine(cs)
        which = M.choice("equilibrium", ["none", "given"])
        e = object() if which == "given" else m
        cs.family.force_arg = e
        F = m.getForces(e) if which == "given" else m.getForces()
        M.check_all("force of each coil", (n,), lambda k: M.eq(F[M.item(cs, k)[0]], M.item(cs, k)[1].getForces(e)))
        return
    n = M.rng.randint(0, 5)
    cs = M.coils("c", n, kinds=("coil", "shaped", "filament"))
    m = mc.Machine(cs)
    br, bz = M.func("extBr", 2), M.func("extBz", 2)
    which = M.choice("equilibrium", ["none", "given"])
    e = Field(br, bz, [m]) if which == "given" else m
    before = m.getCurrents()
    F = m.getForces(e) if which == "given" else m.getForces()
    M.check("entries", set(F) == {l for l, c in cs} and len(F) == n)
    for l, c in cs:
        Bx = lambda w: (0.0 if which == "none" else {"Br": br, "Bz": bz}[w](c.R, c.Z)) + sum(getattr(o, w)(c.R, c.Z) for k, o in cs if o is not c)
        check_force(M, "force", F[l], want(M, c.R, c.current * c.turns, c.area, Bx("Br"), Bx("Bz")))
    M.check("currents kept", m.getCurrents() == before)


@contract("C06", "coils-in-a-circuit", [MC + ".Circuit.getForces", MC + ".Circuit.Br", MC + ".Circuit.Bz", "freegs.coil.Coil.getForces"], samples=60)
def circuit(M):
    """the self field of a coil is left out also when it belongs to a circuit"""
    G = M.greens()
    mc = M.module(MC)
    I = M.real("I", sample=(-1e5, 1e5))
    area = M.real("area", gt=0, sample=(1e-4, 0.1))
    names = ["u", "l", "x"]
    coils, mult = [], []
    for i, a in enumerate(names):
        r, z = M.real("R" + a, gt=0, sample=(0.3 + i * 0.6, 0.8 + i * 0.6)), M.real("Z" + a, sample=(-2, 2))
        coils.append(mc.Coil(r, z, turns=M.int("t" + a, lo=1, sample=(1, 20)), area=area))
        mult.append(M.real("m" + a, sample=(-2, 2)))
    circ = mc.Circuit([(a, c, k) for a, c, k in zip(names, coils, mult)], current=I)
    br, bz = M.func("extBr", 2), M.func("extBz", 2)
    wrap = M.choice("via", ["circuit", "machine"])
    if wrap == "circuit":
        F = circ.getForces(Field(br, bz, [circ]))
    else:
        other = mc.Coil(M.real("Ro", gt=0, sample=(2.2, 3)), M.real("Zo", sample=(-2, 2)), current=M.real("Io"), turns=3)
        m = mc.Machine([("o", other), ("c", circ)])
        F = m.getForces(Field(br, bz, [m]))["c"]
        br0, bz0 = br, bz
        br = lambda R, Z: br0(R, Z) + other.Br(R, Z)
        bz = lambda R, Z: bz0(R, Z) + other.Bz(R, Z)
    for i, a in enumerate(names):
        c = coils[i]
        It = I * mult[i] * c.turns
        Br, Bz = br(c.R, c.Z), bz(c.R, c.Z)
        for j in range(len(names)):
            if j != i:
                o = coils[j]
                Br = Br + I * mult[j] * o.turns * G.GreensBr(o.R, o.Z, c.R, c.Z)
                Bz = Bz + I * mult[j] * o.turns * G.GreensBz(o.R, o.Z, c.R, c.Z)
        check_force(M, "coil " + a, F[a], want(M, c.R, It, area, Br, Bz))
        M.check("current kept " + a, M.eq(c.current, I * mult[i]))
