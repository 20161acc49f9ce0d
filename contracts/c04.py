"""C04: control vectors of a machine."""
from pv.registry import contract

MC = "freegs.machine"
CTL = [MC + ".Machine." + f for f in ("controlBr", "controlBz", "controlPsi", "controlCurrents", "controlAdjust", "setControlCurrents")]


def setup(M):
    mc = M.module(MC)
    n = M.int("n", lo=0, sample=(0, 6))
    cs = M.coils("c", n)
    m = mc.Machine(cs)
    coil = lambda k: M.item(cs, k)[1]
    sel = M.selected(n, lambda k: coil(k).control)
    return m, n, cs, coil, sel


def frame(M, coil, n):
    cur = M.snapshot(lambda k: coil(k).current, n)
    ctl = M.snapshot(lambda k: coil(k).control, n)
    return cur, ctl


@contract("C04", "responses-and-currents", CTL[:4], samples=80)
def responses(M):
    """all control vectors list exactly the controlled coils, in machine order"""
    m, n, cs, coil, sel = setup(M)
    R = M.real("R", gt=0, sample=(0.1, 3.0))
    Z = M.real("Z", sample=(-2.0, 2.0))
    cur, ctl = frame(M, coil, n)
    for what in ("controlPsi", "controlBr", "controlBz"):
        v = getattr(m, what)(R, Z)
        M.check(what + " length", M.eq(M.length(v), sel.n))
        M.check_all(what, (sel.n,), lambda j: M.eq(M.item(v, j), getattr(coil(sel.at(j)), what)(R, Z), scale=1e-9))
    v = m.controlCurrents()
    M.check("controlCurrents length", M.eq(M.length(v), sel.n))
    M.check_all("controlCurrents", (sel.n,), lambda j: M.eq(M.item(v, j), coil(sel.at(j)).current))
    M.check_all("nothing changed", (n,), lambda k: M.And(M.eq(coil(k).current, cur(k)), M.iff(coil(k).control, ctl(k))))


@contract("C04", "adjust", [CTL[4]], samples=80)
def adjust(M):
    """each controlled coil gets its own change added; the others keep their current"""
    m, n, cs, coil, sel = setup(M)
    cur, ctl = frame(M, coil, n)
    form = M.choice("form", ["vector", "column"])
    d = M.array("dI", (sel.n,) if form == "vector" else (sel.n, 1), sample=(-1e4, 1e4))
    dI = lambda j: M.at(d, j) if form == "vector" else M.at(d, j, 0)
    m.controlAdjust(d)
    M.check_all("controlled", (n,), lambda k: M.eq(coil(k).current, cur(k) + dI(sel.rank(k))), where=ctl)
    M.check_all("not controlled", (n,), lambda k: M.eq(coil(k).current, cur(k)), where=lambda k: M.Not(ctl(k)))
    M.check_all("switches", (n,), lambda k: M.iff(coil(k).control, ctl(k)))


@contract("C04", "set-currents", [CTL[5], CTL[3]], samples=80)
def set_currents(M):
    m, n, cs, coil, sel = setup(M)
    cur, ctl = frame(M, coil, n)
    d = M.array("new", (sel.n,), sample=(-1e4, 1e4))
    form = M.choice("form", ["array", "list"])
    m.setControlCurrents(d if form == "array" else M.seq(sel.n, lambda j: M.at(d, j)))
    M.check_all("controlled", (n,), lambda k: M.eq(coil(k).current, M.at(d, sel.rank(k))), where=ctl)
    M.check_all("not controlled", (n,), lambda k: M.eq(coil(k).current, cur(k)), where=lambda k: M.Not(ctl(k)))
    M.check_all("switches", (n,), lambda k: M.iff(coil(k).control, ctl(k)))
    v = m.controlCurrents()
    M.check_all("read back", (sel.n,), lambda j: M.eq(M.item(v, j), M.at(d, j)))


@contract("C04", "save-and-restore", CTL[3:], samples=80)
def restore(M):
    """currents read, changed by the control system and written back are as before"""
    m, n, cs, coil, sel = setup(M)
    cur, ctl = frame(M, coil, n)
    saved = m.controlCurrents()
    d = M.array("dI", (sel.n,), sample=(-1e4, 1e4))
    m.controlAdjust(d)
    m.setControlCurrents(saved)
    M.check_all("restored", (n,), lambda k: M.eq(coil(k).current, cur(k)))


@contract("C04", "named-access", [MC + ".Machine.getCurrents", MC + ".Machine.__getitem__"], samples=80)
def named(M):
    m, n, cs, coil, sel = setup(M)
    cur = m.getCurrents()
    M.check_all("getCurrents", (n,), lambda k: M.eq(cur[M.item(cs, k)[0]], coil(k).current))
    M.check_all("coil by label", (n,), lambda k: M.eq(m[M.item(cs, k)[0]].current, coil(k).current))
    M.raises("unknown label", KeyError, lambda: m["no such coil"])
