"""C05: moving a coil moves its filaments and its outline rigidly."""
from pv.registry import contract
from contracts.c02 import FIELDS, outline


def moves(M, coil, R0, Z0, unit, area, outline_at=None, n_outline=None):
    """R0, Z0: centre; unit(f, dr, dz): response of the filaments displaced by (dr, dz)"""
    G = M.greens()
    R = M.real("R", gt=0, sample=(0.1, 3.0))
    Z = M.real("Z", sample=(-2.0, 2.0))
    M.check("centre R", M.eq(coil.R, R0))
    M.check("centre Z", M.eq(coil.Z, Z0))
    dr1, dz1, dr2 = M.real("dr1", sample=(-0.2, 0.4)), M.real("dz1", sample=(-0.5, 0.5)), M.real("dr2", sample=(-0.2, 0.4))
    cur, turns, ctl = coil.current, coil.turns, coil.control
    seq = [("R", R0 + dr1, dr1, 0.0), ("Z", Z0 + dz1, dr1, dz1), ("R", R0 + dr1 + dr2, dr1 + dr2, dz1), ("Z", Z0, dr1 + dr2, 0.0)]
    order = M.choice("order", ["RZRZ", "ZR"])
    if order == "ZR":
        seq = [("Z", Z0 + dz1, 0.0, dz1), ("R", R0 + dr1, dr1, dz1)]
    for step, (what, to, a, b) in enumerate(seq):
        setattr(coil, what, to)
        nm = "after move %d (%s)" % (step + 1, what)
        M.check(nm + " centre", M.And(M.eq(coil.R, R0 + a), M.eq(coil.Z, Z0 + b)))
        for f, resp, g in FIELDS:
            M.check("%s %s" % (nm, resp), M.eq(getattr(coil, resp)(R, Z), unit(lambda r, z: getattr(G, g)(r, z, R, Z), a, b), scale=1e-12))
        M.check(nm + " area", M.eq(area(), area0(M, coil, area)))
        if outline_at is not None:
            M.check(nm + " outline corners", M.eq(M.length(coil.shape), n_outline))
            M.check_all(nm + " outline", (n_outline,), lambda k: M.And(
                M.eq(M.item(coil.shape, k)[0], outline_at(k)[0] + a), M.eq(M.item(coil.shape, k)[1], outline_at(k)[1] + b)))
    M.check("current, turns and switch kept", M.And(M.eq(coil.current, cur), M.eq(coil.turns, turns), M.iff(coil.control, ctl)))


def area0(M, coil, area):
    if not hasattr(M, "_area0"):
        M._area0 = area()
    return M._area0


@contract("C05", "point-coil", ["freegs.coil.Coil.controlPsi"], samples=30)
def point(M):
    M.greens()
    Rc, Zc = M.real("Rc", gt=0, sample=(0.5, 2)), M.real("Zc", sample=(-1, 1))
    turns = M.int("turns", lo=1, sample=(1, 9))
    a = M.real("area", gt=0)
    c = M.module("freegs.coil").Coil(Rc, Zc, current=1.0, turns=turns, area=a)
    area0(M, c, lambda: c.area)
    moves(M, c, Rc, Zc, lambda f, dr, dz: turns * f(Rc + dr, Zc + dz), lambda: c.area)


@contract("C05", "shaped-coil", ["freegs.shaped_coil.ShapedCoil.R", "freegs.shaped_coil.ShapedCoil.Z"], samples=30)
def shaped(M):
    M.greens()
    shape = outline(M)
    nc = M.length(shape)
    turns = M.int("turns", lo=1, sample=(1, 9))
    if M.symbolic:
        np_ = M.int("nquad", lo=1)
        qr, qz, qw = M.array("qr", (np_,)), M.array("qz", (np_,)), M.array("qw", (np_,))
        quad = M.seq(np_, lambda k: (M.at(qr, k), M.at(qz, k), M.at(qw, k)))
        M.contracted("freegs.quadrature.polygon_quad", lambda polygon, n=6: quad)
    else:
        quad = M.module("freegs.quadrature").polygon_quad(shape, n=6)
    corner = M.snapshot(lambda k: M.item(shape, k)[0], nc), M.snapshot(lambda k: M.item(shape, k)[1], nc)
    q = [M.snapshot(lambda k: M.item(quad, k)[i], M.length(quad)) for i in range(3)]
    nq = M.length(quad)
    c = M.module("freegs.shaped_coil").ShapedCoil(shape, current=2.0, turns=turns)
    area0(M, c, lambda: c.area)
    R0 = M.sum(0, nc, corner[0]) / nc
    Z0 = M.sum(0, nc, corner[1]) / nc
    moves(M, c, R0, Z0, lambda f, dr, dz: turns * M.sum(0, nq, lambda k: q[2](k) * f(q[0](k) + dr, q[1](k) + dz)), lambda: c.area,
          lambda k: (corner[0](k), corner[1](k)), nc)
    M.check_all("caller's outline untouched", (nc,), lambda k: M.And(
        M.eq(M.item(shape, k)[0], corner[0](k)), M.eq(M.item(shape, k)[1], corner[1](k))))


@contract("C05", "filament-coil", ["freegs.filament_coil.FilamentCoil.R", "freegs.filament_coil.FilamentCoil.Z"], samples=30)
def filament(M):
    M.greens()
    shape = outline(M)
    nc = M.length(shape)
    turns = M.int("turns", lo=1, sample=(1, 9))
    nf = M.int("nfil", lo=1, sample=(1, 6))
    r, z = M.array("fr", (nf,), sample=(1.0, 1.3)), M.array("fz", (nf,), sample=(-0.2, 0.2))
    r0, z0 = M.snapshot(lambda k: M.at(r, k), nf), M.snapshot(lambda k: M.at(z, k), nf)
    corner = M.snapshot(lambda k: M.item(shape, k)[0], nc), M.snapshot(lambda k: M.item(shape, k)[1], nc)
    c = M.module("freegs.filament_coil").FilamentCoil(r, z, shape=shape, current=2.0, turns=turns)
    area0(M, c, lambda: c.area)
    R0 = M.sum(0, nc, corner[0]) / nc
    Z0 = M.sum(0, nc, corner[1]) / nc
    moves(M, c, R0, Z0, lambda f, dr, dz: turns * M.sum(0, nf, lambda k: f(r0(k) + dr, z0(k) + dz)) / nf, lambda: c.area,
          lambda k: (corner[0](k), corner[1](k)), nc)
    M.check_all("caller's filaments untouched", (nf,), lambda k: M.And(M.eq(M.at(r, k), r0(k)), M.eq(M.at(z, k), z0(k))))
    M.check_all("caller's outline untouched", (nc,), lambda k: M.And(
        M.eq(M.item(shape, k)[0], corner[0](k)), M.eq(M.item(shape, k)[1], corner[1](k))))


@contract("C05", "multi-coil", ["freegs.multi_coil.MultiCoil.R", "freegs.multi_coil.MultiCoil.Z"], samples=30)
def multi(M):
    """also when several coils are made from the same lists of positions"""
    M.greens()
    nf = M.int("nfil", lo=1, sample=(1, 5))
    r, z = M.array("fr", (nf,), sample=(1.0, 1.3)), M.array("fz", (nf,), sample=(0.2, 0.5))
    r0, z0 = M.snapshot(lambda k: M.at(r, k), nf), M.snapshot(lambda k: M.at(z, k), nf)
    mirror = M.choice("mirror", [False, True])
    mk = M.module("freegs.multi_coil").MultiCoil
    a = M.real("area", gt=0)
    c = mk(r, z, current=3.0, mirror=mirror, polarity=[1.0, -1.0], area=a)
    other = mk(r, z, current=1.0)
    area0(M, c, lambda: c.area)
    R0 = M.sum(0, nf, r0) / nf
    Z0 = M.sum(0, nf, z0) / nf

    def fil(f, dr, dz):
        t = M.sum(0, nf, lambda k: f(r0(k) + dr, z0(k) + dz))
        if mirror:
            t = t - M.sum(0, nf, lambda k: f(r0(k) + dr, -(z0(k) + dz)))
        return t

    moves(M, c, R0, Z0, fil, lambda: c.area)
    M.check_all("caller's positions untouched", (nf,), lambda k: M.And(M.eq(M.at(r, k), r0(k)), M.eq(M.at(z, k), z0(k))))
    G = M.greens()
    M.check("another coil from the same positions stays", M.eq(
        other.controlPsi(1.0, 0.0), M.sum(0, nf, lambda k: G.Greens(r0(k), z0(k), 1.0, 0.0)), scale=1e-12))
