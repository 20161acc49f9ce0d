"""C18: coils and equilibria written out come back as they were (coil classes, freegs.dump)."""
from types import SimpleNamespace

from pv.registry import contract

from .eqm import EQ, equilibrium, place

MC, DP = "freegs.machine.", "freegs.dump."


class Attributes(dict):
    pass


class Data:
    """contract of an h5py dataset: gives back what was stored"""

    def __init__(self, data):
        self.data, self.attrs = data, Attributes()
        self.dims = [SimpleNamespace(label="", attach_scale=lambda s: None) for _ in range(4)]

    def make_scale(self, name=""):
        pass

    def __getitem__(self, k):
        if isinstance(k, tuple) and k == () and not hasattr(self.data, "__getitem__"):
            return self.data
        if isinstance(k, tuple) and k == () and isinstance(self.data, str):
            return self.data.encode()
        return self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    shape = property(lambda self: self.data.shape)
    dtype = property(lambda self: self.data.dtype)


class Group:
    """contract of an h5py group: a dictionary, in order of the names"""

    def __init__(self):
        self.things, self.attrs = {}, Attributes()

    def _new(self, name, thing):
        if name in self.things:
            raise ValueError("Unable to create dataset (name already exists)")
        self.things[name] = thing
        return thing

    def create_group(self, name):
        return self._new(name, Group())

    def require_group(self, name):
        return self.things[name] if name in self.things else self._new(name, Group())

    def create_dataset(self, name, data=None, dtype=None):
        if hasattr(data, "copy"):
            data = data.copy()
        return self._new(name, Data(data))

    def __setitem__(self, name, thing):
        self._new(name, thing)

    def __getitem__(self, name):
        return self.things[name]

    def __contains__(self, name):
        return name in self.things

    def keys(self):
        return sorted(self.things)

    def items(self):
        return [(k, self.things[k]) for k in sorted(self.things)]

    def __iter__(self):
        return iter(self.keys())


def positive(M, nm, hi=3.0):
    return M.real(nm, gt=0, sample=(0.1, hi))


def a_coil(M, nm):
    mc = M.module("freegs.machine")
    return mc.Coil(positive(M, nm + ".R"), M.real(nm + ".Z", sample=(-2, 2)), current=M.real(nm + ".I", sample=(-1e5, 1e5)),
                   turns=M.int(nm + ".turns", lo=1, sample=(1, 20)), control=M.choice(nm + ".control", [True, False]))


def outline(M, nm):
    """a triangle or rectangle"""
    n = M.choice(nm + ".corners", [3, 4])
    r, z, w, h = positive(M, nm + ".R"), M.real(nm + ".Z", sample=(-1, 1)), positive(M, nm + ".w", 0.5), positive(M, nm + ".h", 0.5)
    return [(r, z), (r + w, z), (r + w, z + h), (r, z + h)][:n]


def a_shaped(M, nm):
    return M.module("freegs.machine").ShapedCoil(outline(M, nm), current=M.real(nm + ".I", sample=(-1e5, 1e5)), turns=M.int(nm + ".turns", lo=1, sample=(1, 20)),
                                                 control=M.choice(nm + ".control", [True, False]), npoints=M.choice(nm + ".npoints", [1, 3, 6]))


def a_solenoid(M, nm):
    return M.module("freegs.machine").Solenoid(positive(M, nm + ".Rs"), M.real(nm + ".min", sample=(-2, -0.5)), M.real(nm + ".max", sample=(0.5, 2)), positive(M, nm + ".Ns", 20.0),
                                               current=M.real(nm + ".I", sample=(-1e5, 1e5)), control=M.choice(nm + ".control", [True, False]))


def a_circuit(M, nm):
    mc = M.module("freegs.machine")
    n = M.choice(nm + ".coils", [1, 2, 3])
    first = M.choice(nm + ".first", ["zero", "not zero"]) if n > 1 else "not zero"
    parts = []
    for k in range(n):
        c = mc.Coil(positive(M, nm + ".R%d" % k), M.real(nm + ".Z%d" % k, sample=(-2, 2)), turns=M.int(nm + ".turns%d" % k, lo=1, sample=(1, 20)))
        m = M.real(nm + ".multiplier%d" % k, sample=(-2, 2))
        if k == 0 and first == "zero":
            m = 0.0
        elif k < 2:
            M.assume(M.Not(M.eq(m, 0)))
        parts.append(("part%d" % k, c, m))
    return mc.Circuit(parts, current=M.real(nm + ".I", sample=(-1e5, 1e5)), control=M.choice(nm + ".control", [True, False]))


def same(M, nm, a, b):
    """b is as a was"""
    M.check(nm + ": the same class", type(a) is type(b))
    close = lambda what, x, y: M.check("%s: %s" % (nm, what), M.eq(x, y))
    kind = type(a).__name__
    close("current", b.current, a.current)
    M.check(nm + ": control", bool(b.control) == bool(a.control))
    if kind == "Circuit":
        M.check(nm + ": parts", len(a.coils) == len(b.coils))
        for (la, ca, ma), (lb, cb, mb) in zip(a.coils, b.coils):
            M.check(nm + ": label of a part", la == lb and isinstance(lb, str))
            close("multiplier", mb, ma)
            same(M, nm + "." + la, ca, cb)
        return
    if kind == "Solenoid":
        for at in ("Rs", "Zsmin", "Zsmax", "Ns"):
            close(at, getattr(b, at), getattr(a, at))
        return
    close("turns", b.turns, a.turns)
    close("R", b.R, a.R)
    close("Z", b.Z, a.Z)
    if kind == "ShapedCoil":
        M.check(nm + ": corners", len(a.shape) == len(b.shape))
        for p, q in zip(a.shape, b.shape):
            close("corner", q[0], p[0])
            close("corner", q[1], p[1])
        M.check(nm + ": points per triangle", M.eq(b.npoints_per_triangle, a.npoints_per_triangle))
    if kind == "MultiCoil":
        M.check(nm + ": mirror", bool(a.mirror) == bool(b.mirror))
        M.check(nm + ": polarity", M.And(M.eq(b.polarity[0], a.polarity[0]), M.eq(b.polarity[1], a.polarity[1])))
        n = len(a.Rfil)
        M.check(nm + ": filaments", n == len(b.Rfil) and n == len(b.Zfil))
        for k in range(n):
            close("filament", b.Rfil[k], a.Rfil[k])
            close("filament", b.Zfil[k], a.Zfil[k])


def library(M):
    if M.symbolic:
        # the points of a shaped coil are those of its outline (C02, C17)
        M.contracted("freegs.quadrature.polygon_quad", lambda shape, n=6: [])
        M.contracted("freegs.polygons.area", lambda shape: 1)
        # points along the wall (C08)
        M.module("freegs.machine").Machine.generate_limit_points = lambda self, *a, **k: (M.arr([0.5, 0.6]), M.arr([0.1, -0.1]))


class OneOf:
    """M, with one fixed choice each in place of all (the others are of the contract on coils)"""

    def __init__(self, M):
        self._M = M

    def __getattr__(self, nm):
        return getattr(self._M, nm)

    def choice(self, nm, options):
        return options[-1] if self._M.symbolic else self._M.choice(nm, options)


KINDS = {"Coil": a_coil, "ShapedCoil": a_shaped, "Solenoid": a_solenoid, "Circuit": a_circuit}


@contract("C18", "coils", [MC + "%s.%s" % (k, f) for k in KINDS for f in ("to_numpy_array", "from_numpy_array")], samples=80)
def coils(M):
    library(M)
    mc = M.module("freegs.machine")
    kind = M.choice("kind", list(KINDS))
    a = KINDS[kind](M, "a")
    value = a.to_numpy_array()
    b = getattr(mc, kind).from_numpy_array(value)
    M.check("another coil", b is not a)
    same(M, kind, a, b)


@contract("C18", "multi-coil", ["freegs.multi_coil.MultiCoil." + f for f in ("to_numpy_array", "from_numpy_array")], samples=60)
def multi(M):
    mc = M.module("freegs.multi_coil")
    n = M.choice("filaments", [0, 1, 2, 3])
    kw = dict(current=M.real("I", sample=(-1e5, 1e5)), control=M.choice("control", [True, False]), mirror=M.choice("mirror", [True, False]),
              polarity=[M.real("polarity0", sample=(-1, 1)), M.real("polarity1", sample=(-1, 1))])
    if n == 0:
        a = mc.MultiCoil(positive(M, "R"), M.real("Z", sample=(-1, 1)), turns=M.int("turns", lo=1, sample=(1, 20)), **kw)
    else:
        a = mc.MultiCoil([positive(M, "R%d" % k) for k in range(n)], [M.real("Z%d" % k, sample=(-1, 1)) for k in range(n)], **kw)
    b = mc.MultiCoil.from_numpy_array(a.to_numpy_array())
    M.check("another coil", b is not a)
    same(M, "MultiCoil", a, b)


@contract("C18", "file", [DP + "OutputFile." + f for f in ("__init__", "write_equilibrium", "read_equilibrium", "close", "__enter__", "__exit__")], samples=30)
def file(M):
    library(M)
    dp, bd, mc = M.module("freegs.dump"), M.module("freegs.boundary"), M.module("freegs.machine")
    fixed, order, limited, walled = M.choice("settings", [
        ("fixedBoundary", 2, False, False), ("freeBoundary", 4, True, True), ("freeBoundaryHagenow", 2, True, False), ("freeBoundaryHagenow", 4, False, True)])
    wall = None
    if walled:
        wall = mc.Wall([0.1 + 0.2 * k + 0 * k for k in range(3)], [M.real("wallZ%d" % k, sample=(-1, 1)) for k in range(3)])
    which = M.choice("machine", [("Coil",), ("Solenoid", "Coil"), ("ShapedCoil",), ("Circuit", "Coil"), ()])
    parts = [("z%s" % k if k == "Solenoid" else "a" + k, KINDS[k](OneOf(M), k)) for k in which]
    s = equilibrium(M, boundary=getattr(bd, fixed), order=order, limited=False, xpoints=(0,), wall=wall, coils=list(parts))
    eq = s.eq
    eq.check_limited = limited
    was = M.snapshot2(eq.plasma_psi)
    if M.symbolic:
        store = {}

        class File(Group):
            def __init__(self, name, mode=None, **k):
                Group.__init__(self)
                if mode == "w":
                    store.clear()
                    store[name] = self
                else:
                    self.things = store[name].things

            def close(self):
                pass

        dp.h5py = SimpleNamespace(File=File)
        name = "file"
    else:
        import io

        name = io.BytesIO()
    with dp.OutputFile(name, "w") as f:
        f.write_equilibrium(eq)
    with dp.OutputFile(name, "r") as f:
        new = f.read_equilibrium()
    M.check("another equilibrium", new is not eq)
    M.check("the domain", M.And(M.eq(new.Rmin, s.Rmin), M.eq(new.Rmax, s.Rmax), M.eq(new.Zmin, s.Zmin), M.eq(new.Zmax, s.Zmax)))
    M.check("the resolution", M.And(M.eq(new.nx, s.nx), M.eq(new.ny, s.ny)))
    M.check_shape("flux on the grid", new.plasma_psi, (s.nx, s.ny))
    M.check_all("the plasma flux", (s.nx, s.ny), lambda i, j: M.eq(M.at(new.plasma_psi, i, j), was(i, j)))
    M.check("the plasma current", M.eq(new.plasmaCurrent(), eq.plasmaCurrent()))
    M.check("the boundary condition", new._applyBoundary is eq._applyBoundary)
    M.check("the order", M.eq(new.order, eq.order))
    M.check("limiter checked as before", bool(new.check_limited) == bool(eq.check_limited))
    t = new.tokamak
    M.check("the wall", (t.wall is None) == (wall is None))
    if wall is not None and t.wall is not None:
        M.check("points of the wall", len(t.wall.R) == 3 and len(t.wall.Z) == 3)
        for k in range(3):
            M.check("point of the wall", M.And(M.eq(t.wall.R[k], wall.R[k]), M.eq(t.wall.Z[k], wall.Z[k])))
    got = dict(t.coils)
    M.check("the coils", len(t.coils) == len(parts) and sorted(got) == sorted(dict(parts)))
    for label, c in parts:
        same(M, label, c, got[label])
    M.check_all("original as it was", (s.nx, s.ny), lambda i, j: M.eq(M.at(eq.plasma_psi, i, j), was(i, j)))
