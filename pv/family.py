"""families of coils by contract: a symbolic-length list of arbitrary coils whose
methods obey the coil contract (C02): responses are arbitrary functions of
position, fields are response times current"""
from . import core as C
from . import terms as T
from .core import Arr, Unsupported, mk, nf, tb


class Label:
    """k-th label of a family; labels of different coils differ"""

    def __init__(self, fam, k):
        self.fam, self.k = fam, k

    def __pv_family__(self):
        return self.fam, self.k

    def __pv_rewrite__(self, f):
        return Label(self.fam, f(self.k))

    def __hash__(self):
        return hash((self.fam.name, self.k))

    def __eq__(self, o):
        if isinstance(o, Label):
            if o.fam is not self.fam:
                return False
            return C.mk(T.eq(self.k, o.k))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if not isinstance(r, bool) else not r

    def __lt__(self, o):
        raise Unsupported("ordering of labels")

    def __format__(self, s):
        return "label"

    __str__ = __repr__ = lambda self: "label"


class Family:
    def __init__(self, name, n):
        self.name, self.n = name, n
        f = lambda a, kind="R": Arr.from_fn(
            (n,),
            (lambda i: T.bapp("%s_%s" % (name, a), i)) if kind == "B" else (lambda i: T.app("%s_%s" % (name, a), i)),
            kind,
        )
        self.current = f("current")
        self.control = f("control", "B")
        self.force_arg = None

    def list(self, extra=None):
        p = C.PList()
        if extra is None:
            p.seq = C.Seq(self.n, lambda k: (Label(self, k), FamCoil(self, k)))
        else:
            p.seq = C.Seq(self.n, lambda k: (Label(self, k), FamCoil(self, k), extra(mk(k))))
        return p


class FamCoil:
    def __init__(self, fam, k):
        object.__setattr__(self, "fam", fam)
        object.__setattr__(self, "k", k)

    def __pv_rewrite__(self, f):
        return FamCoil(self.fam, f(self.k))

    def __eq__(self, o):
        raise Unsupported("comparison of coils")

    __hash__ = object.__hash__

    def __setattr__(self, n, v):
        if n in ("current", "control"):
            a = getattr(self.fam, n)
            Arr(a.st, [("fix", self.k)], ()).assign(v)
        else:
            raise Unsupported("assignment to coil attribute " + n)

    @property
    def current(self):
        return mk(self.fam.current.at((self.k,)))

    @property
    def control(self):
        return mk(self.fam.control.at((self.k,)))

    def _attr(self, n, sort="R"):
        return mk(T.app("%s_%s" % (self.fam.name, n), (self.k,), sort))

    R = property(lambda s: s._attr("R"))
    Z = property(lambda s: s._attr("Z"))
    turns = property(lambda s: s._attr("turns"))
    area = property(lambda s: s._attr("area"))

    def _resp(self, what, R, Z):
        nm = "%s_%s" % (self.fam.name, what)
        g = lambda r, z: mk(T.app(nm, (self.k, nf(r), nf(z))))
        if isinstance(R, (Arr, list, tuple)) or isinstance(Z, (Arr, list, tuple)):
            return C.elementwise(g, (R, Z), "R")
        return g(R, Z)

    def controlPsi(self, R, Z):
        return self._resp("psi", R, Z)

    def controlBr(self, R, Z):
        return self._resp("br", R, Z)

    def controlBz(self, R, Z):
        return self._resp("bz", R, Z)

    createPsiGreens = controlPsi

    def calcPsiFromGreens(self, g):
        return self.current * g

    def psi(self, R, Z):
        return self.controlPsi(R, Z) * self.current

    def Br(self, R, Z):
        return self.controlBr(R, Z) * self.current

    def Bz(self, R, Z):
        return self.controlBz(R, Z) * self.current

    def getForces(self, eq):
        if self.fam.force_arg is not None and eq is not self.fam.force_arg:
            return self._attr("force_of_other_equilibrium")
        return self._attr("force")

    def inShape(self, polygon):
        from .shapes import Region

        if not isinstance(polygon, Region):
            raise Unsupported("shape asked about")
        nm, args = polygon._code
        return mk(T.app("%s_inshape:%s" % (self.fam.name, nm), (self.k,) + args))
