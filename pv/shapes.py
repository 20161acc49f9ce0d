"""assumed contract on shapely: regions of the plane are known by their outline;
containment and overlap area are uninterpreted functions of the outlines"""
from . import core as C, models, terms as T
from .core import Unsupported, mk, nf


class Point:
    def __init__(self, *a):
        if len(a) == 1:
            a = tuple(a[0])
        self.x, self.y = a[:2]

    def __getattr__(self, n):
        raise Unsupported("shapely Point." + n)


class Region:
    def __init__(self, name, args=()):
        self._code = (name, tuple(args))

    def __getattr__(self, n):
        raise Unsupported("shapely Polygon." + n)

    def contains(self, p):
        if not isinstance(p, Point):
            raise Unsupported("containment of a shape")
        name, args = self._code
        return mk(T.bapp("in:" + name, args + (nf(p.x), nf(p.y))))

    def intersection(self, other):
        if not isinstance(other, Region):
            raise Unsupported("intersection with another kind of shape")
        a, b = sorted((self._code, other._code), key=repr)
        return Region("cap(%s,%s)" % (a[0], b[0]), a[1] + b[1])

    @property
    def area(self):
        name, args = self._code
        return mk(T.app("area:" + name, args)) if args else mk(T.var("area:" + name, "R"))


class Polygon(Region):
    def __init__(self, shell=None, holes=None):
        if shell is None or holes is not None:
            raise Unsupported("form of Polygon")
        self.points = shell
        self._code = outline(shell)


def outline(pts):
    if isinstance(pts, (list, tuple)) and not getattr(pts, "poison", False) and getattr(pts, "seq", None) is None:
        xy = [(nf(p[0]), nf(p[1])) for p in list(pts)]
        r = rectangle(xy)
        if r is not None:
            return r
        return ("poly%d" % len(xy), tuple(v for p in xy for v in p))
    if isinstance(pts, C.Arr):
        n, item = pts.shape[0], lambda k: (pts[mk(k), 0], pts[mk(k), 1])
    else:
        sq = pts.seq if isinstance(pts, C.PList) and pts.seq is not None else pts
        if not isinstance(sq, C.Seq):
            raise Unsupported("vertices of a Polygon")
        n, item = sq.n, sq.item
    k = T.mk_atom("var", "inv!k", "I")
    x, y = item(T.of_atom(k))
    return models.named("poly", (nf(n), nf(x), nf(y)))


def rectangle(xy):
    """centre and squared sides of an upright rectangle, however it is traversed"""
    if len(xy) == 5 and xy[0] == xy[4]:
        xy = xy[:4]
    if len(xy) != 4:
        return None
    for p, q in ((0, 1), (1, 0)):
        ok = xy[0][p] == xy[1][p] and xy[2][p] == xy[3][p] and xy[1][q] == xy[2][q] and xy[3][q] == xy[0][q]
        if ok:
            mid = tuple(T.scale(T.add(xy[0][c], xy[2][c]), C.Fraction(1, 2) if hasattr(C, "Fraction") else 0.5) for c in (0, 1))
            side = tuple(T.mul(d, d) for d in (T.sub(xy[0][c], xy[2][c]) for c in (0, 1)))
            return ("rect", mid + side)
    return None


def box(minx, miny, maxx, maxy, ccw=True):
    return Polygon([(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)])


def module(full):
    m = models.Opaque(full)
    d = dict(Point=Point, Polygon=Polygon, box=box)
    m.__dict__.update(d)
    if full == "shapely":
        m.__dict__["geometry"] = module("shapely.geometry")
    return m
