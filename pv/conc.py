"""Native mode of the contract language: the same contract text run against the
real modules under CPython on concrete inputs (replay of counterexamples,
engine cross-check, bounded stand-in)."""
import importlib
import io
import json
import math
import os
import random
import sys
import time
import traceback
import warnings
from types import SimpleNamespace

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")


class Skip(BaseException):
    pass


class Failed(BaseException):
    def __init__(self, name, detail):
        self.name, self.detail = name, detail


class ConcM:
    symbolic = False
    RTOL = 1e-7

    def __init__(self, seed, hints=None):
        import numpy as np

        self.np = np
        self.rng = random.Random(seed)
        self.nrng = np.random.RandomState(seed % (2**31))
        self.hints = hints or {}
        self.inputs = {}
        self.n_checks = 0
        self.pi = np.pi
        self.mu0 = 4e-7 * np.pi

    # inputs
    def _log(self, name, v):
        self.inputs[name] = v if isinstance(v, (int, float, bool, str)) else repr(v)
        return v

    def real(self, name, lo=None, hi=None, gt=None, lt=None, sample=None, choose=None):
        L = gt if gt is not None else lo
        H = lt if lt is not None else hi
        h = self.hints.get(name)
        if h is not None:
            # solver models may be numerically extreme; replay only benign values
            h = float(h)
            big = 1e4 if sample is None else 2 * max(abs(sample[0]), abs(sample[1]))
            if not math.isfinite(h) or abs(h) > big or 0 < abs(h) < 1e-3 * min(1.0, big):
                h = None
        if h is not None:
            v = h
        elif choose is not None:
            v = self.rng.choice(list(choose))
        else:
            a, b = sample or (None, None)
            if a is None:
                a = float(L) if L is not None else -2.0
                b = float(H) if H is not None else (a + 3.0 if L is not None else 2.0)
                if L is None and H is not None:
                    a = b - 3.0
            r = self.rng.random()
            v = a + (b - a) * r
            if self.rng.random() < 0.08:
                v = round(v, 1)
        v = float(v)
        ok = (
            (lo is None or v >= lo)
            and (hi is None or v <= hi)
            and (gt is None or v > gt)
            and (lt is None or v < lt)
        )
        if not ok:
            raise Skip()
        return self._log(name, v)

    def int(self, name, lo=None, hi=None, sample=None, choose=None):
        if name in self.hints:
            v = int(self.hints[name])
        elif choose is not None:
            v = self.rng.choice(list(choose))
        else:
            a, b = sample or (lo if lo is not None else 0, None)
            if b is None:
                b = min(hi, a + 6) if hi is not None and not callable(hi) else a + 6
            v = self.rng.randint(int(a), int(b))
        if (lo is not None and v < lo) or (hi is not None and v > hi) or abs(v) > 2000:
            raise Skip()
        return self._log(name, v)

    def bool(self, name):
        return self._log(name, self.rng.random() < 0.5)

    def choice(self, name, options):
        opts = list(options)
        i = self.rng.randrange(len(opts))
        self._log(name, i)
        return opts[i]

    def array(self, name, shape, kind="R", sample=None, lo=None, hi=None):
        np = self.np
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        if math.prod(shape) > 400000:
            raise Skip()
        if kind == "B":
            return self.nrng.rand(*shape) < 0.5
        a, b = sample or (lo if lo is not None else -1.0, hi if hi is not None else (lo + 2.0 if lo is not None else 1.0))
        if kind == "I":
            return self.nrng.randint(int(a), int(b) + 1, size=shape)
        return self.layout(a + (b - a) * self.nrng.rand(*shape))

    def layout(self, a):
        """the same values, now and then in another memory layout"""
        how = self.rng.random()
        if how < 0.7 or a.size == 0:
            return a
        if a.ndim > 1 and how < 0.9:
            return self.np.asfortranarray(a)
        b = self.np.zeros((2 * a.shape[0],) + a.shape[1:])[::2]
        b[...] = a
        return b

    def func(self, name, arity, **k):
        np = self.np
        c = [self.rng.uniform(-1, 1) for _ in range(3 * arity + 2)]

        def f(*a):
            r = c[-1] + c[-2] * a[0]
            for i, x in enumerate(a):
                r = r + c[3 * i] * np.sin(c[3 * i + 1] * 3 + 1.7 * np.asarray(x) + 0.3 * i) + c[3 * i + 2] * np.asarray(x) * np.asarray(a[0])
            if all(np.ndim(x) == 0 for x in a):
                return float(r)
            return r

        return f

    def assume(self, c):
        if not c:
            raise Skip()

    # code
    def module(self, name):
        return importlib.import_module(name)

    def contracted(self, path, fn):
        mod, name = path.rsplit(".", 1)
        return getattr(importlib.import_module(mod), name)

    def greens(self):
        m = importlib.import_module("freegs.gradshafranov")
        return SimpleNamespace(Greens=m.Greens, GreensBr=m.GreensBr, GreensBz=m.GreensBz)

    def invariant(self, *a):
        pass

    def for_invariant(self, *a):
        pass

    def grid_hint(self, *a):
        pass

    # logic
    def eq(self, a, b, scale=1e-6, rtol=None):
        if isinstance(a, (bool, self.np.bool_)) and isinstance(b, (bool, self.np.bool_)):
            r = bool(a) == bool(b)
            self.last = (a, b)
            return r
        a, b = float(self._sc(a)), float(self._sc(b))
        self.last = (a, b)
        if math.isnan(a) and math.isnan(b):
            return True
        if math.isinf(a) and a == b:
            return True
        rt = rtol or self.RTOL
        return abs(a - b) <= rt * max(abs(a), abs(b), abs(scale if scale is not None else 1e-6))

    def _sc(self, x):
        x = self.np.asarray(x)
        if x.size != 1:
            raise TypeError("not a scalar")
        return x.reshape(())[()]

    def le(self, a, b, tol=1e-9):
        self.last = (float(a), float(b))
        return float(a) <= float(b) + (tol or 0.0) * max(1.0, abs(float(a)), abs(float(b)))

    def lt(self, a, b):
        self.last = (float(a), float(b))
        return float(a) < float(b)

    def And(self, *bs):
        return all(bool(b) for b in bs)

    def Or(self, *bs):
        return any(bool(b) for b in bs)

    def Not(self, b):
        return not b

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def sqrt(self, x):
        return self.np.sqrt(x)

    def ellipk(self, x):
        from scipy.special import ellipk

        return ellipk(x)

    def ellipe(self, x):
        from scipy.special import ellipe

        return ellipe(x)

    def log(self, x):
        return self.np.log(x)

    def exp(self, x):
        return self.np.exp(x)

    def sin(self, x):
        return self.np.sin(x)

    def cos(self, x):
        return self.np.cos(x)

    def abs(self, x):
        return abs(x)

    def max(self, a, b):
        return max(a, b)

    def min(self, a, b):
        return min(a, b)

    def sum(self, lo, hi, f):
        t = 0.0
        for k in range(int(lo), int(hi)):
            t = t + f(k)
        return t

    def at(self, a, *idx):
        return a[tuple(int(i) for i in idx)]

    def simp(self, x):
        return x

    def sparse_at(self, A, grid, row, col):
        nx, ny = grid
        if not (0 <= col[0] < nx and 0 <= col[1] < ny):
            return 0.0
        d = getattr(self, "_dense", None)
        if d is None or d[0] is not A:
            self._dense = d = (A, A.toarray())
        return d[1][row[0] * ny + row[1], col[0] * ny + col[1]]

    def shape(self, a):
        return self.np.shape(a)

    def check_all_z3(self, name, shape, f):
        self.check_all(name, shape, f)

    def check_all(self, name, shape, f, where=None):
        np = self.np
        shape = tuple(int(s) for s in shape)
        tot = math.prod(shape)
        if tot <= 4000:
            it = np.ndindex(*shape)
        else:
            # corners, edges and a random sample
            idx = set()
            for _ in range(2500):
                idx.add(
                    tuple(
                        self.rng.choice((0, 1, s - 2, s - 1)) % s if self.rng.random() < 0.3 else self.rng.randrange(s)
                        for s in shape
                    )
                )
            it = sorted(idx)
        for i in it:
            i = tuple(int(x) for x in i)
            if where is not None and not where(*i):
                continue
            self.last = None
            v = f(*i)
            if v is None:
                continue
            self.n_checks += 1
            if not v:
                raise Failed(name, "index %s: %s" % (i, self.last))

    def check_shape(self, name, a, shape):
        self.n_checks += 1
        if tuple(self.np.shape(a)) != tuple(int(s) for s in shape):
            raise Failed(name, "shape %s expected %s" % (self.np.shape(a), shape))

    last = None

    def check(self, name, c):
        self.n_checks += 1
        if not c:
            raise Failed(name, "values %s" % (self.last,))
        self.last = None

    def raises(self, name, exc, thunk):
        self.n_checks += 1
        try:
            thunk()
        except exc:
            return
        raise Failed(name, "no exception raised")

    def same_object(self, name, a, b):
        self.check(name, a is b)

    def table(self, shape, f):
        np = self.np
        shape = tuple(int(d) for d in shape)
        a = np.zeros(shape)
        for i in np.ndindex(*shape):
            a[i] = f(*i)
        return a

    def spline(self, x, y, z, dx=0, dy=0):
        from scipy.interpolate import RectBivariateSpline

        s = RectBivariateSpline(x, y, z)
        return lambda r, zz, dx=dx, dy=dy: float(s.ev(r, zz, dx=dx, dy=dy))

    def snapshot(self, f, n):
        v = [f(k) for k in range(int(n))]
        return lambda j: v[int(j)]

    def snapshot2(self, a):
        v = self.np.array(a)
        return lambda i, j: v[int(i), int(j)]

    def ifelse(self, c, a, b):
        return a() if c else b()

    def romb2(self, f, nx, ny):
        from scipy.integrate import romb

        return romb(romb(self.table((nx, ny), f)))

    def regularised(self, A, b, gamma):
        np = self.np
        n = A.shape[1]
        return np.linalg.lstsq(np.concatenate([A, gamma * np.eye(n)]), np.concatenate([b, np.zeros(n)]), rcond=None)[0]

    def infinite(self, v, sign=1):
        return v == sign * float("inf")

    def romb1(self, f, n):
        from scipy.integrate import romb

        return romb(self.table((n,), f))

    def amax2(self, shape, f):
        return max(f(i, j) for i in range(shape[0]) for j in range(shape[1]))

    def amin2(self, shape, f):
        return min(f(i, j) for i in range(shape[0]) for j in range(shape[1]))

    def decide(self, b):
        return bool(b)

    def argmax(self, n, f):
        return int(self.np.argmax([f(k) for k in range(int(n))]))

    def argmin(self, n, f):
        return int(self.np.argmin([f(k) for k in range(int(n))]))

    def arctan2(self, a, b):
        return self.np.arctan2(a, b)

    def ptp(self, a):
        return self.np.ptp(a)

    def elementwise(self, f):
        return f

    def first(self, n, f):
        return next((k for k in range(int(n)) if f(k)), None)

    def np_asarray(self, x):
        return self.np.asarray(x)

    def last_of(self, n, f):
        return next((k for k in reversed(range(int(n))) if f(k)), None)

    def interpolant1(self, x, y, kind):
        from scipy.interpolate import interp1d

        return interp1d(x, y, kind=kind, fill_value="extrapolate")

    def interpolant(self, x, y, z):
        from scipy.interpolate import RectBivariateSpline

        return RectBivariateSpline(x, y, z)

    def quad(self, f, a, b):
        from scipy.integrate import quad

        return quad(f, a, b)[0]

    def exists(self, ranges, f):
        import itertools

        return any(f(*ks) for ks in itertools.product(*[range(int(a), int(b)) for a, b in ranges]))

    def selected(self, n, pred):
        ks = [k for k in range(int(n)) if pred(k)]
        return SimpleNamespace(n=len(ks), at=lambda j: ks[int(j)], rank=lambda q: ks.index(int(q)))

    def set_current(self, coil, v):
        coil.current = v

    def forall_set(self, n, f):
        for k in range(int(n)):
            f(k)

    def full(self, a, shape):
        return self.np.broadcast_to(a, tuple(int(x) for x in shape))

    def a_coil(self, kinds, depth=0):
        r = self.rng
        mc = importlib.import_module("freegs.machine")
        kind = r.choice(list(kinds))
        cur = r.choice([0.0, 1.0]) if r.random() < 0.1 else r.uniform(-2, 2) * 1e5
        ctl = r.random() < 0.6
        R, Z = r.uniform(0.3, 2.5), r.uniform(-1.5, 1.5)
        t = r.choice([1, 1, 2, 7])
        if kind == "coil":
            return mc.Coil(R, Z, current=cur, turns=t, control=ctl)
        if kind == "shaped":
            d, e = r.uniform(0.02, 0.2), r.uniform(0.02, 0.2)
            return mc.ShapedCoil([(R, Z), (R, Z + d), (R + e, Z + d), (R + e, Z)], current=cur, turns=t, control=ctl, npoints=r.choice([1, 3, 6]))
        if kind == "filament":
            n = r.randint(1, 4)
            return mc.FilamentCoil([R + 0.05 * r.random() for _ in range(n)], [Z + 0.05 * r.random() for _ in range(n)], current=cur, turns=t, control=ctl)
        if kind == "solenoid":
            return mc.Solenoid(R, Z - 0.5, Z + 0.5, r.randint(2, 12), current=cur, control=ctl)
        if kind == "circuit":
            cs = self.circuit_coils("x", r.randint(1, 3), kinds=["coil"])
            return mc.Circuit(cs, current=cur, control=ctl)
        raise ValueError(kind)

    ALL_COILS = ("coil", "shaped", "filament", "solenoid", "circuit")

    def coils(self, name, n, kinds=None):
        order = self.rng.sample(range(100), int(n))
        return [("%s%d" % (name, i), self.a_coil(kinds or self.ALL_COILS)) for i in order]

    def circuit_coils(self, name, n, kinds=None):
        return [
            ("%s%d" % (name, i), self.a_coil(kinds or ("coil",)), self.rng.choice([1.0, -1.0, 2.0, -0.5]))
            for i in self.rng.sample(range(100), int(n))
        ]

    def seq(self, n, item):
        return [item(k) for k in range(int(n))]

    def length(self, x):
        return len(x)

    def item(self, x, k):
        return x[int(k)]

    def arr(self, x):
        return self.np.asarray(x)


def run_one(c, seed, hints=None):
    """-> ('ok'|'skip'|'fail', info)"""
    import numpy as np

    m = ConcM(seed, hints)
    np.random.seed(seed % (2**31))
    random.seed(seed)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                c.fn(m)
        return "ok", {"checks": m.n_checks}
    except Skip:
        return "skip", {}
    except Failed as e:
        return "fail", {"obligation": e.name, "detail": e.detail, "inputs": m.inputs}
    except Exception as e:
        fr = traceback.extract_tb(e.__traceback__)
        return "fail", {
            "obligation": "no-exception",
            "detail": "%s: %s at %s"
            % (type(e).__name__, e, ["%s:%s" % (os.path.basename(f.filename), f.lineno) for f in fr[-4:]]),
            "inputs": m.inputs,
        }


class _Timeout(BaseException):
    pass


def main():
    """argv: prop, json job on stdin {contracts:{name:[hints...]}, samples, budget, seed}"""
    import signal

    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.path.insert(0, HERE)
    job = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = io.StringIO()
    from pv import registry

    cs = {c.name: c for c in registry.load(job["prop"])}
    res = {}

    def alarm(*a):
        raise _Timeout()

    signal.signal(signal.SIGALRM, alarm)
    for name, hints in job["contracts"].items():
        c = cs[name]
        r = {"ok": 0, "skip": 0, "checks": 0, "fail": None, "timeout": 0}
        res[name] = r
        if c.opts.get("conc") is False:
            continue
        t0 = time.time()
        budget = job["budget"] * c.opts.get("budget", 1)
        n = int(c.opts.get("samples", 25) * job.get("factor", 1))
        plan = [(job["seed"] * 7919 + i, h) for i, h in enumerate(hints)]
        plan += [(job["seed"] * 1000003 + i, None) for i in range(n)]
        tries = 0
        i = 0
        while i < len(plan):
            seed, h = plan[i]
            i += 1
            if time.time() - t0 > budget:
                break
            signal.setitimer(signal.ITIMER_REAL, c.opts.get("hang", 30))
            try:
                st, info = run_one(c, seed, h)
            except _Timeout:
                st, info = "timeout", {}
                r["timeout"] += 1
                if c.opts.get("hang_fails"):
                    st, info = "fail", {"obligation": "terminates", "detail": "no result within %ss" % c.opts.get("hang", 30), "inputs": {}}
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            if st == "fail":
                info["seed"] = seed
                info["hints"] = h
                r["fail"] = info
                break
            if st in r:
                r[st] += 1
            if st == "ok":
                r["checks"] += info["checks"]
            if st == "skip" and h is None and tries < 6 * n:
                tries += 1
                plan.append((seed + 500009 + tries, None))
        r["time"] = round(time.time() - t0, 2)
    json.dump(res, out, default=str)
    out.flush()


if __name__ == "__main__":
    main()
