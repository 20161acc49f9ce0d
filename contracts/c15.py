"""C15: Picard iteration (freegs.picard.solve)."""
from types import SimpleNamespace

from pv.registry import contract

FN = "freegs.picard.solve"


class Plasma:
    """what the iteration uses of an Equilibrium: every solve and every adjustment of the
    currents leads to some other flux, boundary flux and limited state"""

    def __init__(self, M, shape, script=None):
        self.M, self.shape, self.script = M, shape, script
        self.log = []
        self.check_limited = False
        self.n = 0
        self.fresh()

    def fresh(self, what="start"):
        M = self.M
        if M.symbolic:
            from pv import terms as T

            self.map = M.array(T.fresh_name("flux"), self.shape)
            if what != "adjust" or self.moves:
                self.psi_bndry = None if what == "solve" and M.choice(T.fresh_name("bndry"), ["open", "closed"]) == "open" else M.real(T.fresh_name("psib"))
                self.is_limited = M.bool(T.fresh_name("limited"))
        else:
            self.map, b, lim = self.script(self, what)
            if what != "adjust" or self.moves:
                self.psi_bndry, self.is_limited = b, lim

    moves = False

    def psi(self):
        return self.map.copy()

    def solve(self, profiles, Jtor=None, psi=None, psi_bndry=None):
        ev = SimpleNamespace(kind="solve", profiles=profiles, psi=None if psi is None else psi.copy(), psi_bndry=psi_bndry, Jtor=Jtor,
                             check=self.check_limited, before=self.psi_bndry)
        self.fresh("solve")
        ev.map, ev.after, ev.limited = self.map.copy(), self.psi_bndry, self.is_limited
        self.log.append(ev)

    def __getattr__(self, name):
        if self.M.symbolic and not name.startswith("__"):
            from pv.core import Unsupported

            raise Unsupported("Equilibrium." + name)
        raise AttributeError(name)


def same_map(M, nm, s, a, b):
    M.check_all(nm, s.shape, lambda i, j: M.eq(M.at(a, i, j), M.at(b, i, j)))


def changes(M, s, start, end):
    """largest change of flux, absolute and relative to the range of the flux"""
    big = M.amax2(s.shape, lambda i, j: M.abs(M.at(start, i, j) - M.at(end, i, j)))
    rng = M.amax2(s.shape, lambda i, j: M.at(end, i, j)) - M.amin2(s.shape, lambda i, j: M.at(end, i, j))
    return big, big / rng


def converged(M, s, ev, start, bl):
    big, rel = changes(M, s, start, ev.map)
    flux = M.Or(M.lt(big, s.atol), M.lt(rel, s.rtol))
    if ev.after is None:
        return False
    d = bl - ev.after
    if not M.symbolic and ev.after == 0:
        edge = abs(d) < s.atol
    else:
        edge = M.Or(M.lt(M.abs(d / ev.after), s.rtol), M.lt(M.abs(d), s.atol))
    return M.And(flux, edge, M.Or(not s.wait, ev.limited))


def solve_step(M, s, ev, n, start, hbl):
    """the solve of iteration n"""
    same_map(M, "solved from the flux of the previous step", s, ev.psi, start)
    M.check("profiles handed on", ev.profiles is s.profiles and ev.Jtor is None)
    look = M.And(s.check_limited, M.Or(M.le(s.limit_it, n), hbl))
    M.check("limiters are checked when asked for", M.iff(ev.check, look))
    given = s.given
    if M.symbolic:
        if M.decide(look):
            M.check("boundary of the plasma handed on when limiters are checked", ev.psi_bndry is ev.before)
        else:
            M.check("given boundary handed on", ev.psi_bndry is given)
    else:
        M.check("boundary flux handed on", ev.psi_bndry is (ev.before if look else given))


class Step:
    """invariant of the loop: one arbitrary iteration from an arbitrary state"""

    def __init__(self, M, s):
        self.M, self.s = M, s
        M.invariant(FN, 0, self)

    def enter(self, loop):
        from pv import core as C, terms as T

        M, s, loc = self.M, self.s, loop.loc
        for nm in ("psi", "iteration", "bndry", "has_been_limited", "psi_maxchange_iterations", "psi_relchange_iterations"):
            if nm not in loc or nm not in loop.names and "iterations" not in nm:
                raise C.Unsupported("iteration with other variables")
        M.check("constraint applied before the first solve", len(s.eq.log) == (1 if s.constrain else 0))
        same_map(M, "starts from the total flux", s, loc["psi"], s.eq.map)
        M.require("starts at iteration 0, not limited, without history", loc["iteration"] == 0 and loc["has_been_limited"] is False
                and not loc["psi_maxchange_iterations"] and not loc["psi_relchange_iterations"])
        M.require("no boundary flux at first", M.eq(loc["bndry"], 0))
        del s.eq.log[:]
        s.n = M.int("step", lo=0)
        s.start = M.array("start", s.shape)
        s.bl = M.real("last_bndry")
        s.hbl = M.bool("was_limited")
        if s.maxits:
            M.assume(M.le(s.n, s.maxits))
        s.eq.fresh()
        s.eq.check_limited = M.bool("checking")
        s.h1, s.h2 = M.array("h1", (s.n,)), M.array("h2", (s.n,))
        vals = {nm: (C.Poison(nm) if nm in loc else C.UNDEF) for nm in loop.names}
        vals.update(psi=s.start.copy(), iteration=s.n, bndry=s.bl, has_been_limited=s.hbl)
        for nm, h in (("psi_maxchange_iterations", s.h1), ("psi_relchange_iterations", s.h2)):
            loc[nm].seq = C.Seq(C.mkdim(C.nf(s.n)), lambda k, h=h: M.at(h, C.mk(k)))
        return vals

    def leave(self, loop, loc):
        M, s = self.M, self.s
        log = s.eq.log
        M.check("one solve in an iteration, then the constraint", [e.kind for e in log] == ["solve"] + (["constrain"] if s.constrain else []))
        ev = log[0]
        solve_step(M, s, ev, s.n, s.start, s.hbl)
        M.check("goes on only while not converged", M.Not(converged(M, s, ev, s.start, s.bl)))
        now = s.eq.map
        M.check_all("next start is the blend of the new and the previous flux", s.shape, lambda i, j: M.eq(
            M.at(loc["psi"], i, j), (1 - s.blend) * M.at(now, i, j) + s.blend * M.at(s.start, i, j)))
        M.require("counted", M.eq(loc["iteration"], s.n + 1))
        if s.maxits:
            M.check("stays within the allowed number of iterations", M.le(s.n + 1, s.maxits))
        M.require("boundary flux noted", M.eq(loc["bndry"], s.bl if ev.after is None else ev.after))
        M.require("limited state noted", M.iff(loc["has_been_limited"], M.Or(s.hbl, ev.limited)))
        self.history(ev, loc["psi_maxchange_iterations"], loc["psi_relchange_iterations"])

    def history(self, ev, a, b):
        M, s = self.M, self.s
        big, rel = changes(M, s, s.start, ev.map)
        for nm, lst, old, new in (("largest", a, s.h1, big), ("relative", b, s.h2, rel)):
            M.check("history of the %s change: one entry more" % nm, M.eq(M.length(lst), s.n + 1))
            get = (lambda k: M.item(lst, k)) if isinstance(lst, list) else (lambda k: M.at(lst, k))
            M.check_all("history of the %s change kept" % nm, (s.n,), lambda k: M.eq(get(k), M.at(old, k)))
            M.check("history of the %s change" % nm, M.eq(get(s.n), new))


def symbolic_step(M, s, kw):
    step = Step(M, s)
    P = M.module("freegs.picard")
    try:
        r = P.solve(s.eq, s.profiles, **kw)
    except RuntimeError:
        log = s.eq.log
        M.check("one solve in an iteration, then the constraint", [e.kind for e in log] == ["solve"] + (["constrain"] if s.constrain else []))
        solve_step(M, s, log[0], s.n, s.start, s.hbl)
        M.check("fails only after the allowed number of iterations", False if not s.maxits else M.lt(s.maxits, s.n + 1))
        M.check("fails only when not converged", M.Not(converged(M, s, log[0], s.start, s.bl)))
        return
    log = s.eq.log
    M.check("returns after a solve", [e.kind for e in log] == ["solve"])
    ev = log[0]
    solve_step(M, s, ev, s.n, s.start, s.hbl)
    M.check("returns only when converged", converged(M, s, ev, s.start, s.bl))
    if s.info:
        step.history(ev, *r)
    else:
        M.check("returns nothing", r is None)


def native_run(M, s, kw):
    P = M.module("freegs.picard")
    out, failed = None, False
    try:
        out = P.solve(s.eq, s.profiles, **kw)
    except RuntimeError:
        failed = True
    log = list(s.eq.log)
    solves = [e for e in log if e.kind == "solve"]
    if s.constrain:
        M.check("constraint before every solve, and not after the last", [e.kind for e in log] == ["constrain", "solve"] * len(solves) + (["constrain"] if failed else []))
        cons = [e for e in log if e.kind == "constrain"]
    start, bl, hbl, hist = (cons[0].map if s.constrain else s.map0), 0.0, False, []
    for n, ev in enumerate(solves):
        solve_step(M, s, ev, n, start, hbl)
        hist.append(changes(M, s, start, ev.map))
        c = converged(M, s, ev, start, bl)
        last = n == len(solves) - 1
        M.check("stops exactly when converged", bool(c) == (last and not failed))
        now = cons[n + 1].map if s.constrain and n + 1 < len(cons) else ev.map
        start = (1 - s.blend) * now + s.blend * start
        bl = bl if ev.after is None else ev.after
        hbl = hbl or ev.limited
    if failed:
        M.check("fails only after the allowed number of iterations", bool(s.maxits) and len(solves) == s.maxits + 1)
    elif s.maxits:
        M.check("stays within the allowed number of iterations", len(solves) <= s.maxits + 1)
    if s.info and not failed:
        for k in (0, 1):
            M.check_all("history", (len(hist),), lambda q: M.eq(out[k][q], hist[q][k]))
            M.check("history has an entry per solve", len(out[k]) == len(hist))
    elif not failed:
        M.check("returns nothing", out is None)


OPTIONS = [(False, False, False), (True, False, True), (True, True, False), (False, True, True)]


def picard(M, constrain, options):
    s = SimpleNamespace(profiles=object())
    rng = getattr(M, "rng", None)
    kw = {}
    if M.symbolic:
        s.shape = (M.int("nx", lo=2), M.int("ny", lo=2))
        s.rtol, s.atol, s.blend = M.real("rtol", gt=0), M.real("atol", gt=0), M.real("blend")
        s.maxits = [None, M.int("maxits", lo=1)][M.choice("limit on iterations", [0, 1])]
        s.check_limited, s.wait, s.info = options
        s.limit_it = M.int("limit_it", lo=0)
        script = None
    else:
        s.shape = (rng.randint(2, 4), rng.randint(2, 4))
        s.rtol, s.atol, s.blend = 10 ** rng.uniform(-4, -1), 10 ** rng.uniform(-6, -2), rng.choice([0.0, rng.uniform(0, 0.9)])
        s.maxits = rng.choice([None, 1, 2, 5, 20])
        s.check_limited, s.wait, s.info = rng.random() < 0.5, rng.random() < 0.3, rng.random() < 0.5
        s.limit_it = rng.choice([0, 1, 3])
        goal = M.np.array([[rng.uniform(-1, 1) for _ in range(s.shape[1])] for _ in range(s.shape[0])])
        gb, rate = rng.choice([0.3, -2.0, 0.0]), rng.choice([0.1, 0.5, 0.8])
        fast, never = rng.choice([1.0, 30.0]), rng.random() < 0.3
        pl, popen = rng.choice([0, 0.3, 1.0]), rng.choice([0, 0, 0.3])

        def script(eq, what):
            eq.n += 1
            a = rate ** eq.n if eq.n < 60 else 0.0
            noise = M.np.array([[rng.uniform(-1, 1) for _ in range(s.shape[1])] for _ in range(s.shape[0])])
            b = None if rng.random() < popen and eq.n < 40 else M.np.float64(gb + a * fast * rng.uniform(-1, 1))
            return goal + a * noise, b, rng.random() < pl or eq.n > 40

    s.constrain = constrain
    s.given = M.real("given") if M.symbolic else rng.choice([None, 0.75])
    eq = s.eq = Plasma(M, s.shape, script)
    s.map0 = eq.map
    if s.constrain:
        eq.moves = not M.symbolic and rng.random() < 0.5

        def adjust(e):
            M.check("constraint applied to this equilibrium", e is eq)
            eq.fresh("adjust")
            eq.log.append(SimpleNamespace(kind="constrain", map=eq.map.copy()))

        kw["constrain"] = adjust
    if not M.symbolic:
        M.np.seterr(all="ignore")
    kw.update(rtol=s.rtol, atol=s.atol, blend=s.blend, maxits=s.maxits, check_limited=s.check_limited, wait_for_limited=s.wait,
              convergenceInfo=s.info, limit_it=s.limit_it, psi_bndry=s.given)
    (symbolic_step if M.symbolic else native_run)(M, s, kw)


def declare():
    for con in (True, False):
        for q, opt in enumerate(OPTIONS):
            nm = "picard-%s-%d" % ("constrained" if con else "free", q)
            contract("C15", nm, [FN], samples=80, feas=100)(lambda M, con=con, opt=opt: picard(M, con, opt))


declare()
