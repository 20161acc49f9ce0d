"""C19: optimisation by differential evolution (freegs.optimiser, freegs.optimise)."""
from types import SimpleNamespace

from pv.registry import contract

OP, OE = "freegs.optimiser", "freegs.optimise"
FN = OP + ".optimise"


class Agent:
    """an object being optimised; its settings are those of `base` but for the changes made"""

    def __init__(self, value, name):
        self.value = value  # value(control index)
        self.name = name
        self.set = {}
        self.origin = None
        self.score = None
        self.closed = self.mutant = False
        self.pop = self.k = self.done = None

    def __deepcopy__(self, memo):
        a = Agent(self.value, "copy of " + self.name)
        a.origin = self
        a.score = None
        return a


class Control:
    def __init__(self, M, i, log):
        self.M, self.i, self.log = M, i, log

    def get(self, agent):
        return agent.value(self.i)

    def set(self, agent, v):
        self.log.append((self, agent, v))


class Random:
    """numpy.random: arbitrary numbers"""

    def __init__(self, M):
        self.M, self.n = M, 0
        self.ints = []

    def _name(self):
        self.n += 1
        return "u%d" % self.n

    def random(self):
        M = self.M
        u = M.real(self._name())
        M.assume(M.And(M.le(0, u), M.lt(u, 1)))
        self.last = u
        return u

    def randint(self, lo, hi):
        M = self.M
        M.check("random integer from a range that is not empty", M.lt(lo, hi))
        r = M.int(self._name())
        M.assume(M.And(M.le(lo, r), M.lt(r, hi)))
        self.ints.append((lo, hi, r))
        return r

    def normal(self, loc=0.0, scale=1.0):
        return self.M.real(self._name())

    def seed(self, *a):
        pass


class Gen:
    """the four loops of optimise: first population, generations, agents, controls"""

    def __init__(self, M, s):
        self.M, self.s = M, s
        for o, c in enumerate((First, Generations, Agents, Controls)):
            M.for_invariant(FN, o, c(M, s, self))

    # an arbitrary population of n agents with their scores, none better than `best`
    def population(self, n, tag):
        M = self.M
        M.n_pop = getattr(M, "n_pop", 0) + 1
        from pv import terms as T

        nm = T.fresh_name(tag)
        sc = M.array(nm + "_score", (n,))
        val = M.func(nm + "_value", 2)

        def agent(k):
            a = Agent(lambda i: val(k, i), nm)
            a.score, a.closed, a.k, a.pop = M.at(sc, k), True, k, nm
            return a

        p = M.seq(n, lambda k: (M.at(sc, k), agent(k)))
        p.scores, p.tag, p.n = sc, nm, n
        return p

    def best(self):
        """the best so far: measured, with the lowest score of all measured"""
        M = self.M
        b = Agent(None, "best")
        b.score, b.closed = M.real(fresh("low")), True
        self.s.low = b.score
        return (b.score, b)

    def lowest(self, pop, best):
        """no member of the population is better than the best"""
        M = self.M
        M.assume_all((pop.n,), lambda k: M.le(best[0], M.at(pop.scores, k)))

    def is_best(self, best, where):
        M, s = self.M, self.s
        M.check(where + ": the best is a measured object with its score", isinstance(best, tuple) and len(best) == 2 and best[1].closed and same(M, best[0], best[1].score))
        M.check(where + ": the best has the lowest score of all", M.eq(best[0], s.low))

    def is_pop(self, lst, n, where):
        M = self.M
        M.check(where + ": size of the population", M.eq(M.length(lst), n))
        M.check_all(where + ": members with their scores", (n,), lambda k: member(M, M.item(lst, k)))


def fresh(base):
    from pv import terms as T

    return T.fresh_name(base)


def same(M, a, b):
    return a is not None and b is not None and M.eq(a, b)


def member(M, m):
    return isinstance(m, tuple) and len(m) == 2 and m[1].closed and same(M, m[0], m[1].score)


class First:
    def __init__(self, M, s, g):
        self.M, self.s, self.g = M, s, g

    def names(self, loop, *nms):
        from pv import core as C

        for n in nms:
            if n not in loop.loc:
                raise C.Unsupported("optimise with other variables")

    def start(self, loop, lo, hi):
        M, s, loc = self.M, self.s, loop.loc
        self.names(loop, "best", "population")
        M.require("all but the first agent are made", M.And(M.eq(lo, 0), M.eq(hi, s.N - 1)))
        self.g.is_best(loc["best"], "start")
        self.g.is_pop(loc["population"], 1, "start")
        M.require("the object given is the first of the population", M.item(loc["population"], 0)[1] is s.obj)
        s.measured = []

    def state(self, loop, k):
        M, s = self.M, self.s
        best, pop = self.g.best(), self.g.population(k + 1, "first")
        self.g.lowest(pop, best)
        s.before = (best, pop)
        set_list(loop.loc["population"], pop)
        s.measured = []
        return {"best": best}

    def step(self, loop, k, loc):
        M, s = self.M, self.s
        best, pop = s.before
        M.require("one agent made and measured", len(s.measured) == 1 and s.measured[0].mutant)
        new = s.measured[0]
        self.g.is_best(loc["best"], "first population")
        lst = loc["population"]
        M.check("one agent more", M.eq(M.length(lst), k + 2))
        M.check_all("agents kept", (k + 1,), lambda q: M.And(M.eq(M.item(lst, q)[0], M.at(pop.scores, q)), M.item(lst, q)[1].pop == pop.tag, M.eq(M.item(lst, q)[1].k, q)))
        last = M.item(lst, k + 1)
        M.check("the new agent joins with its score", last[1] is new and member(M, last))


def set_list(lst, pop):
    """the list object now has arbitrary content"""
    list.clear(lst)
    lst.seq = pop.seq


class Generations(First):
    def start(self, loop, lo, hi):
        M, s, loc = self.M, self.s, loop.loc
        self.names(loop, "best", "population")
        M.require("as many generations as asked for", M.And(M.eq(lo, 0), M.eq(hi, s.maxgen)))
        self.g.is_best(loc["best"], "generations")
        self.g.is_pop(loc["population"], s.N, "generations")

    def state(self, loop, k):
        best, pop = self.g.best(), self.g.population(self.s.N, "pop")
        self.g.lowest(pop, best)
        self.s.monitored = []
        return {"best": best, "population": pop}

    def step(self, loop, k, loc):
        M, s = self.M, self.s
        self.g.is_best(loc["best"], "next generation")
        lst = loc["population"]
        self.g.is_pop(lst, s.N, "next generation")
        M.require("the new agents are the next generation", lst is s.next)
        if s.monitor:
            M.check("monitor called once", len(s.monitored) == 1)
            g, b, p = s.monitored[0]
            M.check("monitor gets generation, best and population", M.And(M.eq(g, k), b is loc["best"], p is s.next))


class Agents(First):
    def start(self, loop, lo, hi):
        M, s, loc = self.M, self.s, loop.loc
        self.names(loop, "best", "population", "next_pop")
        M.require("every agent in turn", M.And(M.eq(lo, 0), M.eq(hi, s.N)))
        M.require("next generation empty at first", M.eq(M.length(loc["next_pop"]), 0))
        self.pop = loc["population"]
        s.old_best = loc["best"]
        self.nxt = loc["next_pop"]

    def state(self, loop, k):
        M, s = self.M, self.s
        best, pop = self.g.best(), self.g.population(k, "next")
        M.assume(M.le(best[0], s.old_best[0]))
        self.g.lowest(pop, best)
        M.assume_all((k,), lambda q: M.le(M.at(pop.scores, q), M.item(self.pop, q)[0]))
        M.assume_all((s.N,), lambda q: M.le(best[0], M.item(self.pop, q)[0]))
        set_list(self.nxt, pop)
        s.before = (best, pop)
        s.measured, s.next, s.sets, s.picked = [], self.nxt, [], []
        s.agent = M.item(self.pop, k)
        return {"best": best}

    def step(self, loop, k, loc):
        M, s = self.M, self.s
        best, pop = s.before
        agent = M.item(self.pop, k)
        M.require("one candidate measured for every agent", len(s.measured) == 1)
        new = s.measured[0]
        M.check("the candidate starts as a copy of this agent", M.And(new.origin is not None, new.origin.pop == self.pop.tag, M.eq(new.origin.k, k)))
        self.g.is_best(loc["best"], "candidate")
        lst = loc["next_pop"]
        M.check("one agent for the next generation", M.eq(M.length(lst), k + 1))
        M.check_all("agents chosen before are kept", (k,), lambda q: M.And(M.eq(M.item(lst, q)[0], M.at(pop.scores, q)), M.item(lst, q)[1].pop == pop.tag, M.eq(M.item(lst, q)[1].k, q)))
        last = M.item(lst, k)
        if M.decide(M.lt(new.score, agent[0])):
            M.check("a better candidate replaces the agent", M.And(last[1] is new, M.eq(last[0], new.score)))
        else:
            M.check("otherwise the agent stays", M.And(last[1].pop == self.pop.tag, M.eq(last[1].k, k) if last[1].k is not None else False, M.eq(last[0], agent[0])))


class Controls(First):
    def start(self, loop, lo, hi):
        M, s, loc = self.M, self.s, loop.loc
        self.names(loop, "new_obj", "others", "R")
        M.require("every control in turn", M.And(M.eq(lo, 0), M.eq(hi, s.nc)))
        M.require("nothing set before", len(s.sets) == 0)
        self.new = loc["new_obj"]
        self.others = loc["others"]
        M.require("three other agents", M.And(M.eq(M.length(self.others), 3), len(s.picked) == 1))
        for q in range(3):
            o = M.item(self.others, q)
            M.check("other agent %d as picked" % q, M.And(o.pop == s.pop_tag(self), M.eq(o.k, s.picked[0][q])))
        los = [x for x in s.random.ints]
        M.require("one of all controls is always changed", M.And(len(los) == 1, M.eq(los[0][0], 0), M.eq(los[0][1], s.nc), M.eq(los[0][2], loc["R"])) if los else False)

    def state(self, loop, k):
        s = self.s
        s.sets = []
        s.random.last = None
        self.new.done = k
        return {}

    def step(self, loop, k, loc):
        M, s = self.M, self.s
        must = M.eq(k, loc["R"])
        u = s.random.last
        if u is not None:
            must = M.Or(must, M.lt(u, s.CR))
        M.check("changed if it is the chosen one or by chance", M.iff(len(s.sets) == 1, must))
        if u is None:
            M.check("left to chance unless it is the chosen one", M.eq(k, loc["R"]))
        M.require("at most one change", len(s.sets) <= 1)
        for c, a, v in s.sets:
            o = [M.item(self.others, q) for q in range(3)]
            M.check("this control of the candidate changed", M.And(M.eq(c.i, k), a is self.new))
            M.check("differential step", M.eq(v, c.get(o[0]) + s.F * (c.get(o[1]) - c.get(o[2]))))
        M.require("candidate not replaced", loc["new_obj"] is self.new and loc["others"] is self.others)


@contract("C19", "evolution", [FN], samples=0, conc=False, feas=300, standin="whole-evolution")
def evolution(M):
    s = SimpleNamespace(low=None, sets=[], picked=[], measured=[], monitored=[], next=None)
    s.N, s.nc, s.maxgen = M.int("N", lo=4), M.int("nc", lo=1), M.int("maxgen", lo=0)
    s.CR, s.F = M.real("CR"), M.real("F")
    s.monitor = M.choice("monitor", [False, True])
    s.random = Random(M)
    obj = s.obj = Agent(M.func("given", 1), "given")
    controls = M.seq(s.nc, lambda i: Control(M, i, s.sets))
    s.pop_tag = lambda c: s.g_agents.pop.tag
    g = Gen(M, s)
    s.g_agents = M.ctx.invariants[(FN, "for", 2)]

    def measure(a):
        M.check("measured once, when complete", a.score is None and (a is obj or a.mutant or a.done is not None and M.decide(M.eq(a.done, s.nc))))
        a.score, a.closed = M.real(fresh("score")), True
        s.low = a.score if s.low is None else M.min(s.low, a.score)
        s.measured.append(a)
        return a.score

    def mutate(o, cs):
        M.require("variations of the object given, by the controls given", o is obj and cs is controls)
        a = Agent(M.func(fresh("mutant"), 1), "mutant")
        a.mutant = True
        return a

    def pick(N, m, e):
        M.require("three of the population but this agent", M.And(M.eq(N, s.N), M.eq(m, 3), M.eq(M.length(e), 1), M.eq(M.item(e, 0), s.agent[1].k)))
        r = [M.int(fresh("pick")) for _ in range(3)]
        M.assume(M.And(*[M.And(M.le(0, x), M.lt(x, s.N), M.Not(M.eq(x, s.agent[1].k))) for x in r]))
        M.assume(M.And(*[M.Not(M.eq(r[a], r[b])) for a, b in ((0, 1), (0, 2), (1, 2))]))
        s.picked.append(r)
        del s.random.ints[:]
        return r

    mod = M.module(OP)
    mod.random = s.random
    mod._set_random_seed_if_called_in_pytest = lambda: None
    M.contracted(OP + ".mutate", mutate)
    M.contracted(OP + ".pickUnique", pick)
    kw = {"monitor": lambda *a: s.monitored.append(a)} if s.monitor else {}
    r = mod.optimise(obj, controls, measure, maxgen=s.maxgen, N=s.N, CR=s.CR, F=s.F, **kw)
    M.check("the best object is returned", M.And(r.closed, M.eq(r.score, s.low)))


def distinct(M, xs):
    return M.And(*[M.Not(M.eq(a, b)) for q, a in enumerate(xs) for b in xs[:q]])


@contract("C19", "picking-others", [OP + ".pickUnique"], samples=60)
def picking(M):
    """every choice of three others, in any order, is possible and belongs to one sequence of random numbers"""
    mod = M.module(OP)
    N = M.int("N", lo=4, sample=(4, 9))
    m = M.choice("m", [1, 2, 3])
    e = [M.int("e", lo=0, sample=(0, 3))]
    M.assume(M.lt(e[0], N))
    if M.symbolic:
        t = [M.int("t%d" % q, lo=0) for q in range(m)]
        M.assume(M.And(*[M.lt(x, N) for x in t]))
        M.assume(distinct(M, e + t))
    else:
        t = M.rng.sample([k for k in range(N) if k != e[0]], m)
    asked = []

    def randint(lo, hi):
        i = len(asked)
        # rank of the wanted value among those not used yet
        r = t[i] - sum(M.If(M.lt(x, t[i]), 1, 0) for x in e + t[:i])
        M.check("as many random numbers as values to pick", i < m)
        M.check("one random number for every value left", M.And(M.eq(lo, 0), M.eq(hi, N - 1 - i)))
        asked.append(r)
        return r

    saved = mod.random
    mod.random = SimpleNamespace(randint=randint)
    try:
        got = mod.pickUnique(N, m, e)
    finally:
        mod.random = saved
    M.check("number of values", len(got) == m and len(asked) == m)
    M.check("the wanted values", M.And(*[M.eq(a, b) for a, b in zip(got, t)]))
    M.check("excluded values kept", len(e) == 1)


@contract("C19", "mutation", [OP + ".mutate"], samples=60)
def mutation(M):
    mod = M.module(OP)
    n = M.choice("controls", [0, 1, 2, 3])
    log = []
    vals = [M.real("v%d" % q, sample=(-3, 3)) for q in range(n)]
    if not M.symbolic:
        vals = [v if M.rng.random() < 0.8 else 0.0 for v in vals]
    obj = Agent(lambda i: vals[i], "given")
    us, zs = [], []

    class R:
        def random(self):
            u = M.real("u%d" % len(us), sample=(0, 1))
            M.assume(M.And(M.le(0, u), M.lt(u, 1)))
            us.append(u)
            return u

        def normal(self, loc=0.0, scale=1.0):
            z = M.real("z%d" % len(zs), sample=(-2, 2))
            zs.append(z)
            M.check("of order one", M.And(M.eq(loc, 0), M.eq(scale, 1)))
            return z

    saved = mod.random
    mod.random = R()
    try:
        new = mod.mutate(obj, [Control(M, q, log) for q in range(n)])
    finally:
        mod.random = saved
    M.check("a copy", new is not obj and new.origin is obj)
    M.check("every control set once on the copy", [c.i for c, a, v in log] == list(range(n)) and all(a is new for c, a, v in log))
    z = iter(zs)
    for (c, a, v), u in zip(log, us):
        near = vals[c.i] * (1 + (u - 0.5) / 10)
        small = M.lt(M.abs(near), 1e-10)
        if M.decide(small) if M.symbolic else small:
            M.check("without a scale: a random value", M.eq(v, near + next(z)))
        else:
            M.check("varied by up to 10%", M.eq(v, near))
    M.check("no further random values", len(us) == n and next(z, None) is None)


class Spot:
    def __init__(self, R, Z):
        self.R, self.Z = R, Z


@contract("C19", "coil-controls", [OE + ".Coil%s.%s" % (c, f) for c in ("Radius", "Height") for f in ("__init__", "set", "get")], samples=120)
def controls(M):
    mod = M.module(OE)
    lo = M.choice("lo", [None, 0]) if M.choice("lower limit given", [False, True]) is False else M.real("lower", sample=(-2, 1))
    hi = M.choice("hi", [None, 0]) if M.choice("upper limit given", [False, True]) is False else M.real("upper", sample=(-1, 2))
    if lo is not None and hi is not None:
        M.assume(M.le(lo, hi))
    x, y, r, z = (M.real(n, sample=(-3, 3)) for n in ("new R", "new Z", "R", "Z"))
    for what in ("Radius", "Height"):
        a, b = Spot(r, z), Spot(r, z)
        eq = SimpleNamespace(tokamak={"P1": a, "P2": b})
        kw = {}
        if lo is not None or M.choice("lower limit passed", [True, False]):
            kw["minimum"] = lo
        if hi is not None:
            kw["maximum"] = hi
        c = getattr(mod, "Coil" + what)("P1", **kw)
        new = x if what == "Radius" else y
        M.check("value of the coil", M.eq(c.get(eq), r if what == "Radius" else z))
        c.set(eq, new)
        low = 0 if what == "Radius" and "minimum" not in kw else lo
        want = new
        if low is not None:
            want = M.max(want, low)
        if hi is not None:
            if low is not None:
                M.assume(M.le(low, hi))
            want = M.min(want, hi)
        M.check("set within the limits", M.eq(a.R if what == "Radius" else a.Z, want))
        M.check("other coordinate kept", M.eq(a.Z if what == "Radius" else a.R, z if what == "Radius" else r))
        M.check("other coils kept", M.And(M.eq(b.R, r), M.eq(b.Z, z)))


@contract("C19", "measures", [OE + "." + f for f in ("max_abs_coil_current", "max_coil_force", "no_wall_intersection", "weighted_sum")], samples=60)
def measures(M):
    mod = M.module(OE)
    n = M.choice("coils", [1, 2, 3])
    cur = [M.real("I%d" % q, sample=(-3, 3)) for q in range(n)]
    F = [(M.real("FR%d" % q, sample=(-3, 3)), M.real("FZ%d" % q, sample=(-3, 3))) for q in range(n)]
    hits = M.choice("hits the wall", [True, False])
    forces = {"P%d" % q: [F[q][0], F[q][1]] for q in range(n)}
    if n > 1 and M.choice("circuit", [False, True]):
        forces = {"P0": forces["P0"], "C": {k: v for k, v in forces.items() if k != "P0"}, "S": {}}
    eq = SimpleNamespace(tokamak=SimpleNamespace(getCurrents=lambda: {"P%d" % q: cur[q] for q in range(n)}, getForces=lambda e=None: M.check("forces with the plasma", e is eq) or forces),
                         getForces=lambda: forces, intersectsWall=lambda: hits)
    big = lambda v, vs: M.And(M.Or(*[M.eq(v, x, scale=1e-6) for x in vs]), *[M.le(x, v, tol=1e-12) for x in vs])
    M.check("largest current", big(mod.max_abs_coil_current(eq), [M.abs(c) for c in cur]))
    M.check("largest force", big(mod.max_coil_force(eq), [M.sqrt(a * a + b * b) for a, b in F]))
    w = mod.no_wall_intersection(eq)
    M.check("walls are avoided", w == float("inf") if hits else M.eq(w, 0))
    k = M.choice("terms", [0, 1, 2, 3])
    fs = [M.real("f%d" % q, sample=(-3, 3)) for q in range(k)]
    ws = [M.real("w%d" % q, sample=(-3, 3)) if M.choice("weight %d" % q, [True, False]) else None for q in range(k)]
    args = []
    for q in range(k):
        g = lambda e, q=q: fs[q] if e is eq else None
        args.append(g if ws[q] is None else (g, ws[q]))
    M.check("weighted sum", M.eq(mod.weighted_sum(*args)(eq), sum((1 if ws[q] is None else ws[q]) * fs[q] for q in range(k)), scale=1.0))


@contract("C19", "equilibrium-is-solved", [OE + ".optimise"], samples=20)
def solved(M):
    mod = M.module(OE)
    log = []
    eq = SimpleNamespace(R=object(), Z=object(), _profiles=object(), _constraints=object(), _pgreen=None)
    green, result, value = object(), object(), M.real("value", sample=(0, 1))
    fails = M.choice("fails", ["no", "solve", "measure"])

    def greens(R, Z):
        M.check("response on the grid of the equilibrium", R is eq.R and Z is eq.Z)
        log.append("greens")
        return green

    def solve(e, profiles, constrain=None, **kw):
        M.check("responses renewed before the solve", e is eq and e._pgreen is green)
        M.check("same profiles and constraints", profiles is eq._profiles and constrain is eq._constraints)
        log.append("solve")
        if fails == "solve":
            raise RuntimeError("no convergence")

    def measure(e):
        log.append("measure")
        if fails == "measure":
            raise ValueError("no separatrix")
        return value

    eq.tokamak = SimpleNamespace(createPsiGreens=greens)
    opts = dict(maxgen=M.int("maxgen", sample=(0, 9)), N=M.int("N", sample=(4, 9)), CR=M.real("CR", sample=(0, 1)), F=M.real("F", sample=(0, 2)), monitor=object())
    ctl = [object()]

    def evolve(obj, controls, score, maxgen=10, N=10, CR=0.3, F=1.0, monitor=None):
        M.check("object and controls handed on", obj is eq and controls is ctl)
        M.check("options handed on", M.And(M.eq(maxgen, opts["maxgen"]), M.eq(N, opts["N"]), M.eq(CR, opts["CR"]), M.eq(F, opts["F"]), monitor is opts["monitor"]))
        v = score(eq)
        if fails == "no":
            M.check("score after solving", M.And(log == ["greens", "solve", "measure"], M.eq(v, value)))
        else:
            M.check("failed solves are never best", v == float("inf"))
        return result

    saved = mod.picard, mod.optimiser
    mod.picard, mod.optimiser = SimpleNamespace(solve=solve), SimpleNamespace(optimise=evolve)
    try:
        r = mod.optimise(eq, ctl, measure, **opts)
    finally:
        mod.picard, mod.optimiser = saved
    M.check("the best is returned", r is result)


@contract("C19", "whole-evolution", [FN], samples=60, sym=False)
def whole(M):
    """bounded: whole runs on points in space"""
    rng, mod = M.rng, M.module(OP)
    n, N, gens = rng.randint(1, 4), rng.randint(4, 8), rng.randint(0, 6)
    CR, F = rng.choice([0.0, 0.3, 1.0]), rng.choice([0.5, 1.0])
    goal = [rng.uniform(-2, 2) for _ in range(n)]

    class Point:
        def __init__(self, x):
            self.x = x

    class Axis:
        def __init__(self, i):
            self.i = i

        def get(self, p):
            return p.x[self.i]

        def set(self, p, v):
            p.x[self.i] = v
            changed.setdefault(id(p), []).append(self.i)

    start = Point([rng.uniform(-2, 2) for _ in range(n)])
    first = list(start.x)
    changed, seen, gen = {}, [], []

    def measure(p):
        v = sum((a - b) ** 2 for a, b in zip(p.x, goal))
        seen.append((v, p, list(p.x), list(changed.get(id(p), []))))
        return v

    def monitor(g, best, pop):
        gen.append((g, best, list(pop)))

    M.np.random.seed(rng.randrange(2 ** 31))
    r = mod.optimise(start, [Axis(i) for i in range(n)], measure, maxgen=gens, N=N, CR=CR, F=F, monitor=monitor)
    M.check("the object given is not changed", start.x == first)
    M.check("every candidate measured", len(seen) == N * (gens + 1))
    M.check("the best of all is returned", any(p is r for _, p, _, _ in seen) and min(v for v, *_ in seen) == sum((a - b) ** 2 for a, b in zip(r.x, goal)))
    M.check("measured objects stay as measured", all(p.x == x for _, p, x, _ in seen))
    M.check("every generation reported", [g for g, *_ in gen] == list(range(gens)))
    pop = [(v, p) for v, p, _, _ in seen[:N]]
    for g, best, nxt in gen:
        new = seen[N * (g + 1):N * (g + 2)]
        M.check("population kept in size", len(nxt) == N)
        for k in range(N):
            v, p, x, ch = new[k]
            M.check("better candidates replace their agent", nxt[k][1] is (p if v < pop[k][0] else pop[k][1]))
            M.check("something changed", len(ch) >= 1 and len(set(ch)) == len(ch))
            ok = any(all(abs(x[i] - (pop[a][1].x[i] + F * (pop[b][1].x[i] - pop[c][1].x[i]) if i in ch else pop[k][1].x[i])) < 1e-9 for i in range(n))
                     for a in range(N) for b in range(N) for c in range(N) if len({a, b, c, k}) == 4)
            M.check("a step by the difference of two others from a third", ok)
        pop = nxt
        M.check("best so far", best[0] == min(v for v, *_ in seen[:N * (g + 2)]))
