"""C25: a sub-population and a run are set up as they were configured."""
from props.common import *
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders import Breeder, SimpleBreeder
from eckity.creators import GAIntVectorCreator
from eckity.evaluators import PopulationEvaluator, SimplePopulationEvaluator
from eckity.genetic_operators import (
    IntVectorOnePointMutation, TournamentSelection)
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.statistics import (
    BestAverageWorstStatistics, MinimalPrintStatistics)

BOUNDS = ("1-4 creators (6 thorough) with arbitrary real probabilities, and "
          "nine usual distributions of doubles; 1-12 with the default ones; elitism rates 0-1 with populations of "
          "1-200; any combination of three terminal types, four function "
          "signatures, result type and constant type for typed trees; every "
          "kind of wrong argument the constructors document")
OUTSIDE = ("sums of creation probabilities that miss 1 by less than 1e-6 but "
           "more than rounding; elitism rates exactly between two counts; "
           "the frequencies of the creators")
ASSUMPTIONS = ["random.choices picks any entry of positive weight and no "
               "other"]


class Made(Creator):
    def __init__(self, tag, log):
        super().__init__()
        self.tag, self.log = tag, log

    def create_individuals(self, n_individuals, higher_is_better):
        self.log.append((self.tag, n_individuals, higher_is_better))
        return [vec("int", [self.tag, i], higher=higher_is_better)
                for i in range(n_individuals)]

    def __deepcopy__(self, memo):
        return self


def sub(creators, n=2, **kw):
    kw.setdefault("operators_sequence",
                  [IntVectorOnePointMutation(probability=0.0)])
    return Subpopulation(evaluator=Scores(lambda i, k: 0.0),
                         creators=creators, population_size=n, **kw)


def probabilities(ctx, m, dists=None):
    """Probabilities are accepted iff they sum to one (up to rounding), and
    one creator of positive probability makes the whole population."""
    log = []
    if dists:
        p = list(DISTS[ctx.choose(len(DISTS), "dist")])
        ok, m = True, len(p)
    else:
        p = [ctx.real("p", 0, 2) for _ in range(m)]
        total = sum(p[1:], p[0])
        off = ite(total >= 1, total - 1, 1 - total)
        ctx.assume(lor(off == 0, off > 1e-6))
        ok = off == 0
    cr = [Made(i, log) for i in range(m)]
    n = ctx.choose(3, "n") + 1
    h = ctx.choose(2, "h") == 1
    s = None
    try:
        s = sub(cr, n, pcr=p, higher_is_better=h)
    except ValueError:
        ctx.check(lnot(ok), "a proper distribution is accepted")
        return
    ctx.check(ok, "an improper one is refused")
    Population([s]).create_population_individuals()
    ctx.check(len(log) == 1, "one creator makes the population")
    tag, k, hb = log[0]
    ctx.check(k == n and hb == h, "of the right size and direction")
    ctx.check([i.vector for i in s.individuals] ==
              [[tag, i] for i in range(n)], "and its individuals are used")
    ctx.check(p[tag] > 0, "it has a positive probability")


DISTS = ([0.1] * 10, [0.7, 0.2, 0.1], [0.1, 0.2, 0.7], [1 / 3] * 3,
         [1 / 49] * 49, [0.1, 0.7, 0.1, 0.1], [1.0], [0, 1, 0], [0.0, 1.0])


def default_probabilities(ctx, m, single=False):
    """Without probabilities every creator may be chosen."""
    log = []
    cr = [Made(i, log) for i in range(m)]
    want = ctx.choose(m, "want")
    s = sub(cr[0] if single else cr, 2)
    s.create_subpopulation_individuals()
    ctx.check(len(log) == 1 and 0 <= log[0][0] < m, "one of them")
    # uniform: the library's own weights, given to random.choices
    calls = []
    import eckity.subpopulation as mod
    real = mod.random.choices

    def spy(population, weights=None, **kw):
        calls.append((list(population), weights))
        return [population[want]]
    mod.random.choices = spy
    try:
        t = sub(cr[0] if single else cr, 2)
        t.create_subpopulation_individuals()
    finally:
        mod.random.choices = real
    for pop, w in calls:
        ctx.check(len(pop) == m, "all creators are candidates")
        ctx.check(w is None or all(abs(x - 1 / m) < 1e-9 for x in w),
                  "equally likely")


def given(ctx, n):
    """Given individuals are used as they are; nobody creates others."""
    log = []
    inds = [vec("int", [ctx.int("g", 0, 9), i]) for i in range(n)]
    # also fewer or more of them than the configured size
    s = sub(Made(0, log), 1 + ctx.choose(4, "size"), individuals=inds)
    p = Population([s])
    for _ in range(2):
        p.create_population_individuals()
        ctx.check(log == [], "no creator runs")
        ctx.check(len(s.individuals) == n and all(
            a is b for a, b in zip(s.individuals, inds)),
            "the given individuals stay")
    log2 = []
    t = sub(Made(1, log2), 2)
    q = Population([s, t])
    q.create_population_individuals()
    q.create_population_individuals()
    ctx.check(log == [] and len(log2) == 1, "each is created once, if needed")


def elites(ctx, size, dom="real"):
    """As many elites as the rate asks for, to the nearest."""
    r = ctx.real("rate", 0, 1)
    x = r * size
    s = sub(Made(0, []), size, elitism_rate=r)
    ctx.check(land(s.n_elite - x <= 0.5, x - s.n_elite <= 0.5),
              "the nearest count")
    ctx.check(land(s.n_elite >= 0, s.n_elite <= size), "at most everybody")


def defaults(ctx):
    s = Subpopulation(evaluator=Scores(lambda i, k: 0.0),
                      creators=Made(0, []),
                      operators_sequence=[IntVectorOnePointMutation()])
    ctx.check(s.population_size == 200 and s.n_elite == 0 and
              s.higher_is_better is False and s.individuals is None,
              "defaults")
    (m, p), = s.get_selection_methods()
    ctx.check(isinstance(m, TournamentSelection) and p == 1 and
              m.tournament_size == 10, "tournaments of ten by default")
    other = Subpopulation(evaluator=Scores(lambda i, k: 0.0),
                          creators=Made(0, []),
                          operators_sequence=[IntVectorOnePointMutation()])
    ctx.check(other.get_selection_methods()[0][0] is not m,
              "not shared between sub-populations")


def bad_sub(ctx):
    c = Made(0, [])
    bad = [dict(creators=None), dict(creators=[]), dict(creators="x"),
           dict(creators=[c, 3]), dict(creators=3),
           dict(creators=[c], pcr=[0.5, 0.5]), dict(creators=[c, c],
                                                    pcr=[1]),
           dict(creators=[c], pcr=[]), dict(creators=[c], pcr=[0.3]),
           dict(creators=[c, c], pcr=[0.9, 0.3]),
           dict(creators=c, operators_sequence=None)]
    kw = bad[ctx.choose(len(bad), "bad")]
    ctx.check(raises(ValueError, lambda: sub(**kw)), "refused")


class OtherBreeder(Breeder):
    def apply_breed(self, population):
        pass


class OtherEvaluator(PopulationEvaluator):
    pass


def bad_run(ctx, algo):
    ok = sub(Made(0, []))
    cls = SimpleEvolution if algo == "simple" else NSGA2Evolution
    bad = [dict(population=None), dict(population=3),
           dict(population=[ok, 3]), dict(population=[]),
           dict(population=Made(0, [])), dict(statistics=3),
           dict(statistics=[3]), dict(statistics="baw"),
           dict(statistics=[BestAverageWorstStatistics(), None]),
           dict(executor="processes"), dict(executor=None)]
    if algo == "simple":
        bad += [dict(breeder=OtherBreeder()), dict(breeder=3),
                dict(population_evaluator=OtherEvaluator()),
                dict(population_evaluator=3)]
    kw = dict(population=ok)
    kw.update(bad[ctx.choose(len(bad), "bad")])
    ctx.check(raises(ValueError, lambda: cls(**kw)), "refused")


def good_run(ctx, algo, shape):
    """Every documented way to pass the population and statistics."""
    subs = [sub(Made(i, [])) for i in range(2)]
    pop = {"sub": subs[0], "list": list(subs), "one": [subs[0]],
           "pop": Population(subs)}[shape]
    st = ctx.choose(3, "st")
    a1, a2 = BestAverageWorstStatistics(), MinimalPrintStatistics()
    stats = [None, a1, [a1, a2]][st]
    cls = SimpleEvolution if algo == "simple" else NSGA2Evolution
    g = ctx.int("gens", 0, 1000)
    ex = ["thread", "process"][ctx.choose(2, "ex")]
    a = cls(pop, statistics=stats, max_generation=g, executor=ex)
    want = subs[:1] if shape in ("sub", "one") else subs
    got = a.population.sub_populations
    ctx.check(isinstance(a.population, Population) and
              len(got) == len(want) and all(
                  x is y for x, y in zip(got, want)), "the population")
    ctx.check([id(x) for x in a.statistics] ==
              [id(x) for x in [[], [a1], [a1, a2]][st]], "the statistics")
    ctx.check(eq(a.max_generation, g), "the generations")
    ctx.check(type(a.executor).__name__.lower().startswith(ex),
              "the executor")


def run_defaults(ctx, algo):
    """A run given a population only is set up as documented; what it makes
    for itself is its own."""
    from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
    cls = SimpleEvolution if algo == "simple" else NSGA2Evolution
    a, b = cls(sub(Made(0, []))), cls(sub(Made(0, [])))
    for r in (a, b):
        ctx.check(r.generation_num == 0, "generations")
        ctx.check(type(r.breeder) is (
            SimpleBreeder if algo == "simple" else NSGA2Breeder), "breeder")
        ctx.check(type(r.population_evaluator) is SimplePopulationEvaluator,
                  "evaluator")
        ctx.check(r.statistics == [] and r.termination_checker is None and
                  r.best_of_run_ is None and r.final_generation_ is None,
                  "nothing else")
        ctx.check(type(r.executor).__name__.lower().startswith("thread"),
                  "executor")
    for x in ("breeder", "population_evaluator", "statistics", "population",
              "events"):
        ctx.check(getattr(a, x) is not getattr(b, x), "its own " + x)


T3 = (int, float, bool)


def fn_ff(x: float, y: float) -> float:
    return x + y


def fn_if(x: int) -> float:
    return x * 1.0


def fn_fb(x: float) -> bool:
    return x > 0


def fn_bi(x: bool) -> int:
    return 1 if x else 0


FN = ((fn_ff, (float, float), float), (fn_if, (int,), float),
      (fn_fb, (float,), bool), (fn_bi, (bool,), int))


def typed_sets(ctx):
    """Typed trees: accepted iff the documented conditions hold."""
    fns = [f for f in FN if ctx.choose(2, "f")]
    terms = {f"t{i}": t for i, t in enumerate(T3) if ctx.choose(2, "t")}
    root = T3[ctx.choose(3, "root")]
    erc = [None, (0, 5), (0.0, 5.0)][ctx.choose(3, "erc")]
    ett = None if erc is None else type(erc[0])
    rets = {r for _, _, r in fns}
    args = {a for _, aa, _ in fns for a in aa}
    have = set(terms.values()) | ({ett} if ett else set())
    ok = root in rets and (ett is None or ett in rets) and args == have
    try:
        Tree(fitness=GPFitness(), function_set=[f for f, _, _ in fns],
             terminal_set=dict(terms), root_type=root, erc_range=erc)
    except ValueError:
        ctx.check(not ok, "a consistent setting is accepted")
        return
    ctx.check(ok, "an inconsistent one is refused")


def tree_args(ctx):
    mk = lambda **kw: lambda: Tree(**dict(dict(
        fitness=GPFitness(), function_set=[u_add], terminal_set=["x"]),
        **kw))
    bad = [dict(function_set=None), dict(terminal_set=None),
           dict(function_set=[u_add, 3]), dict(terminal_set="x"),
           dict(terminal_set=("x",)), dict(function_set=[fn_ff]),
           dict(function_set=[fn_ff], terminal_set={"x": "float"},
                root_type=float),
           dict(function_set=[fn_ff], terminal_set={"x": float}),
           dict(function_set=[fn_ff], terminal_set={"x": float},
                root_type=int)]
    kw = bad[ctx.choose(len(bad), "bad")]
    ctx.check(raises(ValueError, mk(**kw)), "refused")
    t = mk()()
    ctx.check(t.terminal_set == {"x": None} and t.tree == [], "an empty tree")
    u = mk()()
    ctx.check(u.tree is not t.tree, "not shared")


def jobs(tier):
    T = tier == "thorough"
    for m in (1, 2, 3, 4):
        yield "probabilities", dict(m=m)
    yield "probabilities", dict(m=0, dists=True)
    yield "default_probabilities", dict(m=1, single=True)
    for m in range(1, 13):
        yield "default_probabilities", dict(m=m)
    for n in (0, 1, 2, 3):
        yield "given", dict(n=n)
    for size in (1, 2, 3, 4, 5, 7, 10) + ((20, 50, 200) if T else ()):
        yield "elites", dict(size=size)
    yield "defaults", {}
    yield "bad_sub", {}
    for algo in ("simple", "nsga2"):
        yield "bad_run", dict(algo=algo)
        yield "run_defaults", dict(algo=algo)
        for shape in ("sub", "list", "one", "pop"):
            yield "good_run", dict(algo=algo, shape=shape)
    yield "typed_sets", {}
    yield "tree_args", {}
    if T:
        for m in (5, 6):
            yield "probabilities", dict(m=m), {"budget": 600}
