"""C19: life cycle of a run: number of generations, stopping, seeds."""
from props.common import *
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.evaluators import SimplePopulationEvaluator
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.random import RNG
from eckity.termination_checkers import TerminationChecker

BOUNDS = ("limits of 0-4 generations with every sequence of verdicts of 1-2 "
          "termination checkers, up to 40 generations with the stop at an "
          "arbitrary generation, 1-3 individuals, single- and "
          "multi-objective runs; any 32-bit seed and generation seed")
OUTSIDE = "runs that are evolved a second time"
U32 = 2 ** 32


class Verdicts(TerminationChecker):
    """User-style checker whose verdicts are arbitrary."""

    def __init__(self, verdict):
        super().__init__()
        self.verdict = verdict
        self.calls = []

    def should_terminate(self, population, best_individual, gen_number):
        v = self.verdict(len(self.calls))
        self.calls.append((gen_number, v, population, best_individual))
        return v

    def __deepcopy__(self, memo):
        return self


def make(ctx, algo, n, gens, checker, seed=7, score=None, ops=None, **kw):
    moo = algo == "nsga2"
    if moo:
        ctx.flags["bits_free"] = 0
    ev = Scores(score or (lambda i, k: [float(i % 3), float(i % 2)] if moo
                          else float((i * 5) % 7)))

    def mk(i, h):
        return fresh(vec(
            "int", [i, 0], bounds=(0, 10 ** 6),
            fit=NSGA2Fitness(higher_is_better=False) if moo else
            SimpleFitness(higher_is_better=h)))
    sub = Subpopulation(evaluator=ev, creators=TagCreator(mk),
                        operators_sequence=[Retag([100])] if ops is None
                        else ops,
                        selection_methods=[(CloneAll(), 1)],
                        elitism_rate=0.0, population_size=n,
                        higher_is_better=False)
    cls = NSGA2Evolution if moo else SimpleEvolution
    a = cls(sub, max_generation=gens, executor="thread",
            population_evaluator=SimplePopulationEvaluator(),
            termination_checker=checker, random_seed=seed, **kw)
    return a, sub, ev


def lifecycle(ctx, algo, gens, n=2, checkers=1, none=False):
    log = []
    cs = [Verdicts(lambda k: ctx.bool("stop")) for _ in range(checkers)]
    arg = None if none else cs[0] if checkers == 1 else cs
    a, sub, ev = make(ctx, algo, n, gens, arg)
    a.register("init", lambda s, d: log.append(("init", s.generation_num)))
    a.register("after_generation", lambda s, d: log.append(
        ("gen", d["generation_num"])))
    a.register("evolution_finished", lambda s, d: log.append(
        ("end", s.generation_num)))
    a.evolve()
    told = [c[0] for c in cs[0].calls]
    ran = a.final_generation_
    ctx.check(between(0, ran, gens), "at most max_generation generations")
    ctx.check(log[0] == ("init", 0), "init first")
    ctx.check(log[-1] == ("end", ran), "evolution_finished last")
    mid = log[1:-1]
    if ran == 0 and gens > 0:
        ctx.check(mid == [("gen", 0)], "after_generation once")
    elif ran == 0:
        ctx.check(mid in ([], [("gen", 0)]), "after_generation once")
    else:
        ctx.check(mid == [("gen", g) for g in range(1, ran + 1)],
                  "after_generation once per generation")
    ctx.check(a.generation_num == ran, "generation_num")
    per = 2 * n if algo == "nsga2" else n
    ctx.check(len(ev.log) == n + per * ran, "evaluations")
    ctx.check(len(sub.individuals) == n, "population size")
    for i in sub.individuals:
        ctx.check(i.gen == ran, "individuals know their generation")
    if none:
        ctx.check(ran == gens, "without a checker all generations run")
        return
    for c in cs:
        ctx.check([x[0] for x in c.calls] == list(range(0, ran + 1)),
                  "every checker is asked after every generation")
        ctx.check(all(x[2] is a.population for x in c.calls),
                  "about the population of the run")
    for g in range(ran + 1):
        stop = lor(*[c.calls[g][1] for c in cs])
        if g < ran:
            ctx.check(lnot(stop), "stops at the first generation it should")
        elif ran < gens:
            ctx.check(stop, "stops early only when told to")


def best_seen(ctx, gens):
    """The checker is shown the best individual so far."""
    seen = []

    class C(TerminationChecker):
        def should_terminate(self, population, best_individual, gen_number):
            seen.append((gen_number, genome(best_individual),
                         best_individual.get_pure_fitness(),
                         len(ev.log)))
            return False
    a, sub, ev = make(ctx, "simple", 2, gens, C(),
                      score=lambda i, k: ctx.real("s"))
    a.evolve()
    ctx.check(len(seen) == gens + 1, "asked after every generation")
    for gen, g, s, upto in seen:
        ctx.check(eq(ev.memo[g], s), "its score")
        ctx.check(land(*[s <= v for _, _, v in ev.log[:upto]]),
                  "the best of all so far")


def long(ctx, algo, gens):
    """One stop, at an arbitrary generation (or none)."""
    at = ctx.int("at", 0, gens + 1)
    c = Verdicts(lambda k: at == k)
    a, sub, ev = make(ctx, algo, 2, gens, c)
    n = []
    a.register("after_generation", lambda s, d: n.append(
        d["generation_num"]))
    a.evolve()
    ctx.check(a.final_generation_ == ite(at < gens, at, gens),
              "stops exactly there")
    ctx.check(len(n) == ite(at == 0, 1, a.final_generation_),
              "after_generation once per generation")


class Recorder(RNG):
    def __init__(self):
        super().__init__()
        self.seeds = []

    def set_seed(self, seed):
        self.seeds.append(seed)
        super().set_seed(seed)


def seeds(ctx, algo, gens, gen_seed=False, own=False, near=None):
    """Both random modules are seeded with the seed, then with one more per
    generation."""
    s = ctx.int("seed", 0, U32 - 1) if near is None else \
        U32 - 1 - near * ctx.choose(3, "back")
    kw = {}
    first = s
    if gen_seed:
        g = ctx.int("gseed", 0, U32 - 1)
        kw["generation_seed"] = g
        first = g
    rec = Recorder()
    if own:
        kw["random_generator"] = rec
    marks = []
    a, sub, ev = make(ctx, algo, 1, gens, None, seed=s, **kw)
    a.register("init", lambda x, d: marks.append(len(
        ctx.state.get("seed_log", []))))
    a.register("after_generation", lambda x, d: marks.append(len(
        ctx.state.get("seed_log", []))))
    a.evolve()
    log = ctx.state.get("seed_log", [])
    for mod in ("py", "np"):
        got = [v for m, v in log if m == mod]
        want = [s] + [(first + i) % U32 for i in range(1, gens + 1)]
        ctx.check(len(got) == len(want), "seeded once per generation")
        ctx.check(eq(got, want), f"seed sequence of {mod}")
    ctx.check(eq(a.generation_seed, (first + gens) % U32),
              "generation_seed")
    ctx.check(eq(a.random_seed, s), "random_seed is kept")
    if own:
        ctx.check(len(rec.seeds) == gens + 1, "the given generator is used")
    ctx.check(marks == [2 + 2 * g for g in range(gens + 1)],
              "seeded before the population and before each generation")


CLOCK = (1700000999.1234567, 1763517600.5, 1763517600.0, 1763519999.999999,
         4294967296.25, 0.5)


def time_seed(ctx):
    """Without a seed one is made up; it fits both modules."""
    import eckity.algorithms.algorithm as mod
    clock = getattr(mod, "time", None)
    if callable(clock):
        now = ctx.pick(CLOCK, "now")
        mod.time = lambda: now
    try:
        a, sub, ev = make(ctx, "simple", 1, 1, None, seed=None)
    finally:
        if callable(clock):
            mod.time = clock
    ctx.check(isinstance(a.random_seed, int) and
              0 <= a.random_seed < U32, "a 32-bit seed")
    a.evolve()
    log = [v for m, v in ctx.state["seed_log"] if m == "np"]
    ctx.check(log == [a.random_seed, (a.random_seed + 1) % U32],
              "and it is used")


def given(ctx, n, gens):
    """Individuals that were handed in are evolved, not replaced."""
    a, sub, ev = make(ctx, "simple", n, gens, None)
    inds = [vec("int", [50 + i, 0], bounds=(0, 10 ** 6)) for i in range(n)]
    sub.individuals = list(inds)
    a.evolve()
    ctx.check([k for k, _, _ in ev.log[:n]] ==
              [(50 + i, 0) for i in range(n)], "the given individuals")


def jobs(tier):
    T = tier == "thorough"
    for algo in ("simple", "nsga2"):
        for gens in (0, 1, 2, 3, 4):
            yield "lifecycle", dict(algo=algo, gens=gens)
        for gens in (0, 1, 3):
            yield "lifecycle", dict(algo=algo, gens=gens, none=True)
            yield "lifecycle", dict(algo=algo, gens=gens, checkers=2)
        yield "lifecycle", dict(algo=algo, gens=2, n=1)
        yield "lifecycle", dict(algo=algo, gens=2, n=3)
        yield "lifecycle", dict(algo=algo, gens=2, checkers=3)
        yield "long", dict(algo=algo, gens=12), {"weight": 5}
        for gens in (0, 1, 3):
            yield "seeds", dict(algo=algo, gens=gens)
            yield "seeds", dict(algo=algo, gens=gens, gen_seed=True)
            yield "seeds", dict(algo=algo, gens=gens, own=True)
        yield "seeds", dict(algo=algo, gens=6)
        yield "seeds", dict(algo=algo, gens=20, near=7)
    yield "long", dict(algo="simple", gens=40), {"weight": 9}
    for g in (0, 1, 2):
        yield "best_seen", dict(gens=g)
    yield "time_seed", {}
    yield "given", dict(n=1, gens=1)
    yield "given", dict(n=3, gens=2)
    if T:
        for algo in ("simple", "nsga2"):
            yield "lifecycle", dict(algo=algo, gens=8, checkers=2), {
                "weight": 50, "budget": 600}
            yield "lifecycle", dict(algo=algo, gens=9), {
                "weight": 50, "budget": 600}
            yield "seeds", dict(algo=algo, gens=10), {"weight": 50}
            yield "seeds", dict(algo=algo, gens=150, near=70), {"weight": 50}
        yield "long", dict(algo="nsga2", gens=40), {"weight": 50}
        yield "long", dict(algo="simple", gens=150), {"weight": 50,
                                                      "budget": 900}
        yield "best_seen", dict(gens=3), {"weight": 50, "budget": 900}
