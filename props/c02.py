"""C02: evaluating a population gives every individual its own score."""
import concurrent.futures as cf

from props.common import *
from eckity.evaluators import SimplePopulationEvaluator

BOUNDS = ("1-4 individuals evaluated in every possible order, larger "
          "populations (up to 40) in order; thread and process executors; "
          "map and submit; any real score per individual; scores already "
          "present or not; at most one failing individual, raising any of 17 exception types; "
          "multi-objective scores of 2 values; 2-4 trees of 1-9 nodes with any "
          "parsimony weight; 2-3 individuals with equal "
          "concrete genomes, evaluated twice; "
          "copies that share one identity; evaluations that take arbitrarily "
          "long")
OUTSIDE = ("the executors themselves are stubs: tasks run one at a time in "
           "an arbitrary order, process workers see copies; data races inside "
           "user evaluators")


class Boom(Exception):
    pass


ERRORS = {e.__name__: e for e in (
    Boom, ValueError, ZeroDivisionError, TypeError, RuntimeError, KeyError,
    IndexError, OSError, AssertionError, TimeoutError, AttributeError,
    NotImplementedError, OverflowError, FloatingPointError, EOFError,
    MemoryError, StopIteration)}


class Ev(SimpleIndividualEvaluator):
    def __init__(self, scores, fail=None, error="Boom"):
        super().__init__()
        self.scores, self.fail, self.log = scores, fail, []
        self.error = ERRORS[error]

    def evaluate_individual(self, individual):
        k = individual.vector[0]
        self.log.append(k)
        if self.fail is not None and k == self.fail:
            raise self.error("user error")
        return self.scores[k]

    def __deepcopy__(self, memo):
        return self


def _pool(ctx, executor):
    return (cf.ThreadPoolExecutor if executor == "thread"
            else cf.ProcessPoolExecutor)(max_workers=2)


def evaluate(ctx, n, higher, executor, method, stale, schedules=True,
             nice=False, moe=False, rounds=1, default=False, slow=False):
    ctx.flags["schedules"] = schedules
    ctx.flags["slow"] = slow
    if nice:
        at, v = ctx.int("at", 0, n - 1), ctx.real("v")
        scores = [ite(at == i, v, float(-i % 5)) for i in range(n)]
    elif moe:
        scores = [[ctx.real("s"), ctx.real("s")] for _ in range(n)]
    else:
        scores = [ctx.real("s") for _ in range(n)]
    if moe:
        from eckity.multi_objective_evolution.nsga2_fitness import \
            NSGA2Fitness
        inds = [vec("int", [i], fit=NSGA2Fitness(higher_is_better=higher))
                for i in range(n)]
    else:
        inds = [vec("int", [i], ctx.real("old") if stale else None,
                    higher=higher) for i in range(n)]
    ev = Ev(scores)
    given = list(inds)
    sp = Subpopulation(evaluator=ev, creators=TagCreator(None),
                       operators_sequence=[], population_size=n,
                       individuals=given, higher_is_better=higher)
    pop = Population([sp])
    pe = SimplePopulationEvaluator() if default else \
        SimplePopulationEvaluator(executor_method=method)
    pool = _pool(ctx, executor)
    pe.set_executor(pool)
    for r in range(rounds):
        ev.log = []
        if r:
            # a later generation: new genomes, new scores
            scores = ev.scores = {1000 * r + i: ctx.real("s")
                                  for i in range(n)}
            for i, ind in enumerate(inds):
                ind.set_cell_value(0, 1000 * r + i)
                if (r + i) % 2:
                    ind.set_fitness_not_evaluated()
        best = pe.act(pop)
        if slow:
            pool.shutdown()  # whatever was left behind ends
        vals = [scores[ind.vector[0]] for ind in inds]
        ctx.check(len(sp.individuals) == n and all(
            a is b for a, b in zip(sp.individuals, inds)), "same individuals, same "
            "order")
        for ind, v in zip(inds, vals):
            ctx.check(ind.fitness.is_fitness_evaluated(), "evaluated")
            ctx.check(eq(ind.get_pure_fitness(), v),
                      "each individual gets the score of its own genome")
        ctx.check(sorted(ev.log) == sorted(i.vector[0] for i in inds),
                  "every individual is evaluated exactly once")
        ctx.check(any(best is i for i in inds), "the best is a member")
        if not moe:
            vb = scores[best.vector[0]]
            for v in vals:
                ctx.check(no_worse(vb, v, higher), "returns the best")


def twins(ctx, genomes, executor, method, prescored, rounds=2, cache=False):
    """Individuals with equal genomes are individuals of their own; an
    evaluation of the population evaluates all of them, scored or not."""
    ctx.flags["schedules"] = True
    genomes = [tuple(g) for g in genomes]
    log = []

    class Log(SimpleIndividualEvaluator):
        def evaluate_individual(self, individual):
            log.append(individual.id)
            return scores[tuple(individual.vector)]

        def __deepcopy__(self, memo):
            return self

    inds = [vec("int", list(g), fit=SimpleFitness(
        7.0 if p else None, cache=cache)) for g, p in zip(genomes, prescored)]
    sp = Subpopulation(evaluator=Log(), creators=TagCreator(None),
                       operators_sequence=[], population_size=len(inds),
                       individuals=list(inds))
    pe = SimplePopulationEvaluator(executor_method=method)
    pe.set_executor(_pool(ctx, executor))
    for r in range(rounds):
        scores = {g: ctx.real("s") for g in sorted(set(genomes))}
        log.clear()
        pe.act(Population([sp]))
        ctx.check(sorted(log) == sorted(i.id for i in inds),
                  "every individual is evaluated exactly once")
        for ind in inds:
            ctx.check(eq(ind.get_pure_fitness(), scores[tuple(ind.vector)]),
                      "each individual gets its score of this evaluation")


def trees(ctx, sizes, higher, method="map", executor="thread"):
    """Trees of different sizes: the best counts the parsimony weight."""
    ctx.flags["schedules"] = True
    w = ctx.real("w", 0)
    inds = [chain_tree(k, GPFitness(higher_is_better=higher, bloat_weight=w))
            for k in sizes]
    for i, t in enumerate(inds):
        t.tree[-1].value = f"t{i}"
    ev = Scores(lambda i, k: ctx.real("s"))
    sp = Subpopulation(evaluator=ev, creators=TagCreator(None),
                       operators_sequence=[], population_size=len(inds),
                       individuals=list(inds), higher_is_better=higher)
    pe = SimplePopulationEvaluator(executor_method=method)
    pe.set_executor(_pool(ctx, executor))
    best = pe.act(Population([sp]))
    ctx.check(any(best is i for i in inds), "the best is a member")
    val = [aug(ev.memo[genome(t)], len(t.tree), higher, w) for t in inds]
    vb = aug(ev.memo[genome(best)], len(best.tree), higher, w)
    for t, v in zip(inds, val):
        ctx.check(eq(t.get_pure_fitness(), ev.memo[genome(t)]),
                  "each individual gets the score of its own genome")
        ctx.check(no_worse(vb, v, higher), "returns the best")


def failing(ctx, n, executor, method, error="Boom"):
    ctx.flags["schedules"] = True
    fail = ctx.choose(n, "fail")
    ev = Ev([ctx.real("s") for _ in range(n)], fail, error)
    inds = [vec("int", [i], None) for i in range(n)]
    sp = Subpopulation(evaluator=ev, creators=TagCreator(None),
                       operators_sequence=[], population_size=n,
                       individuals=inds)
    pe = SimplePopulationEvaluator(executor_method=method)
    pe.set_executor(_pool(ctx, executor))
    ctx.check(raises(ERRORS[error], lambda: pe.act(Population([sp]))),
              "an error of the user's evaluator reaches the caller")
    for i, ind in enumerate(inds):
        if ind.fitness.is_fitness_evaluated():
            ctx.check(i != fail, "no score for the failed individual")
            ctx.check(eq(ind.get_pure_fitness(), ev.scores[i]),
                      "scores that were stored are right")


def two_subpops(ctx):
    a = Subpopulation(evaluator=Ev([1.0]), creators=TagCreator(None),
                      operators_sequence=[], population_size=1,
                      individuals=[vec("int", [0])])
    b = Subpopulation(evaluator=Ev([1.0]), creators=TagCreator(None),
                      operators_sequence=[], population_size=1,
                      individuals=[vec("int", [0])])
    pe = SimplePopulationEvaluator()
    pe.set_executor(_pool(ctx, "thread"))
    ctx.check(raises(ValueError, lambda: pe.act(Population([a, b]))),
              "more than one sub-population is refused")
    ctx.check(raises(ValueError, lambda: SimplePopulationEvaluator("apply")),
              "unknown method is refused")


def single(ctx, higher):
    """evaluate() of one individual stores and returns it."""
    s = ctx.real("s")
    ev, ind = Ev([s]), vec("int", [0], higher=higher)
    out = ev.act((ind, [ind]))
    ctx.check(out is ind, "returns the individual")
    ctx.check(eq(ind.get_pure_fitness(), s), "stores the score")
    ctx.check(ev.log == [0], "once")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="evaluate", n=2, higher=h, executor="thread", method="map", stale=False)
        yield "copies", dict(of="evaluate", n=3, higher=h, executor="thread", method="submit", stale=True)
        yield "copies", dict(of="evaluate", n=2, higher=h, executor="process", method="submit", stale=False)
        yield "copies", dict(of="trees", sizes=(1, 5, 2), higher=h)
    for h in (False, True):
        for ex in ("thread", "process"):
            for m in ("map", "submit"):
                for n in (1, 2, 3):
                    for stale in (False, True):
                        yield "evaluate", dict(
                            n=n, higher=h, executor=ex, method=m,
                            stale=stale), {"weight": n}
                yield "evaluate", dict(n=25, higher=h, executor=ex, method=m,
                                       stale=False, nice=True,
                                       schedules=False), {"weight": 9}
                yield "evaluate", dict(n=2, higher=h, executor=ex, method=m,
                                       stale=False, rounds=3), {"weight": 5}
                yield "evaluate", dict(n=2, higher=h, executor=ex, method=m,
                                       stale=False, moe=True)
                if T:
                    yield "evaluate", dict(
                        n=4, higher=h, executor=ex, method=m, stale=True), {
                            "weight": 30, "budget": 900}
                    yield "evaluate", dict(
                        n=70, higher=h, executor=ex, method=m, stale=False,
                        nice=True, schedules=False), {"weight": 20}
        for ex in ("thread", "process"):
            for m in ("map", "submit"):
                yield "evaluate", dict(n=2, higher=h, executor=ex, method=m,
                                       stale=True, slow=True)
        yield "evaluate", dict(n=3, higher=h, executor="thread", method="map",
                               stale=False, default=True)
        for sizes in ((1, 5, 2), (3, 1, 2), (2, 4), (1, 6, 2, 9)):
            yield "trees", dict(sizes=sizes, higher=h), {
                "weight": 2 * len(sizes)}
        yield "single", dict(higher=h)
    for ex in ("thread", "process"):
        for m in ("map", "submit"):
            for n in (1, 3):
                yield "failing", dict(n=n, executor=ex, method=m)
            for g in (((0, 1), (0, 1)), ((1, 0), (0, 1), (1, 0))):
                for pre in ((False, False, False), (True, False, True)):
                    for c in (False, True):
                        yield "twins", dict(genomes=g, executor=ex, method=m,
                                            prescored=pre, cache=c)
            for e in sorted(ERRORS):
                if (e, m) != ("StopIteration", "map"):
                    yield "failing", dict(n=2, executor=ex, method=m, error=e)
    yield "two_subpops", {}
