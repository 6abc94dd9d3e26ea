"""C23: runs, populations and individuals survive serialization."""
import copy
import pickle
from props.common import *
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.evaluators import SimplePopulationEvaluator
from eckity.genetic_operators import *
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.random import RNG
from eckity.statistics import (
    BestAverageWorstStatistics, MinimalPrintStatistics)
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker

BOUNDS = ("individuals of every representation with 1-3 cells / 1-5 nodes "
          "and any values, scored or not, cached or not; algorithms before "
          "and after runs of 0-2 generations with 1-3 individuals, both "
          "executors; every library operator and selection; individuals of up to 70 cells / 50 nodes with few arbitrary values; pickling (all protocols) and deep copies, up to two "
          "round trips")
OUTSIDE = "callbacks and user classes that cannot be pickled themselves"


class Plain(SimpleIndividualEvaluator):
    """A picklable evaluator."""

    def evaluate_individual(self, individual):
        v = individual.vector
        return v[0] + v[-1]


class PlainTwo(SimpleIndividualEvaluator):
    def evaluate_individual(self, individual):
        v = individual.vector
        return [v[0], -v[0] + v[-1]]


class Fixed(Creator):
    """A picklable creator with given genomes."""

    def __init__(self, genomes, cache=False, moo=False):
        super().__init__()
        self.genomes, self.cache, self.moo = genomes, cache, moo

    def create_individuals(self, n_individuals, higher_is_better):
        return [vec("int", list(g), bounds=(0, 99), fit=NSGA2Fitness(
            higher_is_better=False, cache=self.cache) if self.moo else
            SimpleFitness(higher_is_better=higher_is_better,
                          cache=self.cache)) for g in self.genomes]


def trip(x, how):
    if how == "deepcopy":
        return copy.deepcopy(x)
    if how == "twice":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(x))))
    if how == "default":
        return pickle.loads(pickle.dumps(x))
    return pickle.loads(pickle.dumps(x, int(how)))


HOWS = ("default", "deepcopy", "twice")


def individual(ctx, kind, how, scored, cache, higher, rel=False):
    s = ctx.real("s") if scored else None
    if kind == "tree":
        w = ctx.real("w", 0)
        fit = GPFitness(s, higher_is_better=higher, cache=cache,
                        is_relative_fitness=rel, bloat_weight=w)
        ind = tree_ind([FunctionNode(u_add), FunctionNode(u_inc),
                        TerminalNode("x"), TerminalNode(ctx.real("c"))],
                       functions=(u_add, u_inc), fit=fit,
                       erc_range=(-5, 5))
    else:
        fit = SimpleFitness(s, higher_is_better=higher, cache=cache,
                            is_relative_fitness=rel)
        cells = [ctx.int("c", 0, 1 if kind == "bit" else 9) for _ in
                 range(3)] if kind != "float" else [
            ctx.real("c", 0, 9) for _ in range(3)]
        ind = vec(kind, cells, fit=fit, bounds=(0, 1) if kind == "bit" else
                  (0, 9), update_parents=True)
        ind.parents.append(7)
    ind.gen = 4
    ind.selected_by.append("Sel")
    ind.applied_operators.append("Op")
    out = trip(ind, how)
    ctx.check(out is not ind and out.fitness is not ind.fitness,
              "a separate object")
    ctx.check(type(out) is type(ind), "same class")
    ctx.check(eq(genome(out), genome(ind)), "same genome")
    ctx.check(out.id == ind.id and out.gen == 4 and
              out.selected_by == ["Sel"] and
              out.applied_operators == ["Op"] and
              out.cloned_from == ind.cloned_from, "same records")
    ctx.check(out.fitness.higher_is_better == higher and
              out.fitness.is_relative_fitness == rel and
              out.fitness.cache == ind.fitness.cache, "same kind of score")
    if kind == "tree":
        ctx.check(all(type(a) is type(b) and a.node_type == b.node_type
                      for a, b in zip(out.tree, ind.tree)), "same nodes")
        ctx.check(all(a is not b for a, b in zip(out.tree, ind.tree)),
                  "own nodes")
        ctx.check(eq(out.execute(x=2, y=3), ind.execute(x=2, y=3)),
                  "same program")
        ctx.check(eq(out.fitness.bloat_weight, w), "same bloat weight")
    else:
        ctx.check(eq(out.bounds, ind.bounds) and out.parents == [7],
                  "same bounds and parents")
        ctx.check(out.vector is not ind.vector, "own genome")
    # a relative score is never cached
    keeps = scored and cache and not rel
    if not keeps:
        ctx.check(raises(ValueError, out.get_pure_fitness),
                  "a copy without a score does not claim one")
        ctx.check(raises(ValueError, out.get_augmented_fitness),
                  "a copy without a score does not claim one")
    # (a relative score never says it has to be evaluated)
    ctx.check(out.fitness.is_fitness_evaluated() == (keeps or rel),
              "scores travel iff they are cached")
    if keeps:
        ctx.check(eq(out.get_pure_fitness(), s), "same score")
        ctx.check(eq(out.get_augmented_fitness(),
                     ind.get_augmented_fitness()), "same augmented score")
    ctx.check(ind.fitness.is_fitness_evaluated() == (scored or rel),
              "the original is untouched")
    if scored:
        ctx.check(eq(ind.get_pure_fitness(), s), "the original keeps its "
                  "score")


def large(ctx, kind, n, how, cache=True):
    """Large individuals, in a population of several."""
    at = ctx.pick((0, n // 2, n - 1), "at")
    inds = []
    for i in range(6):
        s = ctx.real("s") if i < 2 else float(i)
        if kind == "tree":
            t = chain_tree(n, GPFitness(s, cache=cache, bloat_weight=0.5))
            t.tree[-1].value = ctx.real("c") if i == 1 else float(i)
            inds.append(t)
        else:
            v = [j % 2 if kind == "bit" else (j * (i + 3)) % 50
                 for j in range(n)]
            v[at] = ctx.int("c", 0, 1) if kind == "bit" else ctx.int(
                "c", 0, 99) if i == 1 else v[at]
            inds.append(vec(kind, v, s, bounds=(0, 1) if kind == "bit" else
                            (0, 99)))
            inds[-1].fitness.cache = cache
    sp = Subpopulation(evaluator=Plain(), creators=Fixed([]),
                       operators_sequence=[], population_size=6,
                       individuals=list(inds))
    out = trip(Population([sp]), how).sub_populations[0].individuals
    ctx.check(len(out) == 6, "same individuals")
    for x, y in zip(out, inds):
        ctx.check(x is not y and x.id == y.id, "same individuals, own "
                  "objects")
        ctx.check(eq(genome(x), genome(y)), "same genome")
        ctx.check(x.size() == y.size() == n, "same size")
        if cache:
            ctx.check(eq(x.get_pure_fitness(), y.get_pure_fitness()),
                      "cached scores travel")
        ctx.check(x.fitness.is_fitness_evaluated() == cache and
                  y.fitness.is_fitness_evaluated(), "scores travel iff "
                  "cached")
    parts = [p for i in list(out) + inds for p in (
        i.tree if kind == "tree" else [i.vector])]
    ctx.check(distinct_objs(parts), "nothing is shared")


def make(ctx, algo, n, gens, executor="thread", cache=False, seed=5,
         checker=None, workers=3):
    moo = algo == "nsga2"
    if moo:
        ctx.flags["bits_free"] = 0
    g = [[ctx.int("g", 0, 99), i] for i in range(n)]
    sub = Subpopulation(evaluator=PlainTwo() if moo else Plain(),
                        creators=Fixed(g, cache, moo),
                        operators_sequence=[
                            IntVectorOnePointMutation(probability=0.0)
                            if n % 2 else VectorKPointsCrossover(
                                probability=0.0, k=1)],
                        selection_methods=[(TournamentSelection(
                            1, higher_is_better=False), 1)],
                        elitism_rate=0.0, population_size=n)
    kw = dict(breeder=SimpleBreeder()) if not moo else {}
    return (NSGA2Evolution if moo else SimpleEvolution)(
        sub, max_generation=gens, random_seed=seed, executor=executor,
        max_workers=workers, termination_checker=checker,
        statistics=[MinimalPrintStatistics()] if not moo else None,
        population_evaluator=SimplePopulationEvaluator(), **kw)


def algorithm(ctx, algo, how, when, n=2, gens=1, executor="thread",
              cache=False, workers=3):
    """A run is stored before or after it; the copy has the same settings,
    population and results, and a working executor."""
    ctx.flags["idx_free"] = 0
    thr = ctx.real("thr", 0, 1)
    a = make(ctx, algo, n, gens, executor, cache,
             checker=ThresholdFromTargetTerminationChecker(-1000, thr)
             if algo == "simple" else None, workers=workers)
    if when == "after":
        a.evolve()
    b = trip(a, how)
    ctx.check(type(b) is type(a) and b is not a, "same class")
    ctx.check(eq(b.random_seed, a.random_seed) and
              eq(b.generation_seed, a.generation_seed) and
              b.max_generation == gens and b.max_workers == workers and
              b.generation_num == a.generation_num and
              b.final_generation_ == a.final_generation_, "same settings")
    if algo == "simple":
        ctx.check(eq(b.termination_checker.threshold, thr),
                  "same termination checker")
    ctx.check(len(b.statistics) == len(a.statistics), "same statistics")
    ctx.check(type(b.executor) is type(a.executor) and
              b.executor._max_workers == a.executor._max_workers,
              "executor of its kind")
    ctx.check(b.executor.submit(abs, -3).result() == 3,
              "the executor works")
    sa, sb = a.population.sub_populations[0], \
        b.population.sub_populations[0]
    ctx.check(sb is not sa and sb.population_size == n and
              type(sb.evaluator) is type(sa.evaluator), "own population")
    if when == "before":
        b.evolve()
        a.evolve()
        sa, sb = a.population.sub_populations[0], \
            b.population.sub_populations[0]
        ctx.check(b.final_generation_ == a.final_generation_,
                  "the copy runs like the original")
        ctx.check(len(sb.individuals) == n, "population size")
    else:
        ctx.check(eq(genome(b.best_of_run_), genome(a.best_of_run_)),
                  "same best individual")
        ctx.check(len(sb.individuals) == n, "population size")
        for x, y in zip(sb.individuals, sa.individuals):
            ctx.check(eq(genome(x), genome(y)) and x.id == y.id,
                      "same individuals")
            ctx.check(x is not y and x.vector is not y.vector,
                      "own individuals")
            ctx.check(y.fitness.is_fitness_evaluated(),
                      "the original keeps its scores")
            ctx.check(x.fitness.is_fitness_evaluated() == cache,
                      "scores travel iff cached")
        ctx.check(eq(b.execute(), a.best_of_run_.vector) if algo ==
                  "simple" else True, "same result")
        # the copy can be evaluated again
        ev = b.population_evaluator
        for i in sb.individuals:
            i.fitness.set_not_evaluated()
        ev.set_executor(b.executor)
        ev.act(b.population)
        for x, y in zip(sb.individuals, sa.individuals):
            ctx.check(eq(x.get_pure_fitness(), y.get_pure_fitness()),
                      "same scores again")


def continued(ctx, n, at, gens):
    """A stored population and seed continue the run (the seed chain goes on
    where it stopped)."""
    ctx.flags["idx_free"] = 0
    a = make(ctx, "simple", n, at, seed=ctx.int("seed", 0, 2 ** 32 - 1))
    a.evolve()
    b = trip(a, "default")
    g0 = [genome(i) for i in a.population.sub_populations[0].individuals]
    c = SimpleEvolution(b.population, max_generation=gens - at,
                        random_seed=b.random_seed,
                        generation_seed=b.generation_seed)
    c.evolve()
    ctx.check(eq(c.generation_seed, (a.random_seed + gens) % 2 ** 32),
              "the seed chain goes on")
    ctx.check(c.final_generation_ == gens - at, "the remaining generations")
    for i in c.population.sub_populations[0].individuals:
        ctx.check(lor(*[eq(genome(i), g) for g in g0]),
                  "descendants of the stored population")


def nsga2_fitness(ctx, how, scored, cache, crowded=False):
    o = [ctx.real("o"), ctx.real("o")]
    f = NSGA2Fitness(list(o) if scored else None, higher_is_better=False,
                     cache=cache)
    ind = vec("int", [1, 2], fit=f)
    if scored:
        f.front_rank = ctx.int("rank", 1)
        f.crowding = float("inf") if crowded else ctx.real("crowding", 0)
        r, c = f.front_rank, f.crowding
    out = trip(ind, how)
    if scored and cache:
        ctx.check(eq(out.fitness.front_rank, r) and
                  (out.fitness.crowding == float("inf") if crowded else
                   eq(out.fitness.crowding, c)), "rank and crowding")
    if scored:
        ctx.check(f.front_rank is r and f.crowding is c,
                  "original untouched")
    ctx.check(out.fitness.is_fitness_evaluated() == (scored and cache),
              "scores travel iff they are cached")
    if scored and cache:
        ctx.check(eq(out.get_pure_fitness(), o), "same objectives")
    if scored:
        ctx.check(eq(ind.get_pure_fitness(), o), "original untouched")


OPS = {
    "uni1": ("float", lambda p, q: FloatVectorUniformOnePointMutation(p)),
    "unin": ("float", lambda p, q: FloatVectorUniformNPointMutation(2, p)),
    "gauss1": ("float", lambda p, q: FloatVectorGaussOnePointMutation(
        p, mu=q, sigma=2.0, attempts=2)),
    "gaussn": ("float", lambda p, q: FloatVectorGaussNPointMutation(
        2, p, mu=q, sigma=2.0, attempts=1)),
    "int1": ("int", lambda p, q: IntVectorOnePointMutation(
        p, probability_for_each=q)),
    "intn": ("int", lambda p, q: IntVectorNPointMutation(p, n=2)),
    "flip": ("bit", lambda p, q: BitStringVectorFlipMutation(p)),
    "nflip": ("bit", lambda p, q: BitStringVectorNFlipMutation(
        p, probability_for_each=q, n=2)),
    "kpoint": ("int", lambda p, q: VectorKPointsCrossover(p, k=2)),
    "xover": ("tree", lambda p, q: SubtreeCrossover(p)),
    "mut": ("tree", lambda p, q: SubtreeMutation(
        probability=p)),
    "erc": ("tree", lambda p, q: ERCMutation(p, mu=q)),
    "same": ("int", lambda p, q: IdentityTransformation(p)),
    "tour": ("sel", lambda p, q: TournamentSelection(2)),
    "tournr": ("sel", lambda p, q: TournamentSelection(2, replace=False)),
    "fps": ("sel", lambda p, q: FitnessProportionateSelection(
        higher_is_better=True)),
}


def operator(ctx, name, how):
    """A stored operator does what the original does: the same result from
    the same individuals and the same random draws."""
    import random
    import numpy as np
    ctx.flags.update(seeded=True, idx_free=2)
    kind, mk = OPS[name]
    p, q = ctx.real("p", 0, 1), ctx.real("q", 0, 1)
    if name in ("nflip", "int1"):
        ctx.assume(land(q > 0, q < 1))
    op = mk(p, q)
    cp = trip(op, how)
    ctx.check(type(cp) is type(op) and cp is not op, "same class")
    fits = [ctx.real("f", 1, 9) for _ in range(2)]
    cells = [ctx.real("c", 0, 9) if kind == "float" else
             ctx.int("c", 0, 1 if kind == "bit" else 9) for _ in range(6)]
    con = ctx.real("k", -5, 5)

    def one(i):
        if kind == "tree":
            return tree_ind([FunctionNode(u_add), FunctionNode(u_inc),
                             TerminalNode("x"), TerminalNode(con)],
                            functions=(u_add, u_inc),
                            terminals=("x", con), erc_range=(-5, 5),
                            fit=GPFitness(fits[i], bloat_weight=0))
        return vec("int" if kind == "sel" else kind,
                   cells[3 * i:3 * i + 3], fits[i],
                   bounds=(0, 1) if kind == "bit" else (0, 9),
                   higher=name == "fps")
    outs = []
    for o in (op, cp):
        ctx.state["idx_used"] = 0
        ctx.state["worn"] = -1
        random.seed(11)
        np.random.seed(11)
        inds = [one(i) for i in range(2)]
        if kind == "sel":
            dest = []
            o.select(inds, dest)
            outs.append(dest)
        else:
            outs.append(o.apply_operator(inds[:o.arity]))
    a, b = outs
    ctx.check(len(a) == len(b), "as many results")
    for x, y in zip(a, b):
        ctx.check(eq(genome(x), genome(y)), "the copy does the same")
        ctx.check(x.applied_operators == y.applied_operators and
                  x.selected_by == y.selected_by, "and records the same")
        ctx.check(x.fitness.is_fitness_evaluated() ==
                  y.fitness.is_fitness_evaluated(), "and marks the same")


def jobs(tier):
    T = tier == "thorough"
    for kind in ("int", "float", "bit", "tree"):
        for how in HOWS:
            for scored in (False, True):
                for cache in (False, True):
                    yield "individual", dict(
                        kind=kind, how=how, scored=scored, cache=cache,
                        higher=how == "twice")
                    yield "individual", dict(
                        kind=kind, how=how, scored=scored, cache=cache,
                        higher=how != "twice", rel=True)
    for kind, n in (("int", 40), ("bit", 70), ("float", 5), ("tree", 50)):
        for how in HOWS:
            for cache in (False, True):
                yield "large", dict(kind=kind, n=n, how=how, cache=cache)
    for how in HOWS:
        for algo in ("simple", "nsga2"):
            for when in ("before", "after"):
                for ex in ("thread", "process"):
                    yield "algorithm", dict(algo=algo, how=how, when=when,
                                            executor=ex, cache=ex ==
                                            "thread")
                    for w in (1, 2, None):
                        if algo == "simple":
                            yield "algorithm", dict(
                                algo=algo, how=how, when=when, executor=ex,
                                workers=w)
        yield "algorithm", dict(algo="simple", how=how, when="after",
                                n=1, gens=0)
        yield "algorithm", dict(algo="simple", how=how, when="after",
                                n=3, gens=1)
        yield "algorithm", dict(algo="simple", how=how, when="after",
                                n=2, gens=2, cache=True)
    for nm in OPS:
        for how in HOWS:
            yield "operator", dict(name=nm, how=how)
    for scored in (False, True):
        for cache in (False, True):
            yield "nsga2_fitness", dict(how="default", scored=scored,
                                        cache=cache)
        yield "nsga2_fitness", dict(how="default", scored=True, cache=scored,
                                    crowded=True)
    for at, g in ((0, 1), (1, 2), (2, 3)):
        yield "continued", dict(n=2, at=at, gens=g)
    if T:
        for p in range(6):
            for kind in ("int", "float", "bit", "tree"):
                yield "individual", dict(kind=kind, how=str(p), scored=True,
                                         cache=True, higher=True)
            yield "algorithm", dict(algo="simple", how=str(p), when="after",
                                    n=2, gens=1)
        yield "algorithm", dict(algo="simple", how="default", when="after",
                                n=3, gens=2), {"budget": 900}
