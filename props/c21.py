"""C21: the same seed gives the same run; a run can be resumed."""
from props.common import *
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.creators import (
    FullCreator, GABitStringVectorCreator, GAFloatVectorCreator,
    GAIntVectorCreator, GrowCreator, HalfCreator)
from eckity.evaluators import SimplePopulationEvaluator
from eckity.genetic_operators import *
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_front_sorting import \
    NSGA2FrontSorting
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness

BOUNDS = ("two runs of 1-3 generations with 2-4 individuals of each "
          "representation with the library's own creators, selections and "
          "operators, compared draw for draw: a draw is an arbitrary value "
          "that depends only on the seed and its position (the first 2-4 "
          "index draws explored, the others fixed); any order of sets and of addresses; any "
          "earlier use of the random modules; resuming after 0-2 generations")
OUTSIDE = ("evaluators that are not functions of the genome; process "
           "pools (their scheduling is covered by C02)")


class Sum(SimpleIndividualEvaluator):
    def evaluate_individual(self, individual):
        v = individual.vector
        return sum(v[1:], v[0])

    def __deepcopy__(self, memo):
        return self


class Two(SimpleIndividualEvaluator):
    """Two objectives."""

    def evaluate_individual(self, individual):
        v = individual.vector
        return [v[0], -v[0] + sum(v[1:], 0)]

    def __deepcopy__(self, memo):
        return self


def shape(ind):
    return tuple(node_key(n) if isinstance(node_key(n), str) else "c"
                 for n in ind.tree)


def setting(ctx, kind, table):
    """(creator, operators, selection, evaluator) as a user writes them."""
    if kind in ("tree", "grow", "full"):
        ev = Scores(lambda i, k: table.setdefault(k, float(
            (len(table) * 3) % 5)), key=shape)
        mk = {"tree": HalfCreator, "grow": GrowCreator,
              "full": FullCreator}[kind]
        kw = {} if kind != "tree" else {}
        cr = mk(init_depth=(1, 2), function_set=[u_add, u_inc],
                terminal_set=["x", "y"], erc_range=(-1.0, 1.0),
                bloat_weight=0, **kw)
        ops = {"tree": [SubtreeCrossover(probability=1.0)],
               "grow": [SubtreeMutation(probability=1.0)],
               "full": [SubtreeCrossover(probability=0.5),
                        ERCMutation(probability=1.0)]}[kind]
        return cr, ops, TournamentSelection(2), ev
    if kind == "ties":
        # concrete genomes, everybody as good as everybody else
        return TagCreator(lambda i, h: vec("int", [i, 3])), [], \
            TournamentSelection(2), Scores(lambda i, k: 1.0)
    if kind == "cuts":
        # many cut points to choose from
        return TagCreator(lambda i, h: vec("int", [10 * i + j for j in range(
            6)])), [VectorKPointsCrossover(probability=1.0, k=2)], \
            TournamentSelection(2), Scores(lambda i, k: 1.0)
    if kind == "tree_ties":
        cr = TagCreator(lambda i, h: tree_ind(
            [FunctionNode(u_add), TerminalNode("xyz"[i % 3]),
             TerminalNode("xyz"[i // 3])], terminals=("x", "y", "z")))
        return cr, [], TournamentSelection(2), Scores(lambda i, k: 1.0)
    if kind in ("int", "int_fp"):
        cr = GAIntVectorCreator(length=2, bounds=(0, 9))
        ops = [VectorKPointsCrossover(probability=0.7, k=1),
               IntVectorOnePointMutation(probability=1.0)]
    elif kind == "intn":
        cr = GAIntVectorCreator(length=2, bounds=(0, 9))
        ops = [IntVectorNPointMutation(probability=1.0, n=2)]
    elif kind == "float":
        cr = GAFloatVectorCreator(length=2, bounds=(0.0, 1.0))
        ops = [VectorKPointsCrossover(probability=1.0, k=1),
               FloatVectorUniformOnePointMutation(probability=0.5)]
    elif kind == "gauss":
        cr = GAFloatVectorCreator(length=2, bounds=(0.0, 1.0))
        ops = [FloatVectorGaussOnePointMutation(probability=1.0,
                                                attempts=2)]
    elif kind == "gaussn":
        cr = GAFloatVectorCreator(length=2, bounds=(0.0, 1.0))
        ops = [FloatVectorGaussNPointMutation(n=2, probability=1.0,
                                              attempts=1)]
    elif kind == "bit":
        cr = GABitStringVectorCreator(length=2)
        ops = [VectorKPointsCrossover(probability=1.0, k=1),
               BitStringVectorFlipMutation(probability=1.0),
               BitStringVectorNFlipMutation(probability=0.5, n=2)]
    sel = FitnessProportionateSelection() if kind == "int_fp" else \
        TournamentSelection(2, replace=False) if kind == "bit" else \
        TournamentSelection(2)
    return cr, ops, sel, Sum()


def run(ctx, kind, n, gens, seed, table, tag, salt, individuals=None,
        elitism=0.5, executor="thread", method="map", **kw):
    ctx.state["run_tag"] = tag
    ctx.flags["hash_salt"] = salt
    ctx.state["idx_used"] = 0
    # another process: everything is somewhere else
    ctx.state.pop("addresses", None)
    ctx.state["worn"] = -1
    moo = kind == "moo"
    cr, ops, sel, ev = setting(ctx, "int" if moo else kind, table)
    if moo:
        ctx.flags["bits_free"] = 1
        cr = TagCreator(lambda i, h: vec(
            "int", [(i * 7) % 4, i], bounds=(0, 9),
            fit=NSGA2Fitness(higher_is_better=False)))
        ev = Two()
        ops = [IntVectorOnePointMutation(probability=1.0)]
    sub = Subpopulation(evaluator=ev, creators=cr, operators_sequence=ops,
                        selection_methods=[(sel, 1)],
                        elitism_rate=0.0 if moo else elitism,
                        population_size=n, higher_is_better=False,
                        individuals=individuals)
    cls = NSGA2Evolution if moo else SimpleEvolution
    a = cls(sub, max_generation=gens, random_seed=seed, executor=executor,
            population_evaluator=SimplePopulationEvaluator(method), **kw)
    trace = []

    def snap(s, d):
        # (who is best and worst of equals does not depend on the memory)
        ends = [sub.get_best_individual(), sub.get_worst_individual()] \
            if kind in ("ties", "tree_ties") else []
        trace.append(([(list(genome(i)), i.get_pure_fitness())
                       for i in sub.individuals + ends],
                      list(genome(a.best_of_run_)), a.generation_seed,
                      [i.clone() for i in sub.individuals]))
    a.register("init", snap)
    a.register("after_generation", snap)
    a.evolve()
    return a, trace


def same_traces(ctx, t1, t2, best=True):
    ctx.check(len(t1) == len(t2), "same number of generations")
    for g, (a, b) in enumerate(zip(t1, t2)):
        ctx.check(len(a[0]) == len(b[0]), "same population size")
        for (g1, f1), (g2, f2) in zip(a[0], b[0]):
            ctx.check(eq(g1, g2), "same genomes")
            ctx.check(eq(f1, f2), "same scores")
        if best:
            ctx.check(eq(a[1], b[1]), "same best individual")
        ctx.check(eq(a[2], b[2]), "same generation seed")


def twice(ctx, kind, n, gens, free=2, used=0, **kw):
    ctx.flags["seeded"] = True
    ctx.flags["idx_free"] = free
    table = {}
    seed = ctx.int("seed", 0, 2 ** 32 - 1)
    a1, t1 = run(ctx, kind, n, gens, seed, table, 1, 0, **kw)
    if used:
        # the modules were used by somebody else in the meantime
        import random
        import numpy as np
        ctx.state["run_tag"] = 3
        for _ in range(used):
            random.random()
            np.random.random()
    a2, t2 = run(ctx, kind, n, gens, seed, table, 2, 5, **kw)
    same_traces(ctx, t1, t2)
    ctx.check(len(t1) == gens + 1, "all generations ran")


def resume(ctx, kind, n, gens, at, free=2):
    """Stop after `at` generations, go on with the population and the
    generation seed."""
    ctx.flags["seeded"] = True
    ctx.flags["idx_free"] = free
    table = {}
    seed = 2 ** 32 - 2
    _, full = run(ctx, kind, n, gens, seed, table, 1, 0)
    first, part = run(ctx, kind, n, at, seed, table, 2, 3)
    pop = first.population.sub_populations[0].individuals
    other = ctx.int("other", 0, 2 ** 32 - 1)
    _, rest = run(ctx, kind, n, gens - at, other, table, 3, 4,
                  individuals=pop, generation_seed=first.generation_seed)
    same_traces(ctx, full[:at + 1], part)
    same_traces(ctx, full[at + 1:], rest[1:], best=False)


def sorting(ctx, n, m):
    """Ranking and survival do not depend on the order sets iterate in."""
    objs = [[ctx.real("o"), ctx.real("o")] for _ in range(n)]
    outs = []
    for salt in (0, 5):
        ctx.flags["hash_salt"] = salt
        ctx.state.pop("hashes", None)
        inds = [vec("int", [i, 0], fit=NSGA2Fitness(
            list(o), higher_is_better=False)) for i, o in enumerate(objs)]
        sp = Subpopulation(evaluator=Two(), creators=TagCreator(None),
                           operators_sequence=[], population_size=m,
                           individuals=inds)
        pop = Population([sp])
        NSGA2FrontSorting().select_for_population(pop, m)
        outs.append([(i.vector[0], i.fitness.front_rank, i.fitness.crowding)
                     for i in sp.individuals])
    a, b = outs
    ctx.check([x[:2] for x in a] == [x[:2] for x in b],
              "the same survivors in the same order")
    for x, y in zip(a, b):
        ctx.check(eq(x[2], y[2]), "the same crowding")


VECS = ("int", "int_fp", "intn", "float", "gauss", "gaussn", "bit")


def jobs(tier):
    T = tier == "thorough"
    for kind in VECS:
        yield "twice", dict(kind=kind, n=2, gens=1), {"weight": 5}
        if kind in ("intn", "float"):
            yield "twice", dict(kind=kind, n=2, gens=2, free=0, used=2), {
                "weight": 9}
        else:
            yield "twice", dict(kind=kind, n=2, gens=1, free=0, used=2)
    yield "twice", dict(kind="int_fp", n=2, gens=1, free=0, elitism=0.0)
    yield "twice", dict(kind="bit", n=2, gens=1, free=0, elitism=0.0)
    yield "twice", dict(kind="tree", n=4, gens=1, free=0), {"weight": 9}
    yield "twice", dict(kind="grow", n=2, gens=1, free=1), {"weight": 9}
    yield "twice", dict(kind="full", n=2, gens=1, free=1), {"weight": 9}
    yield "twice", dict(kind="full", n=2, gens=2, free=0), {"weight": 9}
    yield "twice", dict(kind="moo", n=2, gens=1, free=0), {"weight": 5}
    for e in (0.25, 0.5):
        yield "twice", dict(kind="ties", n=4, gens=2, free=0, elitism=e)
        yield "twice", dict(kind="tree_ties", n=4, gens=1, free=0,
                            elitism=e)
        yield "twice", dict(kind="cuts", n=4, gens=2, free=0, elitism=e)
    for kind in ("ties", "cuts"):
        yield "twice", dict(kind=kind, n=8, gens=4, free=0)
        yield "twice", dict(kind=kind, n=2, gens=6, free=0)
    for n, m in ((2, 1), (3, 1), (3, 2), (3, 3)):
        yield "sorting", dict(n=n, m=m)
    yield "twice", dict(kind="int", n=2, gens=1, method="submit",
                        executor="process")
    for kind in ("intn", "float"):
        yield "resume", dict(kind=kind, n=2, gens=2, at=1, free=0), {
            "weight": 9}
    for kind in ("int", "bit", "full", "gauss"):
        yield "resume", dict(kind=kind, n=2, gens=1, at=0, free=0), {
            "weight": 9}
    yield "resume", dict(kind="full", n=2, gens=2, at=1, free=0)
    if T:
        for kind in VECS:
            yield "twice", dict(kind=kind, n=2, gens=2, free=1), {
                "weight": 50, "budget": 900}
            yield "resume", dict(kind=kind, n=2, gens=2, at=1, free=0), {
                "weight": 50, "budget": 900}
        yield "twice", dict(kind="float", n=3, gens=2, free=1), {
            "weight": 50, "budget": 900}
        yield "twice", dict(kind="intn", n=2, gens=3, free=0), {
            "weight": 50, "budget": 900}
        for kind in ("grow", "full"):
            yield "twice", dict(kind=kind, n=2, gens=1, free=3), {
                "weight": 50, "budget": 900}
            yield "twice", dict(kind=kind, n=2, gens=2, free=1), {
                "weight": 50, "budget": 900}
        yield "twice", dict(kind="tree", n=4, gens=1, free=2), {
            "weight": 50, "budget": 900}
        for m in (2, 3):
            yield "sorting", dict(n=4, m=m), {"weight": 50, "budget": 900}
        yield "twice", dict(kind="moo", n=2, gens=1, free=1), {
            "weight": 50, "budget": 900}
