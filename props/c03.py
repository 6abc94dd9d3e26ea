"""C03: breeding keeps the population size and never aliases parents."""
from props.common import *
from eckity.breeders import SimpleBreeder
from eckity.genetic_operators import (
    TournamentSelection, FitnessProportionateSelection, SubtreeCrossover,
    SubtreeMutation, VectorKPointsCrossover)
from eckity.genetic_operators.mutations.vector_random_mutation import (
    BitStringVectorFlipMutation, FloatVectorUniformOnePointMutation,
    FloatVectorGaussOnePointMutation, IntVectorNPointMutation,
    BitStringVectorNFlipMutation, IntVectorOnePointMutation)
from eckity.genetic_operators.mutations.erc_mutation import ERCMutation

BOUNDS = ("1-4 individuals of 1-3 cells / trees of 1-3 nodes (all random "
          "choices of selection and operators explored), 12-30 individuals "
          "with restricted choices; tournament sizes 1-2, fitness "
          "proportionate and identity selection; 0..n elites; operator "
          "sequences of 0-2 operators of arity 1-3 with probability 0, 1 or "
          "symbolic; 1-2 sub-populations; 1-3 successive breedings; "
          "copies that share one identity")
OUTSIDE = "operators and selections defined by the user that break in-place " \
          "or clone conventions"


class Rev(GeneticOperator):
    """User operator of any arity that returns its individuals reversed."""

    def apply(self, individuals):
        self.applied_individuals = individuals
        return individuals[::-1]


class Fresh(GeneticOperator):
    """User operator that returns new individuals."""

    def apply(self, individuals):
        out = [i.clone() for i in individuals]
        for o in out:
            o.set_cell_value(0, 7)
        return out


def mk_ops(names, prob):
    tab = {
        "kpoint": lambda: VectorKPointsCrossover(probability=prob, k=1),
        "kpoint2": lambda: VectorKPointsCrossover(probability=prob, k=2),
        "int1": lambda: IntVectorNPointMutation(probability=prob, n=1),
        "inteach": lambda: IntVectorOnePointMutation(
            probability=prob, probability_for_each=0.5),
        "flip": lambda: BitStringVectorFlipMutation(probability=prob),
        "nflip": lambda: BitStringVectorNFlipMutation(probability=prob),
        "funi": lambda: FloatVectorUniformOnePointMutation(probability=prob),
        "fgauss": lambda: FloatVectorGaussOnePointMutation(
            probability=prob, attempts=1),
        "int1_a2": lambda: IntVectorNPointMutation(probability=prob, arity=2),
        "rev2": lambda: Rev(probability=prob, arity=2),
        "rev3": lambda: Rev(probability=prob, arity=3),
        "fresh": lambda: Fresh(probability=prob, arity=1),
        "sxo": lambda: SubtreeCrossover(probability=prob),
        "smut": lambda: SubtreeMutation(probability=prob, init_depth=(0, 1)),
        "erc": lambda: ERCMutation(probability=prob),
    }
    return [tab[n]() for n in names]


def mk_inds(ctx, kind, n, length, higher, fits):
    if kind == "tree":
        shapes = [[TerminalNode("x")],
                  [FunctionNode(u_inc), TerminalNode("y")],
                  [FunctionNode(u_inc), TerminalNode(3)],
                  [FunctionNode(u_inc), FunctionNode(u_inc),
                   TerminalNode(2)]]
        return [tree_ind([type(m)(m.value if isinstance(m, TerminalNode)
                                  else m.function)
                          for m in shapes[i % len(shapes)]],
                         functions=(u_inc,), terminals=("x", "y", 3),
                         fit=GPFitness(fits[i], higher_is_better=higher,
                                       bloat_weight=0)) for i in range(n)]
    out = []
    for i in range(n):
        if kind == "bit":
            v, b = [(i + j) % 2 for j in range(length)], (0, 1)
        elif kind == "float":
            v, b = [0.5 + 0.01 * (i * length + j) for j in range(length)], \
                (0.0, 1.0)
        else:
            v, b = [10 * i + j for j in range(length)], (0, 1000)
        out.append(vec(kind, v, fits[i], bounds=b, higher=higher))
    return out


def cells(ind):
    return list(ind.tree if isinstance(ind, Tree) else ind.vector)


def snap(ind):
    if isinstance(ind, Tree):
        return [(id(n), node_key(n)) for n in ind.tree]
    return list(ind.vector)


def breed(ctx, n, kind="int", length=2, sel="tour", tsize=1, elite=0,
          ops=("kpoint",), prob=1.0, higher=False, subpops=1, rounds=1,
          const=False, free=None):
    if free is not None:
        ctx.flags["idx_free"] = free
    if prob == "sym":
        prob = ctx.real("p", 0, 1)
    sps, olds = [], []
    for _ in range(subpops):
        fits = [float(i) if const else ctx.real("s", 0) for i in range(n)]
        inds = mk_inds(ctx, kind, n, length, higher, fits)
        selm = {"tour": lambda: TournamentSelection(tsize, higher),
                "tour_nr": lambda: TournamentSelection(
                    tsize, higher, replace=False),
                "fp": lambda: FitnessProportionateSelection(higher),
                "clone": lambda: CloneAll(higher)}[sel]()
        sps.append(Subpopulation(
            evaluator=Scores(lambda i, k: 0.0), creators=TagCreator(None),
            operators_sequence=mk_ops(ops, prob),
            selection_methods=[(selm, 1)], elitism_rate=elite / n,
            population_size=n, individuals=inds, higher_is_better=higher))
    pop = Population(sps)
    br = SimpleBreeder()
    for r in range(rounds):
        before = [list(sp.individuals) for sp in sps]
        snaps = [[snap(i) for i in b] for b in before]
        fitb = [[i.fitness.get_pure_fitness() for i in b] for b in before]
        idsb = [[i.id for i in b] for b in before]
        br.breed(pop)
        everyone = []
        for s, sp in enumerate(sps):
            new = sp.individuals
            ctx.check(len(new) == n, "population size is preserved")
            ctx.check(distinct_objs(new), "no individual appears twice")
            ctx.check(not ({id(i) for i in new} & {id(i) for b in before
                                                  for i in b}),
                      "no parent object in the next generation")
            everyone += new
            for i, sn, f, k in zip(before[s], snaps[s], fitb[s], idsb[s]):
                ctx.check(len(sn) == len(snap(i)) and eq(sn, snap(i)),
                          "parents' genomes are untouched")
                ctx.check(i.fitness.is_fitness_evaluated(),
                          "parents keep their score")
                ctx.check(eq(i.fitness.get_pure_fitness(), f),
                          "parents' scores are untouched")
                ctx.check(i.id == k, "parents' ids are untouched")
        ids = [i.id for i in everyone]
        ctx.check(len(set(ids)) == len(ids), "ids are unique")
        ctx.check(not (set(ids) & {k for x in idsb for k in x}),
                  "ids are fresh")
        ctx.check(distinct_objs([i.fitness for i in everyone] + [
            i.fitness for b in before for i in b]),
            "fitness objects are not shared")
        genomes = [(i.tree if isinstance(i, Tree) else i.vector)
                   for i in everyone + [x for b in before for x in b]]
        ctx.check(distinct_objs(genomes), "genomes are not shared")
        ctx.check(distinct_objs([i.selected_by for i in everyone]) and
                  distinct_objs([i.applied_operators for i in everyone]),
                  "records are not shared")
        if kind == "tree":
            ctx.check(distinct_objs([m for g in genomes for m in g]),
                      "tree nodes are not shared")
            for i in everyone:
                ctx.check(well_formed(i.tree), "offspring are well formed")
        else:
            for i in everyone:
                ctx.check(len(i.vector) == length, "vector length is kept")
        if r + 1 < rounds:
            for k, i in enumerate(everyone):
                i.fitness.set_fitness(
                    float(k) if const else ctx.real("s", 0))


def arity_mismatch(ctx, n, arity):
    inds = mk_inds(ctx, "int", n, 2, False, [float(i) for i in range(n)])
    sp = Subpopulation(evaluator=Scores(lambda i, k: 0.0),
                       creators=TagCreator(None),
                       operators_sequence=[Rev(probability=1.0, arity=arity)],
                       selection_methods=[(CloneAll(), 1)],
                       population_size=n, individuals=list(inds))
    bad = n % arity != 0
    ctx.check(raises(ValueError, lambda: SimpleBreeder().breed(
        Population([sp]))) == bad, "arity must divide the population size")
    if bad:
        ctx.check(all(a is b for a, b in zip(sp.individuals, inds)) and
                  len(sp.individuals) == n, "a refused breeding changes "
                  "nothing")
        ctx.check(all(eq(i.vector, [10 * k, 10 * k + 1])
                      for k, i in enumerate(inds)), "genomes untouched")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="breed", n=2, tsize=2, elite=1, higher=h)
        yield "copies", dict(of="breed", n=4, sel="clone", ops=("rev2",), elite=2, higher=h, length=1, const=True)
        yield "copies", dict(of="breed", n=2, sel="fp", ops=("int1",), elite=0, higher=h)
    for h in (False, True):
        for e in (0, 1, 2):
            yield "breed", dict(n=2, tsize=2, elite=e, higher=h)
            yield "breed", dict(n=2, tsize=2, elite=e, higher=h,
                                ops=("int1",), prob="sym")
        yield "breed", dict(n=3, elite=1, ops=("int1",), sel="tour_nr",
                            tsize=2, higher=h, length=1), {"weight": 5}
        yield "breed", dict(n=2, sel="fp", ops=("kpoint", "int1"), higher=h)
        yield "breed", dict(n=2, sel="fp", ops=("int1",), elite=1, higher=h)
        yield "breed", dict(n=3, sel="fp", ops=(), higher=h)
        yield "breed", dict(n=3, sel="tour", tsize=1, ops=("rev3",), elite=0,
                            higher=h, length=1), {"weight": 5}
        for e in (0, 1, 2, 3, 4):
            yield "breed", dict(n=4, sel="clone", ops=("rev2",), elite=e,
                                higher=h, length=1, const=True), {
                                    "weight": 3}
            yield "breed", dict(n=4, sel="clone", ops=("kpoint", "int1"),
                                elite=e, higher=h, const=True, prob="sym"
                                ), {"weight": 3}
    yield "breed", dict(n=3, elite=1, sel="clone", ops=("rev3", "int1"),
                        length=1)
    yield "breed", dict(n=2, ops=("fresh", "rev2"), elite=1)
    yield "breed", dict(n=2, ops=("fresh", "rev2"), elite=0, prob="sym")
    yield "breed", dict(n=2, ops=("kpoint2",), length=3, sel="clone")
    yield "breed", dict(n=2, ops=("int1_a2",), sel="clone")
    yield "breed", dict(n=2, ops=("inteach",), sel="clone")
    for op in ("flip", "nflip"):
        yield "breed", dict(n=2, kind="bit", ops=("kpoint", op), sel="clone")
    for op in ("funi", "fgauss"):
        yield "breed", dict(n=2, kind="float", ops=("kpoint", op),
                            sel="clone", const=True)
    for e in (0, 1):
        yield "breed", dict(n=2, kind="tree", ops=("sxo", "smut"), elite=e,
                            sel="clone", const=True), {"weight": 9}
        yield "breed", dict(n=4, kind="tree", ops=("sxo",), elite=e,
                            sel="clone", const=True), {"weight": 9}
        yield "breed", dict(n=4, kind="tree", ops=("erc",), elite=e,
                            sel="clone", const=True, prob="sym"), {
                                "weight": 9}
    yield "breed", dict(n=2, subpops=2, elite=1, ops=("int1",), length=1)
    for e in (1, 2, 3):
        yield "breed", dict(n=4, subpops=2, elite=e, ops=("rev2",),
                            sel="clone", length=1, const=True, rounds=2)
    yield "breed", dict(n=2, subpops=3, sel="clone", ops=("rev2",),
                        const=True)
    yield "breed", dict(n=2, rounds=2, sel="tour", tsize=1, elite=1,
                        ops=("int1",), length=1), {"weight": 5}
    yield "breed", dict(n=2, rounds=3, sel="clone", elite=0,
                        ops=("kpoint", "int1"), const=True), {"weight": 5}
    yield "breed", dict(n=12, sel="clone", ops=("rev2", "rev3"), elite=2,
                        length=1, const=True)
    yield "breed", dict(n=30, sel="clone", ops=("rev2", "rev3"), elite=3,
                        length=1, const=True)
    for n, t, e, sel in ((30, 12, 1, "tour_nr"), (30, 12, 0, "tour"),
                         (24, 1, 5, "fp"), (24, 24, 0, "tour_nr")):
        yield "breed", dict(n=n, sel=sel, tsize=t, ops=("rev2", "int1"),
                            length=1, const=True, elite=e, free=1)
    for n in (2, 3, 4, 5, 6):
        for a in (1, 2, 3, 4):
            yield "arity_mismatch", dict(n=n, arity=a)
    if T:
        for h in (False, True):
            yield "breed", dict(n=3, tsize=2, elite=1, higher=h,
                                ops=("int1",), length=1), {
                                    "weight": 50, "budget": 1500}
            yield "breed", dict(n=4, sel="fp", elite=2, higher=h,
                                ops=("kpoint",)), {"weight": 50,
                                                   "budget": 1500}
            yield "breed", dict(n=4, tsize=1, elite=0, higher=h,
                                ops=("kpoint",), const=True), {
                                    "weight": 50, "budget": 900}
        yield "breed", dict(n=2, kind="tree", ops=("sxo", "smut"), rounds=2,
                            sel="clone", const=True), {"weight": 50,
                                                       "budget": 900}
        yield "breed", dict(n=120, sel="clone", ops=("rev2", "rev3"),
                            elite=6, length=1, const=True)
