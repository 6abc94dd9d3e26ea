"""C16: Pareto dominance and the ranking of a population into fronts."""
from props.common import *
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.multi_objective_evolution.nsga2_front_sorting import \
    NSGA2FrontSorting

BOUNDS = ("1-4 individuals with 1-3 objectives of any real value and any mix "
          "of directions, kept counts 1..n; 2 sub-populations; up to 24 "
          "individuals of which two have arbitrary objectives; "
          "dominance for any doubles, infinities included; copies that share one "
          "identity")
OUTSIDE = "NaN objectives; larger fully symbolic populations"


def moo(i, objs, higher):
    return vec("int", [i], fit=NSGA2Fitness(list(objs),
                                            higher_is_better=higher))


def population(*lists):
    subs = []
    for inds in lists:
        sub = Subpopulation(evaluator=Scores(lambda i, k: 0),
                            creators=TagCreator(lambda i, h: None),
                            selection_methods=[(CloneAll(), 1)],
                            operators_sequence=[], elitism_rate=0.0,
                            population_size=max(len(inds), 1))
        sub.individuals = list(inds)
        subs.append(sub)
    return Population(subs)


def dominates(a, b, higher):
    return land(land(*[no_worse(x, y, h) for x, y, h in zip(a, b, higher)]),
                lor(*[better(x, y, h) for x, y, h in zip(a, b, higher)]))


def objectives(ctx, n, k, ordered=True):
    objs = [[ctx.real("o") for _ in range(k)] for _ in range(n)]
    if ordered:
        # the order of the population is covered by `perm` configurations
        for a, b in zip(objs, objs[1:]):
            ctx.assume(a[0] <= b[0])
    return objs


def dominance(ctx, k, higher, scalar=False, fp=False):
    """higher: one bool per objective."""
    value = ctx.fp if fp else ctx.real
    a = [value("a") for _ in range(k)]
    b = [value("b") for _ in range(k)]
    h = higher[0] if scalar else list(higher)
    x, y = moo(1, a, h), moo(2, b, h)
    ctx.check(iff(x.fitness.dominate(x, y.fitness, y),
                  dominates(a, b, higher)), "dominance is its definition")
    ctx.check(iff(y.fitness.dominate(y, x.fitness, x),
                  dominates(b, a, higher)), "dominance, other way")
    ctx.check(eq(x.get_pure_fitness(), a), "objectives kept")
    # the same through set_fitness
    z = vec("int", [3], fit=NSGA2Fitness(higher_is_better=h))
    ctx.check(not z.fitness.is_fitness_evaluated(), "no objectives yet")
    z.fitness.set_fitness(list(a))
    ctx.check(iff(z.fitness.dominate(z, y.fitness, y),
                  dominates(a, b, higher)), "dominance after set_fitness")
    ctx.check(lnot(z.fitness.dominate(z, x.fitness, x)),
              "equals do not dominate")


def lengths(ctx, k, m):
    x = moo(1, [ctx.real("a") for _ in range(k)], False)
    y = moo(2, [ctx.real("b") for _ in range(m)], False)
    ctx.check(raises(ValueError,
                     lambda: x.fitness.dominate(x, y.fitness, y)),
              "different numbers of objectives are refused")


def check_selection(ctx, inds, objs, higher, m, out, fronts=True):
    ctx.check(len(out) == m, "as many individuals as asked for")
    idx = []
    for i in out:
        k = [j for j, o in enumerate(inds) if o is i]
        ctx.check(len(k) == 1, "survivors come from the population")
        idx.append(k[0])
    ctx.check(len(set(idx)) == len(idx), "no individual twice")
    rest = [j for j in range(len(inds)) if j not in idx]
    rank = {j: inds[j].fitness.front_rank for j in idx}
    top = max(rank.values(), default=1)
    dom = {(i, j): dominates(objs[i], objs[j], higher)
           for i in range(len(inds)) for j in range(len(inds)) if i != j}
    for j in idx:
        ctx.check(eq(inds[j].get_pure_fitness(), objs[j]),
                  "objectives unchanged")
        # together these say: the rank is the non-domination layer
        ctx.check(lnot(lor(*[dom[i, j] for i in idx if i != j and
                             rank[i] >= rank[j]])),
                  "dominated by better-ranked individuals only")
        ctx.check(lnot(lor(*[dom[i, j] for i in rest])),
                  "nobody left out dominates a survivor")
        if rank[j] > 1:
            ctx.check(lor(*[dom[i, j] for i in idx
                            if rank[i] == rank[j] - 1]),
                      "dominated by somebody of the front before")
    for o in rest:
        if top > 1:
            ctx.check(lor(*[dom[i, o] for i in idx if rank[i] == top - 1]),
                      "no better-ranked individual is left out")
    return idx, rest


def ranks(ctx, n, k, higher, m=None, perm=None, scalar=False, dup=False):
    objs = objectives(ctx, n, k)
    if dup:
        objs[-1] = list(objs[0])
    order = perm or range(n)
    objs = [objs[i] for i in order]
    h = higher[0] if scalar else list(higher)
    inds = [moo(i, o, h) for i, o in enumerate(objs)]
    pop = population(inds)
    NSGA2FrontSorting().select_for_population(
        pop, *([] if m is None else [m]))
    check_selection(ctx, inds, objs, higher, n // 2 if m is None else m,
                    pop.sub_populations[0].individuals)


def large(ctx, n, k, higher, m=None, at=(0, 1)):
    """All objectives concrete except those of two individuals."""
    pts = [[float((i * (3 + 2 * j) + j) % (n // 2 + j)) for j in range(k)]
           for i in range(n)]
    for p in at:
        pts[p] = [ctx.real("o") if j == 0 else pts[p][j] for j in range(k)]
    inds = [moo(i, o, list(higher)) for i, o in enumerate(pts)]
    pop = population(inds)
    NSGA2FrontSorting().select_for_population(
        pop, *([] if m is None else [m]))
    check_selection(ctx, inds, pts, higher, n // 2 if m is None else m,
                    pop.sub_populations[0].individuals)


def chain_fronts(ctx, n, m):
    """Every individual dominates the next one: n fronts."""
    x = [ctx.real("o") for _ in range(n)]
    for a, b in zip(x, x[1:]):
        ctx.assume(a < b)
    order = [(i * 2 + 1) % n for i in range(n)] if n % 2 else \
        [n - 1 - i for i in range(n)]
    objs = [[x[i], x[i]] for i in order]
    inds = [moo(i, o, False) for i, o in enumerate(objs)]
    pop = population(inds)
    NSGA2FrontSorting().select_for_population(pop, m)
    check_selection(ctx, inds, objs, (False, False), m,
                    pop.sub_populations[0].individuals)


def subpops(ctx, na, nb, k, higher):
    """Every sub-population is ranked on its own."""
    oa, ob = objectives(ctx, na, k), objectives(ctx, nb, k)
    ia = [moo(i, o, list(higher)) for i, o in enumerate(oa)]
    ib = [moo(50 + i, o, list(higher)) for i, o in enumerate(ob)]
    pop = population(ia, ib)
    sorter = NSGA2FrontSorting()
    sorter.select_for_population(pop)
    check_selection(ctx, ia, oa, higher, na // 2,
                    pop.sub_populations[0].individuals)
    check_selection(ctx, ib, ob, higher, nb // 2,
                    pop.sub_populations[1].individuals)


def sizes(ctx, ns):
    """Sub-populations of different sizes, each is halved."""
    all_objs, pops = [], []
    for n in ns:
        x = [ctx.real("o") for _ in range(n)]
        for a, b in zip(x, x[1:]):
            ctx.assume(a < b)
        all_objs.append([[v, v] for v in x])
        pops.append([moo(i, o, False) for i, o in enumerate(all_objs[-1])])
    pop = population(*pops)
    NSGA2FrontSorting().select_for_population(pop)
    for n, objs, inds, sp in zip(ns, all_objs, pops, pop.sub_populations):
        check_selection(ctx, inds, objs, (False, False), n // 2,
                        sp.individuals)


def again(ctx, n, higher):
    """The same sorting object, ranking changed objectives."""
    sorter = NSGA2FrontSorting()
    first = [moo(i, [float(i), float(i)], list(higher)) for i in range(n)]
    sorter.select_for_population(population(first), n)
    objs = objectives(ctx, n, 2)
    for i, o in zip(first, objs):
        i.fitness.set_not_evaluated()
        i.fitness.set_fitness(list(o))
    pop = population(first)
    sorter.select_for_population(pop, n)
    check_selection(ctx, first, objs, higher, n,
                    pop.sub_populations[0].individuals)


copies = copies_of(globals())


def jobs(tier):
    import itertools
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="ranks", n=3, k=2, higher=(h, False), m=2)
        yield "copies", dict(of="ranks", n=3, k=2, higher=(True, h), m=3)
        yield "copies", dict(of="large", n=12, k=2, higher=(False, h))
    for k in (1, 2, 3):
        for h in itertools.product((False, True), repeat=k):
            yield "dominance", dict(k=k, higher=h)
            if k < 3:
                yield "dominance", dict(k=k, higher=h, fp=True)
    for h in (False, True):
        yield "dominance", dict(k=2, higher=(h, h), scalar=True)
    yield "lengths", dict(k=1, m=2)
    yield "lengths", dict(k=3, m=2)
    for h in itertools.product((False, True), repeat=2):
        for m in (None, 1, 2):
            yield "ranks", dict(n=2, k=2, higher=h, m=m)
        for m in (None, 1, 2, 3):
            yield "ranks", dict(n=3, k=2, higher=h, m=m)
        yield "ranks", dict(n=3, k=2, higher=h, m=3, perm=(2, 0, 1))
        yield "ranks", dict(n=3, k=2, higher=h, m=2, perm=(1, 2, 0))
        yield "ranks", dict(n=3, k=2, higher=h, m=2, dup=True)
        yield "ranks", dict(n=2, k=1, higher=h[:1], m=1, scalar=True)
        yield "ranks", dict(n=3, k=1, higher=h[:1], m=2)
        yield "again", dict(n=3, higher=h)
        yield "subpops", dict(na=2, nb=2, k=2, higher=h), {"weight": 5}
    for h in ((False, False), (True, False)):
        yield "ranks", dict(n=4, k=2, higher=h), {"weight": 30}
        yield "ranks", dict(n=2, k=3, higher=h + (True,), m=1)
        yield "large", dict(n=12, k=2, higher=h), {"weight": 10}
        yield "large", dict(n=12, k=3, higher=h + (False,), m=5), {
            "weight": 10}
        yield "large", dict(n=24, k=2, higher=h, m=20, at=(3,)), {
            "weight": 10}
    for ns in ((2, 6), (6, 2), (4, 2, 8), (8, 4)):
        yield "sizes", dict(ns=ns)
    for n, m in ((5, 5), (8, 5), (12, 12)):
        yield "chain_fronts", dict(n=n, m=m)
    if T:
        for h in itertools.product((False, True), repeat=2):
            for m in (1, 2, 3, 4):
                yield "ranks", dict(n=4, k=2, higher=h, m=m), {
                    "weight": 60, "budget": 900}
            yield "ranks", dict(n=4, k=2, higher=h, m=4,
                                perm=(2, 0, 3, 1)), {
                "weight": 60, "budget": 900}
            yield "ranks", dict(n=3, k=3, higher=h + (True,), m=2), {
                "weight": 60, "budget": 1500}
            yield "subpops", dict(na=3, nb=2, k=2, higher=h), {
                "weight": 60, "budget": 900}
            yield "large", dict(n=40, k=2, higher=h), {
                "weight": 60, "budget": 900}
