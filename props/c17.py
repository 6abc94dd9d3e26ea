"""C17: crowding distance, and the order of multi-objective individuals."""
from props.common import *
from props.c16 import moo, population, dominates
from eckity.genetic_operators import TournamentSelection
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.multi_objective_evolution.nsga2_front_sorting import \
    NSGA2FrontSorting

BOUNDS = ("fronts of 1-5 mutually non-dominated individuals, 2 (3) "
          "objectives of any real value and direction, any number kept; "
          "comparisons and selections of 2-4 individuals of any rank 1-3 "
          "and any real or infinite crowding; two layered fronts of 1-3; fronts of up to 30 with one arbitrary individual; a "
          "sorting object used again on other individuals; "
          "copies that share one identity")
OUTSIDE = ("elitism and best-of-population, which order by the objectives "
           "and have no part in multi-objective selection; rounding in the distances; which of several individuals with "
           "the same extreme value is the boundary one is not fixed")

INF = float("inf")


def crowding_oracle(objs):
    """Crowding of points with pairwise different values per objective;
    sorts with the path's decisions."""
    n = len(objs)
    out = [0] * n
    for k in range(len(objs[0])):
        order = sorted(range(n), key=lambda i: objs[i][k])
        lo, hi = objs[order[0]][k], objs[order[-1]][k]
        for p, i in enumerate(order):
            if p in (0, n - 1):
                out[i] = INF
            elif out[i] != INF:
                out[i] = out[i] + (objs[order[p + 1]][k] -
                                   objs[order[p - 1]][k]) / (hi - lo)
    return out


def is_inf(x):
    return isinstance(x, float) and x == INF


def same_crowding(a, b):
    if is_inf(a) or is_inf(b):
        return is_inf(a) and is_inf(b)
    return close(a, b)


def front(ctx, n, higher, k=2, ties=False):
    """Objectives of n mutually non-dominated individuals, first objective
    ascending."""
    objs = [[ctx.real("o") for _ in range(k)] for _ in range(n)]
    for a, b in zip(objs, objs[1:]):
        ctx.assume(a[0] <= b[0] if ties else a[0] < b[0])
    if k == 2:
        for a, b in zip(objs, objs[1:]):
            up = higher[0] != higher[1]
            ctx.assume(implies(a[0] < b[0],
                               a[1] < b[1] if up else a[1] > b[1]))
            ctx.assume(implies(a[0] == b[0], a[1] == b[1]))
    else:
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                if i != j:
                    ctx.assume(lnot(dominates(a, b, higher)))
                if i < j and not ties:
                    ctx.assume(land(*[x != y for x, y in zip(a, b)]))
    return objs


def crowding(ctx, n, higher, m, k=2, perm=None, call=1):
    """Distinct values: the exact distance, and the most spread survive."""
    objs = front(ctx, n, higher, k)
    objs = [objs[i] for i in (perm or range(n))]
    inds = [moo(i, o, list(higher)) for i, o in enumerate(objs)]
    sorter = NSGA2FrontSorting()
    for _ in range(call):
        pop = population(inds)
        sorter.select_for_population(pop, m)
    out = pop.sub_populations[0].individuals
    ctx.check(len(out) == m, "as many as asked for")
    want = crowding_oracle(objs)
    kept = []
    for j, ind in enumerate(inds):
        if any(o is ind for o in out):
            kept.append(j)
            ctx.check(same_crowding(ind.fitness.crowding, want[j]),
                      "crowding distance is its definition")
            ctx.check(ind.fitness.front_rank == 1, "one front")
    ctx.check(len(kept) == m, "different individuals")
    for j in kept:
        for o in range(n):
            if o not in kept:
                ctx.check(want[j] >= want[o],
                          "the most spread out individuals survive")


def long(ctx, n, higher, m, shift=0):
    """A large front, one individual of which lies anywhere between its
    neighbours."""
    up = -1.0 if higher[0] == higher[1] else 1.0
    pts = [[float(i * i), up * (3 * i + i % 2)] for i in range(n)]
    at = ctx.pick((0, 1, n // 2, n - 1), "at")
    x, y = ctx.real("x"), ctx.real("y")
    lo, hi = (pts[at - 1] if at else [-99.0, up * -99.0]), \
        (pts[at + 1] if at + 1 < n else [9e9, up * 9e9])
    ctx.assume(land(lo[0] < x, x < hi[0], up * lo[1] < up * y,
                    up * y < up * hi[1]))
    pts[at] = [x, y]
    objs = [pts[(i * 7 + shift) % n] for i in range(n)]
    inds = [moo(i, o, list(higher)) for i, o in enumerate(objs)]
    pop = population(inds)
    NSGA2FrontSorting().select_for_population(pop, m)
    out = pop.sub_populations[0].individuals
    want = crowding_oracle(objs)
    kept = [j for j, i in enumerate(inds) if any(o is i for o in out)]
    ctx.check(len(out) == m and len(kept) == m, "as many as asked for")
    for j in kept:
        ctx.check(same_crowding(inds[j].fitness.crowding, want[j]),
                  "crowding distance is its definition")
    for o in range(n):
        if o not in kept:
            for j in kept:
                ctx.check(want[j] >= want[o] - 1e-9,
                          "the most spread out individuals survive")


def again(ctx, n, higher, m, what):
    """One sorting object, used before on other objectives, another
    population or another number of survivors."""
    sorter = NSGA2FrontSorting()
    inds = [moo(i, [float(i), float((i * 2) % n)], list(higher))
            for i in range(n)]
    first = inds + ([moo(70, [9.0, -3.0], list(higher))]
                    if what == "more" else [])
    p1 = population(first)
    sorter.select_for_population(p1, n)
    objs = front(ctx, n, higher, 2)
    if what == "void":
        for i, o in zip(inds, objs):
            i.set_fitness_not_evaluated()
            i.fitness.set_fitness(list(o))
    elif what == "clones":
        inds = [i.clone() for i in inds]
        for i, o in zip(inds, objs):
            i.fitness.set_fitness(list(o))
    else:
        inds = [moo(i, o, list(higher)) for i, o in enumerate(objs)]
    if what == "same population":
        pop = p1
        pop.sub_populations[0].individuals = list(inds)
    else:
        pop = population(inds)
    sorter.select_for_population(pop, m)
    out = pop.sub_populations[0].individuals
    want = crowding_oracle(objs)
    idx = [j for j, i in enumerate(inds) if any(o is i for o in out)]
    ctx.check(len(out) == m and len(idx) == m, "as many as asked for")
    for j in idx:
        ctx.check(same_crowding(inds[j].fitness.crowding, want[j]),
                  "crowding distance is its definition")
        ctx.check(inds[j].fitness.front_rank == 1, "one front")
        for o in range(n):
            if o not in idx:
                ctx.check(want[j] >= want[o],
                          "the most spread out individuals survive")


def layers(ctx, na, nb, higher, m, turn=False):
    """Crowding is measured within the own front; the first one goes first."""
    oa, ob = front(ctx, na, higher), front(ctx, nb, higher)
    for a in oa:
        for b in ob:
            for k in range(2):
                ctx.assume(a[k] > b[k] if higher[k] else a[k] < b[k])
    ia = [moo(i, o, list(higher)) for i, o in enumerate(oa)]
    ib = [moo(40 + i, o, list(higher)) for i, o in enumerate(ob)]
    pop = population(ib + ia if turn else ia + ib)
    NSGA2FrontSorting().select_for_population(pop, m)
    out = pop.sub_populations[0].individuals
    ctx.check(len(out) == m, "as many as asked for")
    wa, wb = crowding_oracle(oa), crowding_oracle(ob)

    def kept(inds):
        return [j for j, i in enumerate(inds) if any(o is i for o in out)]
    ka, kb = kept(ia), kept(ib)
    ctx.check(len(ka) == min(m, na) and len(kb) == max(0, m - na),
              "the first front goes first")
    for inds, w, k, r in ((ia, wa, ka, 1), (ib, wb, kb, 2)):
        for j in k:
            ctx.check(same_crowding(inds[j].fitness.crowding, w[j]),
                      "crowding distance within the own front")
            ctx.check(inds[j].fitness.front_rank == r, "rank")
            for o in range(len(inds)):
                if o not in k:
                    ctx.check(w[j] >= w[o], "the most spread out survive")


def ties(ctx, n, higher, m):
    """Equal values allowed: extremes are infinite, others are not negative,
    and nobody more crowded displaces a survivor."""
    objs = front(ctx, n, higher, ties=True)
    inds = [moo(i, o, list(higher)) for i, o in enumerate(objs)]
    pop = population(inds)
    NSGA2FrontSorting().select_for_population(pop, m)
    out = pop.sub_populations[0].individuals
    ctx.check(len(out) == m and distinct_objs(out), "m individuals")
    cr = [i.fitness.crowding for i in inds]
    idx = [j for j, i in enumerate(inds) if any(o is i for o in out)]
    if m == n:
        for k in range(2):
            for lo in (False, True):
                ctx.check(lor(*[land(is_inf(cr[i]), *[
                    (objs[i][k] <= o[k]) if lo else (objs[i][k] >= o[k])
                    for o in objs]) for i in range(n)]),
                    "an extreme individual has infinite crowding")
    for j in idx:
        c = cr[j]
        if is_inf(c):
            ctx.check(lor(*[lor(land(*[objs[j][k] <= o[k] for o in objs]),
                                land(*[objs[j][k] >= o[k] for o in objs]))
                            for k in range(2)]),
                      "infinite only at an extreme value")
        else:
            ctx.check(between(0, c, 2), "at most one per objective")


def ranked(ctx, i, unranked=False):
    ind = moo(i, [ctx.real("o"), ctx.real("o")], False)
    f = ind.fitness
    f.front_rank = ctx.int("rank", 1, 3)
    f.crowding = INF if ctx.choose(2, "inf") else ctx.real("crowd", 0)
    return ind


def cr_gt(a, b):
    if is_inf(b):
        return False
    if is_inf(a):
        return True
    return a > b


def cr_eq(a, b):
    if is_inf(a) or is_inf(b):
        return is_inf(a) and is_inf(b)
    return a == b


def best(a, b):
    fa, fb = a.fitness, b.fitness
    return lor(fa.front_rank < fb.front_rank,
               land(fa.front_rank == fb.front_rank,
                    cr_gt(fa.crowding, fb.crowding)))


def equal(a, b):
    fa, fb = a.fitness, b.fitness
    return land(fa.front_rank == fb.front_rank,
                cr_eq(fa.crowding, fb.crowding))


def order(ctx):
    a, b, c = (ranked(ctx, i) for i in range(3))
    ab, ba = a.better_than(b), b.better_than(a)
    ctx.check(iff(ab, best(a, b)), "better rank, then larger crowding")
    ctx.check(iff(ba, best(b, a)), "better rank, then larger crowding")
    e = a.fitness.equal_to(a, b.fitness, b)
    ctx.check(iff(e, equal(a, b)), "equal rank and crowding")
    ctx.check(count([ab, ba, e]) == 1, "exactly one of better, worse, equal")
    ctx.check(implies(land(ab, b.better_than(c)), a.better_than(c)),
              "transitive")
    ctx.check(lnot(a.better_than(a)), "not better than itself")


def unranked(ctx, other_ranked):
    """Before the first ranking the comparison is a coin flip."""
    a = moo(1, [ctx.real("o"), ctx.real("o")], False)
    b = ranked(ctx, 2) if other_ranked else moo(
        2, [ctx.real("o"), ctx.real("o")], True)
    r = a.better_than(b)
    ctx.check(lor(r, lnot(r)), "a truth value")
    if other_ranked:
        ctx.check(b.better_than(a), "ranked beats unranked")
    ranked_once = ranked(ctx, 3)
    ranked_once.fitness.set_not_evaluated()
    ctx.check(ranked_once.fitness.front_rank == INF and
              eq(ranked_once.fitness.crowding, 0) and
              not ranked_once.fitness.is_fitness_evaluated(),
              "voiding forgets rank and crowding")
    ctx.check(raises(ValueError, ranked_once.get_pure_fitness),
              "voided objectives cannot be read")


def chosen(ctx, n):
    """Tournaments use this order."""
    inds = [ranked(ctx, i) for i in range(n)]
    dest = []
    TournamentSelection(n, higher_is_better=False, replace=False).select(
        list(inds), dest)
    gen = [genome(i) for i in inds]
    got = [gen.index(genome(d)) for d in dest]
    for i in set(got):
        for o in range(n):
            ctx.check(lnot(best(inds[o], inds[i])), "a best one wins")


def refused(ctx):
    a = moo(1, [ctx.real("o")], False)
    ctx.check(raises(AttributeError,
                     lambda: a.fitness.set_fitness([ctx.real("o")])),
              "objectives are not overwritten")
    ctx.check(raises(ValueError, NSGA2Fitness().get_pure_fitness),
              "no objectives yet")
    b = ranked(ctx, 2)
    c = vec("int", [3], ctx.real("o"))
    ctx.check(raises((TypeError, AttributeError),
                     lambda: b.better_than(c)), "only its own kind")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="crowding", n=3, higher=(h, False), m=3)
        yield "copies", dict(of="crowding", n=4, higher=(True, h), m=2)
        yield "copies", dict(of="ties", n=3, higher=(h, False), m=2)
        yield "copies", dict(of="layers", na=2, nb=3, higher=(h, False), m=5, turn=False)
    H = ((False, False), (True, False), (True, True))
    for h in H:
        yield "crowding", dict(n=1, higher=h, m=1)
        for n, m in ((9, 9), (9, 5), (16, 16), (16, 7), (30, 30)):
            yield "long", dict(n=n, higher=h, m=m, shift=3)
        for m in (1, 2):
            yield "crowding", dict(n=2, higher=h, m=m)
            yield "ties", dict(n=2, higher=h, m=m)
        for m in (1, 2, 3):
            yield "crowding", dict(n=3, higher=h, m=m)
            yield "ties", dict(n=3, higher=h, m=m)
        for m in (2, 3, 4):
            yield "crowding", dict(n=4, higher=h, m=m)
        yield "crowding", dict(n=4, higher=h, m=3, perm=(2, 0, 3, 1))
        yield "crowding", dict(n=4, higher=h, m=4, call=2)
        yield "crowding", dict(n=5, higher=h, m=3, perm=(3, 1, 4, 0, 2))
        yield "crowding", dict(n=5, higher=h, m=5)
        yield "crowding", dict(n=3, higher=h + (False,), m=3, k=3), {
            "weight": 5}
        yield "ties", dict(n=4, higher=h, m=4), {"weight": 5}
        yield "ties", dict(n=4, higher=h, m=2), {"weight": 5}
        for what in ("void", "clones", "population", "more",
                     "same population"):
            yield "again", dict(n=3, higher=h, m=3, what=what)
        yield "again", dict(n=4, higher=h, m=3, what="population")
        for na, nb, m, t in ((2, 3, 5, False), (3, 3, 5, True),
                             (1, 3, 4, True), (3, 2, 2, True),
                             (3, 1, 4, False)):
            yield "layers", dict(na=na, nb=nb, higher=h, m=m, turn=t)
    yield "order", {}
    yield "unranked", dict(other_ranked=False)
    yield "unranked", dict(other_ranked=True)
    yield "chosen", dict(n=2)
    yield "refused", {}
    if T:
        for h in H:
            yield "crowding", dict(n=6, higher=h, m=4), {
                "weight": 50, "budget": 900}
            yield "crowding", dict(n=6, higher=h, m=6,
                                   perm=(5, 3, 1, 4, 0, 2)), {
                "weight": 50, "budget": 900}
            yield "crowding", dict(n=4, higher=h + (True,), m=4, k=3), {
                "weight": 90, "budget": 1500}
            yield "ties", dict(n=5, higher=h, m=3), {"budget": 900}
        yield "chosen", dict(n=3), {
            "weight": 50, "budget": 900}
