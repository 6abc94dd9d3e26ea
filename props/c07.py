"""C07: comparison of individuals is a strict weak order of their scores."""
from props.common import *

BOUNDS = ("2-4 individuals; scores: any IEEE double incl. infinities (no NaN) "
          "for plain fitness, any real for bloat-controlled fitness; bloat "
          "weight any real >= 0 (symbolic) and 0; tree sizes 1..6 and 40; both "
          "directions; 1-2 sub-populations of 1-4 individuals, and of 60 with one arbitrary score; comparing again after the "
          "tree, the score, the weight or the members changed; "
          "copies that share one identity")
OUTSIDE = "NaN scores; rounding inside the bloat arithmetic"


def simple_order(ctx, higher):
    a, b, c = [vec("int", [i], ctx.fp("s"), higher=higher) for i in range(3)]
    s = [x.fitness.fitness for x in (a, b, c)]
    ab, ba = a.better_than(b), b.better_than(a)
    ctx.check(iff(ab, better(s[0], s[1], higher)), "better_than = direction")
    ctx.check(iff(ba, better(s[1], s[0], higher)), "better_than = direction")
    ctx.check(lnot(a.better_than(a)), "irreflexive")
    ctx.check(lnot(land(ab, ba)), "asymmetric")
    bc, ac = b.better_than(c), a.better_than(c)
    ctx.check(implies(land(ab, bc), ac), "transitive")
    eqab = a.fitness.equal_to(a, b.fitness, b)
    ctx.check(iff(eqab, s[0] == s[1]), "equal_to = equality")
    ctx.check(iff(eqab, land(lnot(ab), lnot(ba))),
              "equal_to = neither better")
    ctx.check(a.better_than(None) is True, "anything beats None")
    ctx.check(eq([x.fitness.fitness for x in (a, b, c)], s),
              "comparing does not change scores")
    ctx.check(eq(a.get_pure_fitness(), s[0]), "pure fitness")
    ctx.check(eq(a.get_augmented_fitness(), s[0]),
              "plain augmented fitness is the score")


def bloat_order(ctx, higher, n1, n2, zero):
    w = 0 if zero else ctx.real("w", 0)
    s1, s2 = ctx.real("s"), ctx.real("s")
    a = chain_tree(n1, GPFitness(s1, higher_is_better=higher, bloat_weight=w))
    b = chain_tree(n2, GPFitness(s2, higher_is_better=higher, bloat_weight=w))
    x, y = aug(s1, n1, higher, w), aug(s2, n2, higher, w)
    ctx.check(close(a.get_augmented_fitness(), x), "augmented = score and size")
    ctx.check(close(b.get_augmented_fitness(), y), "augmented = score and size")
    ab = a.better_than(b)
    ctx.check(iff(ab, better(x, y, higher)), "bloat better_than")
    ctx.check(iff(a.fitness.equal_to(a, b.fitness, b), x == y),
              "bloat equal_to")
    ctx.check(lnot(a.better_than(a)), "irreflexive")
    ctx.check(eq(a.get_pure_fitness(), s1), "pure fitness ignores bloat")
    # at equal scores, the smaller tree is never worse
    if n1 < n2:
        ctx.check(implies(s1 == s2, lnot(b.better_than(a))),
                  "bloat control never favours the larger tree")


def bloat_history(ctx, higher, n1, n2, what):
    """The comparison follows the tree and the score as they are now."""
    w = ctx.real("w", 0)
    s1, s2 = ctx.real("s"), ctx.real("s")
    a = chain_tree(n1, GPFitness(s1, higher_is_better=higher, bloat_weight=w))
    b = chain_tree(3, GPFitness(s2, higher_is_better=higher, bloat_weight=w))
    a.get_augmented_fitness(), a.better_than(b), b.better_than(a)
    if what == "size":
        a.tree = chain_tree(n2, None).tree
    elif what == "in place":
        a.tree[:] = chain_tree(n2, None).tree
    elif what == "same score":
        a.tree = chain_tree(n2, None).tree
        a.fitness.set_fitness(s1)
    elif what == "score":
        s1 = ctx.real("s")
        a.fitness.set_fitness(s1)
        n2 = n1
    elif what == "invalidated":
        a.tree = chain_tree(n2, None).tree
        a.set_fitness_not_evaluated()
        s1 = ctx.real("s")
        a.fitness.set_fitness(s1)
    elif what == "clone":
        a = a.clone()
        a.tree = chain_tree(n2, None).tree
        s1 = ctx.real("s")
        a.fitness.set_fitness(s1)
    elif what == "other":
        # one fitness asked about another individual
        o = chain_tree(n2, a.fitness)
        ctx.check(close(a.fitness.get_augmented_fitness(o),
                        aug(s1, n2, higher, w)), "asked about another")
        n2 = n1
    elif what == "weight":
        w = ctx.real("w", 0)
        a.fitness.bloat_weight = b.fitness.bloat_weight = w
        n2 = n1
    x, y = aug(s1, n2, higher, w), aug(s2, 3, higher, w)
    ctx.check(close(a.get_augmented_fitness(), x), "augmented fitness is "
              "that of the present tree and score")
    ctx.check(iff(a.better_than(b), better(x, y, higher)), "better_than "
              "follows the present tree and score")
    ctx.check(iff(b.better_than(a), better(y, x, higher)), "better_than "
              "follows the present tree and score")
    ctx.check(iff(a.fitness.equal_to(a, b.fitness, b), x == y),
              "equal_to follows the present tree and score")
    ctx.check(eq(a.get_pure_fitness(), s1), "pure fitness")


def subpop_history(ctx, higher, what):
    """Best, worst and average of the sub-population as it is now."""
    inds = [vec("int", [i], ctx.real("s"), higher=higher) for i in range(3)]
    sp = _subpop(ctx, list(inds), higher)
    p = Population([sp])
    p.get_best_individuals(), p.get_worst_individuals()
    p.get_average_fitness()
    if what == "scores":
        for i in inds:
            i.fitness.set_fitness(ctx.real("s"))
    elif what == "one score":
        inds[1].fitness.set_fitness(ctx.real("s"))
    elif what == "replaced":
        inds = [vec("int", [9 - i], ctx.real("s"), higher=higher)
                for i in range(3)]
        sp.individuals = list(inds)
    elif what == "in place":
        inds[2] = vec("int", [9], ctx.real("s"), higher=higher)
        sp.individuals[2] = inds[2]
    elif what == "cloned":
        inds = [i.clone() for i in inds]
        for i in inds:
            i.fitness.set_fitness(ctx.real("s"))
        sp.individuals[:] = inds
    [best], [worst] = p.get_best_individuals(), p.get_worst_individuals()
    ctx.check(any(best is i for i in inds), "best is a present member")
    ctx.check(any(worst is i for i in inds), "worst is a present member")
    s = [i.get_pure_fitness() for i in inds]
    for v in s:
        ctx.check(no_worse(best.get_pure_fitness(), v, higher),
                  "no present member beats the best")
        ctx.check(no_worse(v, worst.get_pure_fitness(), higher),
                  "the worst beats no present member")
    ctx.check(close(p.get_average_fitness()[0] * 3, s[0] + s[1] + s[2]),
              "average of the present scores")


def unevaluated(ctx, higher, kind):
    def mk(f):
        if kind == "gp":
            return chain_tree(2, GPFitness(f, higher_is_better=higher))
        return vec("int", [0], f, higher=higher)
    s = ctx.real("s")
    a, n = mk(s), mk(None)
    ctx.check(raises(ValueError, lambda: a.better_than(n)), "raises")
    ctx.check(raises(ValueError, lambda: n.better_than(a)), "raises")
    ctx.check(raises(ValueError, lambda: n.fitness.equal_to(n, a.fitness, a)),
              "raises")
    ctx.check(raises(ValueError, lambda: a.fitness.equal_to(a, n.fitness, n)),
              "raises")
    ctx.check(raises(ValueError, lambda: n.get_pure_fitness()), "raises")
    ctx.check(raises(ValueError, lambda: n.get_augmented_fitness()), "raises")
    ctx.check(not n.fitness.is_fitness_evaluated(), "not evaluated")
    ctx.check(a.fitness.is_fitness_evaluated(), "evaluated")
    t = ctx.real("t")
    n.fitness.set_fitness(t)
    ctx.check(land(n.fitness.is_fitness_evaluated(),
                   n.get_pure_fitness() == t), "set_fitness")
    ctx.check(iff(n.better_than(a), better(n.get_augmented_fitness(),
                                           a.get_augmented_fitness(), higher)),
              "comparable after evaluation")
    u = ctx.real("u")
    n.fitness.set_fitness(u)
    ctx.check(n.get_pure_fitness() == u, "re-evaluation replaces the score")
    n.set_fitness_not_evaluated()
    ctx.check(not n.fitness.is_fitness_evaluated(), "invalidated")
    ctx.check(raises(ValueError, lambda: n.get_pure_fitness()), "raises")


def relative_unset(ctx, higher):
    """A relative fitness that was never set has no score to read."""
    f = SimpleFitness(higher_is_better=higher, is_relative_fitness=True)
    i = IntVector(fitness=f, length=1, bounds=(0, 9), vector=[1])
    ctx.check(raises(ValueError, lambda: i.get_pure_fitness()), "raises")
    ctx.check(raises(ValueError, lambda: i.get_augmented_fitness()),
              "raises")
    s = ctx.real("s")
    f.set_fitness(s)
    ctx.check(eq(i.get_pure_fitness(), s), "the score that was set")
    f.set_not_evaluated()
    ctx.check(raises(ValueError, lambda: i.get_pure_fitness()), "raises")


def _subpop(ctx, inds, higher):
    return Subpopulation(evaluator=Scores(lambda i, k: 0),
                         creators=TagCreator(None), operators_sequence=[],
                         population_size=len(inds), individuals=inds,
                         higher_is_better=higher)


def subpop(ctx, n, higher, dom, bloat=None, sizes=None):
    if sizes:
        w = ctx.real("w", 0)
        s = [ctx.real("s") for _ in range(n)]
        inds = [chain_tree(sizes[i], GPFitness(
            s[i], higher_is_better=higher, bloat_weight=w)) for i in range(n)]
        x = [aug(s[i], sizes[i], higher, w) for i in range(n)]
    else:
        s = [ctx.fp("s") if dom == "fp" else ctx.real("s") for _ in range(n)]
        inds = [vec("int", [i], s[i], higher=higher) for i in range(n)]
        x = s
    sp = _subpop(ctx, list(inds), higher)
    b, w_ = sp.get_best_individual(), sp.get_worst_individual()
    ctx.check(any(b is i for i in inds), "best is a member")
    ctx.check(any(w_ is i for i in inds), "worst is a member")
    xb = x[[k for k in range(n) if inds[k] is b][0]]
    xw = x[[k for k in range(n) if inds[k] is w_][0]]
    for k in range(n):
        ctx.check(no_worse(xb, x[k], higher), "best is no worse than all")
        ctx.check(no_worse(x[k], xw, higher), "worst is no better than all")
        if not (dom == "fp" and not sizes):
            ctx.check(lnot(inds[k].better_than(b)), "nobody beats the best")
            ctx.check(lnot(w_.better_than(inds[k])), "worst beats nobody")
    if dom != "fp":
        ctx.check(close(sp.get_average_fitness() * n, sum(s[1:], s[0])),
                  "average")
    ctx.check(len(sp.individuals) == n and all(
        p is q for p, q in zip(sp.individuals, inds)),
        "asking does not reorder the population")
    ctx.check(sp.contains_individual(inds[-1]), "contains")
    ctx.check(not sp.contains_individual(vec("int", [7], 0.0)),
              "does not contain")


def crowd(ctx, n, higher):
    """A large sub-population with one arbitrary score near either end or in
    the middle."""
    at, v = ctx.pick((0, 1, n // 2, n - 2, n - 1), "at"), ctx.real("v")
    s = [v if i == at else float((i * 7 + 3) % n) for i in range(n)]
    inds = [vec("int", [i], x, higher=higher) for i, x in enumerate(s)]
    sp = _subpop(ctx, list(inds), higher)
    b, w = sp.get_best_individual(), sp.get_worst_individual()
    ctx.check(any(b is i for i in inds) and any(w is i for i in inds),
              "members")
    for x in s:
        ctx.check(no_worse(b.get_pure_fitness(), x, higher),
                  "best is no worse than all")
        ctx.check(no_worse(x, w.get_pure_fitness(), higher),
                  "worst is no better than all")
    ctx.check(close(sp.get_average_fitness() * n, sum(s[1:], s[0])),
              "average")
    ctx.check(all(p is q for p, q in zip(sp.individuals, inds)) and
              len(sp.individuals) == n and
              sp.contains_individual(inds[n // 3]),
              "asking does not reorder the population")


def population(ctx, n1, n2, h1, h2):
    def mk(n, h):
        return [vec("int", [i], ctx.real("s"), higher=h) for i in range(n)]
    a, b = mk(n1, h1), mk(n2, h2)
    p = Population([_subpop(ctx, a, h1), _subpop(ctx, b, h2)])
    best, worst = p.get_best_individuals(), p.get_worst_individuals()
    avg = p.get_average_fitness()
    ctx.check(len(best) == 2 and len(worst) == 2 and len(avg) == 2,
              "one per sub-population")
    for k, (g, h) in enumerate(((a, h1), (b, h2))):
        ctx.check(any(best[k] is i for i in g), "best of its own")
        ctx.check(any(worst[k] is i for i in g), "worst of its own")
        for i in g:
            ctx.check(no_worse(best[k].fitness.fitness, i.fitness.fitness, h),
                      "population best")
            ctx.check(no_worse(i.fitness.fitness, worst[k].fitness.fitness,
                               h), "population worst")
        ctx.check(close(avg[k] * len(g),
                        sum([i.fitness.fitness for i in g])), "average")
    ctx.check(p.find_individual_subpopulation(b[0]) is p.sub_populations[1],
              "finds the sub-population")
    ctx.check(raises(ValueError, lambda: p.find_individual_subpopulation(
        vec("int", [5], 0.0))), "unknown individual")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="subpop", n=3, higher=h, dom="real")
        yield "copies", dict(of="subpop", n=3, higher=h, dom="real", sizes=(1, 4, 2))
        yield "copies", dict(of="bloat_order", higher=h, n1=1, n2=2, zero=False)
    for h in (False, True):
        yield "simple_order", dict(higher=h)
        sz = [(1, 2), (2, 2), (3, 1), (1, 40), (6, 5)]
        if T:
            sz = [(a, b) for a in range(1, 7) for b in range(1, 7)] + [
                (1, 40), (40, 1), (100, 99)]
        for a, b in sz:
            for z in (False, True):
                yield "bloat_order", dict(higher=h, n1=a, n2=b, zero=z)
        for k in ("size", "in place", "same score", "score", "invalidated",
                  "clone", "other", "weight"):
            yield "bloat_history", dict(higher=h, n1=2, n2=5, what=k)
        for k in ("scores", "one score", "replaced", "in place", "cloned"):
            yield "subpop_history", dict(higher=h, what=k)
        yield "relative_unset", dict(higher=h)
        for k in ("gp", "vec"):
            yield "unevaluated", dict(higher=h, kind=k)
        for n in (1, 2, 3, 4) + ((5,) if T else ()):
            for dom in ("fp", "real"):
                yield "subpop", dict(n=n, higher=h, dom=dom), {
                    "weight": n ** 3}
        yield "subpop", dict(n=3, higher=h, dom="real", sizes=(1, 4, 2))
        if T:
            yield "subpop", dict(n=4, higher=h, dom="real",
                                 sizes=(1, 4, 2, 2))
        for n in (12, 60):
            yield "crowd", dict(n=n, higher=h)
        for g in (False, True):
            yield "population", dict(n1=2, n2=3 if T else 2, h1=h, h2=g), {
                "weight": 10}
