"""C04: elite individuals survive breeding as they are."""
from props.common import *
from eckity.breeders import SimpleBreeder
from eckity.genetic_operators import ElitismSelection, TournamentSelection

BOUNDS = ("2-4 individuals with any real scores (all orders and ties), 0..n "
          "elites; up to 20 individuals with one arbitrary score at an "
          "arbitrary position; vectors and trees with bloat weight any real "
          ">= 0; both directions; operators of arity 1-3; whole runs of 2 "
          "individuals x 2-3 generations; elitism rate any real in [0,1]; selection and "
          "breeder objects used again on changed scores or another "
          "population; "
          "infinite scores too; copies that share one identity")
OUTSIDE = "NaN scores; elitism in the multi-objective breeder (it has none)"


def mk(ctx, n, higher, kind, w, scores, length=2):
    if kind == "tree":
        out = []
        for i in range(n):
            t = chain_tree(1 + (i * 2) % 5, GPFitness(
                scores[i], higher_is_better=higher, bloat_weight=w))
            t.tree[-1].value = f"t{i}"
            out.append(t)
        return out
    return [vec("int", [i] + [0] * (length - 1), scores[i], higher=higher)
            for i in range(n)]


def tag(ind):
    if isinstance(ind, Tree):
        return int(ind.tree[-1].value[1:])
    return ind.vector[0]


def top_k_present(ctx, x, present, k, higher):
    """Some k best individuals (under ties, any choice) are all in
    `present`."""
    n = len(x)
    alts = []
    for S in combos(sorted(set(present)), k):
        out = [j for j in range(n) if j not in S]
        alts.append(land(*[no_worse(x[i], x[j], higher) for i in S
                           for j in out]))
    return lor(*alts) if alts else False


def scores_for(ctx, n, sparse):
    if sparse == "fp":
        return [ctx.fp("s") for _ in range(n)]
    if sparse is None:
        return [ctx.real("s") for _ in range(n)]
    at, v = ctx.choose(n, "at"), ctx.real("v")
    return [v if i == at else float((i * 7 + sparse) % n)
            for i in range(n)]


def breed(ctx, n, k, higher, kind="int", arity=1, sel="clone", sparse=None,
          cache=False, prob=1.0):
    w = ctx.real("w", 0) if kind == "tree" else None
    s = scores_for(ctx, n, sparse)
    inds = mk(ctx, n, higher, kind, w, s)
    for i in inds:
        i.fitness.cache = cache
    x = [aug(s[i], size_of(inds[i]), higher, w) for i in range(n)]
    gen = [genome(i) for i in inds]
    counter = [100]
    selm = CloneAll(higher) if sel == "clone" else TournamentSelection(
        2, higher)
    sp = Subpopulation(
        evaluator=Scores(lambda i, k: 0.0), creators=TagCreator(None),
        operators_sequence=[Retag(counter, prob, arity)],
        selection_methods=[(selm, 1)], elitism_rate=k / n,
        population_size=n, individuals=list(inds), higher_is_better=higher)
    ctx.check(sp.n_elite == k, "number of elites")
    SimpleBreeder().breed(Population([sp]))
    new = sp.individuals
    ctx.check(len(new) == n, "size")
    kept = [i for i in new if tag(i) < 100]
    ctx.check(len(kept) >= k, "at least k individuals pass unchanged")
    for i in kept:
        ctx.check(genome(i) == gen[tag(i)], "elites are unchanged")
    elites = [i for i in kept if not i.applied_operators]
    ctx.check(len(elites) >= k, "no operator was applied on the elites")
    # k best, each in its own slot
    ctx.check(top_k_present(ctx, x, [tag(i) for i in elites], k, higher),
              "the k best individuals are kept as-is")
    if prob == 1.0 and arity == 1:
        ctx.check(len(kept) == k, "everybody else is bred")
    for i in elites:
        ctx.check(i.cloned_from == inds[tag(i)].id, "clone of the elite")
        ctx.check(all(i is not o for o in inds), "a copy, not the parent")
        if cache and i.fitness.is_fitness_evaluated():
            ctx.check(eq(i.get_pure_fitness(), s[tag(i)]), "own score")


def selection(ctx, n, k, higher, kind="int", pre=0, sparse=None):
    """ElitismSelection on its own."""
    w = ctx.real("w", 0) if kind == "tree" else None
    s = scores_for(ctx, n, sparse)
    inds = mk(ctx, n, higher, kind, w, s)
    x = [aug(s[i], size_of(inds[i]), higher, w) for i in range(n)]
    gen = [genome(i) for i in inds]
    src = list(inds)
    dest = [vec("int", [77]) for _ in range(pre)]
    dest0 = list(dest)
    out = ElitismSelection(num_elites=k, higher_is_better=higher).select(
        src, dest)
    ctx.check(out is dest, "fills the destination")
    ctx.check(all(a is b for a, b in zip(dest, dest0)) and
              len(dest) == pre + k, "appends exactly k")
    new = dest[pre:]
    ctx.check(len({tag(i) for i in new}) == k, "k different individuals")
    ctx.check(top_k_present(ctx, x, [tag(i) for i in new], k, higher),
              "the k best")
    for i in new:
        ctx.check(genome(i) == gen[tag(i)], "same genome")
        ctx.check(all(i is not o for o in inds), "clones")
        ctx.check(i.selected_by == ["ElitismSelection"], "selected_by")
    ctx.check(len(src) == n and all(a is b for a, b in zip(src, inds)),
              "the source list is untouched")
    for a, b in zip(inds, s):
        ctx.check(eq(a.get_pure_fitness(), b), "sources keep their score")


def again(ctx, n, k, higher, what):
    """One selection or breeder object, used on one population and then on
    changed scores / another population."""
    s = [ctx.real("s") for _ in range(n)]
    inds = mk(ctx, n, higher, "int", None, s)
    sel = ElitismSelection(num_elites=k, higher_is_better=higher)
    breeder = SimpleBreeder()

    def pop(inds):
        sp = Subpopulation(
            evaluator=Scores(lambda i, k: 0.0), creators=TagCreator(None),
            operators_sequence=[Retag([100])],
            selection_methods=[(CloneAll(higher), 1)], elitism_rate=k / n,
            population_size=n, individuals=list(inds),
            higher_is_better=higher)
        return Population([sp])
    if what in ("scores", "population"):
        sel.select(list(inds), [])
        if what == "scores":
            s = [ctx.real("s") for _ in range(n)]
            for i, v in zip(inds, s):
                i.fitness.set_fitness(v)
        else:
            s = [ctx.real("s") for _ in range(n)]
            inds = mk(ctx, n, higher, "int", None, s)
        out = sel.select(list(inds), [])
    else:
        p = pop(inds)
        breeder.breed(p)
        s = [ctx.real("s") for _ in range(n)]
        inds = mk(ctx, n, higher, "int", None, s)
        if what == "breed same":
            p.sub_populations[0].individuals = list(inds)
        else:
            p = pop(inds)
        breeder.breed(p)
        out = p.sub_populations[0].individuals
        ctx.check(len(out) == n, "size")
    out = [i for i in out if tag(i) < 100]
    ctx.check(len(out) == k, "k elites")
    ctx.check(top_k_present(ctx, s, [tag(i) for i in out], k, higher),
              "the k best of the present population")
    for i in out:
        ctx.check(i.cloned_from == inds[tag(i)].id, "clones of the present "
                  "individuals")


def monotone(ctx, n, gens, higher, kind="int", elitism=0.5, sel="clone",
             sparse=None):
    """With at least one elite the best of a generation never gets worse."""
    w = ctx.real("w", 0) if kind == "tree" else None
    r = Run(ctx, n, gens, higher=higher, kind=kind, bloat=w, sel=sel,
            elitism=elitism, evolve=False,
            score=None if sparse is None else sparse_scores(
                ctx, n * (gens + 1), sparse))
    prev = []

    def best(vals):
        b = vals[0]
        for v in vals[1:]:
            b = ite(better(v, b, higher), v, b)
        return b

    def at(sender, data):
        inds = data["population"].sub_populations[0].individuals
        v = best([r.value(i) for i in inds])
        if prev:
            ctx.check(no_worse(v, prev[-1], higher),
                      "the best of a generation never gets worse")
        prev.append(v)
    r.algo.register("init", at)
    r.hook = at
    r.algo.evolve()
    ctx.check(len(prev) == gens + 1, "all generations seen")


def rate(ctx, n):
    e = ctx.real("rate", 0, 1)
    sp = Subpopulation(evaluator=Scores(lambda i, k: 0.0),
                       creators=TagCreator(None), operators_sequence=[],
                       population_size=n, elitism_rate=e)
    k = sp.n_elite
    ctx.check(land(k - e * n <= 0.5, e * n - k <= 0.5),
              "n_elite is the rounded share of the population")
    ctx.check(between(0, k, n), "0 <= n_elite <= size")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="breed", n=3, k=1, higher=h)
        yield "copies", dict(of="breed", n=3, k=2, higher=h, kind="tree")
        yield "copies", dict(of="selection", n=3, k=2, higher=h)
    for h in (False, True):
        for n in (2, 3):
            for k in range(n + 1):
                yield "breed", dict(n=n, k=k, higher=h), {"weight": n}
                yield "breed", dict(n=n, k=k, higher=h, kind="tree"), {
                    "weight": n}
                for pre in (0, 2):
                    yield "selection", dict(n=n, k=k, higher=h, pre=pre)
                yield "selection", dict(n=n, k=k, higher=h, kind="tree")
        for k in (1, 2):
            yield "breed", dict(n=4, k=k, higher=h, arity=2), {"weight": 9}
            yield "breed", dict(n=3, k=k, higher=h, cache=True)
            yield "breed", dict(n=3, k=k, higher=h, arity=3)
            yield "breed", dict(n=2, k=k, higher=h, prob=0.5)
            yield "breed", dict(n=20, k=3 * k, higher=h, sparse=k), {
                "weight": 5}
            yield "breed", dict(n=12, k=k, higher=h, sparse=k, arity=2), {
                "weight": 5}
            yield "selection", dict(n=16, k=2 * k, higher=h, sparse=k)
            yield "breed", dict(n=12, k=11, higher=h, sparse=k, arity=2)
        yield "breed", dict(n=2, k=1, higher=h, sel="tour")
        for k in (1, 2):
            yield "breed", dict(n=3, k=k, higher=h, sparse="fp")
            yield "selection", dict(n=3, k=k, higher=h, sparse="fp")
        for what in ("scores", "population", "breed same", "breed other"):
            yield "again", dict(n=3, k=1, higher=h, what=what)
        yield "monotone", dict(n=2, gens=2, higher=h), {"weight": 5}
        yield "monotone", dict(n=2, gens=2, higher=h, kind="tree"), {
            "weight": 9}
        yield "monotone", dict(n=8, gens=6, higher=h, elitism=0.125,
                               sparse=0.0), {"weight": 9}
        if T:
            yield "monotone", dict(n=2, gens=4, higher=h), {
                "weight": 30, "budget": 900}
            yield "monotone", dict(n=3, gens=2, higher=h, elitism=0.34), {
                "weight": 30, "budget": 900}
            yield "monotone", dict(n=2, gens=2, higher=h, sel="tour"), {
                "weight": 30, "budget": 900}
            yield "monotone", dict(n=8, gens=25, higher=h, elitism=0.25,
                                   sparse=0.0), {"weight": 30,
                                                 "budget": 900}
            for k in range(5):
                yield "breed", dict(n=4, k=k, higher=h), {"weight": 20}
                yield "breed", dict(n=4, k=k, higher=h, kind="tree"), {
                    "weight": 20, "budget": 600}
                yield "selection", dict(n=4, k=k, higher=h)
    for n in (1, 2, 3, 10, 50) + ((200,) if T else ()):
        yield "rate", dict(n=n)
