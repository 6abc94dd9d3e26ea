"""C09: a clone is an independent, equal copy with an identity of its own."""
from props.common import *
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.evaluators import SimplePopulationEvaluator
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.termination_checkers import TerminationChecker

BOUNDS = ("vectors of 0-3 arbitrary cells and of 40 cells, trees of 1-5 and "
          "60 nodes with arbitrary constants; plain, bloat-controlled and "
          "multi-objective fitness with any real score, with and without "
          "cache; any ordered sequence of 4 clonings starting from 2 "
          "individuals; 80 clonings in a row; one arbitrary modification "
          "afterwards; 12 individuals cloned after a run of 0-2 generations "
          "stopped at an arbitrary one")
OUTSIDE = "individuals that override clone or __deepcopy__"


class Marked(IntVector):
    """User-defined individual with state of its own."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.notes = {"k": [1, 2]}


def mk_fit(ctx, fit, cache, scored, higher):
    if fit == "gp":
        return GPFitness(ctx.real("s") if scored else None,
                         higher_is_better=higher, cache=cache,
                         bloat_weight=ctx.real("w", 0))
    if fit == "nsga":
        f = NSGA2Fitness(higher_is_better=higher)
        if scored:
            f.set_fitness([ctx.real("s"), ctx.real("s")])
        return f
    return SimpleFitness(ctx.real("s") if scored else None,
                         higher_is_better=higher, cache=cache)


def mk(ctx, kind, size, fit, cache, scored, up, higher=False):
    f = mk_fit(ctx, fit, cache, scored, higher)
    if kind == "tree":
        nodes = {1: lambda: [TerminalNode(ctx.real("c"))],
                 3: lambda: [FunctionNode(u_add), TerminalNode("x"),
                             TerminalNode(ctx.real("c"))],
                 5: lambda: [FunctionNode(u_mul), FunctionNode(u_add),
                             TerminalNode("x"), TerminalNode("y"),
                             TerminalNode(ctx.int("c"))],
                 60: lambda: chain(60)}[size]()
        return tree_ind(nodes, functions=(u_add, u_mul, u_inc), fit=f,
                        update_parents=up)
    if kind == "typed":
        nodes = [FunctionNode(t_fadd), TerminalNode("x", float),
                 TerminalNode(ctx.real("c"), float)]
        return tree_ind(nodes, functions=(t_fadd,), terminals={"x": float},
                        fit=f, root_type=float, update_parents=up)
    cell = {"int": lambda i: ctx.int("g"), "float": lambda i: ctx.real("g"),
            "bit": lambda i: ctx.int("g", 0, 1),
            "marked": lambda i: ctx.int("g")}[kind]
    v = [cell(i) if i < 3 else i for i in range(size)]
    b = [(-5 - i, 5 + i) for i in range(size)] if size == 3 else (0, 9)
    cls = Marked if kind == "marked" else VEC[kind]
    return cls(fitness=f, length=size, bounds=b, vector=v, update_parents=up)


def snap(i):
    """Observable state, as values."""
    if isinstance(i, Tree):
        g = [(node_key(n), n.node_type) for n in i.tree]
        extra = (list(i.function_set), dict(i.terminal_set), i.root_type)
    else:
        g = list(i.vector)
        extra = (repr(i.bounds), i.length, repr(getattr(i, "notes", None)))
    ev = i.fitness.is_fitness_evaluated()
    return (i.id, i.gen, i.cloned_from, list(i.selected_by),
            list(i.applied_operators), list(getattr(i, "parents", [])),
            extra, ev, i.fitness.get_pure_fitness() if ev else None, g)


def same(a, b):
    return land(a[:8] == b[:8], len(a[9]) == len(b[9]), eq(a[8], b[8]) if
                a[8] is not None and b[8] is not None else a[8] is b[8],
                *[gene_eq(x, y) for x, y in zip(a[9], b[9])])


def gene_eq(x, y):
    if isinstance(x, tuple):
        return land(x[1] == y[1], gene_eq(x[0], y[0]))
    if isinstance(x, str) or isinstance(y, str):
        return isinstance(x, str) and isinstance(y, str) and x == y
    return eq(x, y)


def mutable_parts(i):
    out = [i, i.fitness, i.selected_by, i.applied_operators]
    if hasattr(i, "parents"):
        out.append(i.parents)
    if hasattr(i, "notes"):
        out += [i.notes, i.notes["k"]]
    if isinstance(i, Tree):
        out.append(i.tree)
        out += list(i.tree)
    else:
        out.append(i.vector)
    return out


def change(ctx, i, what):
    """Modify the individual the way the library (or a user) does."""
    if what == "genome":
        if isinstance(i, Tree):
            i.tree[-1].value = "zz"
        elif i.vector:
            i.vector[0] = i.vector[0] + 1
    elif what == "shape":
        if isinstance(i, Tree):
            i.tree.append(TerminalNode("w"))
        else:
            i.vector.append(77)
    elif what == "score":
        i.set_fitness_not_evaluated()
        i.fitness.set_fitness([ctx.real("t"), 0.0] if isinstance(
            i.fitness, NSGA2Fitness) else ctx.real("t"))
    elif what == "void":
        i.set_fitness_not_evaluated()
    elif what == "records":
        i.applied_operators.append("Op")
        i.selected_by.append("Sel")
        if hasattr(i, "parents"):
            i.parents.append(1)
        if hasattr(i, "notes"):
            i.notes["k"].append(3)
    elif what == "sets":
        if isinstance(i, Tree):
            i.function_set.append(u_if3)
            i.terminal_set["new"] = None
        elif isinstance(i.bounds, list):
            i.bounds[0] = (-99, 99)


CHANGES = ("genome", "shape", "score", "void", "records", "sets")


def lineage(ctx, kind, size, fit="simple", cache=False, scored=True, up=False,
            steps=3, higher=False, free=True):
    pool = [mk(ctx, kind, size, fit, cache, scored, up, higher)
            for _ in range(2 if free else 1)]
    for p in pool:
        p.gen = 3
        p.selected_by.append("S")
        p.applied_operators.append("O")
        if up:
            p.parents.append(12345)
    for s in range(steps):
        src = ctx.pick(pool, "src") if free else pool[-1]
        before = snap(src)
        c = src.clone()
        ctx.check(same(snap(src), before), "cloning leaves the source alone")
        ctx.check(type(c) is type(src), "same kind of individual")
        ctx.check(c.cloned_from == src.id, "cloned_from is the source's id")
        ctx.check(all(c.id != p.id for p in pool), "the id is fresh")
        sc = snap(c)
        ctx.check(sc[6] == before[6] and sc[1] == before[1] and
                  len(sc[9]) == len(before[9]), "same make")
        ctx.check(land(*[gene_eq(a, b) for a, b in zip(sc[9], before[9])]),
                  "same genome")
        ctx.check(c.fitness.higher_is_better == src.fitness.higher_is_better,
                  "same direction")
        if fit == "gp":
            ctx.check(eq(c.fitness.bloat_weight, src.fitness.bloat_weight),
                      "same bloat weight")
        if fit != "nsga":
            ctx.check(c.fitness.cache == cache, "same caching")
            if cache and before[7]:
                ctx.check(sc[7] and eq(sc[8], before[8]),
                          "cached scores are inherited")
            else:
                ctx.check(not sc[7], "without cache the clone is unscored")
                ctx.check(raises(ValueError, c.get_pure_fitness),
                          "no score to read")
        ctx.check(sc[3] == [] and sc[4] == [] and sc[5] == [],
                  "the records of the last generation start empty")
        pool.append(c)
    parts = [x for p in pool for x in mutable_parts(p)]
    ctx.check(distinct_objs(parts), "clones share no mutable state")
    # one arbitrary modification of one arbitrary member
    k = ctx.choose(len(pool), "who") if free else len(pool) - 1
    what = ctx.pick(CHANGES, "what")
    snaps = [snap(p) for p in pool]
    change(ctx, pool[k], what)
    for j, p in enumerate(pool):
        if j != k:
            ctx.check(same(snap(p), snaps[j]),
                      "changing one leaves the others alone")


def fresh_ids(ctx, n):
    """Constructors and clones of every encoding never reuse an id."""
    out = []
    for i in range(n):
        if out and ctx.choose(2, "how"):
            out.append(ctx.pick(out, "src").clone())
        elif i % 2:
            out.append(vec("int", [i], 0.0))
        else:
            out.append(chain_tree(1, GPFitness(0.0)))
    ids = [i.id for i in out]
    ctx.check(len(set(ids)) == n, "no id is used twice")


class Stop(TerminationChecker):
    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def should_terminate(self, population, best_individual, gen_number):
        return self.ctx.bool("stop")

    def __deepcopy__(self, memo):
        return self


def around_run(ctx, gens, n=2, olds=12):
    """A run in between does not give an identity to two individuals."""
    old = [vec("int", [i], 0.0) for i in range(olds)]
    sub = Subpopulation(
        evaluator=Scores(lambda i, k: ctx.real("s")),
        creators=TagCreator(lambda i, h: fresh(vec(
            "int", [i, 0], fit=SimpleFitness(higher_is_better=h)))),
        operators_sequence=[Retag([100])],
        selection_methods=[(CloneAll(), 1)], elitism_rate=0.0,
        population_size=n, higher_is_better=False)
    a = SimpleEvolution(sub, max_generation=gens, executor="thread",
                        population_evaluator=SimplePopulationEvaluator(),
                        termination_checker=Stop(ctx), random_seed=7)
    seen = []
    a.register("after_generation", lambda s, d: seen.extend(
        sub.individuals))
    a.evolve()
    seen = list({id(i): i for i in seen + list(sub.individuals)}.values())
    new = [o.clone() for o in old] + [vec("int", [0], 0.0)]
    ids = [i.id for i in old + seen + new]
    ctx.check(len(set(ids)) == len(ids), "no id is used twice")
    ctx.check(all(c.cloned_from == o.id for c, o in zip(new, old)),
              "cloned_from is the source's id")


def default_state(ctx, kind):
    """Individuals built without arguments share nothing."""
    if kind == "tree":
        a, b = [Tree(function_set=[u_add], terminal_set=["x"])
                for _ in range(2)]
        a.add_tree(TerminalNode("x"))
        ctx.check(b.size() == 0, "trees are not shared")
    else:
        a, b = [VEC[kind](SimpleFitness(), length=1) for _ in range(2)]
        a.add_cell(3)
        ctx.check(b.size() == 0, "vectors are not shared")
    a.fitness.set_fitness(ctx.real("s"))
    ctx.check(not b.fitness.is_fitness_evaluated(), "fitness is not shared")
    for n in (a, b):
        ctx.check(n.cloned_from == -1 and n.gen == 0, "pristine")
        ctx.check(n.selected_by == [] and n.applied_operators == [],
                  "empty records")
    ctx.check(distinct_objs(mutable_parts(a) + mutable_parts(b)),
              "no shared state")


def jobs(tier):
    for kind, sizes in (("int", (0, 1, 3, 40)), ("float", (2,)),
                        ("bit", (3,)), ("marked", (2,)),
                        ("tree", (1, 3, 5, 60)), ("typed", (3,))):
        for size in sizes:
            for cache in (False, True):
                for scored in (False, True):
                    fit = "gp" if kind in ("tree", "typed") else "simple"
                    yield "lineage", dict(
                        kind=kind, size=size, fit=fit, cache=cache,
                        scored=scored, up=scored, steps=2,
                        higher=cache)
    yield "lineage", dict(kind="int", size=2, fit="nsga", steps=2)
    yield "lineage", dict(kind="int", size=2, fit="nsga", steps=2,
                          scored=False, up=True, higher=True)
    yield "lineage", dict(kind="int", size=1, cache=True, steps=4)
    for kind, fit in (("int", "simple"), ("tree", "gp")):
        for cache in (False, True):
            yield "lineage", dict(kind=kind, size=3, fit=fit, cache=cache,
                                  steps=80, free=False)
    yield "fresh_ids", dict(n=4)
    for gens in (0, 1, 2):
        yield "around_run", dict(gens=gens)
    for k in ("tree", "int", "bit", "float"):
        yield "default_state", dict(kind=k)
    if tier == "thorough":
        yield "fresh_ids", dict(n=6), {"budget": 900}
        for kind, size, fit in (("int", 3, "simple"), ("tree", 5, "gp"),
                                ("marked", 2, "simple")):
            for cache in (False, True):
                yield "lineage", dict(kind=kind, size=size, fit=fit,
                                      cache=cache, steps=5), {"budget": 900}
