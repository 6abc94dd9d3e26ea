"""C28: runs do not interfere with one another."""
from props.common import *
from props import c21
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.evaluators import SimplePopulationEvaluator
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.termination_checkers import TerminationChecker
from eckity.statistics.statistics import Statistics

BOUNDS = ("a run of 0-2 generations with 2-4 individuals of each "
          "representation, compared draw for draw (arbitrary values per seed "
          "and position, the first 0-1 index draws explored) with the same "
          "run made after 1-2 other runs, made while another run is set up "
          "before and performed after it or the other way round, or with "
          "another complete run performed inside its init, after_generation "
          "or evolution_finished callback; the other run has fixed draws, its own seed, "
          "evaluator, direction, size and representation, default or given "
          "parts, and may share the operator, selection and creator objects; "
          "1-3 algorithms built side by side for the subscriber checks")
OUTSIDE = ("runs in parallel threads; callbacks that run another evolution in "
           "the middle of breeding or evaluation; runs sharing one population "
           "evaluator, breeder or random generator object while both are "
           "under way")


class Neg(SimpleIndividualEvaluator):
    """Other scores for the same genomes."""

    def __init__(self, c):
        super().__init__()
        self.c = c

    def evaluate_individual(self, individual):
        v = individual.vector
        return v[0] * self.c - sum(v[1:], 0) + 10

    def __deepcopy__(self, memo):
        return self


class NegTwo(Neg):
    def evaluate_individual(self, individual):
        v = individual.vector
        return [v[0] * -1 + self.c, v[1] - v[0]]


class Setup:
    """The parts of a run, as a user writes them."""

    def __init__(self, ctx, kind, table, first=True):
        self.kind, self.first = kind, first
        self.moo = kind == "moo"
        cr, ops, sel, ev = c21.setting(ctx, "int" if self.moo else kind,
                                       table)
        if self.moo:
            cr = TagCreator(lambda i, h: vec(
                "int", [(i * 7) % 4, i], bounds=(0, 9),
                fit=c21.NSGA2Fitness(higher_is_better=h)))
            ev = c21.Two()
            ops = [c21.IntVectorOnePointMutation(probability=1.0)]
        self.cr, self.ops, self.sel, self.ev = cr, ops, sel, ev

    def algorithm(self, seed, n, gens, ev=None, higher=False,
                  executor="thread", elitism=0.0, explicit=None, **kw):
        sub = Subpopulation(
            evaluator=ev or self.ev, creators=self.cr,
            operators_sequence=self.ops, selection_methods=[(self.sel, 1)],
            elitism_rate=elitism, population_size=n, higher_is_better=higher)
        cls = NSGA2Evolution if self.moo else SimpleEvolution
        if explicit:
            kw["population_evaluator"] = SimplePopulationEvaluator(explicit)
        return cls(sub, max_generation=gens, random_seed=seed,
                   executor=executor, **kw)


def trace_of(ctx, a, tag, salt, inner=None, where=None, fix=False):
    """Run `a`; `inner` is called inside the callback of event `where`."""
    ctx.flags["bits_free"] = 1
    ctx.state["run_tag"] = tag
    ctx.flags["hash_salt"] = salt
    ctx.state["idx_used"] = 0
    ctx.state["worn"] = -1
    sub = a.population.sub_populations[0]
    trace = []

    def snap(sender, data):
        ctx.check(sender is a, "an event of this run")
        trace.append(([(list(genome(i)), i.get_pure_fitness())
                       for i in sub.individuals],
                      list(genome(a.best_of_run_)), a.generation_seed))

    def nested(sender, data):
        if not done:
            done.append(1)
            inner()
            ctx.state["run_tag"] = tag
            ctx.flags["hash_salt"] = salt
    done = []
    a.register("init", snap)
    a.register("after_generation", snap)
    if inner:
        a.register(where, nested)
    with Fixed(ctx, on=fix or ctx.flags.get("fixed_draws")):
        a.evolve()
    if inner:
        ctx.check(done == [1], "the callback was called")
    return trace


def other_ev(ctx, kind, table):
    if kind in ("tree", "grow", "full"):
        return Scores(lambda i, k: table.setdefault(
            k, float((len(table) * 5 + 1) % 7)), key=c21.shape)
    return NegTwo(3) if kind == "moo" else Neg(3)


class Fixed:
    """The draws of a bystander run are fixed."""

    def __init__(self, ctx, on=True):
        self.ctx, self.on = ctx, on

    def __enter__(self):
        self.was = self.ctx.flags.get("fixed_draws")
        self.ctx.flags["fixed_draws"] = self.on

    def __exit__(self, *a):
        self.ctx.flags["fixed_draws"] = self.was


def other_run(ctx, kind, setup, n, gens, higher, tag, salt, seed=None,
              elitism=0.0, **kw):
    """A different run, to its end."""
    t = {}
    s = setup or Setup(ctx, kind, t)
    a = s.algorithm(2 ** 32 - 77 if seed is None else seed, n, gens,
                    ev=other_ev(ctx, kind, t), higher=higher,
                    elitism=elitism, **kw)

    def go():
        with Fixed(ctx):
            return trace_of(ctx, a, tag, salt)
    return a, go


def same(ctx, t1, t2, gens):
    c21.same_traces(ctx, t1, t2)
    ctx.check(len(t1) == gens + 1, "all generations ran")


def prep(ctx, free):
    ctx.flags["seeded"] = True
    ctx.flags["idx_free"] = free
    return ctx.int("seed", 0, 2 ** 31)


def after(ctx, kind, other, n=2, gens=1, share=False, times=1, free=0, fix=False,
          higher=False, early=False, **kw):
    """The run made alone = the run made after other runs; with share the
    same operator, selection and creator objects are used.  With early the
    algorithm object exists before the other runs start."""
    seed = prep(ctx, free)
    table = {}
    t1 = trace_of(ctx, Setup(ctx, kind, table).algorithm(
        seed, n, gens, **kw), 1, 0, fix=fix)
    s = Setup(ctx, kind, table)
    a = s.algorithm(seed, n, gens, **kw) if early else None
    for i in range(times):
        _, go = other_run(ctx, other, s if share else None, 4, 1,
                          higher if i == 0 else not higher, 5 + i, 3,
                          seed=2 ** 32 - 77 + i)
        go()
    a = a or s.algorithm(seed, n, gens, **kw)
    same(ctx, t1, trace_of(ctx, a, 2, 5, fix=fix), gens)


def nested(ctx, kind, other, where, n=2, gens=1, free=0, share=False, fix=False,
           **kw):
    """Another run performed inside a callback changes neither of them."""
    seed = prep(ctx, free)
    table = {}
    t1 = trace_of(ctx, Setup(ctx, kind, table).algorithm(
        seed, n, gens, **kw), 1, 0, fix=fix)
    _, go = other_run(ctx, other, None, 2, 1, True, 3, 1)
    o1 = go()
    got = []
    s = Setup(ctx, kind, table)
    a = s.algorithm(seed, n, gens, **kw)
    b, go = other_run(ctx, other, s if share else None, 2, 1, True, 4, 2)
    t2 = trace_of(ctx, a, 2, 5, inner=lambda: got.append(go()), where=where,
                  fix=fix)
    same(ctx, t1, t2, gens)
    same(ctx, o1, got[0], 1)
    for x in (a, b):
        ctx.check(x.executor.closed, "the workers are released")


def subscribers(ctx, first, second, build=3):
    """What is subscribed to the parts of one run hears that run only."""
    prep(ctx, 0)
    kinds = (first, second, first)[:build]
    algos = [Setup(ctx, k, {}).algorithm(5 + i, 2, 1)
             for i, k in enumerate(kinds)]
    calls = []
    for i, a in enumerate(algos):
        for part, names in ((a.breeder, ("before_operator",
                                         "after_operator")),
                            (a.population_evaluator,
                             ("before_operator", "after_operator")),
                            (a, ("init", "after_generation",
                                 "evolution_finished"))):
            for ev in names:
                part.register(ev, lambda s, d, i=i, p=part, e=ev:
                              calls.append((i, s is p, e)))
    order = ctx.perm(build, "order")
    for i in order:
        del calls[:]
        ctx.state["run_tag"] = i
        with Fixed(ctx, on=i != 0 or kinds[0] == "moo"):
            algos[i].evolve()
        ctx.check(all(c[0] == i for c in calls),
                  "only subscribers of this run are called")
        ctx.check(all(c[1] for c in calls), "with the publishing part")
        for ev, cnt in (("init", 1), ("after_generation", 1),
                        ("evolution_finished", 1)):
            ctx.check(sum(c[2] == ev for c in calls) == cnt, "once")


class Never(TerminationChecker):
    def __init__(self, at):
        super().__init__()
        self.at = at

    def should_terminate(self, population, best_individual, gen_number):
        return gen_number == self.at


def release(ctx, kind, gens, executor="thread", stop=None, explicit=None):
    """A finished run has released its workers - after its last event - and
    another run's are untouched."""
    prep(ctx, 0)
    a = Setup(ctx, kind, {}).algorithm(5, 2, gens, executor=executor,
                                       explicit=explicit,
                                       termination_checker=None
                                       if stop is None else Never(stop))
    b = Setup(ctx, kind, {}).algorithm(6, 2, 1, executor=executor)
    seen = []
    for ev in ("init", "after_generation", "evolution_finished"):
        a.register(ev, lambda s, d: seen.append(s.executor.closed))
    ctx.check(a.executor is not b.executor, "workers of their own")
    with Fixed(ctx, on=kind == "moo"):
        a.evolve()
    ctx.check(not any(seen) and len(seen) >= 3,
              "the workers are there during the run")
    ctx.check(a.executor.closed, "the workers are released")
    ctx.check(not b.executor.closed, "the other run's are not")
    with Fixed(ctx):
        b.evolve()
    ctx.check(b.executor.closed, "the workers are released")


class Count(Statistics):
    def __init__(self, log):
        super().__init__("")
        self.log = log

    def write_statistics(self, sender, data):
        self.log.append((sender, data["generation_num"]))


def statistics(ctx, kind):
    """Statistics given to one run, or no statistics, next to another run."""
    prep(ctx, 0)
    logs = ([], [])
    a = Setup(ctx, kind, {}).algorithm(5, 2, 1, statistics=Count(logs[0]))
    n = Setup(ctx, kind, {}).algorithm(6, 2, 1)
    b = Setup(ctx, kind, {}).algorithm(7, 2, 2, statistics=[Count(logs[1])])
    for x in (n, b, a):
        with Fixed(ctx, on=x is not a or kind == "moo"):
            x.evolve()
    ctx.check([g for _, g in logs[0]] == [1], "one entry per generation")
    ctx.check([g for _, g in logs[1]] == [1, 2], "one entry per generation")
    ctx.check(all(s is a for s, _ in logs[0]), "of its own run")
    ctx.check(all(s is b for s, _ in logs[1]), "of its own run")


def jobs(tier):
    T = tier == "thorough"
    for kind in ("int", "int_fp", "intn", "float", "gauss", "bit", "moo"):
        yield "after", dict(kind=kind, other=kind, fix=kind == "moo"), {
            "weight": 5}
        yield "after", dict(kind=kind, other=kind, share=True), {"weight": 5}
    for kind in ("int", "moo"):
        for times in (0, 1):
            yield "after", dict(kind=kind, other="int", gens=0, times=times,
                                early=times == 1)
    yield "after", dict(kind="full", other="full", share=True)
    yield "after", dict(kind="grow", other="grow", share=True, fix=True)
    yield "after", dict(kind="int", other="moo", early=True)
    yield "after", dict(kind="moo", other="int", early=True, fix=True)
    yield "after", dict(kind="int", other="full", early=True)
    yield "after", dict(kind="int", other="int", share=True, times=2,
                        early=True, gens=2, elitism=0.5)
    yield "after", dict(kind="int", other="int", share=True, higher=True,
                        explicit="submit", executor="process")
    for where in ("init", "after_generation", "evolution_finished"):
        for kind, other in (("int", "int"), ("moo", "moo"), ("int", "moo"),
                            ("moo", "int"), ("bit", "full")):
            yield "nested", dict(kind=kind, other=other, where=where,
                                 fix=kind == "moo" and (
                                     other != "moo" or where != "init")), {
                "weight": 5}
        yield "nested", dict(kind="float", other="float", where=where,
                             share=True), {"weight": 5}
    yield "nested", dict(kind="full", other="int", where="after_generation",
                         gens=2)
    for f, s in (("float", "int"), ("moo", "moo"), ("float", "moo"),
                 ("moo", "int")):
        yield "subscribers", dict(first=f, second=s, build=3)
    for kind in ("float", "moo", "full"):
        yield "release", dict(kind=kind, gens=1)
        yield "release", dict(kind=kind, gens=2, stop=1)
        yield "release", dict(kind=kind, gens=2, stop=0)
        if kind != "full":
            yield "statistics", dict(kind=kind)
    yield "release", dict(kind="bit", gens=1, executor="process",
                          explicit="submit")
    yield "release", dict(kind="moo", gens=1, executor="process")
    if T:
        for kind in ("int", "int_fp", "intn", "float", "gauss", "gaussn",
                     "bit", "full", "grow"):
            for share in (False, True):
                yield "after", dict(kind=kind, other=kind, share=share,
                                    gens=2, free=1), {
                    "weight": 50, "budget": 600}
            for where in ("init", "after_generation"):
                yield "nested", dict(kind=kind, other=kind, where=where,
                                     share=True, gens=2, free=1), {
                    "weight": 50, "budget": 600}
