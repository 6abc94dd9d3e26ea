"""C18: a multi-objective generation keeps the best of parents and
offspring."""
from props.common import *
from props.c16 import dominates
from eckity.genetic_operators import TournamentSelection
from eckity.multi_objective_evolution.nsga2_breeder import NSGA2Breeder
from eckity.multi_objective_evolution.nsga2_evolution import NSGA2Evolution
from eckity.multi_objective_evolution.nsga2_fitness import NSGA2Fitness
from eckity.multi_objective_evolution.crowding_termination_checker import \
    CrowdingTerminationChecker

BOUNDS = ("runs of 1-2 generations with 1-2 parents (3 for sparse scores) "
          "and 2 objectives of any real value, any mix of directions, "
          "operator applied or not (any draw); breeding "
          "alone with up to 6 parents; "
          "copies that share one identity; fitnesses that keep their scores")
OUTSIDE = "coin flips between unranked individuals beyond the first 0-2 when n > 1; larger fully symbolic populations; process pools (see C02)"


class Env:
    def __init__(self, ctx, n, gens, higher, subs=1, probability=1.0,
                 score=None, sel="tour", obj=2, flips=None, cache=False, **kw):
        if flips is not None:
            ctx.flags["bits_free"] = flips
        self.ctx, self.higher = ctx, list(higher)
        self.counter = [100]
        self.subs, self.scores = [], []
        for s in range(subs):
            def make(i, h, s=s):
                return vec("int", [10 * s + i, 0], bounds=(0, 10 ** 6),
                           fit=NSGA2Fitness(higher_is_better=list(higher),
                                            cache=cache))
            ev = Scores(score or (lambda i, k: [ctx.real("o")
                                                for _ in range(obj)]))
            selm = TournamentSelection(2, higher_is_better=False) \
                if sel == "tour" else CloneAll()
            self.scores.append(ev)
            self.subs.append(Subpopulation(
                evaluator=ev, creators=TagCreator(make),
                operators_sequence=[Retag(self.counter, probability)],
                selection_methods=[(selm, 1)], elitism_rate=0.0,
                population_size=n, higher_is_better=False))
        self.n = n
        self.parents = None
        self.algo = NSGA2Evolution(Population(self.subs),
                                   max_generation=gens, random_seed=3, **kw)
        self.algo.register("init", lambda s, d: self.snap())
        self.algo.register("after_generation", lambda s, d: self.after(d))
        self.seen = []

    def snap(self):
        self.parents = [[genome(i) for i in s.individuals]
                        for s in self.subs]
        self.marks = [len(e.log) for e in self.scores]

    def after(self, data):
        ctx = self.ctx
        self.seen.append(data["generation_num"])
        for s, ev, par, mark in zip(self.subs, self.scores, self.parents,
                                    self.marks):
            done = [k for k, _, _ in ev.log[mark:]]
            ctx.check(len(done) == 2 * self.n,
                      "parents and offspring are all evaluated")
            ctx.check(len(s.individuals) == self.n,
                      "the population size is kept")
            ctx.check(distinct_objs(s.individuals), "distinct individuals")
            left = list(done)
            for p in par:
                ctx.check(p in left, "every parent competes")
                left.remove(p)
            pool = list(done)
            cand = [ev.memo[k] for k in pool]
            idx = []
            for i in s.individuals:
                g = genome(i)
                free = [j for j, k in enumerate(pool)
                        if k == g and j not in idx]
                ctx.check(free, "survivors are parents or offspring")
                idx.append(free[0])
                ctx.check(eq(i.get_pure_fitness(), ev.memo[g]),
                          "and carry their own objectives")
            for j in idx:
                for o in range(len(pool)):
                    if o not in idx:
                        ctx.check(lnot(dominates(cand[o], cand[j],
                                                 self.higher)),
                                  "nobody left out dominates a survivor")
            nd = [lnot(lor(*[dominates(cand[o], c, self.higher)
                             for o in range(len(pool))]))
                  for c in cand]
            for o in range(len(pool)):
                if o not in idx:
                    ctx.check(implies(nd[o], land(*[nd[j] for j in idx])),
                              "the Pareto front survives first")
            fr = [f for f in data["best_of_gen"]
                  ][self.subs.index(s)]
            for j, i in zip(idx, s.individuals):
                ctx.check(iff(any(f is i for f in fr), nd[j]),
                          "the reported front is the Pareto front")
            ctx.check(all(any(f is i for i in s.individuals) for f in fr),
                      "the reported front is in the population")
        self.snap()


def run(ctx, n, gens, higher, subs=1, probability=1.0, sel="tour", **kw):
    e = Env(ctx, n, gens, higher, subs, probability, sel=sel, **kw)
    e.algo.evolve()
    ctx.check(e.seen == list(range(1, gens + 1)), "all generations ran")
    ctx.check(e.algo.final_generation_ == gens, "final_generation_")


def sparse(ctx, n, gens, higher, **kw):
    """Only one evaluation, at any position, has arbitrary objectives."""
    at = ctx.choose(3 * n, "at")
    v = [ctx.real("v"), ctx.real("v")]

    def score(i, k):
        return list(v) if i == at else [float(i % 3), float((i * 2) % 5)]
    e = Env(ctx, n, gens, higher, score=score, flips=1, **kw)
    e.algo.evolve()
    ctx.check(e.seen == list(range(1, gens + 1)), "all generations ran")


def breed(ctx, n, probability, subs=1, twins=False, cache=False):
    """The breeder alone: clones of the parents plus their offspring, all to
    be evaluated again."""
    if probability is None:
        probability = ctx.real("p", 0, 1)
    e = Env(ctx, n, 1, (False, False), subs=subs, probability=probability)
    for k, s in enumerate(e.subs):
        s.individuals = [vec("int", [10 * k + (i // 2 if twins else i), 0],
                             bounds=(0, 10 ** 6),
                             fit=NSGA2Fitness([ctx.real("o"),
                                               ctx.real("o")], cache=cache))
                         for i in range(n)]
        for i in s.individuals:
            i.fitness.front_rank = 1
    before = [[genome(i) for i in s.individuals] for s in e.subs]
    NSGA2Breeder().breed(Population(e.subs))
    for s, g0 in zip(e.subs, before):
        out = s.individuals
        ctx.check(len(out) == 2 * n, "parents plus offspring")
        ctx.check(distinct_objs(out), "distinct individuals")
        ctx.check(distinct_objs([i.vector for i in out]),
                  "no shared genome")
        ctx.check(distinct_objs([i.fitness for i in out]),
                  "no shared fitness")
        gs = [genome(i) for i in out]
        left = list(gs)
        for g in g0:
            ctx.check(g in left, "every parent is there unchanged")
            left.remove(g)
        for i in out:
            ctx.check(not i.fitness.is_fitness_evaluated(),
                      "all are evaluated again")


copies = copies_of(globals())


def jobs(tier):
    import itertools
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="run", n=1, gens=2, higher=(h, False))
        yield "copies", dict(of="breed", n=4, probability=0.5)
        yield "copies", dict(of="sparse", n=2, gens=2, higher=(h, False))
    for h in itertools.product((False, True), repeat=2):
        yield "run", dict(n=1, gens=1, higher=h)
        yield "run", dict(n=1, gens=2, higher=h)
        yield "run", dict(n=1, gens=1, higher=h, probability=0.5)
        yield "sparse", dict(n=2, gens=2, higher=h), {"weight": 5}
    yield "run", dict(n=2, gens=1, higher=(False, True), flips=0), {"weight": 50,
                                                           "budget": 400}
    yield "run", dict(n=2, gens=1, higher=(True,), obj=1, flips=2), {"weight": 20}
    yield "run", dict(n=2, gens=0, higher=(True, True))
    yield "sparse", dict(n=3, gens=2, higher=(True, False)), {"weight": 20}
    yield "sparse", dict(n=1, gens=8, higher=(True, False)), {"weight": 20}
    yield "run", dict(n=1, gens=2, higher=(True, False), cache=True)
    yield "sparse", dict(n=2, gens=2, higher=(False, True), cache=True), {
        "weight": 5}
    for n in (1, 2, 4):
        for p in (0, 1, 0.5):
            yield "breed", dict(n=n, probability=p)
            yield "breed", dict(n=n, probability=p, cache=True)
    yield "breed", dict(n=2, probability=None)
    yield "breed", dict(n=2, probability=0.5, subs=2)
    yield "breed", dict(n=6, probability=1)
    for p in (0, 1, 0.5):
        yield "breed", dict(n=4, probability=p, twins=True)
    if T:
        for h in itertools.product((False, True), repeat=2):
            yield "run", dict(n=2, gens=1, higher=h, flips=0), {
                "weight": 60, "budget": 1500}
            yield "run", dict(n=1, gens=2, higher=h, probability=0.5), {
                "weight": 60, "budget": 900}
            yield "run", dict(n=1, gens=3, higher=h), {
                "weight": 60, "budget": 900}
            yield "sparse", dict(n=4, gens=3, higher=h), {
                "weight": 60, "budget": 900}
