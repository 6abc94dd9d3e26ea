"""C01: the best individual of the run is never worse than any evaluated."""
from props.common import *

BOUNDS = ("populations of 1-3 individuals x 1-3 generations with a fresh "
          "symbolic real score for every distinct genome (all orders and "
          "ties); populations of up to 12 x up to 25 generations where one "
          "score at an arbitrary evaluation is an arbitrary real; both "
          "directions; bloat weight symbolic; elitism 0-2; both executors and "
          "executor methods; tournament and identity selection; vector and "
          "tree individuals; "
          "infinite scores too; copies that share one identity")
OUTSIDE = ("NaN scores; non-deterministic evaluators; more than 3x3 fully "
           "symbolic scores; rounding in the bloat term")


def checks(ctx, r, since=0):
    """best_of_run_ against everything evaluated (since an earlier check)."""
    b = r.algo.best_of_run_
    ctx.check(b is not None, "there is a best individual")
    ctx.check(genome(b) in r.evaluator.memo, "best is an evaluated genome")
    ctx.check(b.fitness.is_fitness_evaluated(), "best keeps its score")
    ctx.check(eq(b.get_pure_fitness(), r.evaluator.memo[genome(b)]),
              "best_of_run_ carries the score of its own genome")
    vb = r.value(b)
    for x in r.all_values(r.evaluator.log[since:]):
        ctx.check(no_worse(vb, x, r.higher),
                  "best_of_run_ is no worse than any evaluated individual")


def run(ctx, n, gens, **cfg):
    bloat = cfg.pop("w", None)
    if bloat == "sym":
        bloat = ctx.real("w", 0)
    sp = cfg.pop("sparse", None)
    score = None
    if cfg.pop("fp", False):
        score = lambda i, k: ctx.fp("s")
    if sp is not None:
        score = sparse_scores(ctx, n * (gens + 1), sp)
    r = Run(ctx, n, gens, evolve=False, bloat=bloat, score=score, **cfg)
    seen = {"log": 0, "prev": None}

    def at_init(sender, data):
        checks(ctx, r)
        seen["log"] = len(r.evaluator.log)
        seen["prev"] = r.value(r.algo.best_of_run_)

    def after(sender, data):
        log = r.evaluator.log
        if data["generation_num"] > 0:
            cur = r.all_values(log[seen["log"]:])
            ctx.check(len(cur) == n, "every individual of the generation is "
                      "evaluated once")
            pop = data["population"].sub_populations[0].individuals
            bg, wg = data["best_of_gen"], r.algo.worst_of_gen
            ctx.check(any(bg is i for i in pop), "best_of_gen is a member")
            ctx.check(any(wg is i for i in pop), "worst_of_gen is a member")
            for x in [r.value(i) for i in pop]:
                ctx.check(no_worse(r.value(bg), x, r.higher), "best_of_gen")
                ctx.check(no_worse(x, r.value(wg), r.higher), "worst_of_gen")
            ctx.check(data["best_of_run_"] is r.algo.best_of_run_,
                      "event data carries the best")
        checks(ctx, r, seen["log"])
        now = r.value(r.algo.best_of_run_)
        ctx.check(no_worse(now, seen["prev"], r.higher),
                  "best_of_run_ never gets worse")
        seen["prev"], seen["log"] = now, len(log)
    r.algo.register("init", at_init)
    r.hook = after
    r.algo.evolve()
    ctx.check(len(r.gens) == max(gens, 0), "all generations ran")
    checks(ctx, r)
    if not isinstance(r.algo.best_of_run_, Tree):
        ctx.check(eq(r.algo.execute(), r.algo.best_of_run_.vector),
                  "execute runs the best individual")


def early(ctx, n, at, higher):
    """Early termination reports the best so far, too."""
    class Stop:
        def should_terminate(self, population, best_individual, gen_number):
            return gen_number >= at
    r = Run(ctx, n, 5, higher=higher, checker=Stop())
    checks(ctx, r)
    ctx.check(len(r.evaluator.log) == n * (at + 1), "stopped in time")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="run", n=2, gens=2, higher=h)
        yield "copies", dict(of="run", n=3, gens=1, higher=h, kind="tree", w="sym")
    for h in (False, True):
        for kind in ("int", "tree"):
            w = "sym" if kind == "tree" else None
            yield "run", dict(n=2, gens=2, higher=h, kind=kind, w=w), {
                "weight": 3}
            yield "run", dict(n=3, gens=1, higher=h, kind=kind, w=w), {
                "weight": 3}
            yield "run", dict(n=1, gens=3, higher=h, kind=kind, w=w)
            yield "run", dict(n=2, gens=1, higher=h, kind=kind, w=w,
                              sel="tour"), {"weight": 8}
            yield "run", dict(n=2, gens=2, higher=h, kind=kind, w=w,
                              elitism=0.5), {"weight": 5}
        yield "run", dict(n=2, gens=1, higher=h, executor="process",
                          method="submit")
        yield "run", dict(n=2, gens=1, higher=h, executor="process")
        yield "run", dict(n=2, gens=1, higher=h, method="submit")
        yield "run", dict(n=2, gens=1, higher=h, ops="none", elitism=1.0)
        yield "run", dict(n=2, gens=2, higher=h, cache=True)
        yield "run", dict(n=2, gens=2, higher=h, cache=True, elitism=0.5)
        yield "run", dict(n=6, gens=12, higher=h, sparse=0.0), {"weight": 9}
        yield "run", dict(n=12, gens=3, higher=h, sparse=1.5,
                          elitism=0.25), {"weight": 9}
        yield "run", dict(n=1, gens=30, higher=h, sparse=-2.0)
        yield "run", dict(n=5, gens=4, higher=h, sparse=0.0, kind="tree",
                          w="sym"), {"weight": 9}
        yield "run", dict(n=2, gens=1, higher=h, fp=True)
        yield "run", dict(n=1, gens=3, higher=h, fp=True)
        yield "run", dict(n=2, gens=1, higher=h, fp=True, sel="tour",
                          elitism=0.5)
        for at in (0, 1, 2):
            yield "early", dict(n=2, at=at, higher=h)
        if T:
            yield "run", dict(n=3, gens=2, higher=h), {"weight": 50,
                                                       "budget": 900}
            yield "run", dict(n=2, gens=3, higher=h), {"weight": 50,
                                                       "budget": 900}
            yield "run", dict(n=2, gens=2, higher=h, sel="tour"), {
                "weight": 60, "budget": 1200}
            yield "run", dict(n=12, gens=25, higher=h, sparse=0.0), {
                "weight": 60, "budget": 900}
            yield "run", dict(n=40, gens=3, higher=h, sparse=0.0), {
                "weight": 60, "budget": 900}
            yield "run", dict(n=2, gens=110, higher=h, sparse=0.0), {
                "weight": 60, "budget": 900}
            yield "run", dict(n=3, gens=1, higher=h, kind="tree", w="sym",
                              sizes=(1, 5, 2)), {"weight": 20}
