"""C20: termination checkers recommend stopping exactly when they should."""
import math
from props.common import *
from props.c16 import moo, population
from props.c17 import is_inf
from props.c19 import make
from eckity.termination_checkers import ThresholdFromTargetTerminationChecker
from eckity.termination_checkers.\
    best_fitness_stagnation_termination_checker import \
    BestFitnessStagnationTerminationChecker
from eckity.multi_objective_evolution.crowding_termination_checker import \
    CrowdingTerminationChecker

BOUNDS = ("target, threshold and best score any real or any double; "
          "stagnation limits 1-4 over every history of 1-7 generations, 1-2 "
          "sub-populations of 1-2 individuals, and limits of 20 with the "
          "change at an arbitrary generation; crowding of 1-4 individuals in "
          "1-2 sub-populations; whole runs of up to 4 generations")
OUTSIDE = ("NaN; scores that differ by less than a millionth of their size "
           "yet are not equal, for the stagnation checker (its relative "
           "tolerance is not fixed here)")


def dist(a, b):
    return ite(a >= b, a - b, b - a)


def threshold(ctx, dom, higher, defaults=False):
    mk = (lambda n: ctx.fp(n, finite=True)) if dom == "fp" else ctx.real
    s = mk("s")
    if defaults:
        opt = thr = 0.0
        c = ThresholdFromTargetTerminationChecker()
    else:
        opt, thr = mk("opt"), mk("thr")
        c = ThresholdFromTargetTerminationChecker(
            optimal=opt, threshold=thr, higher_is_better=higher)
    best = vec("int", [1], s, higher=higher)
    pop = population([best, vec("int", [2], mk("other"))])
    for gen in (0, 5):
        got = c.should_terminate(pop, best, gen)
        if defaults:
            want = s == 0
        elif dom == "fp":
            want = abs(s - opt) <= thr
        else:
            want = dist(s, opt) <= thr
        ctx.check(iff(got, want), "stops iff the best is within threshold")


def threshold_run(ctx, gens, higher):
    """The run ends at the first generation whose best is close enough."""
    opt, thr = ctx.real("opt"), ctx.real("thr", 0)
    c = ThresholdFromTargetTerminationChecker(opt, thr, higher)
    r = Run(ctx, 2, gens, higher=higher, checker=c, evolve=False)
    r.algo.evolve()
    ran = r.algo.final_generation_
    log = r.evaluator.log
    ctx.check(len(log) == 2 * (ran + 1), "evaluations")
    for g in range(ran + 1):
        vals = [s for _, _, s in log[:2 * (g + 1)]]
        b = vals[0]
        for v in vals[1:]:
            b = ite(better(v, b, higher), v, b)
        close_enough = dist(b, opt) <= thr
        if g < ran:
            ctx.check(lnot(close_enough), "not stopped too late")
        elif ran < gens:
            ctx.check(close_enough, "not stopped too early")


def scores_apart(ctx, vals):
    for i, a in enumerate(vals):
        for b in vals[:i]:
            d = dist(a, b) * 1000000
            ctx.assume(lor(a == b, land(d >= a, d >= -a, d >= b, d >= -b)))


def stagnation(ctx, k, gens, subs=1, n=1, higher=False, sparse=False,
               default=False):
    c = BestFitnessStagnationTerminationChecker() if default else \
        BestFitnessStagnationTerminationChecker(k)
    if sparse:
        at = ctx.choose(gens, "at") if gens < 50 else \
            13 * ctx.choose(8, "at")
        v = ctx.real("v", -1000, 1000)
        scores_apart(ctx, [v, 5.0])
        hist = [[v if g >= at else 5.0 for _ in range(subs)]
                for g in range(gens)]
    else:
        hist = [[ctx.real("b", -1000, 1000) for _ in range(subs)]
                for g in range(gens)]
        for s in range(subs):
            scores_apart(ctx, [h[s] for h in hist])
    run = [0] * gens  # generations without a change, up to g
    for g in range(1, gens):
        run[g] = ite(eq(hist[g], hist[g - 1]), run[g - 1] + 1, 0)
    for g in range(gens):
        lists = []
        for s in range(subs):
            worse = -10.0 if higher else 10.0
            lists.append([vec("int", [i], hist[g][s] if i == g % n else
                              hist[g][s] + worse * (1 + (i + g) % 3),
                              higher=higher)
                          for i in range(n)])
        pop = population(*lists)
        for sp in pop.sub_populations:
            sp.higher_is_better = higher
        got = c.should_terminate(pop, lists[0][g % n], g)
        want = run[g] >= k
        ctx.check(iff(got, want), "stops after k generations unchanged")
        if got:
            break


def crowd(ctx, sizes):
    """Largest finite crowding below the threshold."""
    thr = ctx.real("thr")
    lists, worst = [], []
    for n in sizes:
        inds = []
        for i in range(n):
            x = moo(i, [ctx.real("o"), ctx.real("o")], False)
            x.fitness.crowding = float("inf") if ctx.choose(2, "inf") else \
                ctx.real("c", 0)
            inds.append(x)
        lists.append(inds)
    c = CrowdingTerminationChecker(thr)
    got = c.should_terminate(population(*lists), lists[0][0], 3)
    conds, nonzero = [], []
    for inds in lists:
        fin = [i.fitness.crowding for i in inds
               if not is_inf(i.fitness.crowding)]
        conds.append(land(len(fin) > 0, *[v < thr for v in fin]))
        nonzero += [v != 0 for v in fin]
    ctx.check(iff(got, land(land(*conds), lor(*nonzero))),
              "stops iff every finite crowding is below the threshold")


def crowd_run(ctx, gens):
    """Inside a run: asked after each generation about the survivors."""
    thr = ctx.real("thr", 0)
    a, sub, ev = make(ctx, "nsga2", 2, gens, CrowdingTerminationChecker(thr))
    seen = []
    a.register("after_generation", lambda s, d: seen.append(
        [i.fitness.crowding for i in sub.individuals]))
    a.evolve()
    for g, cr in enumerate(seen):
        fin = [v for v in cr if not is_inf(v)]
        if not fin:
            stop = False
        else:
            stop = land(max(fin) < thr, max(fin) != 0)
        last = g == len(seen) - 1
        if not last:
            ctx.check(lnot(stop), "not stopped too late")
        elif a.final_generation_ < gens and a.final_generation_ > 0:
            ctx.check(stop, "not stopped too early")


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        for dom in ("real", "fp"):
            yield "threshold", dict(dom=dom, higher=h)
            yield "threshold", dict(dom=dom, higher=h, defaults=True)
        for g in (0, 1, 2):
            yield "threshold_run", dict(gens=g, higher=h)
        for k in (1, 2, 3):
            yield "stagnation", dict(k=k, gens=k + 2, higher=h)
        yield "stagnation", dict(k=2, gens=4, n=3, higher=h)
        yield "stagnation", dict(k=2, gens=4, subs=2, n=2, higher=h)
        yield "stagnation", dict(k=2, gens=3, subs=3, higher=h)
    yield "stagnation", dict(k=4, gens=6), {"weight": 5}
    yield "stagnation", dict(k=20, gens=30, sparse=True), {"weight": 5}
    yield "stagnation", dict(k=100, gens=102, sparse=True, default=True), {
        "weight": 9}
    for s in ((1,), (2,), (3,), (1, 1), (2, 1), (2, 2)):
        yield "crowd", dict(sizes=s)
    yield "crowd_run", dict(gens=2)
    if T:
        for h in (False, True):
            yield "threshold_run", dict(gens=3, higher=h), {
                "weight": 90, "budget": 1500}
            yield "stagnation", dict(k=4, gens=7, higher=h), {
                "weight": 50, "budget": 900}
            yield "stagnation", dict(k=3, gens=6, subs=2, higher=h), {
                "weight": 50, "budget": 900}
        for s in ((4,), (3, 2), (2, 2, 1)):
            yield "crowd", dict(sizes=s), {"budget": 900}
        yield "crowd_run", dict(gens=4)
