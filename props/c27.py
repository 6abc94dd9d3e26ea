"""C27: statistics report the population of their generation."""
import logging
from props.common import *
from props.c16 import moo, population
from props.c17 import is_inf
from props.c19 import make
from eckity.multi_objective_evolution.moe_best_worst_statistics import \
    MOEBestWorstStatistics
from eckity.multi_objective_evolution.nsga2_front_sorting import \
    NSGA2FrontSorting
from eckity.statistics import (
    BestAverageWorstSizeTreeStatistics, BestAverageWorstStatistics,
    MinimalPrintStatistics)

BOUNDS = ("1-3 sub-populations of 1-4 individuals (1-3 when multi-objective,"
          " two objectives) with arbitrary real scores, parsimony weights "
          "and tree sizes 1-3; runs of 0-2 generations; the default and a "
          "custom format; equal trees; a statistics object used again after "
          "the population changed; "
          "copies that share one identity")
OUTSIDE = ("rounding in the average of doubles; the digits Python prints for "
           "a number; more than two objectives")


class Format(str):
    """A format string that keeps what it was asked to print."""

    def format(self, *args, **kw):
        self.rows.append(args)
        return f"row {len(self.rows) - 1}"


def recorder():
    f = Format("best {} worst {} average {} {}")
    f.rows = []
    return f


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines, self.part = [], ""

    def emit(self, record):
        self.lines.extend(record.getMessage().splitlines())

    def write(self, s):
        self.part += s
        *whole, self.part = self.part.split("\n")
        self.lines.extend(x for x in whole if x.strip())

    def flush(self):
        pass


def watched(cap, fn, module):
    log, root = logging.getLogger(module), logging.getLogger("eckity")
    quiet = root.level
    root.setLevel(logging.ERROR)
    old = logging.root.manager.disable, log.level, log.propagate
    logging.disable(logging.NOTSET)
    log.setLevel(logging.INFO)
    log.propagate = False
    log.addHandler(cap)
    try:
        fn()
    finally:
        log.removeHandler(cap)
        log.setLevel(old[1])
        root.setLevel(quiet)
        log.propagate = old[2]
        logging.disable(old[0])


STATS = {"baw": BestAverageWorstStatistics,
         "size": BestAverageWorstSizeTreeStatistics}
START = "eckity.statistics"


def better(a, b, higher):
    return a > b if higher else a < b


def reported(ctx, row, group, higher, sizes=None):
    """row: what was reported; group: [(augmented, pure)]."""
    best, worst, avg = row[:3]
    n = len(group)
    ctx.check(lor(*[land(eq(best, p), *[lnot(better(o, a, higher))
                                        for o, _ in group])
                    for a, p in group]), "best fitness")
    ctx.check(lor(*[land(eq(worst, p), *[lnot(better(a, o, higher))
                                         for o, _ in group])
                    for a, p in group]), "worst fitness")
    ctx.check(eq(avg * n, sum((p for _, p in group[1:]), group[0][1])),
              "average fitness")
    if sizes is not None:
        ctx.check(len(row) == 4 and eq(row[3] * n, sum(sizes)),
                  "average size")


def heroes(ctx, higher, lists=()):
    """The best individual of the run, announced together with a population,
    is from any generation; that of the generation may be from any
    sub-population."""
    d = {"best_of_run_": chain_tree(4, GPFitness(
        ctx.real("s"), bloat_weight=0, higher_is_better=higher))}
    if len(lists) > 1:
        d["best_of_gen"] = lists[-1][0]
    return d


def again(ctx, stat, higher, what):
    """A statistics object reports the population as it is now."""
    def mk(k, i):
        return chain_tree(k, GPFitness(ctx.real("s"), higher_is_better=higher,
                                       bloat_weight=0))
    inds = [mk(k, i) for i, k in enumerate((2, 1, 2))]
    pop = population(inds)
    pop.sub_populations[0].higher_is_better = higher
    fmt, cap = recorder(), Capture()
    st = STATS[stat](fmt)

    def report(gen):
        watched(cap, lambda: st.write_statistics(
            None, {"generation_num": gen, "population": pop,
                       **heroes(ctx, higher)}), START)
        g = [(i.get_augmented_fitness(), i.get_pure_fitness())
             for i in inds]
        reported(ctx, fmt.rows[-1], g, higher,
                 [len(i.tree) for i in inds] if stat == "size" else None)
    report(1)
    if what == "scores":
        for i in inds:
            i.fitness.set_fitness(ctx.real("s"))
    elif what == "size":
        inds[0].tree = chain_tree(5, None).tree
    elif what == "members":
        inds = [mk(k, i) for i, k in enumerate((3, 3, 3, 3))]
        pop.sub_populations[0].individuals = list(inds)
    elif what == "population":
        inds = [mk(k, i) for i, k in enumerate((4, 1))]
        pop = population(inds)
        pop.sub_populations[0].higher_is_better = higher
    report(1 if what == "scores" else 2)
    ctx.check(len(fmt.rows) == 2, "a report each time")


def average(ctx, n, base=None):
    """The average of many individuals, whatever the size of the scores."""
    s = [ctx.real("s") if base is None and i < 4 else
         1.0 * (base or 0) + i * i for i in range(n)]
    inds = [vec("int", [i], x) for i, x in enumerate(s)]
    pop = population(inds)
    got = pop.get_average_fitness()[0]
    fmt, cap = recorder(), Capture()
    if base is not None:
        watched(cap, lambda: STATS["baw"](fmt).write_statistics(
            None, {"generation_num": 1, "population": pop}), START)
        ctx.check([abs(x - y) < 1e-6 for x, y in zip(
            fmt.rows[-1], (min(s), max(s), sum(s) / n))] == [True] * 3,
            "best, worst and average")
        ctx.check(abs(got - sum(s) / n) < 1e-6, "average fitness")
        return
    ctx.check(eq(got * n, sum(s[1:], s[0])), "average fitness")


def direct(ctx, stat, sizes, higher, bloat=False, gen=3, twins=False,
           past=0):
    core.cur().state["worn"] = past
    w = ctx.real("w", 0) if bloat else 0
    groups, lists, lens = [], [], []
    for n in sizes:
        inds = []
        for i in range(n):
            s = ctx.real("s")
            if stat == "size" or bloat:
                k = 2 if twins and i else 1 + (i * 2) % 3
                inds.append(chain_tree(k, GPFitness(
                    s, higher_is_better=higher, bloat_weight=w)))
            else:
                k = 2
                inds.append(vec("int", [i, 0], s, higher=higher))
        lists.append(inds)
        groups.append([(i.get_augmented_fitness(), i.get_pure_fitness())
                       for i in inds])
        lens.append([size_of(i) for i in inds])
    pop = population(*lists)
    for sp in pop.sub_populations:
        sp.higher_is_better = higher
    fmt, cap = recorder(), Capture()
    st = STATS[stat](fmt)
    keep = [list(x) for x in lists]
    watched(cap, lambda: st.write_statistics(
        None, {"generation_num": gen, "population": pop,
                   **heroes(ctx, higher, lists)}), START)
    ctx.check(len(fmt.rows) == len(sizes), "one report per sub-population")
    text = "\n".join(cap.lines)
    ctx.check(f"#{gen}" in cap.lines[0], "the generation is named")
    pos = 0
    for i, row in enumerate(fmt.rows):
        reported(ctx, row, groups[i], higher,
                 lens[i] if stat == "size" else None)
        at = text.find(f"subpopulation #{i}", pos)
        ctx.check(at >= 0 and text.find(f"row {i}", at) > at,
                  "written under its sub-population")
        pos = at
    ctx.check(all(x is y for a, b in zip(keep, lists)
                  for x, y in zip(a, b)) and
              [len(x) for x in keep] == [len(x) for x in lists],
              "the population is left as it was")


def default_format(ctx, stat, higher):
    """The default text shows the numbers in their places."""
    b = ctx.choose(3, "b")
    vals = [[1.5, 2.5, 8.0], [-3.0, 4.0, 0.5], [7.0, 7.0, 7.0]][b]
    inds = [chain_tree(i + 1, GPFitness(v, higher_is_better=higher,
                                        bloat_weight=0))
            for i, v in enumerate(vals)]
    pop = population(inds)
    pop.sub_populations[0].higher_is_better = higher
    cap = Capture()
    st = STATS[stat]()
    watched(cap, lambda: st.write_statistics(
        None, {"generation_num": 4, "population": pop}), START)
    lines = [l.strip() for l in "\n".join(cap.lines).split("\n")]
    hi, lo = max(vals), min(vals)
    best, worst = (hi, lo) if higher else (lo, hi)
    ctx.check(f"best fitness {best}" in lines, "best is shown")
    ctx.check(f"worst fitness {worst}" in lines, "worst is shown")
    avg = [l for l in lines if l.startswith("average fitness ")]
    ctx.check(len(avg) == 1 and abs(float(avg[0].split()[-1]) -
                                    sum(vals) / 3) < 1e-9,
              "average is shown")
    if stat == "size":
        ctx.check("average size 2.0" in lines, "size is shown")
    ctx.check("generation #4" in lines, "generation is shown")


def in_run(ctx, stat, n, gens, higher, kind="int", sparse=False):
    """One report per generation, about the scores of that generation."""
    fmt, cap = recorder(), Capture()
    r = Run(ctx, n, gens, kind=kind, higher=higher, evolve=False,
            score=sparse_scores(ctx, n * (gens + 1)) if sparse else None,
            statistics=STATS[stat](fmt))
    watched(cap, r.algo.evolve, START)
    gens_said = [l for l in cap.lines if l.startswith("generation #")]
    ctx.check(gens_said == [f"generation #{g}" for g in r.gens],
              "a report per generation, in order")
    ctx.check(len(fmt.rows) == len(r.gens), "a row per generation")
    log = r.evaluator.log
    off = len(log) - n * len(r.gens)
    for g, row in enumerate(fmt.rows):
        grp = [(s, s) for _, _, s in log[off + n * g:off + n * (g + 1)]]
        reported(ctx, row, grp, higher)


def two(ctx, gens, as_list):
    """Several statistics: each reports every generation."""
    f, g, cap = recorder(), recorder(), Capture()
    st = [BestAverageWorstStatistics(f), MinimalPrintStatistics(),
          BestAverageWorstStatistics(g)]
    r = Run(ctx, 2, gens, evolve=False, statistics=st if as_list else st[0])
    watched(cap, r.algo.evolve, START)
    k = len(r.gens)
    ctx.check(len(f.rows) == k and len(g.rows) == (k if as_list else 0),
              "each statistics reports each generation")
    said = [l for l in cap.lines if l.startswith("generation #")]
    ctx.check(len(said) == k * (3 if as_list else 1), "minimal too")
    for a, b in zip(f.rows, g.rows):
        ctx.check(eq(list(a), list(b)), "the same numbers")


def corners(front):
    return [list(i.get_pure_fitness()) for i in front
            if is_inf(i.fitness.crowding)]


def moe(ctx, sizes, higher=False, keep=None):
    lists = [[moo(i, [ctx.real("o"), ctx.real("o")], higher)
              for i in range(n)] for n in sizes]
    pop = population(*lists)
    for sp, n in zip(pop.sub_populations, sizes):
        sp.population_size = n
    for sp, n in zip(pop.sub_populations, sizes):
        NSGA2FrontSorting().select_for_population(Population([sp]), keep or n)
    fmt, cap = recorder(), Capture()
    MOEBestWorstStatistics(fmt, output_stream=cap).write_statistics(
        None, {"generation_num": 9, "population": pop})
    ctx.check(cap.lines[0] == "generation #9", "the generation is named")
    ctx.check(len(fmt.rows) == len(sizes), "one report per sub-population")
    for i, (row, sp) in enumerate(zip(fmt.rows, pop.sub_populations)):
        ranks = [x.fitness.front_rank for x in sp.individuals]
        last = max(ranks)
        ctx.check(f"subpopulation #{i} has {last} fronts" in cap.lines,
                  "number of fronts")
        first = [x for x in sp.individuals if x.fitness.front_rank == 1]
        end = [x for x in sp.individuals if x.fitness.front_rank == last]
        ctx.check(row[0] == len(first), "size of the first front")
        ctx.check(abs(row[1] - 100 * len(first) / len(ranks)) < 1e-9,
                  "share of the first front")
        for got, front in ((row[2], first), (row[3], end)):
            for c in got:
                ctx.check(lor(*[eq(c, o) for o in corners(front)]),
                          "corners are points of their front")
            # every extreme of the front is among them
            pts = [list(x.get_pure_fitness()) for x in front]
            if keep:  # a part of the front only
                continue
            for k in range(2):
                for want in (min, max):
                    v = want(p[k] for p in pts)
                    ctx.check(lor(*[eq(c[k], v) for c in got]),
                              "the extremes are shown")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="direct", stat="baw", sizes=(3,), higher=h)
        yield "copies", dict(of="direct", stat="size", sizes=(2, 1), higher=h, bloat=True)
    for stat in STATS:
        for h in (False, True):
            for sizes in ((1,), (2,), (3,), (2, 1), (1, 2, 1)):
                yield "direct", dict(stat=stat, sizes=sizes, higher=h)
            yield "direct", dict(stat=stat, sizes=(2,), higher=h,
                                 bloat=True, gen=0)
            for past in (1, 2, 3):
                yield "direct", dict(stat=stat, sizes=(2,), higher=h,
                                     past=past)
            yield "direct", dict(stat=stat, sizes=(3,), higher=h,
                                 bloat=True, gen=12)
            yield "direct", dict(stat=stat, sizes=(3, 2), higher=h,
                                 bloat=stat == "size", twins=True)
            for what in ("scores", "size", "members", "population"):
                yield "again", dict(stat=stat, higher=h, what=what)
            yield "default_format", dict(stat=stat, higher=h)
    for n in (5, 7, 8, 12, 33):
        yield "average", dict(n=n)
        for b in (0, 0.5, 1e5, -7e6, 2.0 ** 24):
            yield "average", dict(n=n, base=b)
    for h in (False, True):
        for n, g in ((1, 0), (2, 1), (1, 2), (2, 2)):
            yield "in_run", dict(stat="baw", n=n, gens=g, higher=h)
        yield "in_run", dict(stat="baw", n=2, gens=14, higher=h,
                        sparse=True)
    for g in (0, 1, 2):
        for l in (False, True):
            yield "two", dict(gens=g, as_list=l)
    for sizes in ((1,), (2,), (3,), (1, 1), (2, 1)):
        yield "moe", dict(sizes=sizes)
    for k in (1, 2):
        yield "moe", dict(sizes=(3,), keep=k)
    if T:
        for h in (False, True):
            for stat in STATS:
                yield "direct", dict(stat=stat, sizes=(4,), higher=h)
                yield "direct", dict(stat=stat, sizes=(4,), higher=h,
                                     bloat=True)
                yield "direct", dict(stat=stat, sizes=(3, 3), higher=h)
            yield "in_run", dict(stat="baw", n=3, gens=2, higher=h), {
                "budget": 900}
            yield "in_run", dict(stat="baw", n=2, gens=3, higher=h), {
                "budget": 900}
        yield "moe", dict(sizes=(4,)), {"budget": 900}
        for k in (1, 2, 3):
            yield "moe", dict(sizes=(4,), keep=k), {"budget": 900}
        yield "moe", dict(sizes=(2, 2)), {"budget": 900}
        yield "moe", dict(sizes=(3,), higher=True)
