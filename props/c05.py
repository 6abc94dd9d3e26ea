"""C05: every tournament is won by its best contestant."""
from props.common import *
from eckity.genetic_operators import TournamentSelection

BOUNDS = ("2-4 individuals with any real scores, tournament size 1-4, all "
          "draws explored; up to 30 individuals and tournaments of up to 20 "
          "with the first draws free, tournaments of 131-140; with and without replacement; 0..n "
          "individuals already in the destination; both directions; vectors "
          "and trees with bloat weight any real >= 0; the same selection "
          "object used twice, also on other individuals, scores and sizes; "
          "infinite scores too; copies that share one identity")
OUTSIDE = ("NaN scores; the contestants of a tournament are read off the "
           "random module's draws, a selection that draws in a way the check "
           "cannot parse is only held to the rank bound")


def drawn(ctx, start, src):
    """The individuals drawn since `start`, in order, or None."""
    out = []
    for what, val in ctx.rng_log[start:]:
        vals = val if isinstance(val, list) else [val]
        for v in vals:
            if isinstance(v, Individual):
                k = [j for j, s in enumerate(src) if s is v]
                if not k:
                    return None
                out.append(k[0])
            elif isinstance(v, int) and 0 <= int(v) < len(src):
                out.append(int(v))
            else:
                return None
    return out


def select(ctx, n, t, higher, replace=True, pre=0, kind="int", calls=1,
           free=None, default=False, then=None, fp=False):
    """``then``: what changes before the selection object is used again -
    the scores of the same individuals, the individuals, or the size of the
    population too."""
    if free is not None:
        ctx.flags["idx_free"] = free
    w = None
    if kind == "tree":
        w = ctx.real("w", 0) if free is None else 0.25
    if free is None:
        s = [ctx.fp("s") if fp else ctx.real("s") for _ in range(n)]
    else:
        at, v = ctx.choose(min(n, 6), "at"), ctx.real("v")
        s = [v if i == at else float((i * 5 + 2) % n) for i in range(n)]
    if kind == "tree":
        inds = [chain_tree(1 + (i * 2) % 5, GPFitness(
            s[i], higher_is_better=higher, bloat_weight=w))
            for i in range(n)]
        for i, ind in enumerate(inds):
            ind.tree[-1].value = f"t{i}"
    else:
        inds = [vec("int", [i], s[i], higher=higher) for i in range(n)]
    x = [aug(s[i], size_of(inds[i]), higher, w) for i in range(n)]
    gen = [genome(i) for i in inds]
    sel = TournamentSelection(t, higher_is_better=higher) if default else \
        TournamentSelection(t, higher_is_better=higher, replace=replace)
    src = []
    for c in range(calls):
        if c and then:
            if then == "smaller":
                n -= 1
            s = [ctx.real("s2") for _ in range(n)]
            if then == "scores":
                for i, v in zip(inds, s):
                    i.fitness.set_fitness(v)
            else:
                inds = [vec("int", [40 + i], s[i], higher=higher)
                        for i in range(n)]
            x, gen, pre = list(s), [genome(i) for i in inds], min(pre, n)
        dest = [vec("int", [7000 + i]) for i in range(pre)]
        # the caller's list is filled anew where something else changed
        src = src if then else []
        src[:] = inds
        dest0 = list(dest)
        start = len(ctx.rng_log)
        if not replace and t > n:
            ctx.check(raises(ValueError, lambda: sel.select(src, dest)),
                      "tournament larger than the population is refused")
            ctx.check(len(dest) == pre, "nothing selected")
            continue
        out = sel.select(src, dest)
        ctx.check(out is dest, "fills the destination")
        ctx.check(len(dest) == n, "fills up to the size of the source")
        ctx.check(all(a is b for a, b in zip(dest, dest0)),
                  "what was there stays")
        ctx.check(len(src) == n and all(a is b for a, b in zip(src, inds)),
                  "the source list is untouched")
        winners = []
        for i in dest[pre:]:
            k = [j for j, g in enumerate(gen) if g == genome(i)]
            ctx.check(len(k) == 1, "a copy of a source individual")
            winners.append(k[0])
            ctx.check(all(i is not o for o in inds), "clones")
            ctx.check(i.cloned_from == inds[k[0]].id, "clone of the winner")
            ctx.check(i.selected_by == ["TournamentSelection"],
                      "selected_by")
        ctx.check(distinct_objs(dest), "distinct individuals")
        for a, b in zip(inds, s):
            ctx.check(eq(a.get_pure_fitness(), b), "sources untouched")
        m = n - pre
        if not replace:
            for i in winners:
                ctx.check(count([no_worse(x[i], x[j], higher)
                                 for j in range(n) if j != i]) >= t - 1,
                          "a winner is no worse than t-1 others")
        d = drawn(ctx, start, inds)
        if d is None:
            continue
        ctx.check(len(d) >= m * t, "every tournament has t contestants")
        if len(d) != m * t:
            continue
        if not replace:
            ctx.check(all(len(set(d[i * t:(i + 1) * t])) == t
                          for i in range(m)) or all(
                len(set(d[i::m])) == t for i in range(m)),
                "without replacement contestants differ")

        def fits(groups):
            return land(*[land(i in g, *[no_worse(x[i], x[j], higher)
                                         for j in g])
                          for i, g in zip(winners, groups)])
        ctx.check(lor(fits([d[i * t:(i + 1) * t] for i in range(m)]),
                      fits([d[i::m] for i in range(m)])),
                  "each tournament is won by a best contestant")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="select", n=2, t=2, higher=h, kind="int")
        yield "copies", dict(of="select", n=3, t=2, higher=h, pre=2, kind="tree")
        yield "copies", dict(of="select", n=3, t=2, higher=h, pre=1, replace=False)
    for h in (False, True):
        for kind in ("int", "tree"):
            for t in (1, 2, 3):
                yield "select", dict(n=2, t=t, higher=h, kind=kind)
                yield "select", dict(n=2, t=t, higher=h, kind=kind,
                                     replace=False)
        yield "select", dict(n=2, t=2, higher=h, default=True)
        for r in (False, True):
            yield "select", dict(n=2, t=2, higher=h, fp=True, replace=r)
            yield "select", dict(n=3, t=2, higher=h, fp=True, replace=r,
                                 pre=2)
        yield "select", dict(n=3, t=1, higher=h)
        yield "select", dict(n=3, t=2, higher=h, pre=1), {"weight": 5}
        yield "select", dict(n=3, t=3, higher=h, pre=2)
        yield "select", dict(n=3, t=4, higher=h, pre=2)
        yield "select", dict(n=3, t=2, higher=h, pre=3)
        for t in (2, 3, 4):
            yield "select", dict(n=3, t=t, higher=h, pre=1, replace=False), {
                "weight": 5}
        yield "select", dict(n=4, t=2, higher=h, pre=2), {"weight": 5}
        yield "select", dict(n=4, t=3, higher=h, pre=3, replace=False)
        yield "select", dict(n=2, t=2, higher=h, calls=2, pre=1)
        for then in ("scores", "population"):
            yield "select", dict(n=2, t=2, higher=h, calls=2, pre=1,
                                 then=then)
            yield "select", dict(n=2, t=2, higher=h, calls=2, then=then,
                                 replace=False)
        yield "select", dict(n=3, t=2, higher=h, calls=2, pre=2,
                             then="smaller")
        yield "select", dict(n=3, t=2, higher=h, calls=2, pre=2,
                             then="smaller", replace=False)
        yield "select", dict(n=3, t=3, higher=h, calls=2, pre=2,
                             then="smaller", replace=False)
        yield "select", dict(n=30, t=7, higher=h, free=1), {"weight": 9}
        yield "select", dict(n=24, t=20, higher=h, free=1, replace=False,
                             pre=20), {"weight": 9}
        yield "select", dict(n=12, t=12, higher=h, free=1, replace=False,
                             kind="tree", pre=8), {"weight": 9}
        # everybody, the best far behind
        yield "select", dict(n=131, t=131, higher=h, free=0, replace=False,
                             pre=129), {"weight": 9}
        yield "select", dict(n=131, t=140, higher=h, free=0, pre=129), {
            "weight": 9}
        yield "select", dict(n=8, t=10, higher=h, free=1, kind="tree",
                             pre=4), {
            "weight": 9}
        if T:
            yield "select", dict(n=3, t=2, higher=h), {"weight": 90,
                                                       "budget": 1500}
            yield "select", dict(n=3, t=3, higher=h, pre=1), {
                "weight": 90, "budget": 1500}
            yield "select", dict(n=4, t=2, higher=h, pre=1), {
                "weight": 90, "budget": 1500}
            yield "select", dict(n=4, t=4, higher=h, pre=2, replace=False), {
                "weight": 90, "budget": 1500}
            yield "select", dict(n=100, t=10, higher=h, free=1), {
                "weight": 20, "budget": 900}
