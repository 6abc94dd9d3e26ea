"""C06: fitness proportionate selection is proportional to fitness."""
from props.common import *
from eckity.genetic_operators import FitnessProportionateSelection

BOUNDS = ("1-4 individuals with any non-negative real or whole-number scores (zeros, ties and "
          "all-zero included), 7-30 individuals with one arbitrary score; all "
          "draws explored for up to 3 individuals; both directions; vectors "
          "and trees with bloat; 0..n individuals already selected; the same selection object used again, "
          "on the same individuals with other scores and on another "
          "population; scores with at least one negative value; "
          "copies that share one identity")
OUTSIDE = ("the weights are read off the weighted draw the code asks for; "
           "rounding; the distribution of numpy's generator itself")


def weighted_draws(ctx, np0, rng0):
    """[(population, weights or None, number)] asked for since."""
    out = []
    for items, size, replace, p in ctx.state.get("np_choice_log", [])[np0:]:
        out.append((items, p, 1 if size is None else size, replace))
    for what, val in ctx.rng_log[rng0:]:
        if isinstance(what, tuple) and what[0] == "choices":
            out.append((None, what[1], what[2], True))
    return out


def select(ctx, n, higher, pre=0, kind="int", sparse=False, free=None,
           calls=1, zeros=0, then=None, whole=False):
    """``then``: what changes before the selection object is used again -
    the scores of the same individuals, or the whole population."""
    if free is not None:
        ctx.flags["idx_free"] = free
    w = None
    if sparse:
        at, v = ctx.choose(n, "at"), ctx.real("v", 0)
        # (constants as exact reals: no rounding in the encoding)
        s = [v if i == at else ctx.real("c", (i * 5 + 2) % n,
                                        (i * 5 + 2) % n) for i in range(n)]
    else:
        s = [0.0 if i < zeros else ctx.int("s", 0) if whole else
             ctx.real("s", 0) for i in range(n)]
    if kind == "tree":
        w = ctx.real("w", 0)
        inds = [chain_tree(1 + (i * 2) % 5, GPFitness(
            s[i], higher_is_better=higher, bloat_weight=w))
            for i in range(n)]
        for i, ind in enumerate(inds):
            ind.tree[-1].value = f"t{i}"
    else:
        inds = [vec("int", [i], s[i], higher=higher) for i in range(n)]
    x = [aug(s[i], size_of(inds[i]), higher, w) for i in range(n)]
    for v in x:
        ctx.assume(v >= 0)
    gen = [genome(i) for i in inds]
    sel = FitnessProportionateSelection(higher_is_better=higher)
    src = []
    for call in range(calls):
        if call and then:
            s = [ctx.real("s2", 0) for _ in range(n)]
            if then == "population":
                inds = [vec("int", [40 + i], s[i], higher=higher)
                        for i in range(n)]
                gen = [genome(i) for i in inds]
            else:
                for ind, v in zip(inds, s):
                    ind.fitness.set_fitness(v)
            x = list(s)
        dest = [vec("int", [7000 + i]) for i in range(pre)]
        # the caller's list is filled anew where something else changed
        src = src if then else []
        src[:] = inds
        dest0 = list(dest)
        np0 = len(ctx.state.get("np_choice_log", []))
        rng0 = len(ctx.rng_log)
        out = sel.select(src, dest)
        ctx.check(out is dest, "fills the destination")
        ctx.check(len(dest) == n, "fills up to the size of the source")
        ctx.check(all(a is b for a, b in zip(dest, dest0)),
                  "what was there stays")
        ctx.check(len(src) == n and all(a is b for a, b in zip(src, inds)),
                  "the source list is untouched")
        ctx.check(distinct_objs(dest), "distinct individuals")
        for i in dest[pre:]:
            k = [j for j, g in enumerate(gen) if g == genome(i)]
            ctx.check(len(k) == 1, "a copy of a source individual")
            ctx.check(all(i is not o for o in inds), "clones")
            ctx.check(i.cloned_from == inds[k[0]].id, "clone of the chosen")
            ctx.check(i.selected_by == ["FitnessProportionateSelection"],
                      "selected_by")
            if higher:
                ctx.check(lor(x[k[0]] > 0, land(*[v == 0 for v in x])),
                          "zero fitness is never selected")
        for a, b in zip(inds, s):
            ctx.check(eq(a.get_pure_fitness(), b), "sources untouched")
        has_zero = lor(*[v == 0 for v in x])
        if higher:
            size = list(x)
        else:
            # slices are inverse to the score, shifted by one iff there is a
            # zero score
            size = [v + ite(has_zero, 1, 0) for v in x]
        for items, p, k, replace in weighted_draws(ctx, np0, rng0):
            ctx.check(bool(replace), "drawn with replacement")
            if items is not None:
                ctx.check(len(items) == n, "drawn from all individuals")
                order = [j if not isinstance(it, Individual) else
                         [q for q, z in enumerate(inds) if z is it][0]
                         for j, it in enumerate(items)]
            else:
                order = list(range(n))
            if p is None:
                ctx.check(land(*[close(a, x[0]) for a in x]),
                          "uniform only when all scores are equal")
                continue
            p = list(p)
            ctx.check(len(p) == n, "one weight per individual")
            if not sparse:
                for a in range(n):
                    ctx.check(p[a] >= 0, "weights are non-negative")
                    for b in range(a):
                        i, j = order[a], order[b]
                        if higher:
                            ctx.check(close(p[a] * size[j], p[b] * size[i]),
                                      "probability is proportional to score")
                        else:
                            ctx.check(close(p[a] * size[i], p[b] * size[j]),
                                      "probability is inverse to score")
            else:
                i0 = order[0]
                for a in range(1, n):
                    i = order[a]
                    l, r = (p[a] * size[i0], p[0] * size[i]) if higher else (
                        p[a] * size[i], p[0] * size[i0])
                    ctx.check(close(l, r), "probability matches score")
                if higher:
                    ctx.check(lor(p[0] > 0, x[i0] == 0), "weight vanishes "
                              "only with the score")


def negative(ctx, n, higher):
    s = [ctx.real("s") for _ in range(n)]
    ctx.assume(lor(*[v < 0 for v in s]))
    inds = [vec("int", [i], s[i], higher=higher) for i in range(n)]
    dest = []
    ctx.check(raises(ValueError, lambda: FitnessProportionateSelection(
        higher_is_better=higher).select(inds, dest)),
        "negative scores are refused")
    ctx.check(dest == [], "nothing is selected")


copies = copies_of(globals())


def jobs(tier):
    T = tier == "thorough"
    for h in (False, True):
        yield "copies", dict(of="select", n=2, higher=h, kind="int")
        yield "copies", dict(of="select", n=3, higher=h, pre=2, kind="tree")
    for h in (False, True):
        for n in (1, 2):
            for kind in ("int", "tree"):
                yield "select", dict(n=n, higher=h, kind=kind)
        yield "select", dict(n=3, higher=h, pre=1), {"weight": 9}
        yield "select", dict(n=3, higher=h, pre=2, kind="tree"), {
            "weight": 9}
        yield "select", dict(n=3, higher=h, pre=3)
        yield "select", dict(n=4, higher=h, pre=3), {"weight": 9}
        yield "select", dict(n=3, higher=h, pre=1, zeros=1), {"weight": 3}
        yield "select", dict(n=3, higher=h, pre=1, zeros=2), {"weight": 3}
        yield "select", dict(n=3, higher=h, pre=1, zeros=3), {"weight": 3}
        for n in (1, 2, 3):
            yield "select", dict(n=n, higher=h, pre=n - 1, whole=True), {
                "weight": n}
        yield "select", dict(n=2, higher=h, calls=2, pre=1)
        for then in ("scores", "population"):
            yield "select", dict(n=2, higher=h, calls=2, pre=1, then=then)
        if h:
            yield "select", dict(n=12, higher=h, sparse=True, free=1,
                                 pre=11), {"weight": 9}
        yield "select", dict(n=7, higher=h, sparse=True, free=0, pre=0), {
            "weight": 9}
        for n in (1, 2, 3, 4):
            yield "negative", dict(n=n, higher=h)
        if T:
            yield "select", dict(n=3, higher=h), {"weight": 90,
                                                  "budget": 900}
            yield "select", dict(n=4, higher=h, pre=2), {"weight": 90,
                                                         "budget": 900}
            yield "select", dict(n=30 if h else 8, higher=h, sparse=True,
                                 free=1, pre=29 if h else 7), {
                                     "weight": 50, "budget": 900}
