"""C11: k-point crossover exchanges segments at exactly k cut points."""
from itertools import combinations
from props.common import *
from eckity.genetic_operators import VectorKPointsCrossover

BOUNDS = ("pairs of vectors of 2-6 arbitrary genes, every k from 1 to "
          "length-1 and every choice of cut points; vectors of 12-40 genes "
          "with k up to 11 and the first two cut points free; int, float and "
          "bit vectors, common and per-cell bounds; the same operator applied "
          "up to 3 times, also to vectors of another length; reachability of every set of cut points for 2-6 genes "
          "and all k, 8-50 genes and k in 1-3")
OUTSIDE = "vectors of different lengths; fully free cut points beyond length 6"


def genes(ctx, kind, n, sym=99):
    if kind == "bit":
        return [ctx.int("g", 0, 1) for _ in range(n)]
    if kind == "float":
        return [ctx.real("g") if i < sym else 0.5 + i for i in range(n)]
    return [ctx.int("g") if i < sym else i for i in range(n)]


def swapped(r1, r2, a, b, cuts, start):
    """r1, r2 are a, b with the segments between cuts exchanged."""
    n, cs, mode, conds = len(a), set(cuts), start, []
    for i in range(n):
        if i in cs:
            mode = not mode
        conds.append(land(eq(r1[i], b[i] if mode else a[i]),
                          eq(r2[i], a[i] if mode else b[i])))
    return land(*conds)


def cross(ctx, n, k, kind="int", times=1, per_cell=False, scored=True,
          both=True, lengths=None):
    b = (-10 ** 6, 10 ** 6)
    if kind == "bit":
        b = (0, 1)
    op = VectorKPointsCrossover(k=k)
    b0 = b
    for n in (lengths or [n] * times):
        b = [b0] * n if per_cell else b0
        vs = [genes(ctx, kind, n) for _ in range(2)]
        inds = [VEC[kind](SimpleFitness(ctx.real("s") if scored else None),
                          length=n, bounds=b, vector=list(v)) for v in vs]
        res = op.apply_operator(inds)
        ctx.check(len(res) == 2 and res[0] is inds[0] and res[1] is inds[1],
                  "both individuals come back, changed in place")
        r1, r2 = inds[0].vector, inds[1].vector
        ctx.check(len(r1) == n and len(r2) == n and inds[0].size() == n and
                  inds[1].size() == n, "lengths are kept")
        ctx.check(r1 is not r2, "vectors are not shared")
        ctx.check(land(*[lor(land(eq(x, p), eq(y, q)),
                             land(eq(x, q), eq(y, p)))
                         for x, y, p, q in zip(r1, r2, *vs)]),
                  "genes stay at their position and none is lost")
        ctx.check(lor(*[swapped(r1, r2, vs[0], vs[1], c, s)
                        for c in combinations(range(1, n), k)
                        for s in (False, True)]),
                  "segments alternate with exactly k cuts")


def long(ctx, n, k, free=2, times=1):
    """Distinct concrete genes make the cut points readable."""
    ctx.flags["idx_free"] = free
    op = VectorKPointsCrossover(k=k)
    for _ in range(times):
        a = [ctx.int("g")] + list(range(1, n))
        b = [ctx.int("h")] + list(range(1001, 1000 + n))
        inds = [IntVector(SimpleFitness(), length=n, bounds=(0, 9999),
                          vector=list(v)) for v in (a, b)]
        op.apply_operator(inds)
        r1, r2 = inds[0].vector, inds[1].vector
        ctx.check(len(r1) == n and len(r2) == n, "lengths are kept")
        modes = []
        for i in range(1, n):
            ok = (r1[i], r2[i]) in ((a[i], b[i]), (b[i], a[i]))
            ctx.check(ok, "genes stay at their position and none is lost")
            modes.append(r1[i] == b[i])
        sw = sum(x != y for x, y in zip(modes, modes[1:]))
        first = land(eq(r1[0], a[0]), eq(r2[0], b[0]))
        first_sw = land(eq(r1[0], b[0]), eq(r2[0], a[0]))
        ctx.check(lor(first, first_sw), "genes are conserved")
        same0 = first if not modes[0] else first_sw
        ctx.check(lor(land(same0, sw == k), sw == k - 1),
                  "segments alternate with exactly k cuts")
        ctx.check(implies(lnot(a[0] == b[0]), iff(same0, sw == k)),
                  "segments alternate with exactly k cuts")


def reach(ctx, n, k, kind="int"):
    """Every set of k cut points can occur."""
    ctx.require(str(c) for c in combinations(range(1, n), k))
    b = (0, 1) if kind == "bit" else (-10 ** 6, 10 ** 6)
    inds = [VEC[kind](SimpleFitness(), length=n, bounds=b, vector=v)
            for v in ([0] * n, [1] * n)]
    VectorKPointsCrossover(k=k).apply_operator(inds)
    r = inds[0].vector
    ctx.cover(str(tuple(i for i in range(1, n) if r[i] != r[i - 1])))


def too_many(ctx, n, k):
    vs = [genes(ctx, "int", n) for _ in range(2)]
    inds = [IntVector(SimpleFitness(), length=n, bounds=(0, 1),
                      vector=list(v)) for v in vs]
    ctx.check(raises(ValueError, lambda: VectorKPointsCrossover(
        k=k).apply_operator(inds)), "more cuts than positions are refused")
    ctx.check(land(eq(inds[0].vector, vs[0]), eq(inds[1].vector, vs[1])),
              "and nothing changes")


def jobs(tier):
    for n in (2, 3, 4, 5, 6):
        for k in range(1, n):
            yield "cross", dict(n=n, k=k), {"weight": n * n}
            if n <= 4:
                yield "cross", dict(n=n, k=k, kind="float", per_cell=True)
                yield "cross", dict(n=n, k=k, kind="bit", scored=False)
            yield "reach", dict(n=n, k=k)
            yield "reach", dict(n=n, k=k, kind="bit")
        yield "too_many", dict(n=n, k=n)
        yield "too_many", dict(n=n, k=n + 1)
    for n, k in ((8, 1), (8, 2), (8, 3), (10, 1), (20, 1), (50, 1),
                 (13, 2), (30, 2)):
        yield "reach", dict(n=n, k=k), {"weight": n}
    for k in (1, 2):
        yield "cross", dict(n=3, k=k, times=3), {"weight": 9}
    for ls in ((2, 4), (4, 2), (3, 5)):
        yield "cross", dict(n=0, k=1, lengths=ls), {"weight": 5}
    yield "cross", dict(n=0, k=2, lengths=(4, 3), per_cell=True)
    yield "cross", dict(n=0, k=2, lengths=(3, 4), kind="bit")
    for n, k in ((12, 1), (12, 2), (12, 5), (12, 11), (40, 1), (40, 2),
                 (40, 3), (40, 10)):
        yield "long", dict(n=n, k=k), {"weight": n}
    yield "long", dict(n=20, k=3, free=1, times=3)
    if tier == "thorough":
        for k in range(1, 8):
            yield "cross", dict(n=8, k=k), {"budget": 900}
        for k in (1, 2, 3, 4):
            yield "cross", dict(n=5, k=k, times=2), {"budget": 900}
        for n, k in ((100, 1), (100, 2), (100, 7), (60, 30)):
            yield "long", dict(n=n, k=k), {"budget": 900}
        for n, k in ((16, 2), (16, 3), (16, 15)):
            yield "long", dict(n=n, k=k, free=3), {"budget": 900}
