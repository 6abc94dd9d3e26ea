"""C10: vector creators and mutations stay in bounds and keep the length."""
from props.common import *
from eckity.creators import (
    GABitStringVectorCreator, GAFloatVectorCreator, GAIntVectorCreator)
from eckity.creators.ga_creators.simple_vector_creator import GAVectorCreator
from eckity.genetic_operators.mutations.vector_n_point_mutation import \
    VectorNPointMutation
from eckity.genetic_operators.mutations.vector_random_mutation import (
    BitStringVectorFlipMutation, BitStringVectorNFlipMutation,
    FloatVectorGaussNPointMutation, FloatVectorGaussOnePointMutation,
    FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
    IntVectorNPointMutation, IntVectorOnePointMutation)

BOUNDS = ("vectors of 1-3 cells with arbitrary contents in bounds and of 25 "
          "cells; common and per-cell bounds, any integers / reals with "
          "lower <= upper; 0-3 individuals created per call; mutation points "
          "1..length; arity 1-2; up to 3 attempts; every random draw; the "
          "same operator used up to 3 times, also on vectors of another "
          "length with other bounds; bits of any two values")
OUTSIDE = "rounding of random.uniform at the upper bound; vectors of more " \
          "than 25 cells"


def mk_bounds(ctx, kind, length, per_cell, sym=3):
    def one(i):
        if kind == "bit":
            return (0, 1)
        if i >= sym:
            return (i, i + 2) if kind == "int" else (0.0 + i, 2.0 + i)
        if kind == "int":
            lo = ctx.int("lo")
            return (lo, lo + ctx.int("w", 0))
        lo = ctx.real("lo")
        return (lo, lo + ctx.real("w", 0))
    if per_cell:
        return [one(i) for i in range(length)]
    return one(0)


def bound(b, i):
    return b[i] if isinstance(b, list) else b


def in_bounds(ctx, kind, v, b, label):
    ctx.check(land(*[between(bound(b, i)[0], x, bound(b, i)[1])
                     for i, x in enumerate(v)]), label)
    for x in v:
        if kind in ("int", "bit"):
            ctx.check(isinstance(x, int), "cells are integers")
        else:
            ctx.check(isinstance(x, float), "cells are floats")


def create(ctx, kind, length, n, per_cell=False, dflt=False, generic=False,
           times=1, higher=False, up=False, b_kind=None):
    cls = {"int": GAIntVectorCreator, "float": GAFloatVectorCreator,
           "bit": GABitStringVectorCreator}[kind]
    b = None if dflt else mk_bounds(ctx, b_kind or kind, length, per_cell)
    kw = {} if b is None else {"bounds": b}
    if up:
        kw["update_parents"] = True
    if generic:
        cr = GAVectorCreator(length=length, vector_type=VEC[kind], **kw)
    else:
        cr = cls(length=length, **kw)
    want = b if b is not None else (0, 1)
    seen = []
    for _ in range(times):
        inds = cr.create_individuals(n, higher)
        ctx.check(len(inds) == n, "as many individuals as asked for")
        seen += inds
        for ind in inds:
            ctx.check(type(ind) is VEC[kind], "type")
            ctx.check(ind.size() == length and len(ind.vector) == length and
                      ind.length == length, "length")
            in_bounds(ctx, kind, ind.vector, want, "created in bounds")
            ctx.check(ind.check_if_in_bounds(), "check_if_in_bounds agrees")
            ctx.check(not ind.fitness.is_fitness_evaluated(), "unscored")
            ctx.check(ind.fitness.higher_is_better is higher, "direction")
            ctx.check(eq(ind.get_bounds(), want), "bounds")
            ctx.check(ind.update_parents is up, "parents")
    ctx.check(distinct_objs(seen) and distinct_objs(
        [i.vector for i in seen]) and distinct_objs(
        [i.fitness for i in seen]), "individuals are independent")


def gene_creator(ctx, length, n):
    calls = []

    def gene(ind, i):
        calls.append((ind, i))
        return 100 * len(calls) + i
    cr = GAIntVectorCreator(length=length, bounds=(0, 10 ** 6),
                            gene_creator=gene)
    inds = cr.create_individuals(n, False)
    ctx.check(sorted((id(a), i) for a, i in calls) == sorted(
        (id(a), i) for a in inds for i in range(length)),
        "the gene creator is asked once per cell")
    for ind in inds:
        ctx.check([x % 100 for x in ind.vector] == list(range(length)),
                  "each cell gets its own gene")


def default_int_bounds(ctx):
    """IntVector without explicit bounds is usable."""
    v = IntVector(SimpleFitness(), length=2, vector=[0, 0])
    x = v.get_random_number_in_bounds(1)
    lo, hi = v.get_bounds()
    ctx.check(lo <= hi, "default bounds are ordered")
    ctx.check(between(lo, x, hi), "in bounds")
    ctx.check(v.check_if_in_bounds(), "0 is legal")


OPS = {
    "npoint": ("any", lambda n, a, **k: VectorNPointMutation(
        n=n, arity=a, **k)),
    "intn": ("int", lambda n, a: IntVectorNPointMutation(n=n, arity=a)),
    "int1": ("int", lambda n, a: IntVectorOnePointMutation(
        arity=a, probability=1.0)),
    "funi": ("float", lambda n, a: FloatVectorUniformOnePointMutation(
        arity=a)),
    "funin": ("float", lambda n, a: FloatVectorUniformNPointMutation(
        n=n, arity=a)),
    "gauss1": ("float", lambda n, a, attempts=2:
               FloatVectorGaussOnePointMutation(arity=a, attempts=attempts)),
    "gaussn": ("float", lambda n, a, attempts=2:
               FloatVectorGaussNPointMutation(n=n, arity=a,
                                              attempts=attempts)),
    "flip": ("bit", lambda n, a: BitStringVectorFlipMutation(arity=a)),
    "nflip": ("bit", lambda n, a: BitStringVectorNFlipMutation(n=n,
                                                               arity=a)),
}


def mk_vec(ctx, kind, length, b, sym=3):
    v = []
    for i in range(length):
        lo, hi = bound(b, i)
        if kind == "bit":
            g = ctx.int("g", 0, 1) if i < sym else i % 2
            v.append(lo + g * (hi - lo))
        elif i >= sym:
            v.append(lo)
        elif kind == "int":
            v.append(ctx.int("g", lo, hi))
        else:
            v.append(ctx.real("g", lo, hi))
    return VEC[kind](SimpleFitness(ctx.real("s")), length=length, bounds=b,
                     vector=list(v))


def mutate(ctx, op, kind, length, n=1, arity=1, per_cell=False, times=1,
           attempts=None, sym=3, free=None, lengths=None, bits=None):
    """``lengths``: of the vectors mutated in turn by the same operator, each
    with bounds of their own. ``bits``: the two values bits have."""
    if free is not None:
        ctx.flags["idx_free"] = free
    b = mk_bounds(ctx, kind, lengths[0] if lengths else length, per_cell,
                  sym)
    if bits is not None:
        b = bits
    oper = OPS[op][1](n, arity, **({} if attempts is None else
                                   {"attempts": attempts}))
    one = op in ("funi", "gauss1", "flip")
    for t, length in enumerate(lengths or [length] * times):
        if lengths and t:
            b = mk_bounds(ctx, kind, length, per_cell, sym)
        inds = [mk_vec(ctx, kind, length, b, sym) for _ in range(arity)]
        old = [list(i.vector) for i in inds]
        start = len(ctx.rng_log)
        res = oper.apply_operator(inds)
        ctx.check(res is not None and len(res) == arity and all(
            a is c for a, c in zip(res, inds)), "the individuals come back")
        drawn = [v for w, v in ctx.rng_log[start:]
                 if isinstance(w, tuple) and w[0] in ("uniform", "randint")]
        # values drawn in another way (say, from a scaled unit draw) are not
        # parsed
        parsed = bool(drawn) or sum(w == "random" for w, _ in
                                    ctx.rng_log[start:]) < 2
        for ind, o in zip(inds, old):
            ctx.check(ind.size() == length and ind.length == length,
                      "length is kept")
            in_bounds(ctx, kind, ind.vector, b, "mutated cells are in bounds")
            changed = count([lnot(x == y) for x, y in zip(ind.vector, o)])
            if op != "int1":
                ctx.check(changed <= (1 if one else n),
                          "at most n cells change")
            if op == "flip":
                ctx.check(changed == 1, "exactly one bit flips")
            if op in ("flip", "nflip"):
                ctx.check(land(*[lor(x == y, x + y == sum(bound(b, i)))
                                 for i, (x, y) in enumerate(
                                     zip(ind.vector, o))]),
                          "a flipped bit has the other value")
            if parsed and (op in ("intn", "funi", "funin") or (
                    op == "npoint" and kind != "bit")):
                m = 1 if one else n
                fresh = land(*[lnot(d == x) for d in drawn for x in o])
                ctx.check(implies(fresh, changed == m), "n cells are redrawn")
        ctx.check(distinct_objs([i.vector for i in inds]),
                  "vectors are not shared")


def refused(ctx, kind, length, arity, attempts, ok_from, n=1):
    """A success checker that refuses the first attempts: afterwards the
    individuals carry either a successful mutation or their old genome."""
    b = mk_bounds(ctx, kind, length, False)
    calls, seen = [0], []

    def checker(old, new):
        calls[0] += 1
        seen.append((list(old.vector), list(new.vector)))
        if arity == 1:
            return calls[0] > ok_from
        # refuse the second individual of an attempt
        return calls[0] % 2 == 1 or calls[0] > 2 * ok_from
    oper = VectorNPointMutation(n=n, arity=arity, attempts=attempts,
                                success_checker=checker)
    inds = [mk_vec(ctx, kind, length, b) for _ in range(arity)]
    old = [list(i.vector) for i in inds]
    res = oper.apply_operator(inds)
    ctx.check(all(a is c for a, c in zip(res, inds)), "individuals come back")
    ok = ok_from < attempts
    ctx.check(calls[0] == arity * (min(ok_from, attempts - 1) + 1),
              "as many attempts as needed and allowed")
    for k, (o, nw) in enumerate(seen):
        ctx.check(eq(o, old[k % arity]),
                  "the checker sees the individual as it was")
    for i, o in zip(inds, old):
        ctx.check(len(i.vector) == length and i.length == length, "length")
        if not ok:
            ctx.check(eq(i.vector, o), "a failed mutation changes nothing")
        else:
            in_bounds(ctx, kind, i.vector, b, "in bounds")
            ctx.check(count([lnot(x == y) for x, y in zip(i.vector, o)])
                      <= n, "only the successful attempt shows")


def custom(ctx, length, n):
    """User-defined cell selector and value getter."""
    cells = [ctx.choose(length, "cell") for _ in range(n)]
    inds = [IntVector(SimpleFitness(), length=length, bounds=(0, 100),
                      vector=[ctx.int("g", 0, 50) for _ in range(length)])]
    old = list(inds[0].vector)
    oper = VectorNPointMutation(
        n=n, cell_selector=lambda v: cells,
        mut_val_getter=lambda v, i: v.cell_value(i) + 1)
    oper.apply_operator(inds)
    for i in range(length):
        ctx.check(eq(inds[0].vector[i], old[i] + (1 if i in cells else 0)),
                  "exactly the selected cells get the new value")


def bad_shape(ctx, kind):
    def f(b, **k):
        return lambda: VEC[kind](SimpleFitness(), bounds=b, length=2, **k)
    for b in ((0,), (0, 1, 2), [(0, 1)], [(0, 1)] * 3):
        ctx.check(raises(ValueError, f(b)), "bad bounds are refused")
    for v in ([], [1], [1, 1, 1], (1, 1)):
        ctx.check(raises(ValueError, f((0, 1), vector=v)),
                  "bad vectors are refused")
    x = f([(0, 1), (0, 1)], vector=[0, 1])()
    ctx.check(x.update_parents is False and not hasattr(x, "parents"),
              "parents are tracked on request only")
    y = f((0, 1), update_parents=True)()
    ctx.check(y.update_parents is True and y.parents == [], "on request")
    ctx.check(x.check_if_in_bounds(), "two-cell list bounds")


def cells(ctx, length):
    """Reading, writing and replacing parts of a vector."""
    g = [ctx.int("g") for _ in range(length)]
    v = IntVector(SimpleFitness(), length=length, bounds=(0, 1),
                  vector=list(g))
    for i in range(length):
        ctx.check(eq(v.cell_value(i), g[i]), "cell_value")
    i = ctx.choose(length, "i")
    k = 1 + ctx.choose(length - i, "k")
    part = [ctx.int("p") for _ in range(k)]
    if ctx.choose(2, "how"):
        got = v.replace_vector_part(list(part), i)
        ctx.check(eq(got, g[i:i + k]), "the replaced part is returned")
        ctx.check(eq(v.vector, g[:i] + part + g[i + k:]), "replaced")
    else:
        got = v.replace_vector_part_random(list(part))
        j = [j for j in range(length - k + 1)]
        ctx.check(lor(*[land(eq(v.vector, g[:a] + part + g[a + k:]),
                             eq(got, g[a:a + k])) for a in j]),
                  "some window is replaced")
    ctx.check(v.size() == length, "same size")
    ctx.check(eq(v.get_vector_part(i, i + k), v.vector[i:i + k]), "part")
    r = v.random_vector_part()
    w = v.vector
    ctx.check(len(r) >= 1 and bool(lor(*[
        eq(r, w[a:b]) for a in range(length) for b in range(a + 1, length + 1)
        if b - a == len(r)])), "a random part is a window")
    v.set_cell_value(i, 7)
    ctx.check(eq(v.vector[i], 7) and v.size() == length, "set_cell_value")


def legal(ctx, kind, length, per_cell):
    """check_if_in_bounds decides membership exactly."""
    b = mk_bounds(ctx, kind, length, per_cell)
    g = [ctx.int("x") if kind == "int" else ctx.real("x")
         for _ in range(length)]
    v = VEC[kind](SimpleFitness(), length=length, bounds=b, vector=g)
    want = land(*[between(bound(b, i)[0], x, bound(b, i)[1])
                  for i, x in enumerate(g)])
    ctx.check(iff(v.check_if_in_bounds(), want), "check_if_in_bounds")


def jobs(tier):
    for kind in ("int", "float", "bit"):
        for length in (1, 2, 3):
            for pc in (False, True):
                yield "create", dict(kind=kind, length=length, n=2,
                                     per_cell=pc)
                if kind != "bit":
                    yield "legal", dict(kind=kind, length=length, per_cell=pc)
        yield "create", dict(kind=kind, length=2, n=0)
        yield "create", dict(kind=kind, length=2, n=1, dflt=True, higher=True)
        yield "create", dict(kind=kind, length=2, n=2, generic=True,
                             per_cell=True, times=2, up=True)
        yield "create", dict(kind=kind, length=25, n=12, per_cell=True)
        yield "bad_shape", dict(kind=kind)
    yield "gene_creator", dict(length=3, n=2)
    for pc in (False, True):
        yield "create", dict(kind="bit", length=2, n=1, per_cell=pc,
                             b_kind="int")
        yield "create", dict(kind="bit", length=2, n=1, per_cell=pc,
                             b_kind="int", generic=True)
    yield "default_int_bounds", {}
    for op, (kind, _) in OPS.items():
        for k in (("int", "float", "bit") if kind == "any" else (kind,)):
            for length in (1, 2, 3):
                for n in range(1, length + 1):
                    if n > 1 and op in ("int1", "funi", "gauss1", "flip"):
                        continue
                    for pc in (False, True):
                        kw = {"attempts": 1} if op == "gaussn" and \
                            length == 3 and n > 1 else {}
                        yield "mutate", dict(op=op, kind=k, length=length,
                                             n=n, per_cell=pc, **kw), {
                            "weight": length * n}
            yield "mutate", dict(op=op, kind=k, length=2, arity=2,
                                 per_cell=True), {"weight": 5}
            kw = dict(times=2, attempts=1) if op in ("gauss1", "gaussn") \
                else dict(times=3)
            yield "mutate", dict(op=op, kind=k, length=2, **kw), {
                "weight": 5}
            for ls in ((1, 3), (3, 2), (2, 2)):
                yield "mutate", dict(op=op, kind=k, length=0, lengths=ls,
                                     per_cell=ls[0] == 3, **(
                                         {"attempts": 1} if op in (
                                             "gauss1", "gaussn") else {})), {
                    "weight": 5}
            yield "mutate", dict(op=op, kind=k, n=1, sym=1, per_cell=True,
                                 length=7 if op == "int1" else 25,
                                 free=1), {"weight": 3}
            if op in ("npoint", "intn", "funin"):
                yield "mutate", dict(op=op, kind=k, length=25, n=13, sym=1,
                                     per_cell=True, free=1), {"weight": 3}
    for bits in ((-1, 1), (0, 2), (2, 5), [(0, 1), (-3, 5)],
                 [(4, 6), (0, 1)]):
        for op in ("flip", "nflip", "npoint"):
            for n in (1, 2) if op != "flip" else (1,):
                yield "mutate", dict(op=op, kind="bit", length=2, n=n,
                                     bits=bits)
    for kind in ("int", "float"):
        for arity in (1, 2):
            for attempts, ok in ((1, 0), (1, 1), (2, 1), (3, 2), (3, 3)):
                yield "refused", dict(kind=kind, length=2, arity=arity,
                                      attempts=attempts, ok_from=ok)
    yield "refused", dict(kind="int", length=3, arity=1, attempts=2,
                          ok_from=2, n=2)
    yield "custom", dict(length=3, n=1)
    yield "custom", dict(length=3, n=2)
    yield "cells", dict(length=3)
    if tier == "thorough":
        yield "cells", dict(length=5)
        for op, (kind, _) in OPS.items():
            for k in (("int", "float", "bit") if kind == "any" else (kind,)):
                yield "mutate", dict(op=op, kind=k, length=4, n=2, sym=4,
                                     per_cell=True, times=2), {"budget": 600}
                yield "mutate", dict(op=op, kind=k, length=3, n=2, arity=3,
                                     per_cell=True), {"budget": 600}
                if op != "int1":
                    yield "mutate", dict(op=op, kind=k, length=80, n=1, sym=2,
                                         per_cell=True, free=1)
