"""C30: random steps can produce every outcome they allow."""
from itertools import combinations, product

from props.common import *
from props.c10 import OPS, bound
from props.c13 import mk, is_, values
from props.c29 import ends
from eckity.creators import (
    FullCreator, GABitStringVectorCreator, GAFloatVectorCreator,
    GAIntVectorCreator, GrowCreator)
from eckity.genetic_operators import (
    FitnessProportionateSelection, SubtreeCrossover, SubtreeMutation,
    TournamentSelection)
from eckity.genetic_operators.mutations.erc_mutation import ERCMutation

BOUNDS = ("vectors of 1-4 cells with common and per-cell bounds: every "
          "integer of ranges of 1-6 values, every eighth of real ranges; "
          "every set of 1-3 cells; trees of depth 0-3 over 1-3 functions and "
          "1-3 terminals, every eighth of real and every value of integer "
          "constant ranges; every pair of exchangeable subtrees of trees of "
          "1-7 nodes; tournaments of 1-4 among 1-4 individuals; 1-6 "
          "creators; probabilities strictly between 0 and 1")
OUTSIDE = ("how often an outcome comes up; outcomes within an eighth of a "
           "real range; joint outcomes of several random steps")

F, T = FunctionNode, TerminalNode


def eighths(lo, hi):
    w = (hi - lo) / 8
    return [(lo + w * k, lo + w * (k + 1)) for k in range(8)]


def goals(kind, b, n):
    """Outcomes of each cell."""
    out = []
    for i in range(n):
        lo, hi = bound(b, i)
        out += [f"{i}={v}" for v in (
            range(8) if kind == "float" else range(lo, hi + 1))]
    return out


def show(ctx, kind, b, v):
    for i, x in enumerate(v):
        lo, hi = bound(b, i)
        if kind == "float":
            for k, (p, q) in enumerate(eighths(lo, hi)):
                ctx.cover(f"{i}={k}", land(p < x, x < q))
        else:
            for k in range(lo, hi + 1):
                ctx.cover(f"{i}={k}", x == k)


def created(ctx, kind, b, n=2, which=0, pop=1):
    """Every cell of a created vector can have every value."""
    cls = {"int": GAIntVectorCreator, "float": GAFloatVectorCreator,
           "bit": GABitStringVectorCreator}[kind]
    ctx.require(goals(kind, b, n))
    inds = cls(length=n, bounds=b).create_individuals(pop, False)
    show(ctx, kind, b, inds[which].vector)


REDRAW = ("npoint", "intn", "int1", "funi", "funin")


def mutated(ctx, op, kind, b, n, k=1, arity=1, which=0, times=1):
    """Every cell can be the mutated one and become any value."""
    ctx.require(goals(kind, b, n))
    for i in range(times):
        inds = [VEC[kind](SimpleFitness(), length=n, bounds=b, vector=[
            bound(b, i)[0] for i in range(n)]) for _ in range(arity)]
        oper = OPS[op][1](k, arity)
        oper.apply_operator(inds)
    v = inds[which].vector
    show(ctx, kind, b, v)


def cells(ctx, op, kind, n, k):
    """Every set of k cells can be the mutated one."""
    b = (0, 1) if kind == "bit" else (0, 9) if kind == "int" else (0.0, 9.0)
    sets = list(combinations(range(n), k))
    ctx.require(str(s) for s in sets)
    ind = VEC[kind](SimpleFitness(), length=n, bounds=b, vector=[
        b[0]] * n)
    OPS[op][1](k, 1).apply_operator([ind])
    v = ind.vector
    for s in sets:
        ctx.cover(str(s), land(*[lnot(v[i] == b[0]) if i in s else
                                 v[i] == b[0] for i in range(n)]))


def nudged(ctx, op, n, k=1):
    """Gaussian mutations can move every cell up and down, near and far."""
    ctx.require(f"{i}{s}" for i in range(n) for s in (
        "up", "down", "high", "low"))
    ind = FloatVector(SimpleFitness(), length=n, bounds=(-8.0, 8.0),
                      vector=[0.0] * n)
    OPS[op][1](k, 1, attempts=1).apply_operator([ind])
    for i, x in enumerate(ind.vector):
        ctx.cover(f"{i}up", land(0 < x, x < 1))
        ctx.cover(f"{i}down", land(-1 < x, x < 0))
        ctx.cover(f"{i}high", x > 7)
        ctx.cover(f"{i}low", x < -7)


# ------------------------------------------------------------------ trees
def sets(name):
    return {"one": ((u_inc,), ("x",)), "two": ((u_inc, u_add), ("x", "y")),
            "three": ((u_if3, u_add, u_mul), ("x", "y", 1)),
            "one_many": ((u_add,), ("x", "y", "z")),
            "typed": ((t_fadd, t_ite, t_flt), {
                "x": float, "y": float, "b": bool})}[name]


def names(nodes):
    return [n.function.__name__ if isinstance(n, FunctionNode) else n.value
            for n in nodes]


def grown(ctx, method, s, depth, erc=None, free=None):
    """Every function, terminal and depth can occur in a created tree."""
    if free is not None:
        ctx.flags["idx_free"] = free
    fs, ts = sets(s)
    typed = isinstance(ts, dict)
    kw = dict(init_depth=depth, function_set=list(fs), terminal_set=dict(
        ts) if typed else list(ts), root_type=float if typed else None,
        erc_range=erc)
    cr = {"full": FullCreator, "grow": GrowCreator}[method](**kw)
    lo, hi = depth
    want = set()
    if hi:
        want |= {f"root {f.__name__}" for f in fs
                 if not typed or f is not t_flt}
    if hi > 1:
        want |= {f"inner {f.__name__}" for f in fs
                 if typed or hi > 1}
    want |= {f"leaf {t}" for t in ts if hi or not typed or ts[t] is float}
    want |= {f"depth {d}" for d in (range(lo, hi + 1) if method == "grow"
                                    else [hi])}
    if method == "grow" and lo == 0 and not typed:
        want |= {f"root {t}" for t in ts}
    if erc:
        want |= {f"const {k}" for k in (
            range(8) if isinstance(erc[0], float) else
            range(erc[0], erc[1] + 1))}
    ctx.require(want)
    t, = cr.create_individuals(1, False)
    nodes = t.tree
    for i, n in enumerate(nodes):
        if isinstance(n, FunctionNode):
            ctx.cover(f"{'inner' if i else 'root'} {n.function.__name__}")
            continue
        v = n.value
        if not isinstance(v, str) and erc:
            if isinstance(erc[0], float):
                for k, (p, q) in enumerate(eighths(*erc)):
                    ctx.cover(f"const {k}", land(p < v, v < q))
            else:
                for k in range(erc[0], erc[1] + 1):
                    ctx.cover(f"const {k}", eq(v, k))
            if not any(not isinstance(x, str) for x in ts):
                continue
        for x in ts:
            if isinstance(x, str) != isinstance(v, str):
                continue
            ctx.cover(f"leaf {x}", eq(v, x))
            if not i:
                ctx.cover(f"root {x}", eq(v, x))
    ctx.cover(f"depth {max(leaf_depths(nodes))}")


def nodes_drawn(ctx, s, what, ty=None):
    """random_function and random_terminal can give each of their choices."""
    fs, ts = sets(s)
    t = Tree(fitness=GPFitness(), function_set=list(fs),
             terminal_set=dict(ts) if isinstance(ts, dict) else list(ts),
             root_type=float if isinstance(ts, dict) else None)
    ask = {None: None, "float": float, "bool": bool}[ty]
    from typing import get_type_hints
    if what == "f":
        ctx.require(f.__name__ for f in fs
                    if get_type_hints(f).get("return") is ask)
        ctx.cover(t.random_function(ask).function.__name__)
    else:
        dt = ts if isinstance(ts, dict) else dict.fromkeys(ts)
        ctx.require(str(x) for x in dt if dt[x] is ask)
        ctx.cover(str(t.random_terminal(ask).value))


def exchanged(ctx, a, b):
    """Every pair of subtrees of one type can be exchanged."""
    inds = [mk(ctx, a), mk(ctx, b)]
    old = [list(i.tree) for i in inds]
    e = [ends(o) for o in old]
    typed = old[0][0].node_type is not None

    def whole(k, i):
        # not told apart from the root, or from an earlier node
        return typed and old[k][i] == old[k][0] or any(
            old[k][i] == x for x in old[k][:i])

    def result(i, j):
        return (old[0][:i] + old[1][j:e[1][j]] + old[0][e[0][i]:],
                old[1][:j] + old[0][i:e[0][i]] + old[1][e[1][j]:])

    def plain(nodes):
        return [str(x) if callable(x) or isinstance(x, (str, bool)) else "c"
                for x in names(nodes)]
    out = {}
    for i, j in product(range(len(old[0])), range(len(old[1]))):
        if old[0][i].node_type is old[1][j].node_type and not whole(0, i) \
                and not whole(1, j):
            out[f"{i}-{j}"] = tuple(map(plain, result(i, j)))
    ctx.require({str(v) for v in out.values()})
    SubtreeCrossover().apply_operator(inds)
    ctx.cover(str(tuple(plain(i.tree) for i in inds)))


def replaced(ctx, a):
    """Every subtree can be the one that is replaced."""
    t = mk(ctx, a)
    old = list(t.tree)
    typed = old[0].node_type is not None
    at = [i for i, n in enumerate(old) if not any(
        n == o for o in old[:i]) and not (typed and n == old[0])]
    ctx.require(str(i) for i in at)
    ctx.flags["idx_free"] = 2
    SubtreeMutation(init_depth=(0, 1) if not typed else (1, 1)
                    ).apply_operator([t])
    new = list(t.tree)
    e = ends(old)
    for i in at:
        tail = old[e[i]:]
        gone = all(n is not x for n in old[i:e[i]] for x in new)
        if gone and is_(new[:i], old[:i]) and is_(
                new[len(new) - len(tail):], tail):
            ctx.cover(str(i))


def constants(ctx, n):
    """Every constant of a tree can be changed, up and down."""
    ctx.require(f"{i}{s}" for i in range(n) for s in ("up", "down"))
    nodes = []
    for i in range(n):
        if i < n - 1:
            nodes.append(F(u_add))
        nodes.append(T(10.0 * i))
    t = tree_ind(nodes, terminals=("x", 3))
    ERCMutation().apply_operator([t])
    c = [x.value for x in t.tree if isinstance(x, TerminalNode)]
    for i, v in enumerate(c):
        ctx.cover(f"{i}up", v > 10.0 * i)
        ctx.cover(f"{i}down", v < 10.0 * i)


# -------------------------------------------------------------- selections
def tournament(ctx, n, k, replace, higher, dest=0):
    """Everybody who can win a tournament can be selected."""
    ctx.require(f"{i}@{d}" for i in range(n if replace else n - k + 1)
                for d in range(n - dest))
    # the i-th best
    src = [vec("int", [i], float(-i if higher else i), higher=higher)
           for i in range(n)]
    out = [src[0].clone() for _ in range(dest)]
    TournamentSelection(k, replace=replace, higher_is_better=higher).select(
        src, out)
    for d, i in enumerate(out[dest:]):
        ctx.cover(f"{i.vector[0]}@{d}")


def proportionate(ctx, scores, higher):
    """Everybody of positive probability can be selected."""
    n = len(scores)
    ctx.require(str(i) for i in range(n) if not higher or scores[i] > 0)
    src = [vec("int", [i], s, higher=higher) for i, s in enumerate(scores)]
    out = []
    FitnessProportionateSelection(higher_is_better=higher).select(src, out)
    for i in out[:2] + out[-1:]:
        ctx.cover(str(i.vector[0]))


class Mark(GeneticOperator):
    def apply(self, individuals):
        self.applied = True
        return individuals


def gate(ctx, p=None):
    """An operator may be applied and may be left out."""
    if p is None:
        p = ctx.real("p", 0, 1)
        ctx.assume(land(p > 0.01, p < 0.99))
    ctx.require(("yes", "no"))
    op = Mark(probability=p, arity=1)
    op.applied = False
    op.apply_operator([vec("int", [0])])
    ctx.cover("yes" if op.applied else "no")


def creators(ctx, m, pcr=None):
    """Every creator of positive probability can be the one."""
    made = []

    class C(Creator):
        def __init__(self, tag):
            super().__init__()
            self.tag = tag

        def create_individuals(self, n_individuals, higher_is_better):
            made.append(self.tag)
            return [vec("int", [self.tag]) for _ in range(n_individuals)]
    ctx.require(str(i) for i in range(m) if pcr is None or pcr[i] > 0)
    s = Subpopulation(evaluator=Scores(lambda i, k: 0.0),
                      creators=[C(i) for i in range(m)], pcr=pcr and list(
                          pcr), operators_sequence=[Retag([0])],
                      population_size=2)
    s.create_subpopulation_individuals()
    ctx.cover(str(made[0]))


def jobs(tier):
    TH = tier == "thorough"
    IB = ((0, 1), (-2, 3), [(0, 2), (5, 6)], [(-3, -3), (0, 5)])
    FB = ((0.0, 1.0), (-4.0, 4.0), [(0.0, 8.0), (-1.0, -0.5)])
    BB = ((0, 1), [(0, 1), (0, 1)])
    for kind, bs in (("int", IB), ("float", FB), ("bit", BB)):
        for b in bs:
            yield "created", dict(kind=kind, b=b)
            yield "created", dict(kind=kind, b=b, pop=2, which=1)
            for op, (k, _) in OPS.items():
                if op in REDRAW and k in ("any", kind):
                    yield "mutated", dict(op=op, kind=kind, b=b, n=2)
                    if op in ("npoint", "intn", "funin"):
                        yield "mutated", dict(op=op, kind=kind, b=b, n=2,
                                              k=2)
                    yield "mutated", dict(op=op, kind=kind, b=b, n=2,
                                          arity=2, which=1)
    for n in (1, 2, 3, 4):
        for k in range(1, min(n, 3) + 1):
            for op, kind in (("npoint", "int"), ("intn", "int"),
                             ("npoint", "float"), ("funin", "float"),
                             ("npoint", "bit"), ("nflip", "bit")):
                yield "cells", dict(op=op, kind=kind, n=n, k=k), {
                    "weight": n}
        yield "cells", dict(op="funi", kind="float", n=n, k=1)
        yield "cells", dict(op="flip", kind="bit", n=n, k=1)
        yield "cells", dict(op="int1", kind="int", n=n, k=1)
        yield "nudged", dict(op="gauss1", n=n)
        yield "nudged", dict(op="gaussn", n=n)
    yield "nudged", dict(op="gaussn", n=2, k=2)
    for s in ("one", "two", "three", "one_many", "typed"):
        yield "nodes_drawn", dict(s=s, what="f", ty="float" if s == "typed"
                                  else None)
        yield "nodes_drawn", dict(s=s, what="t", ty="float" if s == "typed"
                                  else None)
        for d in ((0, 1), (1, 1)):
            yield "grown", dict(method="full", s=s, depth=d)
            yield "grown", dict(method="grow", s=s, depth=d)
        yield "grown", dict(method="full", s=s, depth=(1, 2), free=4)
    for s in ("one", "two", "one_many"):
        yield "grown", dict(method="grow", s=s, depth=(0, 2)), {"weight": 5}
        yield "grown", dict(method="grow", s=s, depth=(1, 2)), {"weight": 5}
    yield "grown", dict(method="grow", s="one", depth=(1, 3))
    yield "grown", dict(method="grow", s="one", depth=(0, 3))
    yield "nodes_drawn", dict(s="typed", what="f", ty="bool")
    yield "nodes_drawn", dict(s="typed", what="t", ty="bool")
    for erc in ((-2, 3), (-1.0, 1.0), (0, 0)):
        for m in ("full", "grow"):
            yield "grown", dict(method=m, s="two", depth=(1, 1), erc=erc)
    for a, b in (("t3", "t3"), ("t4", "t2"), ("t5", "t3"), ("t6", "t4"),
                 ("t7", "t5"), ("t1", "t6"), ("f3", "f4"), ("f5", "f7"),
                 ("f6", "f6"), ("i3", "f7")):
        yield "exchanged", dict(a=a, b=b)
    yield "exchanged", dict(a="bush21", b="t3")
    yield "exchanged", dict(a="t2", b="bush21")
    yield "replaced", dict(a="bush21")
    for a in ("t2", "t3", "t4", "t5", "t6", "f3", "f4", "f5", "f6"):
        yield "replaced", dict(a=a)
    for n in (1, 2, 3, 4):
        yield "constants", dict(n=n)
        for k in range(1, n + 1):
            for r in (True, False):
                for h in (True, False):
                    if n < 4 or k < 3:
                        yield "tournament", dict(
                            n=n, k=k, replace=r, higher=h,
                            dest=max(0, n - 2)), {"weight": n * k}
    for h in (True, False):
        for sc in ((1.0,), (1.0, 2.0), (3.0, 1.0, 2.0), (5.0, 0.0, 5.0)):
            yield "proportionate", dict(scores=sc, higher=h)
    for n in (12, 25):
        for op, kind in (("funi", "float"), ("flip", "bit"),
                         ("npoint", "int")):
            yield "cells", dict(op=op, kind=kind, n=n, k=1), {"weight": n}
    yield "gate", {}
    for p in (1e-6, 0.004, 0.01, 0.5, 0.99, 0.996, 1 - 1e-6):
        yield "gate", dict(p=p)
    for m in (1, 2, 3, 6):
        yield "creators", dict(m=m)
    for pcr in ((0.5, 0.5), (0.1, 0.0, 0.9), (1.0, 0.0), (0.2, 0.3, 0.5),
                (0.996, 0.004), (1e-6, 1 - 1e-6)):
        yield "creators", dict(m=len(pcr), pcr=pcr)
    if TH:
        for s in ("three", "two"):
            yield "grown", dict(method="grow", s=s, depth=(1, 3), free=5), {
                "budget": 900}
            yield "grown", dict(method="full", s=s, depth=(2, 3), free=6), {
                "budget": 900}
        for n in (4, 5):
            for r in (True, False):
                yield "tournament", dict(n=n, k=3, replace=r, higher=True,
                                         dest=n - 2), {"budget": 900}
        for n, k in ((6, 2), (6, 3), (8, 2)):
            for op, kind in (("npoint", "int"), ("intn", "int"),
                             ("funin", "float"), ("nflip", "bit")):
                yield "cells", dict(op=op, kind=kind, n=n, k=k), {
                    "budget": 900}
