"""C08: the protocol every genetic operator follows."""
from props.common import *
from eckity.genetic_operators import (
    SubtreeCrossover, SubtreeMutation, VectorKPointsCrossover)
from eckity.genetic_operators.mutations.erc_mutation import ERCMutation
from eckity.genetic_operators.mutations.vector_n_point_mutation import \
    VectorNPointMutation
from eckity.genetic_operators.mutations.vector_random_mutation import (
    BitStringVectorFlipMutation, BitStringVectorNFlipMutation,
    FloatVectorGaussNPointMutation, FloatVectorGaussOnePointMutation,
    FloatVectorUniformNPointMutation, FloatVectorUniformOnePointMutation,
    IntVectorNPointMutation, IntVectorOnePointMutation)
from eckity.genetic_operators.failable_operator import FailableOperator

BOUNDS = ("every operator of the library and user-defined ones of arity 1-3 "
          "on vectors of 2 cells / trees of 1-3 nodes; probability any real "
          "in [0,1] and exactly 0 and 1; all draws; individuals with and "
          "without score and parent tracking; 1-3 successive applications")
OUTSIDE = "operators overriding apply_operator; larger genomes"


class User(GeneticOperator):
    def __init__(self, probability=1.0, arity=2, events=None, fresh=False):
        super().__init__(probability=probability, arity=arity, events=events)
        self.fresh = fresh  # False, True, "some" or "swap"

    def apply(self, individuals):
        self.seen = [i.fitness.is_fitness_evaluated() for i in individuals]
        self.applied_individuals = individuals
        if self.fresh == "some":
            return [individuals[0]] + [i.clone() for i in individuals[1:]]
        if self.fresh == "swap":
            return individuals[::-1]
        if self.fresh:
            return [i.clone() for i in individuals]
        return individuals


class Fails(FailableOperator):
    """Always fails."""

    def attempt_operator(self, payload, attempt_num):
        return False, payload


TAB = {
    "kpoint": ("int", 2, lambda p: VectorKPointsCrossover(probability=p)),
    "npoint": ("int", 1, lambda p: VectorNPointMutation(probability=p)),
    "npoint_a2": ("int", 2, lambda p: VectorNPointMutation(probability=p,
                                                           arity=2)),
    "int1": ("int", 1, lambda p: IntVectorOnePointMutation(probability=p)),
    "intn": ("int", 1, lambda p: IntVectorNPointMutation(probability=p)),
    "flip": ("bit", 1, lambda p: BitStringVectorFlipMutation(probability=p)),
    "nflip": ("bit", 1, lambda p: BitStringVectorNFlipMutation(
        probability=p)),
    "funi": ("float", 1, lambda p: FloatVectorUniformOnePointMutation(
        probability=p)),
    "funin": ("float", 1, lambda p: FloatVectorUniformNPointMutation(
        probability=p)),
    "gauss1": ("float", 1, lambda p: FloatVectorGaussOnePointMutation(
        probability=p, attempts=1)),
    "gaussn": ("float", 1, lambda p: FloatVectorGaussNPointMutation(
        n=1, probability=p, attempts=1)),
    "sxo": ("tree", 2, lambda p: SubtreeCrossover(probability=p)),
    "smut": ("tree", 1, lambda p: SubtreeMutation(probability=p,
                                                  init_depth=(0, 1))),
    "erc": ("tree", 1, lambda p: ERCMutation(probability=p)),
    "int1_a2": ("int", 2, lambda p: IntVectorOnePointMutation(
        probability=p, arity=2)),
    "intn_a3": ("int", 3, lambda p: IntVectorNPointMutation(
        probability=p, arity=3)),
    "flip_a2": ("bit", 2, lambda p: BitStringVectorFlipMutation(
        probability=p, arity=2)),
    "nflip_a2": ("bit", 2, lambda p: BitStringVectorNFlipMutation(
        probability=p, arity=2)),
    "funi_a2": ("float", 2, lambda p: FloatVectorUniformOnePointMutation(
        probability=p, arity=2)),
    "funin_a3": ("float", 3, lambda p: FloatVectorUniformNPointMutation(
        probability=p, arity=3)),
    "gauss1_a2": ("float", 2, lambda p: FloatVectorGaussOnePointMutation(
        probability=p, attempts=1, arity=2)),
    "gaussn_a2": ("float", 2, lambda p: FloatVectorGaussNPointMutation(
        n=1, probability=p, attempts=1, arity=2)),
    "sxo_a3": ("tree", 3, lambda p: SubtreeCrossover(probability=p,
                                                     arity=3)),
    "smut_a2": ("tree", 2, lambda p: SubtreeMutation(
        probability=p, init_depth=(0, 1), arity=2)),
    "erc_a2": ("tree", 2, lambda p: ERCMutation(probability=p, arity=2)),
    "user1": ("int", 1, lambda p: User(probability=p, arity=1)),
    "user2": ("int", 2, lambda p: User(probability=p, arity=2)),
    "user3": ("int", 3, lambda p: User(probability=p, arity=3)),
    "fresh2": ("int", 2, lambda p: User(probability=p, arity=2, fresh=True)),
    "some3": ("int", 3, lambda p: User(probability=p, arity=3, fresh="some")),
    "swap2": ("int", 2, lambda p: User(probability=p, arity=2, fresh="swap")),
    "fails": ("int", 1, lambda p: Fails(probability=p, arity=1, attempts=3)),
}
NOT_IN_PLACE = ("fresh2", "some3", "swap2")


def make(ctx, kind, i, scored, up):
    s = ctx.real("s") if scored else None
    if kind == "tree":
        nodes = [[FunctionNode(u_inc), TerminalNode(3)],
                 [FunctionNode(u_inc), FunctionNode(u_inc),
                  TerminalNode("y")], [TerminalNode(4)]][i % 3]
        return tree_ind(nodes, functions=(u_inc,), terminals=("x", "y", 3),
                        fit=GPFitness(s, bloat_weight=0), update_parents=up)
    v, b = {"int": ([10 + i, 20 + i], (0, 1000)), "bit": ([0, 1], (0, 1)),
            "float": ([0.25, 0.5], (0.0, 1.0))}[kind]
    return vec(kind, v, s, bounds=b, update_parents=up)


def state(i):
    return (genome(i), list(i.applied_operators), list(getattr(
        i, "parents", [])), i.id, i.cloned_from, i.gen)


def protocol(ctx, op, prob, scored=True, up=False, times=1):
    kind, arity, mk = TAB[op]
    p = ctx.real("p", 0, 1) if prob == "sym" else prob
    oper = mk(p)
    ctx.check(oper.get_operator_arity() == arity, "arity")
    ups = up if isinstance(up, tuple) else (up,) * arity
    inds = [make(ctx, kind, i, scored, ups[i % len(ups)])
            for i in range(arity)]
    for t in range(times):
        before = [state(i) for i in inds]
        fits = [i.fitness.get_pure_fitness() if
                i.fitness.is_fitness_evaluated() else None for i in inds]
        given = list(inds)
        start = len(ctx.rng_log)
        if arity == 3 or t:
            res = oper.act(given)
        else:
            res = oper.apply_operator(given)
        ctx.check(len(res) == arity, "as many individuals come back")
        known = {id(i): b for i, b in zip(inds, before)}
        # what the returned ones had before (nothing, if they are new)
        had = [known.get(id(i), (None, [], [])) for i in res]
        names = [i.applied_operators[len(b[1]):] for i, b in zip(res, had)]
        applied = [bool(n) for n in names]
        ctx.check(len(set(applied)) == 1, "all operands or none")
        applied = applied[0]
        if prob == 0:
            ctx.check(not applied, "probability 0: never applied")
        if prob == 1:
            ctx.check(applied, "probability 1: always applied")
        draws = ctx.rng_log[start:]
        if draws and draws[0][0] == "random" and prob == "sym":
            u = draws[0][1]
            ctx.check(implies(u < p, applied), "applied when the draw is "
                      "below the probability")
            ctx.check(implies(u > p, not applied), "not applied when the "
                      "draw is above the probability")
        if prob == "sym":
            ctx.check(bool(draws), "the decision is random")
        if not applied:
            ctx.check(all(a is b for a, b in zip(res, inds)),
                      "skipped: same individuals")
            for i, b, f in zip(inds, before, fits):
                ctx.check(state(i)[1:] == b[1:] and eq(state(i)[0], b[0]),
                          "skipped: nothing changes")
                ctx.check(i.fitness.is_fitness_evaluated() == (f is not None),
                          "skipped: the score stays")
                if f is not None:
                    ctx.check(eq(i.get_pure_fitness(), f),
                              "skipped: the score stays")
            continue
        if op not in NOT_IN_PLACE:
            ctx.check(all(a is b for a, b in zip(res, inds)),
                      "applied in place")
        if op.startswith("user"):
            ctx.check(not any(oper.seen), "scores are void before apply runs")
        for i in inds:
            ctx.check(not i.fitness.is_fitness_evaluated(),
                      "applied: the old score is void")
        for r, n in zip(res, names):
            ctx.check(type(oper).__name__ in n, "the operator is recorded")
            if not op.startswith("gauss"):
                ctx.check(len(n) == 1, "recorded once")
        ids = [b[3] for b in before]
        for r, b in zip(res, had):
            if not r.update_parents:
                ctx.check(list(getattr(r, "parents", [])) == b[2],
                          "parents are kept only when asked for")
            elif op.startswith("gauss"):
                ctx.check(set(r.parents[len(b[2]):]) == set(ids), "parents")
            else:
                ctx.check(r.parents == b[2] + ids,
                          "parents are the ids of all operands")
        if op not in NOT_IN_PLACE:
            ctx.check([i.id for i in res] == [b[3] for b in before],
                      "ids do not change")
        if t + 1 < times:
            for i in inds:
                i.fitness.set_fitness(ctx.real("s"))
            if op in NOT_IN_PLACE:
                break


def wrong_arity(ctx, op, n):
    kind, arity, mk = TAB[op]
    inds = [make(ctx, kind, i, True, False) for i in range(n)]
    before = [state(i) for i in inds]
    oper = mk(1.0)
    if n == arity:
        return
    ctx.check(raises(ValueError, lambda: oper.act(inds)),
              "wrong number of operands is refused")
    if arity > 1 and n == 1:
        ctx.check(raises(ValueError, lambda: oper.act(inds[0])),
                  "one individual is not enough, in a list or not")
    ctx.check([state(i) for i in inds] == before and all(
        i.fitness.is_fitness_evaluated() for i in inds), "nothing changes")


def jobs(tier):
    for op in TAB:
        for p in ("sym", 0, 1):
            for up in (False, True):
                yield "protocol", dict(op=op, prob=p, up=up)
        if TAB[op][1] > 1:
            for up in ((False, True), (True, False)):
                yield "protocol", dict(op=op, prob=1, up=up)
        yield "protocol", dict(op=op, prob="sym", scored=False)
        if tier == "thorough" or op not in (
                "smut_a2", "gauss1_a2", "gaussn_a2"):
            yield "protocol", dict(op=op, prob=1, up=True, times=2), {
                "weight": 4}
        for n in (1, 2, 3, 4):
            yield "wrong_arity", dict(op=op, n=n)
    if tier == "thorough":
        for op in TAB:
            if op in ("smut_a2", "gauss1_a2", "gaussn_a2", "int1_a2",
                      "nflip_a2"):
                continue
            yield "protocol", dict(op=op, prob="sym", up=True, times=3), {
                "weight": 20, "budget": 600}
