"""C26: operators that can fail: attempts, success and failure handling."""
from props.common import *
from eckity.genetic_operators import (
    FailableOperator, FloatVectorGaussNPointMutation,
    FloatVectorGaussOnePointMutation, SubtreeCrossover,
    VectorNPointMutation)

BOUNDS = ("1-6 attempts with every sequence of outcomes, arity 1-2, 1-3 "
          "applications of the same operator, default and own failure "
          "handling; up to 100 attempts with the success at an arbitrary "
          "one; results of any kind; vector mutations with any verdict of the "
          "success checker")
OUTSIDE = "attempts that raise"


class Op(FailableOperator):
    def __init__(self, ctx, attempts, arity, own, verdict=None, **kw):
        super().__init__(probability=1.0, arity=arity, attempts=attempts,
                         **kw)
        self.ctx, self.own = ctx, own
        self.tries, self.fails = [], []
        self.verdict = verdict or (lambda i: ctx.bool("ok"))

    def attempt_operator(self, payload, attempt_num):
        ok = self.verdict(attempt_num)
        res = [i.clone() for i in payload] if self.own in (True, False) \
            else list(self.own)
        self.tries.append((attempt_num, ok, payload, res))
        return ok, res

    def on_fail(self, payload):
        self.fails.append(payload)
        if self.own is False:
            return super().on_fail(payload)
        self.handed = [i.clone() for i in payload] if self.own is True \
            else list(self.own)
        return self.handed


def attempts(ctx, k, arity=1, own=False, times=1):
    op = Op(ctx, k, arity, own)
    for _ in range(times):
        op.tries, op.fails = [], []
        inds = [vec("int", [i], ctx.real("s")) for i in range(arity)]
        out = op.apply_operator(inds)
        t = op.tries
        ctx.check(1 <= len(t) <= k, "at most k attempts")
        ctx.check([x[0] for x in t] == list(range(len(t))),
                  "attempts are numbered")
        ctx.check(all(x[2] is inds for x in t),
                  "every attempt gets the individuals")
        for x in t[:-1]:
            ctx.check(lnot(x[1]), "goes on only after a failure")
        won = t[-1][1]
        if len(t) < k:
            ctx.check(won, "gives up only after k failures")
        if bool(won):
            ctx.check(op.fails == [], "no failure handling after success")
            ctx.check(out is t[-1][3], "the result of the attempt")
        else:
            ctx.check(len(op.fails) == 1 and op.fails[0] is inds,
                      "failure handled once")
            if own is False:
                ctx.check(len(out) == arity and
                          all(a is b for a, b in zip(out, inds)),
                          "by default the individuals come back")
            else:
                ctx.check(out is op.handed, "the result of on_fail")
        for i in out:
            ctx.check(i.applied_operators[-1:] == ["Op"] and
                      i.applied_operators.count("Op") == 1,
                      "operator recorded")


def many(ctx, k):
    at = ctx.int("at", 0, k)
    op = Op(ctx, k, 1, False, verdict=lambda i: at == i)
    inds = [vec("int", [1], ctx.real("s"))]
    op.apply_operator(inds)
    ctx.check(len(op.tries) == ite(at < k, at + 1, k),
              "stops at the first success")
    ctx.check(len(op.fails) == ite(at < k, 0, 1), "failure handled")


def refused(ctx):
    for bad in (0, -1, -7):
        ctx.check(raises(ValueError, lambda: Op(ctx, bad, 1, False)),
                  "at least one attempt")
    ctx.check(Op(ctx, 1, 1, False).attempts == 1, "one attempt is fine")
    n = ctx.int("n", -5, 5)
    ctx.check(iff(raises(ValueError, lambda: Op(ctx, n, 1, False)), n < 1),
              "at least one attempt")


def mutation(ctx, k, arity, length=2, n=1):
    """A checker with arbitrary verdicts: after success exactly the last
    attempt shows, after failure nothing."""
    olds, verdicts, news = [], [], []

    def checker(old, new):
        v = ctx.bool("ok")
        verdicts.append(v)
        olds.append(list(old.vector))
        return v

    def getter(ind, idx):
        v = ctx.int("m", 0, 99)
        news.append(v)
        return v
    op = VectorNPointMutation(n=n, arity=arity, success_checker=checker,
                              mut_val_getter=getter, attempts=k)
    inds = [vec("int", [ctx.int("c", 0, 99) for _ in range(length)],
                ctx.real("s"), bounds=(0, 99)) for _ in range(arity)]
    before = [list(i.vector) for i in inds]
    out = op.apply_operator(inds)
    ctx.check(len(out) == arity and all(a is b for a, b in zip(out, inds)),
              "works in place")
    for i, o in enumerate(olds):
        # the first individual of every attempt is the original one
        ctx.check(lor(*[eq(o, b) for b in before]),
                  "every attempt starts from the original")
    ctx.check(count([lnot(v) for v in verdicts]) <= k, "at most k failures")
    last = verdicts[-arity:]
    success = land(len(verdicts) >= arity, *last)
    unchanged = land(*[eq(list(i.vector), b)
                       for i, b in zip(inds, before)])
    ctx.check(lor(success, unchanged), "a failure leaves no trace")
    for i, b in zip(inds, before):
        ctx.check(count([x != y for x, y in zip(i.vector, b)]) <= n,
                  "at most n cells differ")
    if bool(success):
        used = news[-n * arity:]
        for i, b in zip(inds, before):
            for x, y in zip(i.vector, b):
                ctx.check(lor(x == y, *[x == u for u in used]),
                          "only the last attempt shows")


def gauss(ctx, k, n, length, one=False):
    """Gauss mutation: in-bounds draws are kept; when every attempt is out
    of bounds the fallback is, and the rest is untouched."""
    ind = vec("float", [ctx.real("c", 0, 1) for _ in range(length)],
              ctx.real("s"), bounds=(0.0, 1.0))
    before = list(ind.vector)
    op = FloatVectorGaussOnePointMutation(probability=1.0, attempts=k) \
        if one else FloatVectorGaussNPointMutation(n=n, probability=1.0,
                                                   attempts=k)
    op.apply_operator([ind])
    gs = [v for w, v in ctx.rng_log if isinstance(w, tuple) and
          w[0] == "gauss"]
    us = [v for w, v in ctx.rng_log if isinstance(w, tuple) and
          w[0] == "uniform"]
    # fresh values may as well come from a unit draw (bounds are 0 and 1)
    units = [] if us else [v for w, v in ctx.rng_log if w == "random"]
    n = 1 if one else n
    for x in ind.vector:
        ctx.check(between(0, x, 1), "stays within the bounds")
    ctx.check(count([x != y for x, y in zip(ind.vector, before)]) <= n,
              "at most n cells differ")
    for x, y in zip(ind.vector, before):
        ctx.check(lor(x == y, *[x == y + v for v in gs], *[
            x == v for v in us + units]),
                  "a cell gets noise or, as a fallback, a fresh value")
    if len(us) >= n:
        # a fallback: n cells get a fresh value
        ctx.check(count([lor(*[x == v for v in us]) for x in ind.vector])
                  >= n, "the fallback gives n cells a fresh value")
    elif len(us):
        ctx.check(False, "the fallback draws a value for n cells")
    if length == 1 and len(gs) <= k:
        ok = [between(0, before[0] + v, 1) for v in gs]
        for o in ok[:-1]:
            ctx.check(lnot(o), "tries again only after a bad draw")
        if len(gs) < k:
            ctx.check(ok[-1], "gives up only after k attempts")
        ctx.check(implies(ok[-1], ind.vector[0] == before[0] + gs[-1]),
                  "the good draw is kept")
        ctx.check(implies(ok[-1], not us), "no fallback after success")


def jobs(tier):
    T = tier == "thorough"
    for k in (1, 2, 3, 4, 5, 6):
        for own in (False, True):
            yield "attempts", dict(k=k, own=own)
            yield "attempts", dict(k=k, own=own, arity=2)
        yield "attempts", dict(k=k, own=(), arity=2)  # nobody comes back
    yield "attempts", dict(k=2, times=3)
    yield "attempts", dict(k=3, times=2, own=True)
    yield "many", dict(k=30)
    yield "many", dict(k=100)
    yield "refused", {}
    for k in (1, 2, 3):
        yield "mutation", dict(k=k, arity=1)
        yield "mutation", dict(k=k, arity=2), {"weight": 5}
        yield "gauss", dict(k=k, n=1, length=2, one=True)
        yield "gauss", dict(k=k, n=1, length=2)
        yield "gauss", dict(k=k, n=1, length=1)
        yield "gauss", dict(k=k, n=1, length=1, one=True)
        yield "gauss", dict(k=k, n=2, length=2), {"weight": 5}
    yield "mutation", dict(k=2, arity=1, length=3, n=2)
    yield "mutation", dict(k=2, arity=3, length=1)
    if T:
        yield "attempts", dict(k=12)
        yield "attempts", dict(k=4, times=3)
        yield "mutation", dict(k=4, arity=2), {"weight": 50, "budget": 900}
        yield "mutation", dict(k=3, arity=2, length=3, n=2), {
            "weight": 50, "budget": 900}
        yield "gauss", dict(k=4, n=2, length=3), {"weight": 50,
                                                  "budget": 900}
        yield "gauss", dict(k=5, n=1, length=4, one=True)
