"""C24: scikit-learn evaluators and estimators."""
import math
import numpy as np
from sklearn.exceptions import NotFittedError
from props.common import *
from props.c15 import arr
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.base.typed_functions import argmax2floats, t_argmax
from eckity.sklearn_compatible import (
    ClassificationEvaluator, RegressionEvaluator, SKClassifier, SKRegressor)

BOUNDS = ("1-3 samples of 1-2 features, trees of 1-3 nodes, 2-7 classes "
          "(10-49 for one sample), any "
          "real data and targets; fitting populations of 1-3 trees for 0-2 "
          "generations; up to 40 samples with one arbitrary; "
          "predictions for 1-3 new samples, as many as fitted on included; "
          "evaluators given other data")
OUTSIDE = ("decision boundaries within 1e-6 of a class threshold; the "
           "logistic function and the metrics of scikit-learn are modelled "
           "by their definitions; sparse and pandas input")


def u_softmax(x, y):
    return x + y


def matrix(ctx, n, k, sparse=False):
    rows = []
    at = ctx.choose(n, "at") if sparse else 0
    for i in range(n):
        rows.append([ctx.real("x") if not sparse or i == at else
                     float((i * 7 + j * 3) % 11 - 5) for j in range(k)])
    return arr([v for r in rows for v in r]).reshape(n, k), rows


def trees(k):
    """(tree individual factory, reference function) pairs."""
    term = [f"x{i}" for i in range(k)]

    def leaf(i):
        return lambda: tree_ind([TerminalNode(f"x{i}")], terminals=term,
                                functions=(u_add, u_inc))
    out = [(leaf(i), lambda r, i=i: r[i]) for i in range(k)]
    out.append((lambda: tree_ind([FunctionNode(u_inc), TerminalNode("x0")],
                                 terminals=term, functions=(u_add, u_inc)),
                lambda r: r[0] + 1))
    if k > 1:
        out.append((lambda: tree_ind(
            [FunctionNode(u_add), TerminalNode("x1"), TerminalNode("x0")],
            terminals=term, functions=(u_add, u_inc)),
            lambda r: r[0] + r[1]))
    return out


def clear(ctx, v, classes):
    """Keep away from the thresholds (but for the exact middle)."""
    for i in range(1, classes):
        q = i / classes
        cut = math.log(q / (1 - q))
        ctx.assume(lor(v < cut - 1e-6, v > cut + 1e-6,
                       *[v == 0 for _ in (0,) if 2 * i == classes]))


def label(v, classes):
    t = 0
    for i in range(1, classes):
        q = i / classes
        t = t + ite(v >= math.log(q / (1 - q)), 1, 0)
    return t


def classify(ctx, classes, n, k, which, sparse=False, dflt=False):
    if classes > 7:
        ctx.flags["logistic_cuts"] = [i / classes for i in range(1, classes)]
    X, rows = matrix(ctx, n, k, sparse)
    mk, ref = trees(k)[which]
    t = mk()
    vals = [ref(r) for r in rows]
    for v in vals:
        clear(ctx, v, classes)
        # rounding to exactly one starts in between
        ctx.assume(lor(v < 36.7, v > 36.8))
    ev = ClassificationEvaluator(X, None) if dflt else \
        ClassificationEvaluator(X, None, n_classes=classes)
    out = ev.classify_individual(t)
    ctx.check(np.shape(out) == (n,), "one class per sample")
    for o, v in zip(out, vals):
        ctx.check(eq(o, label(v, classes)), "class i is the i-th part of "
                  "the unit interval")
        ctx.check(between(0, o, classes - 1), "a class")
    # monotone: a larger output never gives a smaller class
    for i in range(n):
        for j in range(n):
            ctx.check(implies(vals[i] <= vals[j], out[i] <= out[j]),
                      "monotone")


def accuracy(ctx, classes, n, k, which, own, context=False):
    """The fitness is the metric of true and predicted classes."""
    X, rows = matrix(ctx, n, k)
    y = arr([ctx.int("y", 0, classes - 1) for _ in range(n)])
    mk, ref = trees(k)[which]
    for r in rows:
        clear(ctx, ref(r), classes)
        ctx.assume(lor(ref(r) < 36.7, ref(r) > 36.8))
    want = [label(ref(r), classes) for r in rows]
    calls = []

    def metric(y_true=None, y_pred=None):
        calls.append((y_true, y_pred))
        return ctx.real("m")
    kw = {"metric": metric} if own else {}
    if context:
        ev = ClassificationEvaluator(n_classes=classes, **kw)
        ev.set_context((X, y))
    else:
        ev = ClassificationEvaluator(X, y, n_classes=classes, **kw)
    got = ev.evaluate_individual(mk())
    if own:
        ctx.check(len(calls) == 1, "the metric is asked once")
        ctx.check(eq(list(calls[0][0]), list(y)), "true classes")
        ctx.check(eq(list(calls[0][1]), want), "predicted classes")
    else:
        ctx.check(close(got, count([eq(a, b) for a, b in
                                    zip(y, want)]) / n),
                  "share of correct classes")


def rooted(ctx, n, method):
    """Trees that end in the classification function."""
    X, rows = matrix(ctx, n, 2)
    fn = argmax2floats if method == "argmax" else u_softmax
    ty = float if method == "argmax" else None
    t = tree_ind([FunctionNode(fn), TerminalNode("x0", ty),
                  TerminalNode("x1", ty)], functions=(fn,),
                 terminals={"x0": ty, "x1": ty} if ty else ["x0", "x1"],
                 **({"root_type": t_argmax} if ty else {}))
    ev = ClassificationEvaluator(X, None, clf_method=method)
    out = ev.classify_individual(t)
    for o, r in zip(out, rows):
        ctx.check(eq(o, ite(r[0] >= r[1], 0, 1) if method == "argmax"
                     else r[0] + r[1]), "the value of the root")
    bad = trees(2)[3][0]()
    ctx.check(raises(ValueError, lambda: ev.classify_individual(bad)),
              "other roots are refused")


def methods(ctx):
    for m in ("sigmoid", "argmax", "softmax"):
        ctx.check(ClassificationEvaluator(clf_method=m).clf_method == m,
                  "known method")
    for m in ("", "max", "Sigmoid", None):
        ctx.check(raises(ValueError, lambda: ClassificationEvaluator(
            clf_method=m)), "unknown method")


def regression(ctx, n, k, which, own, context=False, sparse=False):
    X, rows = matrix(ctx, n, k, sparse)
    ys = [ctx.real("y") for _ in range(n)] if not sparse else \
        [float(i) for i in range(n)]
    y = arr(ys)
    mk, ref = trees(k)[which]
    calls = []

    def metric(a, b):
        calls.append((a, b))
        return ctx.real("m")
    kw = {"metric": metric} if own else {}
    if context:
        ev = RegressionEvaluator(**kw)
        ev.set_context((X, y))
    else:
        ev = RegressionEvaluator(X, y, **kw)
    got = ev.evaluate_individual(mk())
    pred = [ref(r) for r in rows]
    if own:
        ctx.check(len(calls) == 1 and eq(list(calls[0][0]), ys) is not
                  False, "the metric is asked once")
        ctx.check(eq(list(calls[0][0]), ys), "true values first")
        ctx.check(eq(list(calls[0][1]), pred), "predicted values second")
    else:
        t = 0
        for a, b in zip(ys, pred):
            t = t + ite(a >= b, a - b, b - a)
        ctx.check(close(got, t / n), "mean absolute error")


def recontext(ctx, task, n, m, own=False, y_none=False):
    """Scores and classes are those of the data given last."""
    k, classes = 2, 2
    kw = dict(metric=lambda a=None, b=None, y_true=None, y_pred=None:
              calls.append((y_true if a is None else a,
                            y_pred if b is None else b)) or 0.5
              ) if own else {}
    calls = []
    ev = ClassificationEvaluator(n_classes=classes, **kw) if \
        task == "clf" else RegressionEvaluator(**kw)
    ts = trees(k)
    same = ts[0][0]()
    for rnd, size in enumerate((n, m)):
        X, rows = matrix(ctx, size, k)
        if task == "clf":
            y = arr([ctx.int("y", 0, classes - 1) for _ in range(size)])
        else:
            y = arr([ctx.real("y") for _ in range(size)])
        ev.set_context((X, y))
        for t, ref in ((same, ts[0][1]), (ts[3 * rnd][0](), ts[3 * rnd][1]),
                       (same, ts[0][1])):
            if task == "clf":
                for r in rows:
                    clear(ctx, ref(r), classes)
            want = [label(ref(r), classes) if task == "clf" else ref(r)
                    for r in rows]
            got = ev.evaluate_individual(t)
            if own:
                ctx.check(eq(list(calls[-1][0]), list(y)), "present targets")
                ctx.check(eq(list(calls[-1][1]), want),
                          "predictions on the present data")
            elif task == "clf":
                ctx.check(close(got, count([eq(a, b) for a, b in
                                            zip(y, want)]) / size),
                          "accuracy on the present data")
            else:
                e = 0
                for a, b in zip(y, want):
                    e = e + ite(a >= b, a - b, b - a)
                ctx.check(close(got, e / size), "error on the present data")
            if task == "clf":
                ctx.check(eq(list(ev.classify_individual(t)), want),
                          "classes of the present data")
    ctx.check(len(calls) == (6 if own else 0), "the metric is asked each "
              "time")


def fit(ctx, task, n, k, gens, order, classes=2, zs=(2, 2)):
    """fit evolves on the data it is given; predict applies the best tree to
    new data."""
    X, rows = matrix(ctx, n, k)
    new = []
    for q in sorted(set(zs)):
        new += [(q, matrix(ctx, q, k)) for _ in range(
            1 if q == 2 and zs == (2, 2) else zs.count(q))]
    Z, zrows = new[0][1]
    if zs != (2, 2):
        zrows = [r for _, (_, rs) in new for r in rs]
    pool = [trees(k)[i] for i in order]
    higher = task == "clf"
    if task == "clf":
        y = arr([ctx.int("y", 0, classes - 1) for _ in range(n)])
        ev = ClassificationEvaluator(n_classes=classes)
        for _, ref in pool:
            for r in rows + zrows:
                clear(ctx, ref(r), classes)
    else:
        y = arr([ctx.real("y") for _ in range(n)])
        ev = RegressionEvaluator()

    def mk(i, h):
        t = pool[i][0]()
        t.fitness = GPFitness(higher_is_better=h, bloat_weight=0)
        return t
    sub = Subpopulation(evaluator=ev, creators=TagCreator(mk),
                        operators_sequence=[], population_size=len(pool),
                        selection_methods=[(CloneAll(higher), 1)],
                        elitism_rate=0.0, higher_is_better=higher)
    algo = SimpleEvolution(sub, max_generation=gens, random_seed=1)
    model = (SKClassifier if task == "clf" else SKRegressor)(algo)
    ctx.check(raises(NotFittedError, lambda: model.predict(Z)),
              "predict needs fit")
    ctx.check(model.fit(X, y) is model, "fit returns the estimator")
    gs = [genome(p[0]()) for p in pool]
    best = gs.index(genome(algo.best_of_run_))
    score = []
    for _, ref in pool:
        if task == "clf":
            score.append(count([eq(label(ref(r), classes), t)
                                for r, t in zip(rows, y)]))
        else:
            e = 0
            for r, t in zip(rows, y):
                e = e + ite(ref(r) >= t, ref(r) - t, t - ref(r))
            score.append(e)
    for s in score:
        if is_sym(s) or is_sym(score[best]):
            ctx.check(no_worse(score[best], s, higher),
                      "the best on the training data is kept")
        else:
            ctx.check(no_worse(score[best], s + (
                -1e-9 if higher else 1e-9), higher),
                "the best on the training data is kept")
    if zs == (2, 2):
        new = new * 2
    for q, (Z, zr) in new + new[:1]:
        out = model.predict(Z)
        ctx.check(np.shape(out) == (q,), "one prediction per sample")
        for o, r in zip(out, zr):
            v = pool[best][1](r)
            ctx.check(eq(o, label(v, classes)) if task == "clf" else
                      close(o, v), "predictions of the best tree")


def guards(ctx):
    sub = Subpopulation(evaluator=RegressionEvaluator(),
                        creators=TagCreator(lambda i, h: trees(1)[0][0]()),
                        operators_sequence=[], population_size=1,
                        selection_methods=[(CloneAll(), 1)],
                        elitism_rate=0.0)
    algo = SimpleEvolution(sub, max_generation=1, random_seed=1)
    m = SKRegressor(algo)
    ctx.check(m.get_params()["algorithm"] is algo, "get_params")
    X, _ = matrix(ctx, 2, 1)
    y = arr([ctx.real("y") for _ in range(3)])
    ctx.check(raises(ValueError, lambda: m.fit(X, y)),
              "inconsistent data is refused")
    ctx.check(raises(NotFittedError, lambda: m.predict(X)),
              "and leaves the estimator unfitted")
    ctx.check(raises(NotImplementedError, lambda: m.partial_fit(X, y)),
              "partial_fit")


def jobs(tier):
    T = tier == "thorough"
    for c in (2, 3, 4, 5, 6):
        yield "classify", dict(classes=c, n=2, k=1, which=0)
        yield "classify", dict(classes=c, n=1, k=2, which=3)
        yield "accuracy", dict(classes=c, n=2, k=1, which=1, own=False)
        yield "accuracy", dict(classes=c, n=2, k=1, which=0, own=True)
    for c in (7, 10, 14, 19, 24, 28, 49):
        yield "classify", dict(classes=c, n=1, k=1, which=0), {"weight": c}
    yield "classify", dict(classes=2, n=3, k=1, which=0, dflt=True)
    yield "classify", dict(classes=3, n=30, k=1, which=0, sparse=True), {
        "weight": 5}
    yield "accuracy", dict(classes=3, n=2, k=2, which=3, own=False,
                           context=True)
    for m in ("argmax", "softmax"):
        yield "rooted", dict(n=2, method=m)
    yield "methods", {}
    for n in (1, 2, 3):
        for k in (1, 2):
            for w in range(len(trees(k))):
                yield "regression", dict(n=n, k=k, which=w, own=False,
                                         context=n == 2)
                yield "regression", dict(n=n, k=k, which=w, own=True,
                                         context=n == 3)
    yield "regression", dict(n=40, k=2, which=3, own=False, sparse=True)
    for g in (0, 1):
        yield "fit", dict(task="reg", n=2, k=1, gens=g, order=(0, 1))
        yield "fit", dict(task="reg", n=1, k=2, gens=g, order=(3, 0, 1))
        yield "fit", dict(task="clf", n=1, k=1, gens=g, order=(1, 0))
        yield "fit", dict(task="clf", n=1, k=2, gens=g, order=(1, 0),
                          classes=3)
    for task in ("reg", "clf"):
        yield "fit", dict(task=task, n=2, k=1, gens=0, order=(1,),
                          zs=(2, 1))
        yield "fit", dict(task=task, n=1, k=1, gens=0, order=(0,),
                          zs=(1, 1, 3))
        yield "fit", dict(task=task, n=2, k=2, gens=1, order=(3,),
                          zs=(1, 2))
        for own in (False, True):
            for n, m in ((1, 1), (2, 2), (1, 2), (2, 1)):
                if not (task == "clf" and n + m > 3 and not own):
                    yield "recontext", dict(task=task, n=n, m=m, own=own)
    yield "guards", {}
    if T:
        yield "fit", dict(task="reg", n=3, k=2, gens=2, order=(2, 3, 0)), {
            "weight": 50, "budget": 900}
        yield "fit", dict(task="clf", n=2, k=2, gens=1, order=(2, 3, 0),
                          classes=3), {"weight": 50, "budget": 1500}
        yield "classify", dict(classes=6, n=3, k=2, which=3), {
            "weight": 50, "budget": 900}
