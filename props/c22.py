"""C22: events reach exactly the subscribers registered for them."""
from props.common import *
from eckity.before_after_publisher import BeforeAfterPublisher
from eckity.algorithms.simple_evolution import SimpleEvolution
from eckity.breeders import SimpleBreeder
from eckity.event_based_operator import Operator
from eckity.evaluators import SimplePopulationEvaluator
from eckity.genetic_operators import (
    ElitismSelection, IdentityTransformation, IntVectorOnePointMutation,
    VectorKPointsCrossover)
from eckity.statistics import Statistics
from props.c19 import make

BOUNDS = ("every history of 1-5 (thorough 7) register / unregister / publish "
          "operations over two events and up to three live subscribers, "
          "the same callable subscribed again included; operators of arity 1-3 with 0-4 individuals and of any result; runs of 0-3 "
          "generations with subscribers to every event; up to three "
          "callbacks that (un)subscribe while they are called; 40 subscribers; publishers "
          "built on an existing events dictionary with arbitrary keys")
OUTSIDE = ("callbacks that raise or remove somebody else's subscription "
           "while an event is being published")


class Pub(BeforeAfterPublisher):
    def __init__(self, names=("a", "b"), events=None):
        super().__init__(event_names=list(names), events=events)

    def event_name_to_data(self, event_name):
        return {"event": event_name}


def history(ctx, steps, again=False):
    """Arbitrary operations against a reference model. ``again``: the same
    callable may be subscribed several times, to one event or to both."""
    p = Pub()
    other = Pub()
    calls, model, expect = [], {"a": [], "b": []}, []
    ids = {"a": [], "b": []}
    n = [0]

    made, made_cb = [], []

    class Cb:
        def __init__(self, tag):
            self.tag = tag

        def __call__(self, sender, data):
            calls.append((self.tag, sender is p, data["event"]))
            # what callbacks return is nobody's business
            return (False, None, True, 0, "stop")[self.tag % 5]
        method = __call__

    def sub(ev, old=False):
        if old and made:
            tag, cb = made[-1], made_cb[-1]
        else:
            tag = n[0]
            n[0] += 1
            cb = Cb(tag) if tag % 2 else Cb(tag).method
            made.append(tag)
            made_cb.append(cb)
        i = p.register(ev, cb)
        model[ev].append((i, tag))
        ctx.check(i not in ids[ev], "subscriptions have their own id")
        ids[ev].append(i)
    for _ in range(steps):
        op = ctx.int("op", 0, 3 if again else 2)
        ev = "a" if ctx.bool("ev") else "b"
        if op == 0:
            sub(ev)
        elif op == 3:
            sub(ev, True)
        elif op == 1:
            if not model[ev]:
                ctx.check(raises(KeyError, lambda: p.unregister(ev, 99)),
                          "unknown subscriptions are refused")
                continue
            k = int(ctx.int("which", 0, len(model[ev]) - 1))
            i, _t = model[ev].pop(k)
            p.unregister(ev, i)
        else:
            expect += [(t, True, ev) for _, t in model[ev]]
            p.publish(ev)
            other.publish(ev)
        ctx.check(calls == expect, "exactly the subscribers, once, in order")
    for ev in ("a", "b"):
        expect += [(t, True, ev) for _, t in model[ev]]
        p.publish(ev)
    ctx.check(calls == expect, "exactly the subscribers, once, in order")


def many(ctx, n):
    """Many subscribers, one of whom leaves, and as many newcomers."""
    p, calls, ids = Pub(), [], []
    for i in range(n):
        ids.append(p.register("a", lambda s, d, i=i: calls.append(i)))
    out = ctx.pick((0, 1, n // 2, n - 1), "out")
    for _ in range(2):
        p.publish("a")
    ctx.check(calls == 2 * list(range(n)), "everybody, once, in order")
    p.unregister("a", ids[out])
    new = [p.register("a", lambda s, d, i=i: calls.append(i))
           for i in range(n, 2 * n)]
    left = [i for i in range(2 * n) if i != out]
    ctx.check(len(set([j for i, j in enumerate(ids) if i != out] + new)) ==
              2 * n - 1, "subscriptions have their own id")
    del calls[:]
    p.publish("a")
    p.publish("b")
    ctx.check(calls == left, "everybody but the one, in order")


def edges(ctx):
    p = Pub()
    ctx.check(raises(KeyError, lambda: p.publish("nope")),
              "unknown events are refused")
    ctx.check(raises(KeyError, lambda: p.register("nope")),
              "unknown events are refused")
    i = p.register("a")  # a subscriber without a callback
    j = p.register("a", None)
    ctx.check(i != j, "ids differ")
    p.publish("a")
    p.unregister("a", i)
    p.publish("a")
    for name in ("before_operator", "after_operator"):
        p.publish(name)
    log = []
    q = Pub(events={"a": {0: lambda s, d: log.append(s is q)}})
    q.publish("a")
    ctx.check(log == [True], "a given events dictionary is used")


def given(ctx, live, steps):
    """A publisher that starts from an existing dictionary of events (whose
    subscribers have arbitrary keys), then registers and removes more."""
    calls, keys = [], []

    def mk(tag):
        return lambda s, d: calls.append((tag, s is p))
    subs = {}
    for i in range(live):
        k = ctx.int("key", 0, 4)
        for o in keys:
            ctx.assume(k != o)
        k = int(k)
        keys.append(k)
        subs[k] = mk(i)
    p = Pub(events={"a": subs, "b": {}})
    model = [(k, i) for i, k in enumerate(keys)]
    for t in range(live, live + steps):
        if model and ctx.bool("drop"):
            k, _ = model.pop(int(ctx.int("which", 0, len(model) - 1)))
            p.unregister("a", k)
        model.append((p.register("a", mk(t)), t))
        ctx.check(len(set(k for k, _ in model)) == len(model),
                  "subscriptions have their own id")
    p.publish("a")
    ctx.check(calls == [(t, True) for _, t in model],
              "exactly the subscribers, once, in order")


def inside(ctx, n, acts):
    """Callbacks that register and unregister while being called: those
    subscribed when the event was published are called once each (removed
    ones may be left out), later ones only the next time."""
    p, calls, ids, born = Pub(), [], [], []
    who = [ctx.choose(n, "who") for _ in range(acts)]
    what = [ctx.choose(3, "what") for _ in range(acts)]
    gone = set()

    def cb(i):
        def f(s, d):
            calls.append(i)
            for w, op in zip(who, what):
                if w != i or (first and i in done):
                    continue
                if op == 0 and i not in gone:  # leaves
                    gone.add(i)
                    p.unregister("a", ids[i])
                elif op == 1:  # brings somebody
                    born.append(p.register("a", lambda s, d: calls.append(
                        "new")))
                elif op == 2:  # subscribes to another event
                    p.register("b", lambda s, d: calls.append("b"))
            done.add(i)
        return f
    first, done = True, set()
    for i in range(n):
        ids.append(p.register("a", cb(i)))
    p.publish("a")
    ctx.check(calls == list(range(n)), "everybody subscribed is called once")
    del calls[:], who[:], what[:]
    p.publish("a")
    ctx.check(calls == [i for i in range(n) if i not in gone] +
              ["new"] * len(born), "the next time the others, in order")


class Op3(GeneticOperator):
    def __init__(self, arity, log, probability=1.0):
        super().__init__(probability=probability, arity=arity)
        self.log = log

    def apply(self, individuals):
        self.log.append("apply")
        self.applied_individuals = individuals
        return individuals


def operator(ctx, arity, n, times=1):
    """before - operation - after; a wrong number of individuals is
    refused before anything happens."""
    log, data = [], []
    op = Op3(arity, log)
    op.register("before_operator", lambda s, d: log.append(
        ("before", s is op)))
    op.register("after_operator", lambda s, d: (log.append(
        ("after", s is op)), data.append(d["applied_individuals"])))
    for _ in range(times):
        inds = [vec("int", [i], ctx.real("s")) for i in range(n)]
        del log[:]
        if n != arity:
            ctx.check(raises(ValueError, lambda: op.act(inds)),
                      "wrong number of individuals")
            ctx.check(log == [], "nothing happens")
            continue
        out = op.act(inds)
        ctx.check(log == [("before", True), "apply", ("after", True)],
                  "before, operation, after")
        ctx.check(all(a is b for a, b in zip(out, inds)), "result")
        ctx.check(data[-1] is not None and
                  [id(x) for x in data[-1]] == [id(x) for x in inds],
                  "after_operator carries the individuals")


class Gives(Operator):
    def __init__(self, res):
        super().__init__()
        self.res = res

    def apply_operator(self, payload):
        return self.res


def result(ctx, what):
    """Whatever an operation returns, its end is announced and the result
    is handed on as it is."""
    res = {"none": None, "nobody": [], "zero": ctx.int("r", -1, 1),
           "truth": ctx.bool("r"), "real": ctx.real("r"), "text": "",
           "tuple": (), "many": [vec("int", [k]) for k in range(3)]}[what]
    log, op = [], Gives(res)
    op.register("before_operator", lambda s, d: log.append(("b", s is op)))
    op.register("after_operator", lambda s, d: log.append(("a", s is op)))
    for _ in range(2):
        del log[:]
        ctx.check(op.act([vec("int", [1])]) is res, "the result is handed on")
        ctx.check(log == [("b", True), ("a", True)], "before and after")


def library(ctx, which):
    """Operators of the library publish around act."""
    mk = {"int1": (lambda: IntVectorOnePointMutation(probability=1.0), 1),
          "ident": (lambda: IdentityTransformation(), 1),
          "kpoint": (lambda: VectorKPointsCrossover(probability=1.0), 2)}
    op, n = mk[which][0](), mk[which][1]
    log = []
    op.register("before_operator", lambda s, d: log.append("b"))
    op.register("after_operator", lambda s, d: log.append(
        ("a", d["applied_individuals"])))
    inds = [vec("int", [ctx.int("c", 0, 9), ctx.int("c", 0, 9)],
                ctx.real("s"), bounds=(0, 9)) for _ in range(n)]
    op.act(inds)
    ctx.check(len(log) == 2 and log[0] == "b" and log[1][0] == "a",
              "before and after, once")
    got = log[1][1]
    ctx.check(got is not None and len(got) == n and
              all(a is b for a, b in zip(got, inds)),
              "after_operator carries the individuals")
    ctx.check(raises(ValueError, lambda: op.act(inds + inds)),
              "wrong number of individuals")
    ctx.check(len(log) == 2, "nothing published then")


def evaluator(ctx, times=2):
    """An evaluator publishes around act, with the individual it scored."""
    log, ev = [], Scores(lambda i, k: ctx.real("s"))
    ev.register("before_operator", lambda s, d: log.append(("b", s is ev)))
    ev.register("after_operator", lambda s, d: log.append(
        ("a", s is ev, d["applied_individuals"])))
    for t in range(times):
        ind = vec("int", [t])
        del log[:]
        ctx.check(ev.act((ind, [ind])) is ind, "result")
        ctx.check(len(log) == 2 and log[0] == ("b", True) and
                  log[1][:2] == ("a", True), "before and after, once")
        got = log[1][2]
        ctx.check(got is not None and len(got) == 1 and got[0] is ind,
                  "after_operator carries the individual")


class Stat(Statistics):
    def __init__(self, log):
        super().__init__("{}")
        self.log = log

    def write_statistics(self, sender, data_dict):
        self.log.append(data_dict["generation_num"])


def whole_run(ctx, gens, stats, n=2, algo="simple"):
    """Everything a run publishes, in order; statistics are told every
    generation."""
    log, slog = [], []
    a, sub, ev = make(ctx, algo, n, gens, None,
                      statistics=[Stat(slog) for _ in range(stats)],
                      breeder=None if algo == "simple" else
                      __import__("props.c18", fromlist=["x"]).NSGA2Breeder())
    br, pe = a.breeder, a.population_evaluator
    for name in ("init", "after_generation", "evolution_finished"):
        a.register(name, lambda s, d, name=name: log.append(
            (name, s is a)))
    br.register("before_operator", lambda s, d: log.append(
        ("breed", s is br)))
    br.register("after_operator", lambda s, d: log.append(
        ("bred", s is br)))
    pe.register("before_operator", lambda s, d: log.append(
        ("eval", s is pe)))
    pe.register("after_operator", lambda s, d: log.append(
        ("evaled", s is pe, d["applied_individuals"] is a.population)))
    a.evolve()
    ctx.check(all(all(x[1:]) for x in log), "the sender is the publisher")
    want = ["eval", "evaled", "init"] + [
        "breed", "bred", "eval", "evaled", "after_generation"] * gens + [
        "evolution_finished"]
    ctx.check([x[0] for x in log] == want, "order of events")
    ctx.check(slog == [g for g in range(1, gens + 1)
                       for _ in range(stats)], "statistics every generation")


def event_data(ctx, gens, n=2):
    """What the events of a run carry is the state of the run."""
    a, sub, ev = make(ctx, "simple", n, gens, None,
                      score=lambda i, k: ctx.real("s"))
    got = []

    def init(s, d):
        ctx.check(d["population"] is a.population, "population")
        ctx.check(d["max_generation"] == gens, "max_generation")
        ctx.check(d["breeder"] is a.breeder, "breeder")
        ctx.check(d["statistics"] is a.statistics, "statistics")
        ctx.check(d["termination_checker"] is a.termination_checker,
                  "checker")
        got.append("init")

    def after(s, d):
        ctx.check(d["population"] is a.population, "population")
        ctx.check(d["best_of_run_"] is a.best_of_run_, "best_of_run_")
        ctx.check(d["best_of_gen"] is a.best_of_gen, "best_of_gen")
        ctx.check(d["generation_num"] == a.generation_num, "generation_num")
        got.append(d["generation_num"])
    a.register("init", init)
    a.register("after_generation", after)
    a.register("evolution_finished", after)
    a.evolve()
    ctx.check(got == ["init"] + list(range(1, gens + 1)) + [gens],
              "every event once")


def stopped(ctx, gens, algo="simple"):
    """A run that is told to stop announces the generation it stops at, be
    it the initial or the last one, and then that it has finished."""
    from props.c19 import Verdicts
    at, log, slog = ctx.int("at", 0, gens), [], []
    c = Verdicts(lambda k: at == k)
    a, sub, ev = make(ctx, algo, 2, gens, c, statistics=[Stat(slog)])
    for name in ("init", "after_generation", "evolution_finished"):
        a.register(name, lambda s, d, name=name: log.append(
            (name, s.generation_num)))
    a.evolve()
    k = int(at)
    told = list(range(1, k + 1)) or [0]
    ctx.check(log == [("init", 0)] + [("after_generation", g) for g in told]
              + [("evolution_finished", k)], "order of events")
    ctx.check(slog == told, "statistics every generation")


def two_runs(ctx):
    """Subscribers of one algorithm are not called by another one."""
    la, lb = [], []
    a, _, _ = make(ctx, "simple", 2, 1, None)
    b, _, _ = make(ctx, "simple", 2, 2, None)
    a.register("after_generation", lambda s, d: la.append(s))
    b.register("after_generation", lambda s, d: lb.append(s))
    a.evolve()
    b.evolve()
    ctx.check(len(la) == 1 and la[0] is a, "own events only")
    ctx.check(len(lb) == 2 and all(x is b for x in lb), "own events only")


def own_names(ctx):
    """Event names given by the user can be subscribed to and published."""
    a, _, _ = make(ctx, "simple", 1, 1, None, event_names=["mine"])
    log = []
    a.register("mine", lambda s, d: log.append(d["generation_num"]))
    a.register("after_generation", lambda s, d: s.publish("mine"))
    a.evolve()
    ctx.check(log == [1], "own event")


def jobs(tier):
    T = tier == "thorough"
    for s in (1, 2, 3, 4):
        yield "history", dict(steps=s)
    yield "history", dict(steps=5), {"weight": 9}
    for s in (2, 3, 4):
        yield "history", dict(steps=s, again=True), {"weight": 3 * s}
    yield "edges", {}
    for n in (5, 12, 40):
        yield "many", dict(n=n)
    yield "whole_run", dict(gens=25, stats=2)
    yield "whole_run", dict(gens=12, stats=1, algo="nsga2")
    for live in (1, 2, 3):
        for s in (1, 2):
            yield "given", dict(live=live, steps=s)
    for n in (1, 2, 3):
        for k in (1, 2):
            yield "inside", dict(n=n, acts=k)
    for a in (1, 2, 3):
        for n in range(0, 5):
            yield "operator", dict(arity=a, n=n)
        yield "operator", dict(arity=a, n=a, times=2)
    for w in ("int1", "ident", "kpoint"):
        yield "library", dict(which=w)
    for g in (0, 1, 3):
        for s in (0, 1, 2):
            yield "whole_run", dict(gens=g, stats=s)
            yield "whole_run", dict(gens=g, stats=s, algo="nsga2")
    for g in (0, 1, 2):
        yield "event_data", dict(gens=g)
        yield "stopped", dict(gens=g)
        yield "stopped", dict(gens=g, algo="nsga2")
    for w in ("none", "nobody", "zero", "truth", "real", "text", "tuple",
              "many"):
        yield "result", dict(what=w)
    yield "evaluator", {}
    yield "two_runs", {}
    yield "own_names", {}
    if T:
        yield "history", dict(steps=6), {"weight": 90, "budget": 1500}
        yield "whole_run", dict(gens=30, stats=2)
        yield "event_data", dict(gens=3), {"budget": 900}
