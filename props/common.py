"""Builders shared by the harnesses."""
from symex.logic import *  # noqa: F401,F403
from symex import core
from symex.logic import land, lor, lnot, eq, ite, implies

from eckity.creators.creator import Creator
from eckity.evaluators.simple_individual_evaluator import (
    SimpleIndividualEvaluator)
from eckity.fitness import GPFitness, SimpleFitness
from eckity.genetic_encodings.ga import BitStringVector, FloatVector, \
    IntVector
from eckity.genetic_encodings.ga.vector_individual import Vector
from eckity.genetic_encodings.gp import FunctionNode, TerminalNode, Tree
from eckity.genetic_operators import GeneticOperator, SelectionMethod
from eckity.individual import Individual
from eckity.population import Population
from eckity.subpopulation import Subpopulation


def frac(x):
    return x


# ------------------------------------------------------------- functions
def u_inc(x):
    return x + 1


def u_add(x, y):
    return x + y


def u_mul(x, y):
    return x * y


def u_if3(x, y, z):
    return y if x else z


def t_fadd(x: float, y: float) -> float:
    return x + y


def t_iadd(x: int, y: int) -> int:
    return x + y


def t_flt(x: float, y: float) -> bool:
    return x < y


def t_ite(c: bool, x: float, y: float) -> float:
    return x if c else y


def t_not(c: bool) -> bool:
    return not c


def t_scale(x: float, n: int) -> float:
    return x * n


def t_floor(x: float) -> int:
    return int(x)


def _namesakes():
    """Functions that share a name (as lambdas and closures do), not types."""
    def op(x: float, y: float) -> float:
        return x + y
    a = op

    def op(x: int, y: int) -> int:
        return x + y
    b = op

    def op(x: int, y: float) -> float:
        return x * y
    return a, b, op


NAMESAKES = _namesakes()


# ------------------------------------------------------------- individuals
def worn(ind):
    """Give the individual one of several pasts.  What happened to it before
    is never part of a property's premise, so nothing may depend on it."""
    st = core.cur().state
    k = st["worn"] = st.get("worn", -1) + 1
    gen, origin, sel, ops = PASTS[k % len(PASTS)]
    ind.gen, ind.cloned_from = gen, origin
    ind.selected_by, ind.applied_operators = list(sel), list(ops)
    if core.cur().flags.get("copies"):
        # copies made with copy.deepcopy or pickle share their identity
        ind.id = 1
    return ind


def copies_of(ns):
    """The harness that runs another one with individuals that all have one
    identity, as copies made by copy.deepcopy or pickle do."""
    def copies(ctx, of, **kw):
        ctx.flags["copies"] = True
        ns[of](ctx, **kw)
    return copies


def fresh(ind):
    """Give the individual the past of a newly created one."""
    ind.gen, ind.cloned_from = PASTS[0][:2]
    ind.selected_by, ind.applied_operators = [], []
    return ind


PASTS = ((0, -1, (), ()),
         (2, 1, ("ElitismSelection",), ()),
         (7, 5, ("TournamentSelection",), ("SubtreeCrossover", "X")),
         (0, -1, (), ("IntVectorOnePointMutation",)),
         (1, 3, ("A", "A"), ("VectorKPointsCrossover",)))


VEC = {"int": IntVector, "float": FloatVector, "bit": BitStringVector}


def vec(kind, vector, fitness=None, bounds=(0, 1000), higher=False,
        update_parents=False, fit=None):
    f = fit if fit is not None else SimpleFitness(
        fitness, higher_is_better=higher)
    return worn(VEC[kind](fitness=f, length=len(vector), bounds=bounds,
                          vector=vector, update_parents=update_parents))


def tree_ind(nodes, functions=(u_add,), terminals=("x", "y"), fit=None,
             **kw):
    return worn(Tree(
        fitness=fit if fit is not None else GPFitness(bloat_weight=0),
        function_set=list(functions),
        terminal_set=terminals if isinstance(terminals, dict) else
        list(terminals), tree=nodes, **kw))


def chain(n):
    """A unary tree with n nodes."""
    return [FunctionNode(u_inc) for _ in range(n - 1)] + [TerminalNode("x")]


def chain_tree(n, fit):
    return worn(Tree(fitness=fit, function_set=[u_inc], terminal_set=["x"],
                     tree=chain(n)))


# ------------------------------------------------------------- environment
class TagCreator(Creator):
    """User-style creator: genome [tag, 0] per individual."""

    def __init__(self, make):
        super().__init__()
        self.make = make

    def create_individuals(self, n_individuals, higher_is_better):
        self.created_individuals = [
            self.make(i, higher_is_better) for i in range(n_individuals)]
        return self.created_individuals

    def __deepcopy__(self, memo):
        return self


class Scores(SimpleIndividualEvaluator):
    """User-style evaluator: a deterministic function of the genome whose
    values are symbols.  Records every evaluation."""

    def __init__(self, score, key=None):
        super().__init__()
        self.score = score
        self.key = key or genome
        self.memo = {}
        self.log = []

    def evaluate_individual(self, individual):
        k = self.key(individual)
        if k not in self.memo:
            self.memo[k] = self.score(len(self.memo), k)
        self.log.append((k, size_of(individual), self.memo[k]))
        return self.memo[k]

    def __deepcopy__(self, memo):
        return self


def size_of(ind):
    return len(ind.tree) if isinstance(ind, Tree) else len(ind.vector)


def genome(ind):
    if isinstance(ind, Tree):
        return tuple(node_key(n) for n in ind.tree)
    return tuple(ind.vector)


def node_key(n):
    return n.function.__name__ if isinstance(n, FunctionNode) else n.value


class CloneAll(SelectionMethod):
    """User-style selection: a clone of each source individual (of the last
    ones, when dest already holds some)."""

    def __init__(self, higher_is_better=False):
        super().__init__(higher_is_better=higher_is_better)

    def select(self, source_inds, dest_inds):
        n = len(source_inds) - len(dest_inds)
        for ind in source_inds[:n]:
            c = ind.clone()
            c.selected_by.append(type(self).__name__)
            dest_inds.append(c)
        self.selected_individuals = dest_inds
        return dest_inds


class Retag(GeneticOperator):
    """User-style in-place operator: every individual gets a new genome."""

    def __init__(self, counter, probability=1.0, arity=1):
        super().__init__(probability=probability, arity=arity)
        self.counter = counter

    def apply(self, individuals):
        for ind in individuals:
            self.counter[0] += 1
            if isinstance(ind, Tree):
                ind.tree[-1].value = f"t{self.counter[0]}"
            else:
                ind.vector[0] = self.counter[0]
        self.applied_individuals = individuals
        return individuals


def raises(exc, fn):
    """True iff fn() raises exc."""
    try:
        fn()
    except exc:
        return True
    return False


def aug(score, size, higher, bloat):
    """The documented augmented fitness."""
    if bloat is None:
        return score
    return score - bloat * size if higher else score + bloat * size


def combos(xs, k):
    import itertools
    return list(itertools.combinations(xs, k))


def distinct_objs(xs):
    return len({id(x) for x in xs}) == len(xs)


def parse_tree(nodes, pos=0, depth=0):
    """(end, depth) of the prefix expression starting at pos, or None."""
    if pos >= len(nodes):
        return None
    n = nodes[pos]
    if not isinstance(n, FunctionNode):
        return pos + 1, depth
    from inspect import signature
    k = len(signature(n.function).parameters)
    end, d = pos + 1, depth
    for _ in range(k):
        r = parse_tree(nodes, end, depth + 1)
        if r is None:
            return None
        end, dd = r
        d = max(d, dd)
    return end, d


def leaf_depths(nodes):
    out = []

    def rec(pos, depth):
        n = nodes[pos]
        if not isinstance(n, FunctionNode):
            out.append(depth)
            return pos + 1
        from inspect import signature
        end = pos + 1
        for _ in signature(n.function).parameters:
            end = rec(end, depth + 1)
        return end
    rec(0, 0)
    return out


def well_formed(nodes):
    r = parse_tree(nodes)
    return r is not None and r[0] == len(nodes)


def value_type_ok(v, t):
    """Is the constant v a value of the declared type t?"""
    if isinstance(v, str):
        return True
    if t is None:
        return True
    if t is bool:
        return isinstance(v, bool)
    if t is int:
        return isinstance(v, int) and not isinstance(v, bool)
    if t is float:
        return isinstance(v, float)
    return isinstance(v, t)


def well_typed(nodes, root_type, terminal_types=None, var_ok=None):
    """Every node has the type its parent asks for, and constants are values
    of the type of their node."""
    from typing import get_type_hints
    from inspect import signature

    def rec(pos, want):
        n = nodes[pos]
        if isinstance(n, FunctionNode):
            hints = get_type_hints(n.function)
            if hints.get("return") != want or n.node_type != want:
                return None
            end = pos + 1
            for p in signature(n.function).parameters:
                end = rec(end, hints.get(p))
                if end is None:
                    return None
            return end
        if n.node_type != want:
            return None
        if isinstance(n.value, str) and terminal_types is not None:
            if terminal_types.get(n.value) != want:
                return None
        elif not value_type_ok(n.value, want):
            return None
        return pos + 1
    end = rec(0, root_type)
    return end is not None and end == len(nodes)


# ------------------------------------------------------------- whole runs
class Run:
    """A SimpleEvolution run with a symbolic evaluator."""

    def __init__(self, ctx, n, gens, kind="int", higher=False, bloat=None,
                 sizes=None, score=None, sel="clone", ops="retag",
                 elitism=0.0, executor="thread", method="map", checker=None,
                 tsize=2, cache=False, seed=0, evolve=True, arity=1,
                 probability=1.0, **kw):
        from eckity.algorithms.simple_evolution import SimpleEvolution
        from eckity.evaluators import SimplePopulationEvaluator
        from eckity.genetic_operators import TournamentSelection
        self.ctx, self.higher, self.bloat = ctx, higher, bloat
        self.counter = [100]
        sizes = sizes or [1 + i % 3 for i in range(n)]

        def make(i, h):
            if kind == "tree":
                t = chain_tree(sizes[i], GPFitness(
                    higher_is_better=h, bloat_weight=bloat or 0,
                    cache=cache))
                t.tree[-1].value = f"t{i}"
                return t
            return vec(kind, [i, 0], fit=SimpleFitness(
                higher_is_better=h, cache=cache), bounds=(0, 10 ** 6))
        self.evaluator = Scores(score or (lambda i, k: ctx.real("s")))
        selm = {"clone": lambda: CloneAll(higher),
                "tour": lambda: TournamentSelection(
                    tsize, higher_is_better=higher),
                "tour_norep": lambda: TournamentSelection(
                    tsize, higher_is_better=higher, replace=False)}[sel]()
        opseq = {"retag": lambda: [Retag(self.counter, probability, arity)],
                 "none": lambda: []}[ops]()
        self.sub = Subpopulation(
            evaluator=self.evaluator, creators=TagCreator(make),
            operators_sequence=opseq, selection_methods=[(selm, 1)],
            elitism_rate=elitism, population_size=n, higher_is_better=higher)
        self.algo = SimpleEvolution(
            self.sub, max_generation=gens, executor=executor,
            population_evaluator=SimplePopulationEvaluator(method),
            termination_checker=checker, random_seed=seed, **kw)
        self.gens = []
        self.algo.register("after_generation", self._after)
        self.hook = None
        if evolve:
            self.algo.evolve()

    def _after(self, sender, data):
        self.gens.append(data["generation_num"])
        if self.hook:
            self.hook(sender, data)

    def value(self, ind):
        """The augmented score the evaluator stands for, from the genome."""
        k = genome(ind)
        return aug(self.evaluator.memo[k], size_of(ind), self.higher,
                   self.bloat)

    def all_values(self, log=None):
        return [aug(s, n, self.higher, self.bloat)
                for _, n, s in (self.evaluator.log if log is None else log)]


def sparse_scores(ctx, total, fill=0.0):
    """All scores are `fill` except one, at an arbitrary evaluation, that is
    an arbitrary real."""
    at, v = ctx.int("at", 0, total - 1), ctx.real("v")
    return lambda i, k: ite(at == i, v, fill)
