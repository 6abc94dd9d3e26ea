"""C13: GP variation operators keep trees well-formed, typed and disjoint."""
from fractions import Fraction
import numpy as np
from props.common import *
from eckity.genetic_operators import SubtreeCrossover, SubtreeMutation
from eckity.genetic_operators.mutations.erc_mutation import ERCMutation

BOUNDS = ("trees of 1-9 nodes, untyped and strongly typed, with repeated "
          "sub-expressions; crossover of 2 and 3 trees with every choice of "
          "subtrees; mutation with every subtree and every new subtree of "
          "depth up to 2; constants any int or real, any Gaussian draw; "
          "sequences of up to 3 operators, one operator object on trees of "
          "different sets and types; trees of 40 nodes with the first "
          "choices free")
OUTSIDE = "trees over different function sets; larger trees with all " \
          "choices free"

F, T = FunctionNode, TerminalNode
UF = (u_add, u_inc)
TF = (t_fadd, t_ite, t_flt, t_scale, t_iadd)
TT = {"x": float, "b": bool, "n": int}


def trees(ctx):
    return {
        "t1": lambda: [T("x")],
        "t1c": lambda: [T(ctx.real("c"))],
        "t2": lambda: [F(u_inc), T("x")],
        "t3": lambda: [F(u_add), T("x"), T("y")],
        "t4": lambda: [F(u_add), F(u_inc), T("x"), T(ctx.int("c"))],
        "t5": lambda: [F(u_add), T("x"), F(u_add), T("y"), T("x")],
        # repeated sub-expressions
        "t7": lambda: [F(u_add), F(u_add), T("x"), T("y"), F(u_add), T("x"),
                       T("y")],
        "t6": lambda: [F(u_inc), F(u_inc), F(u_add), T("x"), F(u_inc),
                       T("x")],
        "tc": lambda: [F(u_add), T(ctx.real("c")), F(u_add),
                       T(ctx.real("c")), T(True)],
        # constants that come from data
        "tnp": lambda: [F(u_add), F(u_add), T("x"), T(np.int64(3)),
                        T(np.float32(0.5))],
        "tfr": lambda: [F(u_add), T("x"), T(Fraction(1, 4))],
        "chain40": lambda: chain(40),
        "bush21": lambda: [F(u_add) for _ in range(10)] + [T(v) for v in range(10)] + [
            T("x")],
        "f1": lambda: [T("x", float)],
        "f3": lambda: [F(t_fadd), T("x", float), T(ctx.real("c"), float)],
        "f6": lambda: [F(t_ite), F(t_flt), T("x", float), T("x", float),
                       T("x", float), T(ctx.real("c"), float)],
        "f4": lambda: [F(t_ite), T("b", bool), T("x", float), T("x", float)],
        "f7": lambda: [F(t_fadd), F(t_scale), T("x", float), F(t_iadd),
                       T("n", int), T(ctx.int("c"), int), T("x", float)],
        "i3": lambda: [F(t_iadd), T("n", int), T("n", int)],
        "f5": lambda: [F(t_fadd), F(t_fadd), T("x", float), T("x", float),
                       T("x", float)],
    }


def mk(ctx, name, scored=True):
    nodes = trees(ctx)[name]()
    typed = nodes[0].node_type is not None
    kw = dict(root_type=nodes[0].node_type) if typed else {}
    return tree_ind(nodes, functions=TF if typed else UF,
                    terminals=TT if typed else ("x", "y", 3),
                    fit=GPFitness(ctx.real("s") if scored else None), **kw)


def subtree_ends(nodes):
    return [parse_tree(nodes, i)[0] for i in range(len(nodes))]


def is_(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def values(nodes):
    return [n.function if isinstance(n, FunctionNode) else n.value
            for n in nodes]


def same_values(a, b):
    return land(*[x is y if callable(x) or isinstance(x, str) or
                  callable(y) or isinstance(y, str) else eq(x, y)
                  for x, y in zip(a, b)])


def root_ok(ind, rt):
    return ind.tree[0].node_type is rt


def closed(ctx, inds, rts):
    for ind, rt in zip(inds, rts):
        ctx.check(len(ind.tree) >= 1 and well_formed(ind.tree),
                  "offspring are well formed")
        ctx.check(well_typed(ind.tree, rt, TT if rt else None),
                  "offspring are well typed")
        ctx.check(ind.depth() == max(leaf_depths(ind.tree)), "depth")
    ctx.check(distinct_objs([n for i in inds for n in i.tree]),
              "no node is shared")
    ctx.check(distinct_objs([i.tree for i in inds]), "no tree is shared")


def do_xo(ctx, inds, op):
    old = [list(i.tree) for i in inds]
    vals = [values(o) for o in old]
    rts = [i.tree[0].node_type for i in inds]
    res = op.apply_operator(inds)
    ctx.check(is_(res, inds), "the individuals come back")
    closed(ctx, inds, rts)
    ids = {id(n) for o in old for n in o}
    new = {id(n) for i in inds for n in i.tree}
    ctx.check(ids == new, "nodes are exchanged, none lost or invented")
    for o, v in zip(old, vals):
        ctx.check(same_values(values(o), v), "nodes keep their value")
    # some choice of one complete subtree per tree explains the result
    k = len(inds)
    ends = [subtree_ends(o) for o in old]

    def fits(i, s, e, sub):
        return is_(inds[i].tree, old[i][:s] + sub + old[i][e:])
    unchanged = all(is_(i.tree, o) for i, o in zip(inds, old))
    if unchanged:
        return True

    def search(i, subs):
        if i == k:
            return all(fits(j, *subs[j][:2], old[j - 1][
                subs[j - 1][0]:subs[j - 1][1]]) for j in range(k))
        for s, e in enumerate(ends[i]):
            ty = old[i][s].node_type
            if subs and ty is not old[0][subs[0][0]].node_type:
                continue
            if search(i + 1, subs + [(s, e)]):
                return True
        return False
    ctx.check(search(0, []), "each tree receives one complete subtree of its "
              "predecessor in exchange for its own")
    return False


def crossover(ctx, names, attempts=1, times=1, free=None):
    if free is not None:
        ctx.flags["idx_free"] = free
    inds = [mk(ctx, n) for n in names]
    op = SubtreeCrossover(arity=len(names), attempts=attempts)
    for _ in range(times):
        do_xo(ctx, inds, op)


def possible(inds):
    """Is there a type with a usable node in every tree (typed: not root)?"""
    def types(i):
        return {n.node_type for n in i.tree[1:]} if i.tree[0].node_type \
            else {None}
    return set.intersection(*map(types, inds))


def impossible_xo(ctx, names, attempts):
    """No common type: the operands come back as they were."""
    inds = [mk(ctx, n) for n in names]
    if possible(inds):
        return
    old = [list(i.tree) for i in inds]
    SubtreeCrossover(arity=len(names), attempts=attempts).apply_operator(inds)
    for i, o in zip(inds, old):
        ctx.check(is_(i.tree, o), "a failed crossover changes nothing")


def do_mut(ctx, ind, op, depth, gap=False):
    before = list(ind.tree), values(ind.tree)
    try:
        res = op.apply_operator([ind])
    except ValueError:
        ctx.check(gap, "mutation succeeds when the sets admit a tree")
        ctx.check(is_(ind.tree, before[0]),
                  "a failed mutation changes nothing")
        return
    ctx.check(is_(res, [ind]), "the individual comes back")
    mutated(ctx, ind, before, depth)


def mutated(ctx, ind, before, depth, lone=False):
    """`ind` is the result of mutating the tree `before`."""
    old, vals = before
    rt = old[0].node_type
    closed(ctx, [ind], [rt])
    new = ind.tree
    if is_(new, old):
        ctx.check(lone or rt is not None and len(old) == 1,
                  "only a lone typed root cannot be mutated")
        return
    ok = False
    ids = {id(n) for n in old}
    for s, e in enumerate(subtree_ends(old)):
        m = len(new) - (len(old) - (e - s))
        if m < 1:
            continue
        sub = new[s:s + m]
        if is_(new[:s], old[:s]) and is_(new[s + m:], old[e:]) and \
                well_formed(sub) and not ({id(n) for n in sub} & ids) and \
                all(depth[0] <= d <= depth[1] for d in leaf_depths(sub)):
            ok = True
    ctx.check(ok, "one complete subtree is replaced by a fresh one of the "
              "requested depth")
    for n in new:
        if id(n) not in ids and isinstance(n, FunctionNode):
            ctx.check(any(n.function is f for f in ind.function_set),
                      "only functions of the set")
        elif id(n) not in ids and isinstance(n.value, str):
            ctx.check(n.value in ind.terminal_set,
                      "only terminals of the set")
    ctx.check(same_values(values(old), vals), "nodes keep their value")


def mutation(ctx, name, depth, times=1, gap=False, attempts=1, free=None):
    if free is not None:
        ctx.flags["idx_free"] = free
    op = SubtreeMutation(init_depth=depth, attempts=attempts)
    ind = mk(ctx, name)
    for _ in range(times):
        do_mut(ctx, ind, op, depth, gap)


def together(ctx, names, depth):
    """Several trees mutated by one application."""
    op = SubtreeMutation(init_depth=depth)
    op.arity = len(names)
    inds = [mk(ctx, n) for n in names]
    before = [(list(i.tree), values(i.tree)) for i in inds]
    res = op.apply_operator(inds)
    ctx.check(is_(res, inds), "the individuals come back")
    lone = any(b[0][0].node_type is not None and len(b[0]) == 1
               for b in before)
    closed(ctx, inds, [b[0][0].node_type for b in before])
    for i, b in zip(inds, before):
        mutated(ctx, i, b, depth, lone)


def shared_op(ctx):
    """One mutation object serves untyped trees with different sets."""
    op = SubtreeMutation(init_depth=(0, 1))
    a = tree_ind([T("x")], functions=(u_inc,), terminals=("x",))
    b = tree_ind([T("z")], functions=(u_add,), terminals=("z",))
    do_mut(ctx, a, op, (0, 1))
    do_mut(ctx, b, op, (0, 1))


def shared(ctx, op, first, second):
    """One operator object serves trees of different sets and types."""
    a, b = [mk(ctx, n) for n in first], [mk(ctx, n) for n in second]
    if op == "m":
        o = SubtreeMutation(init_depth=(0, 1))
        for i in a + b:
            do_mut(ctx, i, o, (0, 1))
    else:
        o = SubtreeCrossover(arity=2)
        do_xo(ctx, a, o)
        do_xo(ctx, b, o)


def erc(ctx, names, sym=True):
    inds = [mk(ctx, n) for n in names]
    mu, sigma = ctx.real("mu"), ctx.real("sigma", 0.5)
    op = ERCMutation(arity=len(names), mu=mu, sigma=sigma)
    old = [list(i.tree) for i in inds]
    vals = [values(o) for o in old]
    start = len(ctx.rng_log)
    res = op.apply_operator(inds)
    ctx.check(is_(res, inds), "the individuals come back")
    noise = [(w, v) for w, v in ctx.rng_log[start:]
             if isinstance(w, tuple) and w[0] == "gauss"]

    def numeric(n):
        return isinstance(n, TerminalNode) and not isinstance(
            n.value, (str, bool))
    poss = all(any(numeric(n) for n in o) for o in old)
    for k, (ind, o, v) in enumerate(zip(inds, old, vals)):
        ctx.check(is_(ind.tree, o), "the structure is untouched")
        now = values(ind.tree)
        diff = [i for i in range(len(o)) if not (
            isinstance(now[i], str) or callable(now[i]))
            and now[i] is not v[i]]
        if not poss:
            ctx.check(same_values(now, v), "no constant: nothing changes")
            continue
        ctx.check(all(numeric(o[i]) for i in diff), "only constants change")
        ctx.check(count([lnot(eq(now[i], v[i])) for i in diff]) <= 1,
                  "at most one constant changes")
        if len(noise) == len(inds):
            (_, m, s), g = noise[k]
            if not is_sym(m) and not is_sym(s) and (m, s) == (0, 1):
                g = mu + sigma * g  # a standard draw, scaled
            else:
                ctx.check(land(eq(m, mu), eq(s, sigma)), "mu and sigma")
            cands = []
            for i in range(len(o)):
                if numeric(o[i]):
                    w = v[i] + g
                    if o[i].node_type is int:
                        # the nearest integer
                        near = land(now[i] - w <= 0.5, w - now[i] <= 0.5)
                    else:
                        near = close(now[i], w)
                    cands.append(land(near, *[
                        eq(now[j], v[j]) for j in diff if j != i]))
            ctx.check(lor(*cands), "Gaussian noise is added to a constant")
    closed(ctx, inds, [i.tree[0].node_type for i in inds])


def sequence(ctx, names, ops, depth=(0, 1)):
    """Successive operators on the same trees."""
    inds = [mk(ctx, n) for n in names]
    xo, mut, er = SubtreeCrossover(arity=len(names)), SubtreeMutation(
        init_depth=depth), ERCMutation(arity=len(names))
    for o in ops:
        if o == "x":
            do_xo(ctx, inds, xo)
        elif o == "m":
            for i in inds[:1]:
                do_mut(ctx, i, mut, depth)
        else:
            rts = [i.tree[0].node_type for i in inds]
            er.apply_operator(inds)
            closed(ctx, inds, rts)


U = ("t1", "t1c", "t2", "t3", "t4", "t5", "t6", "t7", "tc")
V = ("f1", "f3", "f4", "f5", "f6", "f7", "i3")


def jobs(tier):
    for S in (U, V):
        for a in S:
            for b in S:
                yield "crossover", dict(names=(a, b))
    for tr in (("t3", "t4", "t5"), ("t1", "t2", "t3"), ("t7", "t3", "t4"),
               ("f3", "f6", "f5"), ("f7", "f3", "i3"), ("f4", "f6", "f1")):
        yield "crossover", dict(names=tr), {"weight": 4}
    yield "crossover", dict(names=("f4", "i3"), attempts=3)
    yield "crossover", dict(names=("f7", "f4"), attempts=2)
    yield "crossover", dict(names=("t3", "t4"), times=2), {"weight": 4}
    yield "crossover", dict(names=("f6", "f3"), times=2), {"weight": 4}
    yield "crossover", dict(names=("chain40", "t7"), free=2)
    yield "crossover", dict(names=("chain40", "chain40"), free=1)
    for a, b in (("f1", "f3"), ("f1", "f1"), ("i3", "f4"), ("f6", "f1")):
        for k in (1, 3):
            yield "impossible_xo", dict(names=(a, b), attempts=k)
    for a in U:
        for d in ((0, 1), (1, 1), (0, 0)):
            yield "mutation", dict(name=a, depth=d)
    for a in ("t3", "t7"):
        yield "mutation", dict(name=a, depth=(1, 2)), {"weight": 8}
    for a in V:
        for d in ((0, 0), (0, 1), (1, 1)):
            yield "mutation", dict(name=a, depth=d)
    yield "mutation", dict(name="t3", depth=(0, 1), times=2), {"weight": 4}
    yield "mutation", dict(name="f6", depth=(0, 1), times=2), {"weight": 4}
    yield "mutation", dict(name="t4", depth=(0, 1), attempts=3)
    yield "mutation", dict(name="chain40", depth=(5, 5), free=2)
    yield "mutation", dict(name="f6", depth=(4, 4), free=2)
    for a, b in (("t3", "t2"), ("f4", "f3"), ("f4", "i3"), ("f3", "f6"),
                 ("f3", "f1")):
        for d in ((0, 0), (0, 1)):
            yield "together", dict(names=(a, b), depth=d)
    yield "together", dict(names=("f4", "f3", "i3"), depth=(0, 0))
    yield "shared_op", {}
    for a, b in (("t1", "f4"), ("f4", "t1"), ("f4", "i3"), ("i3", "f4"),
                 ("f3", "f6"), ("t2", "t1c"), ("f6", "f3")):
        yield "shared", dict(op="m", first=(a,), second=(b,)), {"weight": 4}
    for a, b in ((("t2", "t1c"), ("f3", "f4")), (("f4", "f3"), ("t3", "t2")),
                 (("f3", "f4"), ("i3", "i3")), (("t3", "t2"), ("t2", "t3"))):
        yield "shared", dict(op="x", first=a, second=b), {"weight": 4}
    for a in U + V:
        yield "erc", dict(names=(a,))
    for ab in (("t4", "tc"), ("tc", "tc"), ("t1c", "t3"), ("f3", "f7"),
               ("f6", "f7")):
        yield "erc", dict(names=ab)
    for ab in (("tnp",), ("tfr",), ("tnp", "tc")):
        yield "erc", dict(names=ab)
    yield "crossover", dict(names=("tnp", "t3"))
    yield "mutation", dict(name="tnp", depth=(0, 1))
    yield "sequence", dict(names=("t3", "t4"), ops="xe"), {"weight": 4}
    yield "sequence", dict(names=("t2", "t1c"), ops="mx"), {"weight": 4}
    yield "sequence", dict(names=("f3", "f4"), ops="xe"), {"weight": 4}
    yield "sequence", dict(names=("f3", "f6"), ops="ex"), {"weight": 4}
    if tier == "thorough":
        for S in (U, V):
            for a in S:
                yield "mutation", dict(name=a, depth=(1, 2)), {"budget": 900}
                for b in S:
                    yield "crossover", dict(names=(a, b), times=2), {
                        "budget": 600}
        for ab in (("t3", "t4"), ("t5", "t7"), ("f3", "f6"), ("f7", "f6")):
            for ops in ("xmx", "mxe", "xem"):
                yield "sequence", dict(names=ab, ops=ops), {"budget": 600}
