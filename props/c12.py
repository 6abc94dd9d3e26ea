"""C12: GP creators build well-formed, well-typed trees of the right depth."""
from props.common import *
from eckity.creators.gp_creators.full import FullCreator
from eckity.creators.gp_creators.grow import GrowCreator
from eckity.creators.gp_creators.half import HalfCreator

BOUNDS = ("full trees up to depth 3, grown trees with depth range up to "
          "(0,2) and (1,3), ramped half-and-half with ranges up to 3 depths "
          "and up to 9 individuals; every choice of function, terminal and "
          "constant; pruning probability any real in [0,1]; ephemeral "
          "constants in any int or float range; 11 function/terminal sets, "
          "untyped and strongly typed, also with functions of one name; deep trees (depth 7) with the first "
          "choices free; repeated use of a creator, also for "
          "other population sizes")
OUTSIDE = "deeper trees with all choices free; user-defined creators"

SETS = {
    "u1": dict(f=(u_inc,), t=("x",)),
    "u2": dict(f=(u_inc, u_add), t=("x",)),
    "u3": dict(f=(u_inc, u_add), t=("x", "y")),
    "uc": dict(f=(u_add,), t=("x", 1, -2.5)),
    "u4": dict(f=(u_if3, u_inc), t=("x",)),
    "tf": dict(f=(t_fadd, t_ite, t_flt), t={"x": float, "b": bool},
               root=float),
    "tb": dict(f=(t_fadd, t_ite, t_flt, t_not), t={"x": float, "b": bool},
               root=bool),
    "tn": dict(f=(t_scale, t_iadd, t_floor), t={"x": float, "n": int},
               root=float),
    "tconst": dict(f=(t_scale, t_iadd, t_floor),
                   t={"x": float, 2.5: float, "n": int, 7: int}, root=int),
    "tsame": dict(f=NAMESAKES, t={"x": float, "n": int}, root=float),
    # no function returns int: some shapes cannot be typed
    "tgap": dict(f=(t_scale,), t={"x": float, "n": int}, root=float,
                 gap=True),
}


def erc_range(ctx, erc):
    if erc is None:
        return None
    if erc == "int":
        lo = ctx.int("lo")
        return (lo, lo + ctx.int("w", 0))
    lo = ctx.real("lo")
    return (lo, lo + ctx.real("w", 0))


def check_tree(ctx, t, S, erc, lo, hi, full, w, higher):
    nodes = t.tree
    ctx.check(len(nodes) >= 1 and well_formed(nodes), "well formed")
    for n in nodes:
        if isinstance(n, FunctionNode):
            ctx.check(any(n.function is f for f in S["f"]),
                      "only functions of the function set")
        else:
            v = n.value
            if isinstance(v, str):
                ctx.check(v in S["t"], "only terminals of the terminal set")
            else:
                consts = [c for c in S["t"] if not isinstance(c, str)]
                okc = lor(*[eq(v, c) for c in consts]) if consts else False
                ctx.check(lor(okc, between(erc[0], v, erc[1]) if erc else
                              False), "constants are terminals or in range")
                if erc and not consts:
                    ctx.check(isinstance(v, type(erc[0])) if
                              not isinstance(erc[0], float) else
                              isinstance(v, float), "type of the constant")
    ctx.check(well_typed(nodes, S.get("root"),
                         S["t"] if isinstance(S["t"], dict) else None),
              "well typed")
    d = leaf_depths(nodes)
    if full is not None:
        ctx.check(all(x == full for x in d), "full: all leaves at max depth")
    ctx.check(all(lo <= x <= hi for x in d), "leaf depths are in range")
    ctx.check(t.depth() == max(d), "depth() is the depth")
    ctx.check(t.size() == len(nodes), "size() is the number of nodes")
    ctx.check(distinct_objs(nodes), "nodes are not shared")
    f = t.fitness
    ctx.check(isinstance(f, GPFitness) and eq(f.bloat_weight, w) and
              f.higher_is_better is higher and not f.is_fitness_evaluated(),
              "fresh fitness with the bloat weight and direction")
    ctx.check(t.root_type is S.get("root"), "root type")
    ctx.check(t.update_parents is False, "parents on request only")


def mk(ctx, cls, S, depth, erc, w, **kw):
    return cls(init_depth=depth, function_set=list(S["f"]), terminal_set=dict(
        S["t"]) if isinstance(S["t"], dict) else list(S["t"]),
        erc_range=erc, bloat_weight=w, root_type=S.get("root"), **kw)


def create(ctx, method, s, depth, n=1, erc=None, higher=False, times=1,
           free=None, prune="sym", w0=False, ns=None):
    if free is not None:
        ctx.flags["idx_free"] = free
    S = SETS[s]
    w = 0.0 if w0 else ctx.real("w", 0)
    e = erc_range(ctx, erc)
    kw = {}
    if method == "grow":
        kw["p_prune"] = ctx.real("p", 0, 1) if prune == "sym" else prune
    cr = mk(ctx, FullCreator if method == "full" else GrowCreator, S, depth,
            e, w, **kw)
    allt = []
    for n in (ns or [n] * times):
        try:
            ts = cr.create_individuals(n, higher)
        except ValueError:
            ctx.check(bool(S.get("gap")), "creation fails only when the sets "
                      "admit no tree")
            return
        ctx.check(len(ts) == n, "as many trees as asked for")
        for t in ts:
            ctx.check(type(t) is Tree, "trees")
            check_tree(ctx, t, S, e, depth[0] if method == "grow" else
                       depth[1], depth[1],
                       depth[1] if method == "full" else None, w, higher)
            if method == "grow" and prune == 0:
                ctx.check(min(leaf_depths(t.tree)) == depth[1],
                          "no pruning: full")
            if method == "grow" and prune == 1:
                ctx.check(max(leaf_depths(t.tree)) == depth[0],
                          "always pruned: minimal")
        allt += ts
    ctx.check(distinct_objs([x for t in allt for x in
                             [t, t.tree, t.fitness] + t.tree]),
              "trees are independent")


def half(ctx, s, depth, n, erc=None, higher=False, times=1, own=False,
         free=None, prune="sym", ns=None):
    """``ns``: sizes of the populations created in turn by one creator."""
    if free is not None:
        ctx.flags["idx_free"] = free
    S = SETS[s]
    w = ctx.real("w", 0)
    e = erc_range(ctx, erc)
    lo, hi = depth
    kw = {}
    if own or prune != "sym":
        p = ctx.real("p", 0, 1) if prune == "sym" else prune
        kw = dict(grow_creator=mk(ctx, GrowCreator, S, depth, e, w,
                                  p_prune=p))
        if own:
            kw["full_creator"] = mk(ctx, FullCreator, S, depth, e, w)
    cr = mk(ctx, HalfCreator, S, depth, e, w, **kw)
    m = hi + 1 - lo
    for n in (ns or [n] * times):
        if n < 2 * m:
            ctx.check(raises(ValueError, lambda: cr.create_individuals(
                n, higher)), "too few individuals are refused")
            continue
        ts = cr.create_individuals(n, higher)
        ctx.check(len(ts) == n, "as many trees as asked for")
        ds = []
        for t in ts:
            check_tree(ctx, t, S, e, lo, hi, None, w, higher)
            ds.append(leaf_depths(t.tree))
        g = n // (2 * m)
        for k, d in enumerate(range(lo, hi + 1)):
            rest = n - 2 * g * m if d == hi else 0
            ctx.check(sum(all(x == d for x in l) for l in ds) >= g + rest,
                      "a group of full trees for every depth")
            ctx.check(sum(max(l) <= d for l in ds) >= 2 * g * (k + 1),
                      "depths are ramped")
            if prune == 0:
                ctx.check(sum(all(x == d for x in l) for l in ds) >= 2 * g,
                          "the given creator grows: it never prunes")
        if prune == 1:
            ctx.check(sum(all(x == lo for x in l) for l in ds) >= g * m,
                      "the given creator grows: it always prunes")
        ctx.check(distinct_objs([x for t in ts for x in
                                 [t, t.tree, t.fitness] + t.tree]),
                  "trees are independent")


def default_depth(ctx, method):
    """Without a depth range trees of depth 2 to 4 are created."""
    ctx.flags["idx_free"] = 0
    cls = FullCreator if method == "full" else GrowCreator
    kw = {} if method == "full" else dict(p_prune=ctx.choose(2, "p"))
    up = ctx.choose(2, "up") == 1
    t, = cls(function_set=[u_inc], terminal_set=["x"], update_parents=up,
             **kw).create_individuals(1, True)
    d = 4 if method == "full" or not kw["p_prune"] else 2
    ctx.check(leaf_depths(t.tree) == [d], "default depths")
    ctx.check(t.fitness.bloat_weight == 0 and t.fitness.higher_is_better is
              True and t.root_type is None and t.erc_range is None,
              "by default size does not matter and trees are untyped")
    ctx.check(t.update_parents is up and (not up or t.parents == []),
              "parents on request only")


def default_half(ctx):
    """Without a depth range the trees are ramped from depth 2 to 4."""
    ctx.flags["idx_free"] = 0
    ts = HalfCreator(function_set=[u_inc], terminal_set=["x"]
                     ).create_individuals(6, False)
    ds = [leaf_depths(t.tree)[0] for t in ts]
    ctx.check(len(ts) == 6 and all(2 <= d <= 4 for d in ds) and all(
        d in ds for d in (2, 3, 4)), "default depths")
    ctx.check(all(t.fitness.bloat_weight == 0 for t in ts),
              "by default size does not matter")


def draw_nodes(ctx, s, erc=None):
    """random_function and random_terminal respect the requested type."""
    S = SETS[s]
    e = erc_range(ctx, erc)
    t = Tree(fitness=GPFitness(), function_set=list(S["f"]),
             terminal_set=dict(S["t"]) if isinstance(S["t"], dict) else
             list(S["t"]), erc_range=e, root_type=S.get("root"))
    from typing import get_type_hints
    for ty in (None, float, int, bool, str):
        fs = [f for f in S["f"] if get_type_hints(f).get("return") is ty]
        n = t.random_function(ty)
        ctx.check((n is None) == (not fs), "a function iff there is one")
        if n is not None:
            ctx.check(any(n.function is f for f in fs), "of the right type")
            ctx.check(n.node_type is ty, "node type")
        dt = S["t"] if isinstance(S["t"], dict) else dict.fromkeys(S["t"])
        ts = [k for k, v in dt.items() if v is ty]
        ec = e is not None and (ty is None or (ty is int and erc == "int") or
                                (ty is float and erc == "float"))
        n = t.random_terminal(ty)
        ctx.check((n is None) == (not ts and not ec),
                  "a terminal iff there is one")
        if n is not None:
            ctx.check(n.node_type is ty, "node type")
            if isinstance(n.value, str):
                ctx.check(n.value in ts, "a terminal of the type")
            else:
                cs = [c for c in ts if not isinstance(c, str)]
                ctx.check(lor(between(e[0], n.value, e[1]) if ec else False,
                              *[eq(n.value, c) for c in cs]),
                          "a constant of the type")
                if ty is not None:
                    ctx.check(value_type_ok(n.value, ty), "value type")


def jobs(tier):
    for m in ("full", "grow"):
        yield "default_depth", dict(method=m)
    yield "default_half", {}
    for s in SETS:
        for d in (0, 1, 2):
            yield "create", dict(method="full", s=s, depth=(0, d)), {
                "weight": d}
        for d in ((0, 0), (0, 1), (1, 1), (0, 2), (1, 2), (2, 2)):
            if SETS[s].get("root") and d[0] == 0 and s not in ("tf",):
                pass
            yield "create", dict(method="grow", s=s, depth=d), {
                "weight": 3 * d[1]}
        yield "draw_nodes", dict(s=s)
    for s, e in (("u2", "int"), ("u2", "float"), ("uc", "float"),
                 ("tn", "int"), ("tn", "float"), ("tconst", "int")):
        yield "draw_nodes", dict(s=s, erc=e)
        yield "create", dict(method="full", s=s, depth=(1, 1), erc=e)
        yield "create", dict(method="grow", s=s, depth=(0, 1), erc=e,
                             times=1, higher=True)
        yield "create", dict(method="grow", s=s, depth=(1, 2), erc=e,
                             free=4, prune=0), {"weight": 4}
    for m in ("full", "grow"):
        yield "create", dict(method=m, s="u2", depth=(1, 1), n=3,
                             higher=True)
        yield "create", dict(method=m, s="u1", depth=(1, 2), n=2, times=2)
        yield "create", dict(method=m, s="u1", depth=(0, 1), n=0)
    yield "create", dict(method="full", s="u2", depth=(2, 3)), {"weight": 9}
    yield "create", dict(method="full", s="tf", depth=(2, 3)), {"weight": 9}
    yield "create", dict(method="grow", s="u1", depth=(1, 4)), {"weight": 9}
    yield "create", dict(method="grow", s="u2", depth=(1, 3)), {"weight": 9}
    for s in ("u3", "tf", "tn"):
        yield "create", dict(method="full", s=s, depth=(2, 7), free=2), {
            "weight": 9}
        yield "create", dict(method="grow", s=s, depth=(2, 7), free=2,
                             prune=0), {"weight": 9}
        yield "create", dict(method="grow", s=s, depth=(6, 7), free=2,
                             prune=1), {"weight": 9}
    for d, n in (((1, 1), 2), ((1, 1), 1), ((1, 1), 3), ((0, 1), 4),
                 ((1, 2), 4), ((1, 2), 3), ((1, 2), 6), ((0, 2), 6),
                 ((1, 3), 6)):
        yield "half", dict(s="u1", depth=d, n=n), {"weight": 4}
    yield "create", dict(method="full", s="u1", depth=(1, 20))
    yield "create", dict(method="grow", s="u1", depth=(0, 20), w0=True)
    yield "create", dict(method="grow", s="u1", depth=(19, 20))
    yield "half", dict(s="u1", depth=(18, 20), n=7, prune=0, free=0)
    yield "half", dict(s="u1", depth=(1, 2), n=9), {"weight": 9}
    yield "half", dict(s="u1", depth=(1, 2), n=4, times=2), {"weight": 9}
    for ns in ((2, 5), (6, 2), (2, 6), (1, 4), (4, 1)):
        yield "half", dict(s="u1", depth=(1, 1), n=0, ns=ns, free=0,
                           prune=0), {"weight": 4}
    yield "half", dict(s="u1", depth=(1, 2), n=0, ns=(4, 9), free=0,
                       prune=1), {"weight": 9}
    for m in ("full", "grow"):
        for ns in ((1, 3), (3, 1), (0, 2)):
            yield "create", dict(method=m, s="u1", depth=(1, 1), ns=ns)
    yield "half", dict(s="u2", depth=(1, 1), n=2, erc="int"), {"weight": 9}
    yield "half", dict(s="u2", depth=(1, 2), n=4, own=True), {"weight": 9}
    yield "half", dict(s="tf", depth=(1, 2), n=4, higher=True), {
        "weight": 9}
    yield "half", dict(s="u3", depth=(2, 5), n=20, free=2, prune=0), {
        "weight": 9}
    yield "half", dict(s="tf", depth=(2, 4), n=27, free=1, prune=1,
                       higher=True), {"weight": 9}
    if tier == "thorough":
        yield "create", dict(method="full", s="u3", depth=(2, 3)), {
            "budget": 900}
        yield "create", dict(method="full", s="tb", depth=(2, 3)), {
            "budget": 900}
        yield "create", dict(method="full", s="tn", depth=(2, 3)), {
            "budget": 900}
        for s in ("u3", "tf", "tb", "tn", "u4"):
            yield "create", dict(method="grow", s=s, depth=(1, 3)), {
                "budget": 1200}
        yield "half", dict(s="tf", depth=(1, 2), n=5, own=True), {
            "budget": 900}
        yield "half", dict(s="u1", depth=(1, 4), n=8), {"budget": 900}
        yield "half", dict(s="u1", depth=(1, 3), n=13), {"budget": 900}
        yield "half", dict(s="u2", depth=(0, 2), n=6), {"budget": 900}
        for s in ("u3", "tf", "tn"):
            yield "create", dict(method="full", s=s, depth=(2, 8), free=3), {
                "budget": 900}
