"""C14: executing a tree is evaluating the expression it stands for."""
import numpy as np
from props.common import *
from eckity.genetic_encodings.gp.tree.utils import (
    create_terminal_set, generate_args)

BOUNDS = ("trees of 1-13 nodes of functions of 1-3 arguments, untyped and "
          "typed, with any int / real inputs and constants; keyword inputs "
          "and arrays of 1-3 rows x 1-3 columns; chains of 80 nodes and "
          "complete trees of depth 6; any subset of 3 variables missing or "
          "extra; trees built node by node with an arbitrary node at any "
          "position; running again after the inputs, nodes, shape, "
          "variables or the contents of the matrix changed")
OUTSIDE = "numpy broadcasting inside user functions; rounding"

F, T = FunctionNode, TerminalNode


def f_sub(x, y):
    return x - y


def f_pick(x, y, z):
    return x + y * 2 - z * 3


def f_neg(x):
    return -x


def g_sub(x, y):
    return y + x


def g_pick(x, y, z):
    return z - x + y * 5


def g_neg(x):
    return x + x


U = (f_sub, f_pick, f_neg)


def shape(ctx, name):
    c = lambda: T(ctx.real("c"))   # noqa: E731
    k = lambda: T(ctx.int("k"))    # noqa: E731
    x, y = (lambda: T("x")), (lambda: T("y"))
    return {
        "x": lambda: [x()],
        "c": lambda: [c()],
        "k": lambda: [k()],
        "neg": lambda: [F(f_neg), y()],
        "sub": lambda: [F(f_sub), x(), y()],
        "subr": lambda: [F(f_sub), y(), x()],
        "subc": lambda: [F(f_sub), x(), c()],
        "pick": lambda: [F(f_pick), x(), y(), k()],
        "mid": lambda: [F(f_pick), x(), F(f_neg), y(), k()],
        "mids": lambda: [F(f_pick), F(f_neg), x(), F(f_sub), F(f_neg),
                         F(f_neg), y(), x(), F(f_sub), x(), c()],
        "left": lambda: [F(f_sub), F(f_sub), x(), y(), c()],
        "right": lambda: [F(f_sub), x(), F(f_sub), y(), c()],
        "mix": lambda: [F(f_pick), F(f_neg), x(), F(f_sub), y(), k(),
                        F(f_pick), x(), c(), y()],
        "deep": lambda: [F(f_neg), F(f_neg), F(f_sub), x(), F(f_neg),
                         F(f_pick), y(), y(), x()],
        "both": lambda: [F(f_pick), F(f_pick), x(), y(), x(), F(f_pick),
                         y(), c(), x(), F(f_pick), k(), x(), y()],
        "chain": lambda: [F(f_neg)] * 0 + [F(f_neg) for _ in range(80)] +
        [x()],
        "full": lambda: full(6),
        "comb": lambda: [n for _ in range(30) for n in (F(f_sub), y())] +
        [x()],
    }[name]()


def full(d, i=0):
    if d == 0:
        return [T("x" if i % 3 else "y")]
    return [F(f_sub)] + full(d - 1, 2 * i) + full(d - 1, 2 * i + 1)


def value(nodes, env):
    """Reference evaluation: (value, order in which functions are called)."""
    order = []

    def rec(pos):
        n = nodes[pos]
        if isinstance(n, FunctionNode):
            from inspect import signature
            args, end = [], pos + 1
            for _ in signature(n.function).parameters:
                v, end = rec(end)
                args.append(v)
            order.append((n.function.__name__, args))
            return n.function(*args), end
        if isinstance(n.value, str):
            return env[n.value], pos + 1
        return n.value, pos + 1
    return rec(0)[0], order


def mk(ctx, name, terms=("x", "y")):
    return tree_ind(shape(ctx, name), functions=U, terminals=terms)


def kwargs(ctx, name, kind="real"):
    mkv = ctx.real if kind == "real" else ctx.int
    env = {"x": mkv("x"), "y": mkv("y")}
    t = mk(ctx, name)
    want, _ = value(t.tree, env)
    nodes, vals = list(t.tree), [node_key(n) for n in t.tree]
    got = t.execute(**env)
    ctx.check(eq(got, want), "execute evaluates the expression")
    ctx.check(eq(t.execute(y=env["y"], x=env["x"]), want),
              "order of the keyword arguments does not matter")
    env2 = {"x": mkv("x2"), "y": mkv("y2")}
    ctx.check(eq(t.execute(**env2), value(t.tree, env2)[0]),
              "a second execution uses its own inputs")
    ctx.check(len(t.tree) == len(nodes) and all(
        a is b for a, b in zip(t.tree, nodes)) and all(
        a is b for a, b in zip([node_key(n) for n in t.tree], vals)),
        "executing does not change the tree")
    ctx.check(t.size() == len(nodes), "size")
    ctx.check(t.depth() == max(leaf_depths(nodes)), "depth")


def calls(ctx, name):
    """Functions run once per node, arguments first, left to right."""
    log = []

    def spy(f):
        if f.__name__ == "f_neg":
            def g(x):
                log.append(("f_neg", [x]))
                return f(x)
        elif f.__name__ == "f_sub":
            def g(x, y):
                log.append(("f_sub", [x, y]))
                return f(x, y)
        else:
            def g(x, y, z):
                log.append(("f_pick", [x, y, z]))
                return f(x, y, z)
        g.__name__ = f.__name__
        return g
    table = {f: spy(f) for f in U}
    nodes = [F(table[n.function]) if isinstance(n, FunctionNode) else n
             for n in shape(ctx, name)]
    t = tree_ind(nodes, functions=list(table.values()))
    env = {"x": ctx.real("x"), "y": ctx.real("y")}
    t.execute(**env)
    seen, log[:] = list(log), []
    _, order = value(nodes, env)
    ctx.check(len(seen) == len(order) and all(
        a[0] == b[0] for a, b in zip(seen, order)),
        "every function runs once, arguments first, left to right")
    ctx.check(land(*[eq(a[1], b[1]) for a, b in zip(seen, order)]),
              "each function gets the values of its own arguments")


def array(ctx, name, rows, cols, dtype="obj"):
    terms = [f"x{i}" for i in range(cols)]
    nodes = []
    for n in shape(ctx, name):
        if isinstance(n, TerminalNode) and isinstance(n.value, str):
            nodes.append(T({"x": "x0", "y": f"x{cols - 1}"}[n.value]))
        else:
            nodes.append(n)
    t = tree_ind(nodes, functions=U, terminals=terms)
    X = np.empty((rows, cols), dtype=object)
    for r in range(rows):
        for c in range(cols):
            X[r, c] = ctx.real("X")
    keep = [list(row) for row in X]
    out = t.execute(X)
    ctx.check(np.shape(out) == (rows,), "one value per row")
    for r in range(rows):
        env = {f"x{c}": X[r, c] for c in range(cols)}
        ctx.check(eq(out[r], value(nodes, env)[0]),
                  "each row is evaluated on its own data")
    ctx.check(all(a is b for p, q in zip(keep, X) for a, b in zip(p, q)),
              "the data is not changed")


def const_array(ctx, rows, data):
    """A constant tree gives its value for every row, on any data."""
    c = ctx.real("c")
    t = tree_ind([T(c)], functions=U, terminals=["x0", "x1"])
    X = {"int": np.arange(2 * rows).reshape(rows, 2),
         "float": np.ones((rows, 2)),
         "bool": np.ones((rows, 2), dtype=bool)}[data]
    out = t.execute(X)
    ctx.check(np.shape(out) == (rows,), "one value per row")
    ctx.check(land(*[eq(out[i], c) for i in range(rows)]),
              "the constant keeps its value")


def again(ctx, name, what):
    """A tree that ran before runs as it is now, on what it is given."""
    t = mk(ctx, name)
    env = {"x": ctx.real("x"), "y": ctx.real("y")}
    ctx.check(eq(t.execute(**env), value(t.tree, env)[0]), "first run")
    ctx.check(t.depth() == max(leaf_depths(t.tree)) and
              t.size() == len(t.tree), "depth and size")
    str(t)
    if what == "input":
        env["y"] = ctx.real("y2")
    elif what == "node":
        t.tree[-1] = T(ctx.real("c"))
    elif what == "value":
        t.tree[-1].value = ctx.real("c")
    elif what == "function":
        f = t.tree[0]
        if not isinstance(f, FunctionNode):
            return
        t.tree[0] = F({f_sub: g_sub, f_neg: g_neg, f_pick: g_pick}[
            f.function])
    elif what == "subtree":
        t.tree[-1:] = [F(f_sub), T("x"), T(ctx.real("c"))]
    elif what == "root":
        t.tree = [F(f_sub), T("y")] + t.tree
    elif what == "clone":
        c = t.clone()
        ctx.check(eq(c.execute(**env), value(c.tree, env)[0]), "its clone")
        c.tree = [F(f_neg)] + c.tree
        ctx.check(eq(c.execute(**env), value(c.tree, env)[0]),
                  "the changed clone")
    elif what == "array":
        X = np.empty((2, 2), dtype=object)
        for r in range(2):
            for c in range(2):
                X[r, c] = ctx.real("X")
        t.terminal_set = {"x0": None, "x1": None}
        for n in t.tree:
            if isinstance(n, TerminalNode) and isinstance(n.value, str):
                n.value = {"x": "x0", "y": "x1"}[n.value]
        for rows in ((0, 1), (1,), (1, 0)):
            out = t.execute(X[list(rows)])
            ctx.check(np.shape(out) == (len(rows),), "one value per row")
            for k, r in enumerate(rows):
                e = {"x0": X[r, 0], "x1": X[r, 1]}
                ctx.check(eq(out[k], value(t.tree, e)[0]),
                          "each row on its own data")
        return
    elif what == "error":
        for bad in ({"x": env["x"]}, dict(env, w=env["x"]), {}):
            ctx.check(raises(ValueError, lambda: t.execute(**bad)),
                      "missing or unknown variables are refused")
    elif what == "terminals":
        t.terminal_set = {"x": None, "y": None, "w": None}
        ctx.check(raises(ValueError, lambda: t.execute(**env)),
                  "the variables of the present terminal set are needed")
        env["w"] = ctx.real("w")
    else:
        o = mk(ctx, what)
        ctx.check(eq(o.execute(**env), value(o.tree, env)[0]),
                  "another tree")
    ctx.check(eq(t.execute(**env), value(t.tree, env)[0]),
              "the tree runs as it is now")
    ctx.check(t.depth() == max(leaf_depths(t.tree)), "depth as it is now")
    ctx.check(t.size() == len(t.tree), "size as it is now")


RESHAPED = {
    # pairs of expressions of one size and root
    "sub": lambda x, y, c: (
        [F(f_sub), F(f_neg), F(f_neg), x, y],
        [F(f_sub), F(f_neg), y, F(f_neg), x],
        [F(f_sub), c, F(f_sub), x, y]),
    "pick": lambda x, y, c: (
        [F(f_pick), F(f_neg), F(f_neg), x, y, c],
        [F(f_pick), x, F(f_neg), y, F(f_neg), c],
        [F(f_pick), F(f_sub), y, x, y, c]),
}


def reshaped(ctx, name):
    """The shape of a tree changes, its size and root do not."""
    a, b, c = RESHAPED[name](T("x"), T("y"), T(ctx.real("c")))
    t = tree_ind(list(a), functions=U, terminals=("x", "y"))
    env = {"x": ctx.real("x"), "y": ctx.real("y")}
    for nodes in (a, b, c, a):
        t.tree[:] = nodes
        ctx.check(eq(t.execute(**env), value(nodes, env)[0]),
                  "the tree runs as it is now")
        ctx.check(t.depth() == max(leaf_depths(nodes)), "depth")
        ctx.check(t.size() == len(nodes), "size")
        expr = str(t).split("return", 1)[1]
        names = [n.function.__name__ if isinstance(n, FunctionNode) else
                 n.value for n in nodes]
        pos = [expr.find(w) for w in names if isinstance(w, str)]
        ctx.check(all(p >= 0 for p in pos), "prints every node")


def edited(ctx, name):
    """One matrix, edited in place between runs."""
    t = tree_ind([T({"x": "x0", "y": "x1"}[n.value]) if isinstance(
        n, TerminalNode) and isinstance(n.value, str) else n
        for n in shape(ctx, name)], functions=U, terminals=("x0", "x1"))
    X = np.empty((2, 2), dtype=object)
    for k in range(3):
        for r in range(2):
            for c in range(2):
                if k == 0 or (r, c) == (k - 1, 1):
                    X[r, c] = ctx.real("X")
        out = t.execute(X)
        for r in range(2):
            e = {"x0": X[r, 0], "x1": X[r, 1]}
            ctx.check(eq(out[r], value(t.tree, e)[0]),
                      "the data is what it is now")


def missing(ctx, const):
    """Exactly the variables of the terminal set must be given."""
    terms = ["x", "y", "z"] + ([5, -1.5] if const else [])
    t = tree_ind([F(f_sub), T("x"), T("y")], functions=U, terminals=terms)
    names = ["x", "y", "z", "w", "v"]
    given = {k: ctx.real(k) for k in names if ctx.choose(2, "has_" + k)}
    ok = set(given) == {"x", "y", "z"}
    if ok:
        ctx.check(eq(t.execute(**given), given["x"] - given["y"]), "runs")
    else:
        ctx.check(raises(ValueError, lambda: t.execute(**given)),
                  "missing or unknown variables are refused")


def bad_use(ctx):
    e = tree_ind([], functions=U)
    ctx.check(raises(ValueError, lambda: e.execute(x=1, y=2)),
              "an empty tree cannot be executed")
    t = tree_ind([F(f_sub), T("x0"), T("x1")], functions=U,
                 terminals=["x0", "x1"])
    for bad in (5, "abc", [1, 2], None, np.zeros(3)):
        ctx.check(raises(ValueError, lambda: t.execute(bad)),
                  "anything but a 2-d array is refused")
    for cols in (1, 3):
        ctx.check(raises(ValueError, lambda: t.execute(np.zeros((2, cols)))),
                  "arrays with the wrong number of columns are refused")


def typed(ctx, name):
    sets = dict(functions=(t_fadd, t_ite, t_flt, t_scale, t_iadd),
                terminals={"x": float, "b": bool, "n": int})
    nodes = {
        "ite": lambda: [F(t_ite), F(t_flt), T("x", float),
                        T(ctx.real("c"), float), T("x", float),
                        T(ctx.real("c"), float)],
        "iteb": lambda: [F(t_ite), T("b", bool), F(t_fadd), T("x", float),
                         T("x", float), T("x", float)],
        "scale": lambda: [F(t_scale), T("x", float), F(t_iadd), T("n", int),
                          T(ctx.int("k"), int)],
    }[name]()
    t = tree_ind(nodes, root_type=float, **sets)
    env = {"x": ctx.real("x"), "b": ctx.bool("b"), "n": ctx.int("n")}
    ctx.check(eq(t.execute(**env), value(nodes, env)[0]),
              "execute evaluates the expression")


MANY_DIGITS = (0.1234567891234, -1e-12, 123456789.125, 10 ** 17 + 1)


def printed(ctx, name, consts, digits=False):
    """The printed program computes what the tree computes."""
    nodes = shape(ctx, name)
    k = 0
    for n in nodes:
        if isinstance(n, TerminalNode) and not isinstance(n.value, str):
            k += 1
            n.value = (MANY_DIGITS if digits else [2.5, -3, 0.125, 7])[k % 4]
    t = tree_ind(nodes, functions=U, terminals=["x", "y"] + (
        [1, 2.5] if consts else []))
    env = {"x": ctx.real("x"), "y": ctx.real("y")}
    s = str(t)
    ctx.check(f"func_{t.id}" in s and "return" in s, "prints a definition")
    expr = s.split("return", 1)[1].strip()
    got = eval(expr, {f.__name__: f for f in U}, dict(env))
    ctx.check(eq(got, value(nodes, env)[0]), "the printed expression is the "
              "program")
    ctx.check(repr(t) == s, "repr")
    if not consts:
        head = s.split("(", 1)[1].split(")", 1)[0]
        ctx.check([a.strip() for a in head.split(",")] == ["x", "y"],
                  "the arguments are the variables")


def t_three(c: bool, a: float, k: int) -> float:
    return a + k if c else a - k


def t_four(a: int, k: int, b: str, c: bool) -> int:
    return a


TS = dict(functions=(t_three, t_four, t_fadd, t_ite, t_flt, t_not),
          terminals={"x": float, "b": bool, "k": int, "w": str})


def build(ctx, k, n):
    """add_tree accepts a node exactly where its type fits."""
    seqs = [
        [F(t_ite), F(t_flt), T("x", float), T("x", float), T("x", float),
         F(t_fadd), T("x", float), T("x", float)],
        [F(t_ite), F(t_not), F(t_not), T("b", bool), T("x", float),
         T("x", float)],
        [F(t_fadd), F(t_ite), T("b", bool), T("x", float), T("x", float),
         T("x", float)],
        [F(t_three), T("b", bool), F(t_three), T("b", bool), T("x", float),
         F(t_four), T(1, int), T(2, int), T("w", str), F(t_not),
         T("b", bool), T(3, int)],
    ]
    nodes = seqs[k]
    t = tree_ind([], root_type=float, **TS)
    for i, nd in enumerate(nodes[:n]):
        t.add_tree(nd)
        ctx.check(t.size() == i + 1 and t.tree[i] is nd, "appended in order")
    mk1 = [lambda: T("x", float), lambda: T("b", bool), lambda: F(t_not),
           lambda: F(t_fadd), lambda: T(1, int), lambda: T("x"),
           lambda: T("w", str), lambda: F(t_four)]
    cand = ctx.pick(mk1, "cand")()
    if n == len(nodes):
        ok = False
    else:
        ok = cand.node_type is nodes[n].node_type
    if n == 0:
        return
    if ok:
        t.add_tree(cand)
        ctx.check(t.size() == n + 1 and t.tree[n] is cand, "appended")
    else:
        ctx.check(raises(ValueError, lambda: t.add_tree(cand)),
                  "a node that does not fit is refused")
        ctx.check(t.size() == n and all(a is b for a, b in zip(
            t.tree, nodes)), "and nothing changes")


def untyped_build(ctx):
    t = tree_ind([], functions=U)
    for nd in (F(f_sub), F(f_neg), T("x"), T("y")):
        t.add_tree(nd)
    env = {"x": ctx.real("x"), "y": ctx.real("y")}
    ctx.check(eq(t.execute(**env), -env["x"] - env["y"]), "runs")
    ctx.check(raises(ValueError, lambda: t.add_tree(T("x"))),
              "a complete tree takes no more nodes")
    t.empty_tree()
    ctx.check(t.size() == 0, "emptied")


def helpers(ctx, rows, cols):
    X = np.arange(rows * cols).reshape(rows, cols)
    ctx.check(create_terminal_set(X) == [f"x{i}" for i in range(cols)],
              "one terminal per column")
    ctx.check(create_terminal_set(X, typed=True) == {
        f"x{i}": int for i in range(cols)}, "typed terminals")
    ctx.check(create_terminal_set(X * 1.5, typed=True) == {
        f"x{i}": float for i in range(cols)}, "typed terminals")
    O = np.empty((rows, cols), dtype=object)
    for r in range(rows):
        for c in range(cols):
            O[r, c] = ctx.real("X")
    a = generate_args(O)
    ctx.check(list(a) == [f"x{i}" for i in range(cols)], "one per column")
    ctx.check(land(*[eq(a[f"x{c}"][r], O[r, c]) for r in range(rows)
                     for c in range(cols)]), "columns in order")


SMALL = ("x", "c", "k", "neg", "sub", "subr", "subc", "pick", "left", "mid",
         "mids",
         "right", "mix", "deep", "both")


def jobs(tier):
    for s in SMALL + ("chain", "full", "comb"):
        for k in ("real", "int"):
            yield "kwargs", dict(name=s, kind=k)
        yield "calls", dict(name=s)
        yield "printed", dict(name=s, consts=False)
        yield "printed", dict(name=s, consts=True)
        yield "printed", dict(name=s, consts=False, digits=True)
    for s in SMALL:
        for r, c in ((1, 1), (1, 2), (2, 2), (3, 3)):
            yield "array", dict(name=s, rows=r, cols=c)
    for d in ("int", "float", "bool"):
        for r in (1, 3):
            yield "const_array", dict(rows=r, data=d)
    for s in ("x", "subc", "mid", "deep"):
        for what in ("input", "node", "value", "function", "subtree", "root",
                     "clone", "array", "error", "terminals", "subr"):
            yield "again", dict(name=s, what=what)
        yield "edited", dict(name=s)
    for s in RESHAPED:
        yield "reshaped", dict(name=s)
    yield "missing", dict(const=False)
    yield "missing", dict(const=True)
    yield "bad_use", {}
    for n in ("ite", "iteb", "scale"):
        yield "typed", dict(name=n)
    for k, m in ((0, 8), (1, 6), (2, 6), (3, 12)):
        for n in range(m + 1):
            yield "build", dict(k=k, n=n)
    yield "untyped_build", {}
    for r, c in ((1, 1), (2, 3), (3, 12)):
        yield "helpers", dict(rows=r, cols=c)
    if tier == "thorough":
        for s in SMALL + ("chain", "full", "comb"):
            for r, c in ((8, 2), (2, 5)):
                yield "array", dict(name=s, rows=r, cols=c)
