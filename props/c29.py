"""C29: editing a genome changes exactly what was asked for."""
from props.common import *
from props.c13 import mk, trees, values, is_, closed, possible, UF, TF, TT

BOUNDS = ("every history of 1-3 (thorough 4) edits of a vector of 0-3 "
          "arbitrary cells, with parts of 0-3 cells at every position and "
          "every random position; vectors of 20 cells; int, float and bit "
          "vectors; every window of vectors of 1-5 cells; trees of 1-7 nodes "
          "and of 21 and 40 nodes, every subtree exchanged for every other "
          "subtree; bits of any two-valued bounds")
OUTSIDE = ("parts that reach beyond the end of a vector; which of several "
           "equal subtrees is meant; probabilities of the random choices")

F, T = FunctionNode, TerminalNode
OPS = ("set", "add", "empty", "cell", "part", "random", "clone")


def cell(ctx, kind):
    return {"int": lambda: ctx.int("g"), "float": lambda: ctx.real("g"),
            "bit": lambda: ctx.int("g", 0, 1)}[kind]()


def reads(ctx, v, model):
    """What can be asked about a vector is what the list says."""
    n = len(model)
    ctx.check(v.size() == n and v.length == n and len(v.vector) == n,
              "size and length are the number of cells")
    ctx.check(eq(list(v.get_vector()), model), "the genome")
    ctx.check(eq(list(v.execute()), model) and eq(
        list(v.execute(1, x=2)), model), "executing gives the genome")
    for i in range(n):
        ctx.check(eq(v.cell_value(i), model[i]), "cell_value")
        for j in range(i, n + 1):
            part = v.get_vector_part(i, j)
            ctx.check(eq(list(part), model[i:j]), "get_vector_part")
            part.append(7)  # it is the caller's own
    ctx.check(eq(list(v.vector), model), "reading changes nothing")


def history(ctx, kind, n, steps):
    """Arbitrary edits against a plain list."""
    b = (0, 1) if kind == "bit" else (-10 ** 6, 10 ** 6)
    model = [cell(ctx, kind) for _ in range(n)]
    v = VEC[kind](SimpleFitness(ctx.real("s")), length=n, bounds=b,
                  vector=list(model))
    others, parts = [], []
    for _ in range(steps):
        op = ctx.pick(OPS, "op")
        n = len(model)
        if op == "set":
            model = [cell(ctx, kind) for _ in range(ctx.choose(4, "len"))]
            v.set_vector(list(model))
        elif op == "add":
            c = cell(ctx, kind)
            model = model + [c]
            v.add_cell(c)
        elif op == "empty":
            model = []
            v.empty_vector()
        elif op == "cell":
            if not n:
                continue
            i, c = ctx.choose(n, "i"), cell(ctx, kind)
            model = model[:i] + [c] + model[i + 1:]
            v.set_cell_value(i, c)
        elif op == "part":
            i = ctx.choose(n + 1, "i")
            k = ctx.choose(n - i + 1, "k")
            part = [cell(ctx, kind) for _ in range(k)]
            given = list(part)
            got = v.replace_vector_part(given, i)
            ctx.check(eq(list(got), model[i:i + k]), "the replaced part")
            ctx.check(eq(given, part), "the inserted part is not changed")
            parts += [(given, list(part)), (got, list(model[i:i + k]))]
            model = model[:i] + part + model[i + k:]
        elif op == "random":
            k = ctx.choose(n + 1, "k")
            part = [cell(ctx, kind) for _ in range(k)]
            given = list(part)
            got = v.replace_vector_part_random(given)
            new = list(v.vector)
            parts += [(given, list(part)), (got, list(got))]
            ctx.check(len(new) == n, "same size")
            ctx.check(lor(*[land(eq(new, model[:a] + part + model[a + k:]),
                                 eq(list(got), model[a:a + k]))
                            for a in range(n - k + 1)]),
                      "one window is replaced")
            model = new
        else:
            others.append((v, list(model)))
            v = v.clone()
        ctx.check(v.size() == len(model), "size")
    reads(ctx, v, model)
    for o, m in others:
        reads(ctx, o, m)
    for p, m in parts:
        ctx.check(eq(list(p), m), "parts put in and taken out stay as they "
                  "were")
    for p, m in parts:
        # and they are the caller's own
        p[:] = [cell(ctx, kind)]
    reads(ctx, v, model)


def windows(ctx, n, kind="int"):
    """Random parts are exactly the contiguous non-empty parts."""
    g = list(range(n)) if kind != "bit" else [i % 2 for i in range(n)]
    v = VEC[kind](SimpleFitness(), length=n, bounds=(0, 99), vector=list(g))
    if kind != "bit":
        ctx.require(f"{a}-{b}" for a in range(n)
                    for b in range(a + 1, n + 1))
    r = v.random_vector_part()
    ctx.check(len(r) >= 1 and any(list(r) == g[a:a + len(r)]
                                  for a in range(n)), "a window")
    ctx.check(v.vector == g and v.size() == n, "nothing changes")
    if kind != "bit":
        ctx.cover(f"{r[0]}-{r[-1] + 1}")
    r[0] = 77
    r.append(5)
    ctx.check(v.vector == g and v.size() == n, "the part is the caller's own")


def positions(ctx, n, k):
    """A part can be inserted at every position it fits."""
    v = IntVector(SimpleFitness(), length=n, bounds=(0, 999),
                  vector=list(range(n)))
    ctx.require(str(a) for a in range(n - k + 1))
    v.replace_vector_part_random([100 + i for i in range(k)])
    w = v.vector
    ctx.check(len(w) == n and w[w.index(100):w.index(100) + k] == [
        100 + i for i in range(k)], "in one piece")
    ctx.cover(str(w.index(100)))


def long(ctx, n):
    """A long vector, one edit of each kind."""
    model = [ctx.int("g") if i % 7 == 0 else i for i in range(n)]
    v = IntVector(SimpleFitness(), length=n, bounds=(0, 999),
                  vector=list(model))
    i = ctx.choose(n, "i")
    c = ctx.int("c")
    v.set_cell_value(i, c)
    model[i] = c
    v.replace_vector_part([ctx.int("p")] * 0 + [7, 8, 9], n - 3)
    model[n - 3:] = [7, 8, 9]
    v.add_cell(5)
    model.append(5)
    ctx.check(v.size() == n + 1 and v.length == n + 1, "size")
    ctx.check(eq(v.vector, model), "genome")


def flip(ctx, per_cell, n=2):
    """Flipping twice is nothing; once is the other value."""
    def one():
        lo = ctx.int("lo")
        return (lo, lo + ctx.int("w", 1))
    b = [one() for _ in range(n)] if per_cell else one()
    g = [(b[i] if per_cell else b)[ctx.choose(2, "bit")] for i in range(n)]
    v = BitStringVector(SimpleFitness(), length=n, bounds=b, vector=list(g))
    for i in range(n):
        lo, hi = b[i] if per_cell else b
        r = v.bit_flip(i)
        ctx.check(eq(r, ite(g[i] == lo, hi, lo)), "the other value")
        ctx.check(eq(v.vector, g), "flipping only tells the value")
        v.set_cell_value(i, r)
        ctx.check(eq(v.bit_flip(i), g[i]), "and back")
        v.set_cell_value(i, g[i])


def ends(nodes):
    return [parse_tree(nodes, i)[0] for i in range(len(nodes))]


def subtree(ctx, name, ty=None):
    """random_subtree gives a complete subtree of the tree, of the type
    asked for, and changes nothing; in typed trees never the whole tree."""
    t = mk(ctx, name)
    old, vals = list(t.tree), values(t.tree)
    typed = old[0].node_type is not None
    ask = {"float": float, "int": int, "bool": bool, "str": str,
           None: None}[ty]
    got = t.random_subtree(ask) if ty else t.random_subtree()
    e = ends(old)
    fits = [i for i, n in enumerate(old) if not typed or (
        (ask is None or n.node_type is ask) and n != old[0])]
    ctx.check((got is None) == (not fits), "a subtree iff there is one")
    ctx.check(is_(t.tree, old) and all(a is b for a, b in zip(
        values(t.tree), vals)), "asking changes nothing")
    if got is None:
        return
    ctx.check(any(is_(list(got), old[i:e[i]]) for i in range(len(old))),
              "a complete subtree")
    if typed:
        ctx.check(got[0].node_type is (ask or got[0].node_type) and
                  len(got) < len(old), "of the type, not the whole tree")


def reach(ctx, name):
    """Every subtree (but for equal ones) can be chosen."""
    t = mk(ctx, name)
    nodes = list(t.tree)
    typed = nodes[0].node_type is not None
    seen = []
    for i, n in enumerate(nodes):
        if not any(n == nodes[j] for j in range(i)) and not (
                typed and n == nodes[0]):
            seen.append(i)
    ctx.require(str(i) for i in seen)
    got = t.random_subtree()
    ctx.cover(str([i for i, n in enumerate(nodes) if n is got[0]][0]))


def replace(ctx, name, new, free=None):
    """replace_subtree puts the new subtree exactly where the old one was."""
    t = mk(ctx, name)
    old = list(t.tree)
    e = ends(old)
    at = [i for i, n in enumerate(old) if not any(
        n == o for o in old[:i])]
    i = ctx.pick(at, "at")
    part = {"leaf": lambda: [T("y")], "const": lambda: [T(ctx.real("c"))],
            "deep": lambda: [F(u_inc), F(u_add), T("x"), T(ctx.int("k"))]
            }[new]()
    given = list(part)
    t.replace_subtree(old[i:e[i]], given)
    ctx.check(is_(t.tree, old[:i] + part + old[e[i]:]),
              "exactly that subtree is exchanged")
    ctx.check(is_(given, part), "the new subtree is not changed")
    ctx.check(t.size() == len(old) - (e[i] - i) + len(part), "size")
    ctx.check(t.depth() == max(leaf_depths(t.tree)), "depth")
    ctx.check(t.root is t.tree[0], "root")


def numeric(ctx, name):
    """get_random_numeric_node gives a numeric constant iff there is one."""
    t = mk(ctx, name)
    old, vals = list(t.tree), values(t.tree)
    got = t.get_random_numeric_node()
    nums = [n for n in old if isinstance(n, TerminalNode) and not isinstance(
        n.value, (str, bool)) and not is_sbool(n.value)]
    ctx.check((got is None) == (not nums), "a constant iff there is one")
    if got is not None:
        ctx.check(any(got is n for n in nums), "a constant of the tree")
    ctx.check(is_(t.tree, old) and all(a is b for a, b in zip(
        values(t.tree), vals)), "asking changes nothing")


def emptied(ctx, name):
    t = mk(ctx, name)
    c = t.clone()
    n = len(c.tree)
    t.empty_tree()
    ctx.check(t.size() == 0 and t.tree == [], "empty")
    ctx.check(c.size() == n, "its clone is not")


def jobs(tier):
    TH = tier == "thorough"
    for kind in ("int", "float", "bit"):
        for n in (0, 1, 2, 3):
            for s in (1, 2):
                yield "history", dict(kind=kind, n=n, steps=s)
    for n in (1, 2):
        yield "history", dict(kind="int", n=n, steps=3), {"weight": 9}
    for n in (1, 2, 3, 4, 5):
        yield "windows", dict(n=n)
        yield "windows", dict(n=n, kind="bit")
        for k in range(1, n + 1):
            yield "positions", dict(n=n, k=k)
    yield "windows", dict(n=20)
    yield "positions", dict(n=20, k=3)
    yield "long", dict(n=20)
    for pc in (False, True):
        yield "flip", dict(per_cell=pc)
    U = ("t1", "t1c", "t2", "t3", "t4", "t5", "t6", "t7", "tc", "tnp",
         "tfr")
    V = ("f1", "f3", "f4", "f5", "f6", "f7", "i3")
    for a in U + V:
        yield "subtree", dict(name=a)
        yield "numeric", dict(name=a)
        yield "emptied", dict(name=a)
        if a != "f1":
            yield "reach", dict(name=a)
    for a in V:
        for ty in ("float", "int", "bool", "str"):
            yield "subtree", dict(name=a, ty=ty)
    for a in U + ("chain40",):
        for new in ("leaf", "const", "deep"):
            yield "replace", dict(name=a, new=new)
    for a in ("chain40", "bush21"):
        yield "subtree", dict(name=a)
        yield "reach", dict(name=a)
    yield "replace", dict(name="bush21", new="deep")
    if TH:
        for kind in ("int", "float", "bit"):
            for n in (0, 1, 2, 3):
                yield "history", dict(kind=kind, n=n, steps=3), {
                    "budget": 900, "weight": 20}
            yield "history", dict(kind=kind, n=1, steps=4), {
                "budget": 900, "weight": 40}
        yield "windows", dict(n=60)
        yield "positions", dict(n=60, k=7)
        yield "long", dict(n=80)
