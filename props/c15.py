"""C15: the library's GP functions compute what they document."""
import math
import numpy as np
from props.common import *
from eckity.base import untyped_functions as UFN, typed_functions as TFN
from eckity.base.utils import arity

BOUNDS = ("every function of the base library on any real / int / Boolean "
          "arguments, as numbers, arrays of 1-2 elements and 2x1 and "
          "1x2 matrices, with any argument replaced "
          "by a constant; arrays of 60 and 3x3 with one arbitrary element; "
          "thresholds of the protected functions included; for functions that "
          "only choose or negate: every finite IEEE double; for one and two "
          "arguments: numbers from 5e-324 to 1e200")
OUTSIDE = ("rounding of arithmetic, NaN and infinities; sin, cos, tan, log and exp are "
           "uninterpreted (only their arguments are checked)")


def m(name, x):
    """The mathematical function, symbolic or native."""
    if is_sym(x):
        return getattr(x, name)()
    return getattr(math, name)(x)


def ab(x):
    return ite(x < 0, -x, x)


def b(x):
    return x != 0


def truth(t):
    return ite(t, 1, 0)


EPS = 0.001


def div(x, y):
    if ab(y) > EPS:
        return x / y
    return 0.0


def log(x):
    if ab(x) > EPS:
        return m("log", ab(x))
    return 0.0


R, I, B = "real", "int", "bool"
SPEC = {
    "f_add": (R * 1, 2, lambda x, y: x + y),
    "f_sub": (R, 2, lambda x, y: x - y),
    "f_mul": (R, 2, lambda x, y: x * y),
    "f_div": (R, 2, div),
    "f_sqrt": (R, 1, lambda x: m("sqrt", ab(x))),
    "f_log": (R, 1, log),
    "f_abs": (R, 1, ab),
    "f_neg": (R, 1, lambda x: -x),
    "f_inv": (R, 1, lambda x: div(1, x)),
    "f_max": (R, 2, lambda x, y: ite(x >= y, x, y)),
    "f_min": (R, 2, lambda x, y: ite(x <= y, x, y)),
    "f_sin": (R, 1, lambda x: m("sin", x)),
    "f_cos": (R, 1, lambda x: m("cos", x)),
    "f_tan": (R, 1, lambda x: m("tan", x)),
    "f_iflte0": (R, 3, lambda x, y, z: ite(x <= 0, y, z)),
    "f_ifgt0": (R, 3, lambda x, y, z: ite(x > 0, y, z)),
    "f_iflte": (R, 4, lambda x, y, z, w: ite(x <= y, z, w)),
    "f_ifgt": (R, 4, lambda x, y, z, w: ite(x > y, z, w)),
    "f_and": ("bit", 2, lambda x, y: truth(land(b(x), b(y)))),
    "f_or": ("bit", 2, lambda x, y: truth(lor(b(x), b(y)))),
    "f_not": (R, 1, lambda x: truth(lnot(b(x)))),
    "f_if_then_else": (R, 3, lambda t, x, y: ite(b(t), x, y)),
}
TYPED = {
    "add2floats": "f_add", "sub2floats": "f_sub", "mul2floats": "f_mul",
    "div2floats": "f_div", "sqrt_float": "f_sqrt", "log_float": "f_log",
    "abs_float": "f_abs", "neg_float": "f_neg", "inv_float": "f_inv",
    "max2floats": "f_max", "min2floats": "f_min", "sin_float": "f_sin",
    "cos_float": "f_cos", "tan_float": "f_tan", "iflte0_floats": "f_iflte0",
    "ifgt0_floats": "f_ifgt0", "iflte_floats": "f_iflte",
    "ifgt_floats": "f_ifgt", "not2floats": "f_not",
}
for _k, _v in TYPED.items():
    SPEC[_k] = SPEC[_v]
SPEC.update({
    "and2floats": (R, 2, lambda x, y: truth(land(b(x), b(y)))),
    "or2floats": (R, 2, lambda x, y: truth(lor(b(x), b(y)))),
    "and2ints": (I, 2, lambda x, y: truth(land(b(x), b(y)))),
    "or2ints": (I, 2, lambda x, y: truth(lor(b(x), b(y)))),
    "not2ints": (I, 1, lambda x: truth(lnot(b(x)))),
    "if_then_else3ints": (I, 3, lambda t, x, y: ite(b(t), x, y)),
    "if_then_else": ("mix", 3, lambda t, x, y: ite(t, x, y)),
    "and2bools": (B, 2, lambda x, y: truth(land(x, y))),
    "or2bools": (B, 2, lambda x, y: truth(lor(x, y))),
    "not2bools": (B, 1, lambda x: truth(lnot(x))),
    "if_then_else3bools": (B, 3, lambda t, x, y: ite(t, truth(x), truth(y))),
    "argmax2floats": (R, 2, lambda x, y: ite(x >= y, 0, 1)),
})


def find(name):
    return getattr(UFN if name.startswith("f_") else TFN, name)


def fresh(ctx, dom, i):
    if dom == "bit":
        return ctx.int("a", 0, 1)
    if dom == B or (dom == "mix" and i == 0):
        return ctx.bool("a")
    if dom == I:
        return ctx.int("a")
    return ctx.real("a")


def arr(xs):
    if not any(is_sym(x) for x in xs):
        return np.array(xs)
    a = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        a[i] = x
    return a


def same(r, w):
    """Numeric value of a result (bools count as 0/1)."""
    def num(v):
        if is_sym(v):
            return v
        return v.item() if hasattr(v, "item") else v
    r, w = num(r), num(w)
    if isinstance(r, bool) and not is_sym(r):
        r = int(r)
    if is_sym(r) or is_sym(w):
        if isinstance(r, bool):
            r = truth(r)
        if isinstance(w, bool):
            w = truth(w)
        return r == w
    return math.isclose(float(r), float(w), rel_tol=1e-9, abs_tol=1e-12)


TRUTH_ONLY = {"and2floats", "or2floats", "and2ints", "or2ints"}


def same_as(name, r, w):
    """numpy's logical_and/or give a bool for numbers but an operand for
    objects: for these only the truth value is compared."""
    if name in TRUTH_ONLY:
        if not is_sbool(r):
            r = r != 0
        return same(truth(r), w)
    return same(r, w)


def compute(ctx, name, n, const=None):
    """const: index of an argument that is a scalar."""
    ctx.flags["div0"] = "numpy"
    dom, k, ref = SPEC[name]
    fn = find(name)
    cols = [[fresh(ctx, dom, i) for _ in range(1 if i == const else n)]
            for i in range(k)]
    args = [c[0] if i == const else arr(c) for i, c in enumerate(cols)]
    out = fn(*args)
    ctx.check(np.shape(out) == (n,), "one value per element")
    for j in range(n):
        want = ref(*[c[0] if i == const else c[j]
                     for i, c in enumerate(cols)])
        ctx.check(same_as(name, out[j], want), "computes its definition")
    for i, c in enumerate(cols):
        if i != const:
            ctx.check(len(args[i]) == n and all(
                x is y or not is_sym(x) and same(x, y)
                for x, y in zip(args[i], c)), "arguments are not modified")


def grid(ctx, name, shape, const=None, calls=1):
    """Matrices of any shape are treated element by element; what was
    computed before plays no role."""
    ctx.flags["div0"] = "numpy"
    dom, k, ref = SPEC[name]
    fn = find(name)
    for _ in range(calls):
        n = shape[0] * shape[1]
        cols = [[fresh(ctx, dom, i) for _ in range(1 if i == const else n)]
                for i in range(k)]
        out = fn(*[c[0] if i == const else arr(c).reshape(shape)
                   for i, c in enumerate(cols)])
        ctx.check(np.shape(out) == shape, "one value per element")
        flat = np.reshape(out, (n,))
        for j in range(n):
            ctx.check(same_as(name, flat[j], ref(
                *[c[0] if i == const else c[j] for i, c in
                  enumerate(cols)])), "computes its definition")
        shape = shape[::-1]


def wide(ctx, name, shape, whole=False):
    """Many elements, one of them arbitrary, at either end or in between;
    ``whole``: whole numbers as they come out of integer data."""
    ctx.flags["div0"] = "numpy"
    dom, k, ref = SPEC[name]
    fn = find(name)
    n = int(np.prod(shape))
    # (numpy's transcendental functions do not mix numbers and terms)
    at = None if whole or name.split("_")[0 if name[1] != "_" else 1] in (
        "log", "sqrt", "sin", "cos", "tan") else ctx.pick(
            (0, n // 2, n - 1), "at")

    def plain(i, j):
        v = (3 * j + 5 * i + j * j) % 7 - 3
        if dom == "bit":
            return v % 2
        if dom == B or (dom == "mix" and i == 0):
            return v > 0
        return v if dom == I or whole else v / 2 + 0.25
    cols = [[fresh(ctx, dom, i) if j == at else plain(i, j)
             for j in range(n)] for i in range(k)]
    out = fn(*[arr(c).reshape(shape) for c in cols])
    ctx.check(np.shape(out) == tuple(shape), "one value per element")
    flat = np.reshape(out, (n,))
    for j in range(n):
        ctx.check(same_as(name, flat[j], ref(*[c[j] for c in cols])),
                  "computes its definition")


def scalars(ctx, name):
    """Plain numbers are as good as arrays."""
    ctx.flags["div0"] = "numpy"
    dom, k, ref = SPEC[name]
    args = [fresh(ctx, dom, i) for i in range(k)]
    out = find(name)(*args)
    ctx.check(np.shape(out) == (), "a number for numbers")
    ctx.check(same_as(name, out, ref(*args)), "computes its definition")


EXACT = ("f_neg", "f_abs", "f_max", "f_min", "f_iflte0", "f_ifgt0",
         "f_iflte", "f_ifgt", "f_not", "f_if_then_else")
EXACT += tuple(k for k, v in TYPED.items() if v in EXACT) + (
    "argmax2floats", "and2floats", "or2floats")


def doubles(ctx, name, size=None):
    """The functions that only choose or change a sign are exact on every
    double: nothing is rounded away and nothing overflows."""
    dom, k, ref = SPEC[name]
    args = [ctx.fp("a", finite=True) for _ in range(k)]
    if size is None:
        out = find(name)(*args)
    else:
        cols = [arr([a] + [1.5 - i] * (size - 1)) for i, a in
                enumerate(args)]
        out = find(name)(*cols)
        ctx.check(np.shape(out) == (size,), "one value per element")
        out = out[0]
    if name in TRUTH_ONLY:
        if not is_sbool(out):
            out = out != 0
        out = truth(out)
    elif isinstance(out, (bool, np.bool_)):
        out = int(out)
    ctx.check(out == ref(*args), "computes its definition")


EXTREME = (1e200, -1e200, 1e17, 1.0, -1e-170, 5e-324, 0.0011, 0.0)


def extreme(ctx, name, size=None):
    """Numbers of very different magnitude."""
    dom, k, ref = SPEC[name]
    args = [ctx.pick(EXTREME, "a") for _ in range(k)]
    with np.errstate(all="ignore"):
        out = find(name)(*(args if size is None else
                           [np.array([a] * size) for a in args]))
        want = ref(*args)
    got = float(out if size is None else out[-1])
    if name in TRUTH_ONLY:
        got = float(got != 0)
    ctx.check(math.isclose(got, float(want), rel_tol=1e-9),
              "computes its definition")


def signature(ctx):
    """Every exported function can be a tree node of the right arity."""
    for mod in (UFN, TFN):
        for name in mod.__all__:
            f = getattr(mod, name)
            if name in SPEC:
                k = SPEC[name][1]
                ctx.check(arity(f) == k, "arity")
                ctx.check(FunctionNode(f).n_args == k, "n_args")
            ctx.check(f.__name__ == name, "name")
            if mod is UFN:
                ctx.check(FunctionNode(f).node_type is None, "untyped")


def in_tree(ctx, name):
    """The function inside a tree on a data array."""
    ctx.flags["div0"] = "numpy"
    dom, k, ref = SPEC[name]
    if k > 3:
        return
    t = tree_ind([FunctionNode(find(name))] + [
        TerminalNode(f"x{i}") for i in range(k)], functions=(find(name),),
        terminals=[f"x{i}" for i in range(k)])
    X = arr([fresh(ctx, dom, i) for i in range(k)]).reshape(1, k)
    out = t.execute(X)
    ctx.check(same(out[0], ref(*X[0])), "computes its definition in a tree")


def jobs(tier):
    for name, (dom, k, _) in SPEC.items():
        if name not in (UFN if name.startswith("f_") else TFN).__all__:
            continue
        yield "compute", dict(name=name, n=1)
        if k <= 2 or tier == "thorough":
            yield "compute", dict(name=name, n=2), {"budget": 300}
        if k > 1 and not name.startswith("argmax"):
            for c in range(k):
                yield "compute", dict(name=name, n=1, const=c)
                if tier == "thorough":
                    yield "compute", dict(name=name, n=2, const=c)
        if name.startswith("f_"):
            yield "in_tree", dict(name=name)
        if not name.startswith("argmax"):
            yield "grid", dict(name=name, shape=(2, 1), calls=2 if k < 3
                               else 1)
            if k < 3:
                yield "grid", dict(name=name, shape=(1, 2))
            if "not" not in name:
                yield "scalars", dict(name=name)
            yield "wide", dict(name=name, shape=(3, 3))
            yield "wide", dict(name=name, shape=(60,))
            yield "wide", dict(name=name, shape=(9,), whole=True)
        if dom == R:
            if k <= 2:
                yield "extreme", dict(name=name)
                yield "extreme", dict(name=name, size=2)
            if name in EXACT:
                if not name.startswith("not2") and name != "f_not":
                    yield "doubles", dict(name=name)
                yield "doubles", dict(name=name, size=1)
                yield "doubles", dict(name=name, size=3)
    yield "signature", {}
    if tier == "thorough":
        for name, (dom, k, _) in SPEC.items():
            if k <= 2:
                yield "compute", dict(name=name, n=4), {"budget": 300}
