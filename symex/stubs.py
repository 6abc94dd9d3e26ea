"""Nondeterministic environment of the code under test.

`random`, `numpy.random`, the executors of concurrent.futures and a few
numeric library functions are replaced, before eckity is imported, by stubs
that return an arbitrary value allowed by the documented contract of the
function they stand for.  With no context active (or while ctx.flags
['native_rng'] is set) the original functions are called.  Under a concrete
context (replay) the same stubs hand out the values of the solver's model.
"""
import concurrent.futures as cf
import copy
import logging
import math
import random as _random
import sys
import zlib
import types
from fractions import Fraction

import numpy as np

from . import core

try:
    from . import proxies as P
except ImportError:
    P = None


def is_sym(x):
    return P is not None and P.is_sym(x)


ORIG = {}


def active():
    c = core.cur()
    return c if c is not None and not c.flags.get("native_rng") else None


def _log(ctx, what, val):
    ctx.rng_log.append((what, val))
    return val


# ------------------------------------------------------------ draw provider
def _between(lo, hi, h):
    x = (h % 1009 - 500) / 256
    if lo is not None and hi is not None:
        return lo + (hi - lo) * ((h % 1009) / 1024)
    return x if lo is None and hi is None else \
        lo + abs(x) if hi is None else hi - abs(x)


class Draws:
    """Names the draws of one RNG stream.

    In ordinary mode every draw is a fresh symbol.  In `seeded` mode (used for
    the reproducibility property) a draw is a function of (seed, index): the
    same seed gives the same symbols again, an unseeded stream gives symbols
    private to the run."""

    def __init__(self, stream):
        self.stream = stream

    def key(self, ctx, kind):
        if not ctx.flags.get("seeded"):
            return f"{self.stream}.{kind}", False
        st = ctx.state.setdefault("rngstate", {})
        seed, idx = st.get(self.stream, (("unseeded", ctx.state.get(
            "run_tag", 0)), 0))
        st[self.stream] = (seed, idx + 1)
        return f"{self.stream}.{kind}@{seed}:{idx}", True

    def _memo(self, ctx, name, params, mk, conc=None):
        memo = ctx.state.setdefault("rngmemo", {})
        # named by order of appearance, so that a native run of a
        # counterexample uses the same names
        ds = memo.setdefault(name, {})
        if params not in ds:
            nm = f"{name}~{len(ds)}"
            # a harness may fix the draws of a run that is only a bystander
            fixed = ctx.flags.get("fixed_draws") and conc
            ds[params] = conc(zlib.crc32(nm.encode())) if fixed else mk(nm)
        return ds[params]

    def unit(self, ctx):
        n, seeded = self.key(ctx, "u")
        if seeded:
            return self._memo(ctx, n, (), ctx.unit,
                              lambda h: (h % 997) / 1000)
        return ctx.unit(n)

    def real(self, ctx, kind, params, lo=None, hi=None):
        n, seeded = self.key(ctx, kind)
        if seeded:
            return self._memo(ctx, n, tuple(map(str, params)),
                              lambda nm: ctx.real(nm, lo, hi),
                              None if is_sym(lo) or is_sym(hi) else
                              lambda h: _between(lo, hi, h))
        return ctx.real(n, lo, hi)

    def integer(self, ctx, kind, lo, hi):
        n, seeded = self.key(ctx, kind)
        if seeded:
            return self._memo(ctx, n, (str(lo), str(hi)),
                              lambda nm: ctx.int(nm, lo, hi),
                              None if is_sym(lo) or is_sym(hi) else
                              lambda h: lo + h % (hi - lo + 1))
        return ctx.int(n, lo, hi)

    def index(self, ctx, n):
        """A concrete index in range(n): every value is explored.

        A harness for large sizes may set ctx.flags["idx_free"] = m: after m
        free choices the rest of the path follows a fixed pattern (a stated
        bound of that harness)."""
        free = ctx.flags.get("idx_free")
        fixed = False
        if free is not None:
            k = ctx.state.get("idx_used", 0)
            ctx.state["idx_used"] = k + 1
            fixed = k >= free
            if fixed and not ctx.flags.get("seeded"):
                return (k * 7 + 3 * (k // 5)) % n
        nm, seeded = self.key(ctx, "i")
        if seeded and fixed:
            seed, k = ctx.state["rngstate"][self.stream]
            if seed[0] == "unseeded":  # differs from run to run
                return (k * 7 + 3 * (k // 5) + seed[1]) % n
        if seeded:
            return self._memo(ctx, nm, (n,), (
                lambda s: zlib.crc32(s.encode()) % n) if fixed else
                lambda s: ctx.choose(n, s))
        return ctx.choose(n, nm)

    def set_seed(self, ctx, seed):
        st = ctx.state.setdefault("rngstate", {})
        if is_sym(seed):
            seed = str(P.z3.simplify(P.int_expr(seed))) if ctx.symbolic \
                else str(seed)
        no = ctx.state.setdefault("seednames", {})
        st[self.stream] = (("seed", no.setdefault(str(seed), len(no))), 0)


PY = Draws("py")
NP = Draws("np")


def _empty(seq):
    if not len(seq):
        raise IndexError("Cannot choose from an empty sequence")


def _weights_index(ctx, D, weights):
    """An index whose weight is positive."""
    ws = list(weights)
    while True:
        i = D.index(ctx, len(ws))
        w = ws[i]
        if is_sym(w):
            if ctx.symbolic:
                ctx.assume(w > 0)
            return i
        if w > 0:
            return i
        raise core.PathAbort()


# ------------------------------------------------------------ python random
def r_random():
    ctx = active()
    if ctx is None:
        return ORIG["random.random"]()
    return _log(ctx, "random", PY.unit(ctx))


def r_uniform(a, b):
    ctx = active()
    if ctx is None:
        return ORIG["random.uniform"](a, b)
    lo, hi = (a, b) if bool(a <= b) else (b, a)
    return _log(ctx, ("uniform", a, b), PY.real(ctx, "uniform", (a, b), lo, hi))


def r_randint(a, b):
    ctx = active()
    if ctx is None:
        return ORIG["random.randint"](a, b)
    for v in (a, b):
        if isinstance(v, float) or not isinstance(v, (int, np.integer)):
            # same refusal as the library
            return ORIG["random.randint"](a, b)
    if bool(a > b):
        raise ValueError(f"empty range in randrange({a}, {b})")
    return _log(ctx, ("randint", a, b), PY.integer(ctx, "randint", a, b))


def r_randrange(start, stop=None, step=1):
    ctx = active()
    if ctx is None:
        return (ORIG["random.randrange"](start) if stop is None else
                ORIG["random.randrange"](start, stop, step))
    if stop is None:
        start, stop = 0, start
    if step != 1:
        n = len(range(int(start), int(stop), int(step)))
        if n == 0:
            raise ValueError("empty range for randrange()")
        return start + step * PY.integer(ctx, "randrange", 0, n - 1)
    if bool(stop <= start):
        raise ValueError("empty range for randrange()")
    return _log(ctx, ("randint", start, stop - 1),
                PY.integer(ctx, "randint", start, stop - 1))


def r_gauss(mu=0.0, sigma=1.0):
    ctx = active()
    if ctx is None:
        return ORIG["random.gauss"](mu, sigma)
    if not is_sym(sigma) and sigma == 0:
        return mu + 0.0
    return _log(ctx, ("gauss", mu, sigma), PY.real(ctx, "gauss", (mu, sigma)))


def r_nonneg(*a):
    ctx = active()
    return _log(ctx, ("expo",), PY.real(ctx, "expo", (), 0))


def r_triangular(low=0.0, high=1.0, mode=None):
    ctx = active()
    if ctx is None:
        return ORIG["random.triangular"](low, high, mode)
    return r_uniform(low, high)


def r_choice(seq):
    ctx = active()
    if ctx is None:
        return ORIG["random.choice"](seq)
    _empty(seq)
    return _log(ctx, ("choice", len(seq)), seq[PY.index(ctx, len(seq))])


def r_choices(population, weights=None, *, cum_weights=None, k=1):
    ctx = active()
    if ctx is None:
        return ORIG["random.choices"](population, weights,
                                      cum_weights=cum_weights, k=k)
    if cum_weights is not None:
        cw = list(cum_weights)
        weights = [cw[0]] + [b - a for a, b in zip(cw, cw[1:])]
    _empty(population)
    if weights is not None:
        if len(weights) != len(population):
            raise ValueError("The number of weights does not match the "
                             "population")
        out = [population[_weights_index(ctx, PY, weights)]
               for _ in range(k)]
    else:
        out = [population[PY.index(ctx, len(population))] for _ in range(k)]
    _log(ctx, ("choices", None if weights is None else list(weights), k), out)
    return out


def r_sample(population, k, *, counts=None):
    ctx = active()
    if ctx is None:
        return ORIG["random.sample"](population, k)
    n = len(population)
    k = int(k)
    if not 0 <= k <= n:
        raise ValueError("Sample larger than population or is negative")
    if isinstance(population, (set, frozenset)):
        raise TypeError("Population must be a sequence")
    rest = list(population)
    out = [rest.pop(PY.index(ctx, len(rest))) for _ in range(k)]
    _log(ctx, ("sample", n, k), list(out))
    return out


def r_shuffle(x):
    ctx = active()
    if ctx is None:
        return ORIG["random.shuffle"](x)
    rest, out = list(x), []
    while rest:
        out.append(rest.pop(PY.index(ctx, len(rest))))
    x[:] = out


def r_getrandbits(k):
    ctx = active()
    if ctx is None:
        return ORIG["random.getrandbits"](k)
    free = ctx.flags.get("bits_free")
    if free is not None:  # larger configurations: later flips give 0
        if free <= 0:
            return _log(ctx, ("bits", k), 0)
        ctx.flags["bits_free"] = free - 1
    return _log(ctx, ("bits", k), PY.integer(ctx, "bits", 0, 2 ** k - 1))


def r_seed(a=None, version=2):
    ctx = active()
    if ctx is None:
        return ORIG["random.seed"](a)
    ctx.state.setdefault("seed_log", []).append(("py", a))
    PY.set_seed(ctx, a)


# ------------------------------------------------------------ numpy random
def _np_fill(size, f):
    if size is None:
        return f()
    shape = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    n = int(np.prod(shape))
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = f()
    if not any(is_sym(v) for v in a):
        a = np.array(list(a))
    return a.reshape(shape)


def n_choice(a, size=None, replace=True, p=None, *args, **kw):
    ctx = active()
    if ctx is None:
        return ORIG["np.choice"](a, size, replace, p)
    if isinstance(a, (int, np.integer)):
        a = list(range(a))
    items = list(a)
    if not items:
        raise ValueError("a cannot be empty unless no samples are taken")
    if p is not None:
        p = list(p)
        if len(p) != len(items):
            raise ValueError("'a' and 'p' must have same size")
    ctx.state.setdefault("np_choice_log", []).append(
        (list(items), size, replace, p))
    n = 1 if size is None else int(np.prod(size))
    idxs = list(range(len(items)))
    out = []
    for _ in range(n):
        if p is None:
            j = NP.index(ctx, len(idxs))
        else:
            j = _weights_index(ctx, NP, [p[i] for i in idxs])
        i = idxs[j]
        if not replace:
            idxs.pop(j)
        out.append(items[i])
    if size is None:
        return out[0]
    arr = np.empty(len(out), dtype=object)
    for i, v in enumerate(out):
        arr[i] = v
    if all(isinstance(v, (int, float, np.number)) and not is_sym(v)
           for v in out):
        arr = np.array(out)
    return arr


def n_random(size=None):
    ctx = active()
    if ctx is None:
        return ORIG["np.random"](size)
    return _np_fill(size, lambda: NP.unit(ctx))


def n_rand(*shape):
    ctx = active()
    if ctx is None:
        return ORIG["np.rand"](*shape)
    return _np_fill(shape or None, lambda: NP.unit(ctx))


def n_uniform(low=0.0, high=1.0, size=None):
    ctx = active()
    if ctx is None:
        return ORIG["np.uniform"](low, high, size)
    return _np_fill(size, lambda: NP.real(ctx, "uniform", (low, high), low,
                                          high))


def n_normal(loc=0.0, scale=1.0, size=None):
    ctx = active()
    if ctx is None:
        return ORIG["np.normal"](loc, scale, size)
    return _np_fill(size, lambda: NP.real(ctx, "gauss", (loc, scale)))


def n_randint(low, high=None, size=None, dtype=int):
    ctx = active()
    if ctx is None:
        return ORIG["np.randint"](low, high, size)
    if high is None:
        low, high = 0, low
    return _np_fill(size, lambda: NP.integer(ctx, "randint", low, high - 1))


def n_permutation(x):
    ctx = active()
    if ctx is None:
        return ORIG["np.permutation"](x)
    rest = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
    out = []
    while rest:
        out.append(rest.pop(NP.index(ctx, len(rest))))
    arr = np.empty(len(out), dtype=object)
    arr[:] = out
    return arr if not isinstance(x, (int, np.integer)) else np.array(out)


def n_shuffle(x):
    ctx = active()
    if ctx is None:
        return ORIG["np.shuffle"](x)
    rest, out = list(x), []
    while rest:
        out.append(rest.pop(NP.index(ctx, len(rest))))
    x[:] = out


def n_seed(seed=None):
    ctx = active()
    if ctx is None:
        return ORIG["np.seed"](seed)
    ctx.state.setdefault("seed_log", []).append(("np", seed))
    NP.set_seed(ctx, seed)


class Own(Draws):
    """The stream of a generator object of its own: a function of its seed,
    or private to the run when it has none."""

    def __init__(self, name, seed):
        super().__init__(name)
        ctx = core.cur()
        if ctx is None:
            return
        if seed is not None:
            self.set_seed(ctx, seed)
            self.stream = f"{name}[{ctx.state['rngstate'][name][0]}]"
            ctx.state["rngstate"][self.stream] = ctx.state[
                "rngstate"].pop(name)
        else:
            k = ctx.state["own_streams"] = ctx.state.get(
                "own_streams", 0) + 1
            self.stream = f"{name}{k}"


class _using:
    """Run the stubs on another stream."""

    def __init__(self, draws, which):
        self.draws, self.which = draws, which

    def __enter__(self):
        self.old = globals()[self.which]
        globals()[self.which] = self.draws

    def __exit__(self, *a):
        globals()[self.which] = self.old


def n_integers(low, high=None, size=None, dtype=int, endpoint=False):
    if high is None:
        low, high = 0, low
    return n_randint(low, high + 1 if endpoint else high, size)


class GenStub:
    def __init__(self, seed=None):
        self._d = Own("npgen", seed)

    def __getattr__(self, name):
        fn = _NPGEN.get(name)
        if fn is None:
            raise AttributeError(name)

        def call(*a, **k):
            with _using(self._d, "NP"):
                return fn(*a, **k)
        return call

    def __deepcopy__(self, memo):
        return self


_NPGEN = dict(random=n_random, random_sample=n_random, rand=n_rand,
              integers=n_integers, randint=n_randint, choice=n_choice,
              uniform=n_uniform, normal=n_normal, permutation=n_permutation,
              shuffle=n_shuffle)


def n_default_rng(seed=None):
    if active() is None:
        return ORIG["np.default_rng"](seed)
    return GenStub(seed)


class RandomCls(_random.Random):
    """random.Random(...) instances: routed to the same stubs."""

    def __init__(self, x=None):
        super().__init__(x if not is_sym(x) else 0)
        self._d = Own("pygen", x)

    def __getattribute__(self, name):
        if active() is not None and name in _PYSTUBS:
            if name == "seed":
                return self._seed
            fn, d = _PYSTUBS[name], self.__dict__.get("_d", PY)

            def call(*a, **k):
                with _using(d, "PY"):
                    return fn(*a, **k)
            return call
        return super().__getattribute__(name)

    def _seed(self, x=None, version=2):
        self.__dict__["_d"] = Own("pygen", x)


class SystemRandomCls(RandomCls):
    """random.SystemRandom(): never reproducible."""

    def __init__(self, x=None):
        super().__init__(None)

    def _seed(self, *a, **k):
        pass


def n_RandomState(seed=None):
    if active() is None:
        return ORIG["np.RandomState"](seed)
    return GenStub(seed)


_PYSTUBS = dict(random=r_random, uniform=r_uniform, randint=r_randint,
                randrange=r_randrange, gauss=r_gauss,
                normalvariate=r_gauss, choice=r_choice, choices=r_choices,
                sample=r_sample, shuffle=r_shuffle,
                getrandbits=r_getrandbits, seed=r_seed,
                triangular=r_triangular)


# ------------------------------------------------------------ executors
class Fut:
    def __init__(self, fn, args, kwargs, isolate, pool):
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.isolate, self.pool = isolate, pool
        self._done, self._res, self._exc = False, None, None
        self.callbacks = []

    def run(self):
        if self._done:
            return
        try:
            fn, args, kwargs = self.fn, self.args, self.kwargs
            if self.isolate:
                fn, args, kwargs = copy.deepcopy((fn, args, kwargs))
            self._res = fn(*args, **kwargs)
            if self.isolate:
                self._res = copy.deepcopy(self._res)
        except Exception as e:
            self._exc = e
        self._done = True
        for cb in self.callbacks:
            cb(self)

    def late(self, timeout=True):
        """Is this task still outstanding when somebody asks who does not
        wait until it is done? Either is possible where a harness says so."""
        ctx = core.cur()
        if timeout is None or self._done or ctx is None or \
                not ctx.flags.get("slow"):
            return False
        return not ctx.bool("sched.early")

    def result(self, timeout=None):
        if self.late(timeout):
            raise cf.TimeoutError()
        self.pool.drain()
        if self._exc is not None:
            raise self._exc
        return self._res

    def exception(self, timeout=None):
        if self.late(timeout):
            raise cf.TimeoutError()
        self.pool.drain()
        return self._exc

    def done(self):
        if self.late():
            return False
        self.pool.drain()
        return True

    def running(self):
        return not self.done()

    def cancelled(self):
        return False

    def cancel(self):
        return False

    def add_done_callback(self, cb):
        if self._done:
            cb(self)
        else:
            self.callbacks.append(cb)


class PoolStub:
    isolate = False
    kind = "thread"

    def __init__(self, max_workers=None, *a, **kw):
        self.max_workers = self._max_workers = max_workers
        self.pending = []
        self.closed = False

    def submit(self, fn, /, *args, **kwargs):
        if self.closed:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Fut(fn, args, kwargs, self.isolate, self)
        self.pending.append(f)
        return f

    def drain(self):
        """Run the outstanding tasks in an arbitrary order."""
        todo, self.pending = self.pending, []
        ctx = core.cur()
        if ctx is not None and ctx.flags.get("schedules") and len(todo) > 1:
            order = ctx.perm(len(todo), "sched")
            ctx.state.setdefault("schedules", []).append(order)
            todo = [todo[i] for i in order]
        for f in todo:
            f.run()

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *args) for args in zip(*iterables)]

        def gen():
            for f in futs:
                yield f.result(timeout)
        return gen()

    def shutdown(self, wait=True, *, cancel_futures=False):
        self.drain()
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()

    def __reduce_ex__(self, proto):
        # real executors hold locks and threads
        raise TypeError("cannot pickle '_thread.lock' object")


class ThreadPoolStub(PoolStub):
    pass


class ProcessPoolStub(PoolStub):
    isolate = True
    kind = "process"


def fut_as_completed(fs, timeout=None):
    fs = list(fs)
    if not all(isinstance(f, Fut) for f in fs):
        return ORIG["as_completed"](fs, timeout)
    if timeout is not None and any(f.late(timeout) for f in fs):
        raise cf.TimeoutError()
    for f in fs:
        f.pool.drain()
    ctx = core.cur()
    order = ctx.perm(len(fs), "completed") if ctx is not None and \
        ctx.flags.get("schedules") else range(len(fs))
    return iter([fs[i] for i in order])


def fut_wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if not all(isinstance(f, Fut) for f in fs):
        return ORIG["wait"](fs, timeout, return_when)
    if timeout is not None and any(f.late(timeout) for f in fs):
        done = [f for f in fs if f._done]
        return type(ORIG["wait"]([]))(
            set(done), {f for f in fs if not f._done})
    for f in fs:
        f.pool.drain()
    T = type(ORIG["wait"]([]))
    return T(set(fs), set())


# ------------------------------------------------------------ numeric lib
def m_isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not (is_sym(a) or is_sym(b)):
        return ORIG["math.isclose"](a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    for v in (a, b):
        if not is_sym(v) and (v != v or v in (P.INF, -P.INF)):
            return False
    return P.lor(a == b, P.lor(
        abs(a - b) <= abs(b) * rel_tol, abs(a - b) <= abs(a) * rel_tol,
        abs(a - b) <= abs_tol))


def _m1(name, meth):
    def f(x):
        if is_sym(x):
            return meth(x)
        return ORIG["math." + name](x)
    f.__name__ = name
    return f


def m_fsum(xs):
    xs = list(xs)
    if any(is_sym(x) for x in xs):
        t = 0.0
        for x in xs:
            t = x + t
        return t
    return ORIG["math.fsum"](xs)


def n_reciprocal(x, *a, **k):
    """(whole numbers have a whole reciprocal)"""
    fl = list(np.ravel(np.asarray(x, dtype=object)))
    if a or k or not any(is_sym(v) for v in fl):
        return ORIG["np.reciprocal"](x, *a, **k)
    if all(isinstance(v, (int, P.SInt)) for v in fl):
        out = [P.ite(v == 1, 1, P.ite(v == -1, -1, P.ite(v == 0, -2 ** 63,
                                                         0))) for v in fl]
    else:
        out = [1 / v for v in fl]
    return out[0] if is_sym(x) else _obj(out, np.shape(x))


def n_isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    if any(is_sym(v) for v in _flat(a)) or any(is_sym(v) for v in _flat(b)):
        f = np.frompyfunc(lambda x, y: abs(x - y) <= atol + rtol * abs(y),
                          2, 1)
        return f(a, b)
    return ORIG["np.isclose"](a, b, rtol, atol, equal_nan)


def n_allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    r = n_isclose(a, b, rtol, atol)
    if any(is_sym(v) for v in _flat(r)):
        return P.land(*_flat(r))
    return bool(np.all(r))


def _flat(a):
    if is_sym(a):
        return [a]
    if isinstance(a, np.ndarray):
        return list(a.ravel()) if a.dtype == object else []
    if isinstance(a, (list, tuple)):
        return [y for x in a for y in _flat(x)]
    return []


def _n_pred(name, dflt):
    def f(x, *a, **k):
        fl = _flat(x)
        if any(is_sym(v) for v in fl):
            return dflt if is_sym(x) else np.full(np.shape(x), dflt)
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(float)
        return ORIG["np." + name](x, *a, **k)
    f.__name__ = name
    return f


def sp_softmax(x, axis=None):
    if any(is_sym(v) for v in _flat(x)):
        ctx = core.cur()
        ctx.state["softmax"] = True
        xs = list(x)
        es = [v.exp() if is_sym(v) else math.exp(v) for v in xs]
        t = 0.0
        for e in es:
            t = e + t
        out = np.empty(len(es), dtype=object)
        for i, e in enumerate(es):
            out[i] = e / t
        return out
    return ORIG["sp.softmax"](x, axis=axis)


GRID = sorted({k / n for n in range(2, 8) for k in range(1, n)})
NEAR_ONE = (1 - 1e-3, 1 - 1e-6)


def _obj(xs, shape):
    out = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        out[i] = x
    return out.reshape(shape)


def sp_expit(x, *a, **k):
    """Logistic function: in [0,1], on the right side of every q of GRID (an
    over-approximation) and rounded to one where doubles do."""
    if not any(is_sym(v) for v in _flat(x)):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(float)
        return ORIG["sp.expit"](x, *a, **k)
    ctx = core.cur()

    def one(v):
        if not is_sym(v):
            return float(ORIG["sp.expit"](float(v)))
        memo = ctx.state.setdefault("expit", {})
        key = str(P.z3.simplify(P.real_expr(v)))
        if key not in memo:
            p = ctx.real("env.expit", 0, 1)
            ctx.assume(P.lor(v < -36.0, p > 0))
            ctx.assume(P.lor(v < 36.8, p == 1))
            ctx.assume(P.lor(v > 36.7, p <= 1 - 2.0 ** -53))
            more = ctx.flags.get("logistic_cuts", ())
            for q in sorted({*GRID, *NEAR_ONE, *more}):
                cut = math.log(q / (1 - q))
                if q == 0.5:  # exact
                    ctx.assume(P.land(
                        P.lor(v < 0, p >= q), P.lor(v >= 0, p < q),
                        P.lor(v > 0, p <= q), P.lor(v <= 0, p > q)))
                    continue
                # with a margin for how the caller computes q
                ctx.assume(P.land(
                    P.lor(v < cut + 1e-7, p >= q + 1e-9),
                    P.lor(v > cut - 1e-7, p <= q - 1e-9)))
            memo[key] = p
        return memo[key]
    if is_sym(x):
        return one(x)
    arr = np.asarray(x, dtype=object)
    return _obj([one(v) for v in arr.ravel()], arr.shape)


def n_digitize(x, bins, right=False):
    if not any(is_sym(v) for v in _flat(x)):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = x.astype(float)
        return ORIG["np.digitize"](x, bins, right)
    bins = list(bins)
    if any(b < a for a, b in zip(bins, bins[1:])):
        raise core.PathAbort()

    def one(v):
        t = 0
        for b in bins:
            t = t + P.ite(v > b if right else v >= b, 1, 0)
        return t
    if is_sym(x):
        return one(x)
    arr = np.asarray(x, dtype=object)
    return _obj([one(v) for v in arr.ravel()], arr.shape)


def _columns(y, p):
    y, p = list(np.ravel(np.asarray(y, dtype=object))), list(
        np.ravel(np.asarray(p, dtype=object)))
    if len(y) != len(p):
        raise ValueError("Found input variables with inconsistent numbers "
                         "of samples")
    return y, p


def sk_mae(y_true, y_pred, **k):
    if k or not any(is_sym(v) for v in _flat(y_true) + _flat(y_pred)):
        return ORIG["sk.mae"](y_true, y_pred, **k)
    y, p = _columns(y_true, y_pred)
    t = 0.0
    for a, b in zip(y, p):
        t = t + abs(a - b)
    return t / len(y)


def sk_mse(y_true, y_pred, **k):
    if k or not any(is_sym(v) for v in _flat(y_true) + _flat(y_pred)):
        return ORIG["sk.mse"](y_true, y_pred, **k)
    y, p = _columns(y_true, y_pred)
    t = 0.0
    for a, b in zip(y, p):
        t = t + (a - b) * (a - b)
    return t / len(y)


def sk_accuracy(y_true, y_pred, **k):
    if k or not any(is_sym(v) for v in _flat(y_true) + _flat(y_pred)):
        return ORIG["sk.acc"](y_true, y_pred, **k)
    y, p = _columns(y_true, y_pred)
    t = 0.0
    for a, b in zip(y, p):
        t = t + P.ite(a == b, 1.0, 0.0)
    return t / len(y)


def sk_check_X_y(X, y, *a, **k):
    if not any(is_sym(v) for v in _flat(X) + _flat(y)):
        return ORIG["sk.check"](X, y, *a, **k)
    X, y = np.asarray(X, dtype=object), np.asarray(y, dtype=object)
    if X.ndim != 2 or len(X) != len(y):
        raise ValueError("inconsistent shapes")
    return X, y.ravel()


def install():
    """Patch the libraries.  Must run before eckity is imported."""
    if ORIG:
        return
    for name, fn in _PYSTUBS.items():
        ORIG["random." + name] = getattr(_random, name)
        setattr(_random, name, fn)
    _random.Random = RandomCls
    _random.SystemRandom = SystemRandomCls
    nps = dict(choice=n_choice, rand=n_rand, uniform=n_uniform,
               normal=n_normal, randint=n_randint, permutation=n_permutation,
               shuffle=n_shuffle, seed=n_seed, default_rng=n_default_rng,
               RandomState=n_RandomState)
    for name, fn in nps.items():
        ORIG["np." + name] = getattr(np.random, name)
        setattr(np.random, name, fn)
    ORIG["np.random"] = np.random.random
    for name in ("random", "random_sample", "ranf", "sample"):
        if hasattr(np.random, name):
            setattr(np.random, name, n_random)

    import concurrent.futures as cf
    import concurrent.futures.process as cfp
    import concurrent.futures.thread as cft
    ORIG["as_completed"], ORIG["wait"] = cf.as_completed, cf.wait
    cft.ThreadPoolExecutor = cf.ThreadPoolExecutor = ThreadPoolStub
    cfp.ProcessPoolExecutor = cf.ProcessPoolExecutor = ProcessPoolStub
    cf.as_completed = fut_as_completed
    cf.wait = fut_wait
    import concurrent.futures._base as cfb
    cfb.as_completed, cfb.wait = fut_as_completed, fut_wait

    ORIG["math.isclose"] = math.isclose
    math.isclose = m_isclose
    for name, meth in dict(
            sqrt=lambda x: x.sqrt(), exp=lambda x: x.exp(),
            log=lambda x: x.log(), isnan=lambda x: x.isnan(),
            isinf=lambda x: x.isinf(), isfinite=lambda x: x.isfinite(),
            fabs=abs, sin=lambda x: x.sin(), cos=lambda x: x.cos(),
            tan=lambda x: x.tan()).items():
        ORIG["math." + name] = getattr(math, name)
        setattr(math, name, _m1(name, meth))
    ORIG["math.fsum"] = math.fsum
    math.fsum = m_fsum
    ORIG["np.reciprocal"], np.reciprocal = np.reciprocal, n_reciprocal
    ORIG["np.isclose"], ORIG["np.allclose"] = np.isclose, np.allclose
    np.isclose, np.allclose = n_isclose, n_allclose
    import scipy.special as sps
    import sklearn.metrics as skm
    import sklearn.utils.validation as skv
    import sklearn.utils as sku
    ORIG["sp.expit"], sps.expit = sps.expit, sp_expit
    ORIG["np.digitize"], np.digitize = np.digitize, n_digitize
    ORIG["sk.mae"] = skm.mean_absolute_error
    skm.mean_absolute_error = sk_mae
    ORIG["sk.mse"] = skm.mean_squared_error
    skm.mean_squared_error = sk_mse
    ORIG["sk.acc"], skm.accuracy_score = skm.accuracy_score, sk_accuracy
    ORIG["sk.check"], skv.check_X_y = skv.check_X_y, sk_check_X_y
    sku.check_X_y = sk_check_X_y
    for name, d in (("isnan", False), ("isinf", False), ("isfinite", True)):
        ORIG["np." + name] = getattr(np, name)
        setattr(np, name, _n_pred(name, d))


class _TypeMeta(type):
    def __call__(cls, *a, **k):
        if len(a) == 1 and not k:
            return a[0].__class__ if is_sym(a[0]) else type(a[0])
        return type(*a, **k)

    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __subclasscheck__(cls, x):
        return issubclass(x, type)

    def __eq__(cls, o):
        return o is type or o is cls

    def __hash__(cls):
        return hash(type)


class SSet(set):
    """A set whose iteration order is the environment's to choose."""

    def __iter__(self):
        xs = list(super().__iter__())
        ctx = core.cur()
        salt = ctx.flags.get("hash_salt", 0) if ctx is not None else 0
        if not salt or len(xs) < 2:
            return iter(xs)
        k = salt % len(xs) or 1
        return iter((xs[k:] + xs[:k])[::-1 if salt % 2 else 1])


def _sset_op(name):
    base = getattr(set, name)

    def op(self, *a):
        r = base(self, *a)
        return type.__call__(SSet, r) if type(r) is set else r
    return op


for _n in ("__sub__", "__or__", "__and__", "__xor__", "__rsub__", "__ror__",
           "__rand__", "__rxor__", "difference", "union", "intersection",
           "symmetric_difference", "copy"):
    setattr(SSet, _n, _sset_op(_n))


class _SetMeta(type):
    def __call__(cls, *a):
        ctx = core.cur()
        if ctx is not None and ctx.flags.get("hash_salt"):
            return type.__call__(SSet, *a)
        return set(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, set)

    def __subclasscheck__(cls, x):
        return issubclass(x, set)

    def __eq__(cls, o):
        return o is set or o is cls

    def __hash__(cls):
        return hash(set)


class symset(metaclass=_SetMeta):
    """`set(...)` inside eckity."""


def symhash(x):
    """`hash(x)` inside eckity: salted for strings, as in CPython, with the
    salt the environment's to choose."""
    ctx = core.cur()
    salt = ctx.flags.get("hash_salt", 0) if ctx is not None else 0
    if not salt:
        return hash(x)
    if isinstance(x, (str, bytes)):
        import zlib
        b = x.encode() if isinstance(x, str) else x
        return zlib.crc32(b, salt * 40503) * 2654435761 % 2 ** 61
    if type(x) in (tuple, frozenset):
        return hash(type(x)(symhash(y) for y in x))
    return hash(x)


class Addr(int):
    """What `id(x)` gives inside eckity: equality and hash are real, the
    order of addresses is the environment's to choose."""
    rank = 0

    def __lt__(self, o):
        return self.rank < o.rank if isinstance(o, Addr) else int(self) < o

    def __le__(self, o):
        return self.rank <= o.rank if isinstance(o, Addr) else int(self) <= o

    def __gt__(self, o):
        return self.rank > o.rank if isinstance(o, Addr) else int(self) > o

    def __ge__(self, o):
        return self.rank >= o.rank if isinstance(o, Addr) else int(self) >= o

    __hash__ = int.__hash__


def symid(x):
    """`id(x)` inside eckity."""
    ctx = core.cur()
    if ctx is None or "hash_salt" not in ctx.flags:
        return id(x)
    tab = ctx.state.setdefault("addresses", {})
    k = id(x)
    if k not in tab:
        a = Addr(k)
        a.rank = -len(tab) if ctx.flags["hash_salt"] % 2 else len(tab)
        tab[k] = a
        ctx.state.setdefault("keep", []).append(x)
    return tab[k]


class symtype(type, metaclass=_TypeMeta):
    """`type(x)` inside eckity: the type a symbolic value stands for."""


def install_target():
    """After importing eckity: shims that need its modules."""
    for name, mod in list(sys.modules.items()):
        if name == "eckity" or name.startswith("eckity."):
            if P is not None and mod is not None and \
                    not hasattr(mod, "type"):
                mod.__dict__["type"] = symtype
            if mod is not None and not hasattr(mod, "set"):
                mod.__dict__["set"] = symset
            if mod is not None and not hasattr(mod, "hash"):
                mod.__dict__["hash"] = symhash
            if mod is not None and not hasattr(mod, "id"):
                mod.__dict__["id"] = symid
    from eckity.individual import Individual
    if Individual.__hash__ is object.__hash__:
        Individual.__hash__ = _ind_hash
    _patch_if("eckity.genetic_operators.selections.fp_selection", "softmax")


def _patch_if(mod, name):
    m = sys.modules.get(mod)
    if m is not None and hasattr(m, name):
        ORIG.setdefault("sp.softmax", getattr(m, name))
        setattr(m, name, sp_softmax)


def _ind_hash(self):
    """Identity hash made reproducible: position in creation order, optionally
    permuted so that set/dict iteration order is adversarial."""
    ctx = core.cur()
    if ctx is None:
        return object.__hash__(self)
    tab = ctx.state.setdefault("hashes", {})
    k = id(self)
    if k not in tab:
        salt = ctx.flags.get("hash_salt", 0)
        n = len(tab)
        tab[k] = (n * 2654435761 + salt * 40503 * (n + 1)) % 1000003 \
            if salt else n
        ctx.state.setdefault("keep", []).append(self)
    return tab[k]


class Env:
    def reset(self, ctx):
        if P is not None:
            P._REG.clear()
        try:
            from eckity.individual import Individual
            Individual.id = 1
        except ImportError:
            pass

    def after(self, ctx):
        pass
