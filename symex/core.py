r"""Core of the symbolic executor.

The target (the eckity package of /repo) is executed by the ordinary CPython
interpreter on proxy values (proxies.py).  Every truth test of a proxy is a
*decision*: the solver is asked which outcomes are satisfiable together with
the path condition, and all satisfiable outcomes are explored by deterministic
re-execution (depth-first over the decision trail).  Assertions of a harness
are discharged by asking the solver for a model of  path-condition /\ not A.

Nothing in this file knows about eckity.
"""
import json
import sys
import time
from collections import Counter
from fractions import Fraction

try:
    import z3
except ImportError:  # concrete replay runs without the solver
    z3 = None


class Control(BaseException):
    """Engine control flow: must not be swallowed by `except Exception`."""


class PathAbort(Control):
    """The path is infeasible (an assumption cannot be met)."""


class Budget(Control):
    """The time budget of the job ran out."""


class Divergence(Control):
    """Re-execution did not follow the recorded trail."""


class Violated(Control):
    """(concrete mode) an assertion of the harness failed."""

    def __init__(self, label):
        self.label = label


CUR = None  # the active context


def cur():
    return CUR


def set_cur(c):
    global CUR
    CUR = c


class _D:
    __slots__ = ("kind", "hint", "choice", "alts", "pushed", "expr", "model")

    def __init__(self, kind, hint, choice, alts, pushed=False, expr=None,
                 model=None):
        self.kind, self.hint, self.choice, self.alts = kind, hint, choice, alts
        self.pushed, self.expr, self.model = pushed, expr, model


class Base:
    """What is common to the symbolic and the concrete context."""
    symbolic = False

    def __init__(self):
        self.flags = {}
        self.reset_path()

    def reset_path(self):
        self.names = Counter()
        self.rng_log = []
        self.flags = {"div0": "python"}
        self.state = {}

    def uname(self, hint):
        k = self.names[hint]
        self.names[hint] += 1
        return f"{hint}#{k}"

    # conveniences -------------------------------------------------------
    def reals(self, name, n, lo=None, hi=None):
        return [self.real(f"{name}{i}", lo, hi) for i in range(n)]

    def ints(self, name, n, lo=None, hi=None):
        return [self.int(f"{name}{i}", lo, hi) for i in range(n)]

    def perm(self, n, hint="perm"):
        """An arbitrary permutation of range(n)."""
        rest, out = list(range(n)), []
        while rest:
            out.append(rest.pop(self.choose(len(rest), hint)))
        return out

    def pick(self, seq, hint="pick"):
        return seq[self.choose(len(seq), hint)]

    def fail(self, label):
        self.check(False, label)

    # reachability: `require` names outcomes some path must have
    def require(self, keys):
        self.required.update(keys)

    required = covered = None


class SymCtx(Base):
    symbolic = True

    def __init__(self, solver_timeout_ms=8000, deadline=None):
        from . import proxies
        self.P = proxies
        self.solver = z3.Solver()
        self.solver.set("timeout", solver_timeout_ms)
        self.trail = []
        self.deadline = deadline
        self.queries = 0
        self.solver_s = 0.0
        self.unknowns = 0
        self.obligations = 0      # assertions decided by the solver
        self.simplified = 0       # symbolic, valid by z3's simplifier
        self.concrete_ok = 0      # assertions that were constants on the path
        self.incomplete = Counter()
        self.realised = False
        self.kept_queries = []
        self.keep = 0
        self.required, self.covered = set(), set()
        super().__init__()

    # -- path handling ---------------------------------------------------
    def reset_path(self):
        super().reset_path()
        self.pos = 0
        self.model = None
        self.syms = {}     # name -> (z3 const, kind)
        self.choices = {}  # name -> chosen index
        self.pending = []  # assertions of this path still to be discharged
        self.realised = False
        self.path_incomplete = None

    def backtrack(self):
        """Move to the next unexplored path.  False when there is none."""
        while self.trail:
            d = self.trail[-1]
            if d.pushed:
                self.solver.pop()
                d.pushed = False
            if d.alts:
                d.choice = d.alts.pop(0)
                if d.kind == "b":
                    self.solver.push()
                    d.pushed = True
                    self.solver.add(d.expr if d.choice else z3.Not(d.expr))
                elif d.kind == "c":
                    self.solver.push()
                    d.pushed = True
                self.start_model = d.model
                if d.kind == "b":
                    d.model = None
                return True
            self.trail.pop()
        return False

    start_model = None

    def _replaying(self):
        return self.pos < len(self.trail)

    def _next(self, kind, hint):
        d = self.trail[self.pos]
        if d.kind != kind or d.hint != hint:
            raise Divergence(f"expected {d.kind}:{d.hint}, got {kind}:{hint}")
        self.pos += 1
        if self.pos == len(self.trail):
            self.model = self.start_model
        return d

    # -- solver ----------------------------------------------------------
    def _check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget()
        t = time.time()
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        self.queries += 1
        if r == z3.unknown:
            self.unknowns += 1
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.sat:
                self.model = self.solver.model()
        return self.model

    def add(self, expr):
        """Assume a z3 Boolean on the current path."""
        if self._replaying():
            return
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return
        if z3.is_false(expr):
            raise PathAbort()
        self.solver.add(expr)
        if self.model is not None and not z3.is_true(
                self.model.eval(expr, model_completion=True)):
            self.model = None

    def assume(self, cond):
        cond = self.P.to_z3bool(cond)
        if cond is True:
            return
        if cond is False:
            raise PathAbort()
        if self._replaying():
            return
        self.add(cond)
        if self.model is None:
            self._ensure_model()

    def branch(self, expr):
        if self._replaying():
            return self._next("b", "").choice
        e = z3.simplify(expr)
        if z3.is_true(e):
            return self._forced(True)
        if z3.is_false(e):
            return self._forced(False)
        m = self._ensure_model()
        if m is None:  # solver could not decide the path condition
            self.note_incomplete("solver unknown")
            side, m1 = True, None
        else:
            side = z3.is_true(m.eval(e, model_completion=True))
            m1 = m
        r = self._check(z3.Not(e) if side else e)
        if r == z3.unsat:
            return self._forced(side)
        other = self.solver.model() if r == z3.sat else None
        if r == z3.unknown:
            self.note_incomplete("solver unknown at a branch")
        self.solver.push()
        self.solver.add(e if side else z3.Not(e))
        self.trail.append(_D("b", "", side, [not side], True, e, other))
        self.pos += 1
        self.model = m1
        return side

    def _forced(self, side):
        self.trail.append(_D("b", "", side, []))
        self.pos += 1
        return side

    def choose(self, n, hint="choose"):
        """A nondeterministic index in range(n) (every one is explored)."""
        if n <= 0:
            raise PathAbort()
        name = self.uname(hint)
        if n == 1:
            self.choices[name] = 0
            return 0
        if self._replaying():
            v = self._next("c", name).choice
        else:
            self.solver.push()
            self.trail.append(_D("c", name, 0, list(range(1, n)), True, None,
                                 self.model))
            self.pos += 1
            v = 0
        self.choices[name] = v
        return v

    def concretize(self, expr):
        """Fork over the feasible values of an integer term."""
        e = z3.simplify(expr)
        if z3.is_int_value(e):
            return e.as_long()
        for _ in range(4096):
            if self._replaying():
                v = self._next("v", "").choice
            else:
                m = self._ensure_model()
                if m is None:
                    self.note_incomplete("solver unknown (concretize)")
                    raise PathAbort()
                v = m.eval(e, model_completion=True).as_long()
                self.trail.append(_D("v", "", v, []))
                self.pos += 1
            if self.branch(e == v):
                return v
        self.note_incomplete("too many values to concretise")
        raise PathAbort()

    def realise(self, expr):
        """One feasible value of a real term (the path becomes incomplete)."""
        e = z3.simplify(expr)
        if z3.is_rational_value(e):
            return float(e.as_fraction())
        if z3.is_int_value(e):
            return float(e.as_long())
        if self._replaying():
            v = self._next("r", "").choice
        else:
            m = self._ensure_model()
            v = _num(m.eval(e, model_completion=True))
            self.trail.append(_D("r", "", v, []))
            self.pos += 1
        self.note_incomplete("real value concretised")
        if not self._replaying():
            self.solver.add(e == z3.RealVal(str(v)))
        return float(v)

    def note_incomplete(self, why):
        self.path_incomplete = why

    # -- symbolic inputs -------------------------------------------------
    def _sym(self, name, kind, mk):
        name = self.uname(name)
        c = mk(name)
        self.syms[name] = (c, kind)
        return c

    def real(self, name, lo=None, hi=None, kind="data"):
        c = self._sym(name, kind, z3.Real)
        if lo is not None:
            self.add(c >= self.P.real_expr(lo))
        if hi is not None:
            self.add(c <= self.P.real_expr(hi))
        return self.P.SReal(c)

    def unit(self, name):
        """A draw in [0,1)."""
        c = self._sym(name, "unit", z3.Real)
        self.add(c >= 0)
        self.add(c < 1)
        return self.P.SReal(c)

    def int(self, name, lo=None, hi=None):
        c = self._sym(name, "int", z3.Int)
        if lo is not None:
            self.add(c >= self.P.int_expr(lo))
        if hi is not None:
            self.add(c <= self.P.int_expr(hi))
        return self.P.SInt(c)

    def bool(self, name):
        return self.P.SBool(self._sym(name, "bool", z3.Bool))

    def fp(self, name, finite=False):
        c = self._sym(name, "fp", lambda n: z3.FP(n, z3.Float64()))
        self.add(z3.Not(z3.fpIsNaN(c)))
        if finite:
            self.add(z3.Not(z3.fpIsInf(c)))
        return self.P.SFP(c)

    # -- assertions ------------------------------------------------------
    def check(self, cond, label):
        c = self.P.to_z3bool(cond)
        if c is True:
            if self.P.is_sym(cond):
                self.simplified += 1  # z3's simplifier proved it valid
            else:
                self.concrete_ok += 1
            return
        self.pending.append((c, label))
        if c is False:
            raise _Fail()

    def cover(self, key, cond=True):
        """This path shows the outcome `key` for some values."""
        if key in self.covered:
            return
        c = self.P.to_z3bool(cond)
        if c is False:
            return
        if (self._check() if c is True else self._check(c)) == z3.sat:
            self.covered.add(key)

    def discharge(self):
        """Decide the assertions of the finished path; None or (label, model)."""
        pend, self.pending = self.pending, []
        if not pend:
            return None
        for c, label in pend:
            if c is False:
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort()
                return label, self._models(None)
        self.obligations += len(pend)
        neg = z3.Or([z3.Not(c) for c, _ in pend])
        if len(self.kept_queries) < self.keep:
            s = z3.Solver()
            s.add(self.solver.assertions())
            s.add(neg)
            self.kept_queries.append([s.to_smt2(), None])
        r = self._check(neg)
        if self.kept_queries and self.kept_queries[-1][1] is None:
            self.kept_queries[-1][1] = str(r)
        if r == z3.unsat:
            return None
        if r == z3.unknown:
            # one by one
            bad = False
            for c, label in pend:
                r1 = self._check(z3.Not(c))
                if r1 == z3.sat:
                    return label, self._models(z3.Not(c))
                bad |= r1 == z3.unknown
            if bad:
                self.note_incomplete("solver unknown on an assertion")
            return None
        m = self.solver.model()
        for c, label in pend:
            if not z3.is_true(m.eval(c, model_completion=True)):
                return label, self._models(z3.Not(c))
        return pend[0][1], self._models(neg)

    def _models(self, neg):
        """Assignments violating the assertion, friendliest first."""
        out = []
        base = [neg] if neg is not None else []
        data = [c for c, k in self.syms.values() if k == "data"]
        unit = [c for c, k in self.syms.values() if k == "unit"]
        ints = [c for c, k in self.syms.values() if k == "int"]
        rounds = []
        small = [z3.And(c >= -50, c <= 50) for c in data + ints]
        rounds.append([z3.IsInt(c) for c in data] +
                      [z3.IsInt(c * 16) for c in unit] + small)
        rounds.append([z3.IsInt(c * 64) for c in data] +
                      [z3.IsInt(c * 1024) for c in unit] +
                      [z3.And(c >= -10000, c <= 10000) for c in data])
        rounds.append([])
        for extra in rounds:
            self.solver.push()
            try:
                self.solver.add(*base, *extra)
                if self._check() == z3.sat:
                    out.append(self._assignment(self.solver.model()))
            finally:
                self.solver.pop()
        return out

    def _assignment(self, m):
        vals = {}
        for name, (c, kind) in self.syms.items():
            v = m.eval(c, model_completion=True)
            if kind in ("data", "unit"):
                f = _num(v)
                vals[name] = str(f)
            elif kind == "int":
                vals[name] = v.as_long()
            elif kind == "bool":
                vals[name] = bool(z3.is_true(v))
            elif kind == "fp":
                vals[name] = _fp(v)
        return {"vals": vals, "choices": dict(self.choices)}


class _Fail(Control):
    """An assertion is false on the whole path."""


def _num(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(v.numerator_as_long(), v.denominator_as_long())


def _fp(v):
    if v.isNaN():
        return "nan"
    if v.isInf():
        return "-inf" if v.isNegative() else "inf"
    bv = z3.simplify(z3.fpToIEEEBV(v)).as_long()
    import struct
    return struct.unpack(">d", struct.pack(">Q", bv))[0].hex()


class ConcreteCtx(Base):
    """Runs a harness on native values taken from a solver model."""

    def __init__(self, assignment):
        self.a = assignment
        self.missing = []
        self.required, self.covered = set(), set()
        super().__init__()

    def reset_path(self):
        super().reset_path()

    def _get(self, name, default):
        name = self.uname(name)
        v = self.a["vals"].get(name)
        if v is None:
            self.missing.append(name)
            return default
        return v

    def real(self, name, lo=None, hi=None, kind="data"):
        d = lo if lo is not None else (hi if hi is not None else 0)
        f = Fraction(self._get(name, str(Fraction(d))))
        return float(f)

    def unit(self, name):
        v = float(Fraction(self._get(name, "1/2")))
        return min(max(v, 0.0), 1 - 2.0 ** -53)

    def int(self, name, lo=None, hi=None):
        d = lo if lo is not None else (hi if hi is not None else 0)
        return int(self._get(name, d))

    def bool(self, name):
        return bool(self._get(name, False))

    def fp(self, name, finite=False):
        v = self._get(name, "0x0p+0")
        return float(v) if v in ("inf", "-inf", "nan") else float.fromhex(v)

    def choose(self, n, hint="choose"):
        if n <= 0:
            raise PathAbort()
        name = self.uname(hint)
        v = self.a["choices"].get(name, 0)
        return min(v, n - 1)

    def assume(self, cond):
        if not cond:
            raise PathAbort()

    def check(self, cond, label):
        if not bool(cond):
            raise Violated(label)

    def note_incomplete(self, why):
        pass

    def cover(self, key, cond=True):
        if cond:
            self.covered.add(key)


# ------------------------------------------------------------------ explorer
class Result(dict):
    pass


def explore(harness, cfg, env, budget_s=60.0, max_paths=None, profile=None,
            on_candidate=None, keep=0, solver_timeout_ms=8000):
    """Explore every path of harness(ctx, **cfg)."""
    t0 = time.time()
    ctx = SymCtx(solver_timeout_ms, deadline=t0 + budget_s)
    ctx.keep = keep
    res = Result(paths=0, aborted=0, reached=0, max_depth=0, violations=[],
                 incomplete={}, timed_out=False, sample=None)
    more = True
    first = True
    seen_paths = []
    while more:
        if not first and time.time() - t0 > budget_s:
            res["timed_out"] = True
            break
        if max_paths is not None and res["paths"] >= max_paths:
            res["timed_out"] = True
            break
        ctx.reset_path()
        ctx.start_model_used = False
        if not ctx.trail:
            ctx.start_model = None
        first = False
        set_cur(ctx)
        env.reset(ctx)
        cand = None
        prof = profile is not None and (
            res["paths"] < 12 or res["paths"] % 64 == 0)
        try:
            try:
                if prof:
                    sys.setprofile(profile)
                try:
                    harness(ctx, **cfg)
                finally:
                    if prof:
                        sys.setprofile(None)
                    set_cur(None)
                    env.after(ctx)
            except _Fail:
                pass
            except Exception as e:  # the code under test raised
                ctx.pending.append(
                    (False, f"uncaught {type(e).__name__}"))
                res["last_exc"] = f"{type(e).__name__}: {e}"[:300]
            if ctx._replaying():
                raise Divergence("path ended inside the recorded trail")
            ctx._ensure_model()
            cand = ctx.discharge()
            res["reached"] += 1
            if ctx.required and len(seen_paths) < 3000 and \
                    ctx.model is not None:
                seen_paths.append(ctx._assignment(ctx.model))
            if res["sample"] is None and ctx.model is not None:
                a = ctx._assignment(ctx.model)
                res["sample"] = {"cfg": repr(cfg)[:300], "vals": dict(
                    list(a["vals"].items())[:12]), "choices": dict(
                    list(a["choices"].items())[:12])}
        except PathAbort:
            res["aborted"] += 1
        except Divergence as e:
            ctx.incomplete["divergence: " + str(e)[:80]] += 1
            # drop everything and stop: the harness is not deterministic
            res["paths"] += 1
            break
        except Budget:
            res["timed_out"] = True
            break
        except RecursionError:
            ctx.incomplete["recursion"] += 1
        res["paths"] += 1
        res["max_depth"] = max(res["max_depth"], len(ctx.trail))
        if ctx.path_incomplete and cand is None:
            ctx.incomplete[ctx.path_incomplete] += 1
        if cand is not None:
            label, models = cand
            verdict = on_candidate(label, models) if on_candidate else (
                "violation", None)
            if verdict[0] == "violation":
                res["violations"].append({"label": label, "replay": verdict[1]})
                break
            elif verdict[0] == "known":
                res.setdefault("known", {})[verdict[1]] = \
                    res.setdefault("known", {}).get(verdict[1], 0) + 1
            else:
                ctx.incomplete[f"counterexample did not reproduce: {label}"
                               ] += 1
                if sum(v for k, v in ctx.incomplete.items()
                       if k.startswith("counterexample")) > 25:
                    res["timed_out"] = True
                    break
        more = ctx.backtrack()
    missing = sorted(ctx.required - ctx.covered)
    res["goals"] = len(ctx.required)
    if missing and not (res["violations"] or res["timed_out"] or
                        ctx.incomplete):
        label = f"outcome that no path shows: {missing[0]}"
        verdict = on_candidate(label, [{"goal": missing[0],
                                        "paths": seen_paths}])
        if verdict[0] == "violation":
            res["violations"].append({"label": label, "replay": verdict[1]})
        elif verdict[0] == "known":
            res["known"] = {verdict[1]: 1}
        else:
            ctx.incomplete["missing outcome did not reproduce"] += 1
    set_cur(None)
    res.update(queries=ctx.queries, solver_s=ctx.solver_s,
               unknowns=ctx.unknowns, obligations=ctx.obligations,
               concrete_ok=ctx.concrete_ok, simplified=ctx.simplified,
               incomplete=dict(ctx.incomplete),
               wall_s=time.time() - t0, kept=ctx.kept_queries)
    return res
