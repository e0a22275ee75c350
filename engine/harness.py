"""The interface harnesses are written against, in two versions.

Sym runs a harness once per path with symbolic inputs; Conc runs the same harness on plain
floats, without any of the engine's hooks, to confirm counterexamples on the real code.
"""
from __future__ import annotations

import contextlib
import importlib
import math
import os
import random
import sys
import traceback

import numpy as np

from . import term as T

MODULES = ["motion", "laue", "polycrystal", "phase", "detector", "beam", "mesh", "utils", "templates", "scattering_factors", "structure_factors", "cuda"]

REGISTRY: dict = {}


class Harness:
    def __init__(self, prop, name, fn, opts):
        self.prop, self.name, self.fn, self.opts = prop, name, fn, opts


def harness(prop, name=None, tiers=("quick", "thorough"), **opts):
    """opts: max_paths, time, timeout_ms, functions (documentation), bounds (documentation), stubs, draws."""

    def deco(fn):
        h = Harness(prop, name or fn.__name__, fn, opts)
        h.tiers = tiers
        REGISTRY.setdefault(prop, {})[h.name] = h
        return fn

    return deco


class Unexpected(Exception):
    pass


class Base:
    pi = math.pi

    def __init__(self):
        self._patches = []
        self.tier = "quick"

    # -- patching
    def patch(self, obj, name, value):
        had = name in vars(obj) if not isinstance(obj, dict) else name in obj
        if isinstance(obj, dict):
            old = obj.get(name)
            obj[name] = value
        else:
            old = getattr(obj, name, None)
            setattr(obj, name, value)
        self._patches.append((obj, name, old, had))

    def unpatch(self):
        for obj, name, old, had in reversed(self._patches):
            if isinstance(obj, dict):
                if had:
                    obj[name] = old
                else:
                    obj.pop(name, None)
            elif had:
                setattr(obj, name, old)
            else:
                try:
                    delattr(obj, name)
                except AttributeError:
                    pass
        self._patches = []

    # -- composite inputs, shared
    def reals(self, name, shape, lo, hi, **k):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        n = int(np.prod(shape, dtype=int))
        return self.tensor_of([self.real("%s%d" % (name, i), lo, hi, **k) for i in range(n)]).reshape(shape)

    def tensor_of(self, xs):
        import torch

        return torch.tensor(xs, dtype=torch.float64)

    def rotmat(self, name):
        """Any proper rotation matrix (unit quaternion)."""
        w, x, y, z = self.unit_scalars(name, 4)
        m = [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
        return self.tensor_of(m)

    def unit(self, name, n=3):
        return self.tensor_of(self.unit_scalars(name, n))

    def case(self, name, options):
        """One of the options, all of which are explored."""
        options = list(options)
        for i, o in enumerate(options[:-1]):
            if self.flag("%s=%d" % (name, i)):
                return o
        return options[-1]

    # -- spec helpers
    def dot(self, a, b):
        s = 0
        for x, y in zip(a, b):
            s = s + x * y
        return s

    def norm(self, a):
        return self.sqrt(self.dot(a, a))

    def crossp(self, a, b):
        return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

    def matvec(self, m, v):
        return [self.dot(r, v) for r in m]

    def rodrigues(self, axis, angle, v):
        """Right-handed rotation of v about the unit axis."""
        c, s = self.cos(angle), self.sin(angle)
        d = self.dot(axis, v)
        k = self.crossp(axis, v)
        return [v[i] * c + k[i] * s + axis[i] * d * (1 - c) for i in range(3)]

    def between(self, lo, x, hi):
        return self.and_(self.le(lo, x), self.le(x, hi))

    def nonneg(self, x, squares, label="sum of squares"):
        """x is proved to be a sum of squares, after which the path knows that it is not negative."""
        if not self.concrete and self.check(self.eq(x, self.dot(squares, squares)), label):
            self.assume(self.ge(x, 0))

    def raises(self, exc, fn, *a, **k):
        try:
            fn(*a, **k)
        except exc:
            return True
        return False

    def check_raises(self, exc, fn, label):
        try:
            fn()
        except exc:
            self.check(True, label)
            return
        self.check(False, label)


# ----------------------------------------------------------------------------- symbolic


class Sym(Base):
    concrete = False

    def __init__(self, ex, install=True):
        super().__init__()
        from . import pysym as P
        from . import scalar as S
        from . import tmode as M

        self.P, self.S, self.M = P, S, M
        self.ex = ex
        self.install = install

    # -- inputs
    def real(self, name, lo=-100.0, hi=100.0, int_=False, gen=None):
        def g(r):
            if gen is not None:
                return {name: gen(r)}
            return {name: r.randint(int(lo), int(hi)) if int_ else r.uniform(lo, hi)}

        b = {name: (float(lo), float(hi))}
        self.ex.declare_group([name], g, b)
        return self.P.SymReal(T.var(name, int_))

    def int(self, name, lo, hi):
        return self.real(name, lo, hi, int_=True)

    def unit_scalars(self, name, n):
        names = ["%s_%d" % (name, i) for i in range(n)]

        def g(r):
            v = [r.gauss(0, 1) for _ in range(n)]
            s = math.sqrt(sum(x * x for x in v))
            return {m: x / s for m, x in zip(names, v)}

        def fix(env):
            s = math.sqrt(sum(env.get(m, 0.0) ** 2 for m in names))
            if not s > 0:
                env[names[0]] = s = 1.0
            for m in names:
                env[m] = env.get(m, 0.0) / s

        vs = [T.var(m) for m in names]
        last = T.sub(T.ONE, T.add(*[T.mul(v, v) for v in vs[:-1]])) if n > 1 else T.ONE
        self.ex.declare_group(names, g, {m: (-1.0, 1.0) for m in names}, {names[-1]: (2, last)}, fix)
        return [self.P.SymReal(v) for v in vs]

    def flag(self, name):
        self.ex.declare_group([name], lambda r: {name: r.random() < 0.5})
        return self.ex.decide(T.boolvar(name))

    # -- values
    def val(self, x):
        """Scalar -> SymReal/SymBool (exact)."""
        return self.P.wrap_exact(self._u(x))

    def _u(self, x):
        if isinstance(x, T.Term):
            return x
        v = self.P.unwrap(x)
        if v is None:
            o = self.M.obj_of(x)
            v = o.reshape(-1)[0]
            assert o.size == 1
        return v

    def vals(self, x):
        """Array-like -> nested lists of symbolic scalars."""
        o = self.M.obj_of(x)

        def rec(a):
            if not isinstance(a, np.ndarray):
                return self.P.wrap_exact(a)
            if a.ndim == 0:
                return self.P.wrap_exact(a[()])
            return [rec(a[i]) for i in range(a.shape[0])]

        return rec(o)

    def _f1(name):
        def f(self, x):
            return self.P.wrap_exact(getattr(self.S, name)(self._u(x)))

        return f

    sqrt, sin, cos, tan, exp, log = _f1("sqrt"), _f1("sin"), _f1("cos"), _f1("tan"), _f1("exp"), _f1("log")
    acos, asin, atan, abs, floor = _f1("acos"), _f1("asin"), _f1("atan"), _f1("absv"), _f1("floor")

    def atan2(self, y, x):
        return self.P.wrap_exact(self.S.atan2(self._u(y), self._u(x)))

    def max(self, *a):
        r = self._u(a[0])
        for x in a[1:]:
            r = self.S.maximum(r, self._u(x))
        return self.P.wrap_exact(r)

    def min(self, *a):
        r = self._u(a[0])
        for x in a[1:]:
            r = self.S.minimum(r, self._u(x))
        return self.P.wrap_exact(r)

    def _c(name):
        def f(self, a, b, exact=False):
            return getattr(self.S, name)(self._u(a), self._u(b))

        return f

    lt, le, gt, ge = _c("lt"), _c("le"), _c("gt"), _c("ge")

    def eq(self, a, b, exact=False):
        return self._eq(self._u(a), self._u(b), exact)

    def ne(self, a, b, exact=False):
        return T.not_(self.eq(a, b, exact))

    def _eq(self, a, b, exact=False):
        """Two numbers that are concrete along this path are compared up to double-precision noise."""
        if not exact and isinstance(a, T.Term) and isinstance(b, T.Term) and a.op == "c" and b.op == "c":
            x, y = float(a.data), float(b.data)
            if abs(x - y) <= 1e-10 * (1 + abs(x) + abs(y)):
                return T.TRUE
        return self.S.eq(a, b)

    def cond(self, c):
        if isinstance(c, T.Term):
            return self.S.B(c)
        if isinstance(c, (bool, np.bool_)):
            return T.boolc(bool(c))
        return self.S.B(self._u(c))

    def and_(self, *c):
        return T.and_(*[self.cond(x) for x in c])

    def or_(self, *c):
        return T.or_(*[self.cond(x) for x in c])

    def not_(self, c):
        return T.not_(self.cond(c))

    def implies(self, a, b):
        return T.implies(self.cond(a), self.cond(b))

    def ite(self, c, a, b):
        return self.P.wrap_exact(self.S.where(self.cond(c), self._u(a), self._u(b)))

    def decide(self, c):
        """Fork on a condition (case split in the oracle)."""
        return self.ex.decide(self.cond(c))

    def isfinite(self, x):
        return isinstance(self._u(x), T.Term)

    def isnan(self, x):
        v = self._u(x)
        return not isinstance(v, T.Term) and math.isnan(v)

    def isinf(self, x):
        v = self._u(x)
        return not isinstance(v, T.Term) and math.isinf(v)

    def assume(self, c):
        self.ex.assume(self.cond(c))

    # -- obligations
    def observe(self, x):
        if self.ex.is_first:
            o = self.M.obj_of(x)
            for v in o.reshape(-1):
                self.ex.first_terms.append(v)

    def check(self, c, label=""):
        return self.ex.prove(self.cond(c), label)

    def check_eq(self, got, want, label="", tol=None):
        g, w = self.M.obj_of(got), self.M.obj_of(want)
        self.observe(got)
        if g.shape != w.shape:
            if w.ndim == 0:
                w = np.broadcast_to(w, g.shape)
            else:
                return self.ex.prove(T.FALSE, "%s: shape %s instead of %s" % (label, g.shape, w.shape))
        ok = True
        for k in np.ndindex(*g.shape):
            a, b = g[k], w[k]
            if isinstance(a, T.Term) and isinstance(b, T.Term):
                c = self._eq(a, b)
            else:
                fa = a if isinstance(a, float) else None
                fb = b if isinstance(b, float) else None
                same = fa is not None and fb is not None and (fa == fb or (math.isnan(fa) and math.isnan(fb)))
                c = T.boolc(same)
            ok = self.ex.prove(c, "%s%s" % (label, list(k) if k else "")) and ok
            if not ok and len(self.ex.fail) > 12:
                break
        return ok

    def fail(self, label):
        return self.ex.prove(T.FALSE, label)

    def done(self):
        """Reached the end of the harness: recorded as the reachability witness."""
        self.ex.reached = getattr(self.ex, "reached", 0) + 1


# ----------------------------------------------------------------------------- concrete


class Skip(BaseException):
    """The candidate input does not satisfy the harness assumptions."""


class Conc(Base):
    concrete = True

    def __init__(self, env, seed=0, special=0.0, tol=1e-7):
        super().__init__()
        self.env = dict(env)
        self.rng = random.Random(seed)
        self.special = special
        self.failures = []
        self.observed = []
        self.tol = tol
        self.used = {}

    # -- inputs
    def real(self, name, lo=-100.0, hi=100.0, int_=False, gen=None):
        v = self.env.get(name)
        if v is None or (isinstance(v, float) and not math.isfinite(v)):
            if gen is not None:
                v = gen(self.rng)
            elif int_:
                v = self.rng.randint(int(lo), int(hi))
            elif self.rng.random() < self.special:
                v = self.rng.choice([x for x in (lo, hi, 0.0, 1.0, -1.0, 0.5, (lo + hi) / 2, lo + 1e-3 * (hi - lo)) if lo <= x <= hi])
            else:
                v = self.rng.uniform(lo, hi)
        v = min(max(v, lo), hi)
        v = int(round(v)) if int_ else float(v)
        self.used[name] = v
        return v

    def int(self, name, lo, hi):
        return self.real(name, lo, hi, int_=True)

    def unit_scalars(self, name, n):
        names = ["%s_%d" % (name, i) for i in range(n)]
        if all(m in self.env and self.env[m] is not None for m in names):
            v = [float(self.env[m]) for m in names]
        elif self.rng.random() < self.special:
            v = [float(self.rng.choice([-1, 0, 0, 1])) for _ in range(n)]
        else:
            v = [self.rng.gauss(0, 1) for _ in range(n)]
        s = math.sqrt(sum(x * x for x in v))
        if s == 0:
            v, s = [1.0] + [0.0] * (n - 1), 1.0
        v = [x / s for x in v]
        for m, x in zip(names, v):
            self.used[m] = x
        return v

    def flag(self, name):
        v = self.env.get(name)
        if v is None:
            v = self.rng.random() < 0.5
        self.used[name] = bool(v)
        return bool(v)

    # -- values
    def val(self, x):
        return float(self._f(x))

    def _f(self, x):
        import torch

        if isinstance(x, torch.Tensor):
            return x.item()
        if isinstance(x, np.ndarray):
            return x.item()
        return x

    def vals(self, x):
        import torch

        if isinstance(x, torch.Tensor):
            return x.detach().tolist()
        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, (list, tuple)):
            return [self.vals(y) for y in x]
        return self._f(x)

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else float("nan"))

    sin, cos, tan, exp = staticmethod(math.sin), staticmethod(math.cos), staticmethod(math.tan), staticmethod(math.exp)
    atan, atan2 = staticmethod(math.atan), staticmethod(math.atan2)
    abs = staticmethod(abs)

    def max(self, *a):
        return max(a)

    def min(self, *a):
        return min(a)

    def log(self, x):
        return math.log(x) if x > 0 else float("nan")

    def acos(self, x):
        return math.acos(max(-1.0, min(1.0, x)))

    def asin(self, x):
        return math.asin(max(-1.0, min(1.0, x)))

    def floor(self, x):
        return math.floor(x)

    # -- conditions: True / False / None (too close to call)
    def _tie(self, a, b, exact):
        if exact:
            return False
        return abs(a - b) <= self.tol * (1 + abs(a) + abs(b))

    def _cmp(op):
        def f(self, a, b, exact=False):
            a, b = self._f(a), self._f(b)
            if isinstance(a, bool) and isinstance(b, bool):
                return op(a, b)
            if math.isnan(a) or math.isnan(b):
                return op(a, b)
            if not (math.isinf(a) or math.isinf(b)) and self._tie(a, b, exact):
                return None if not (isinstance(a, int) and isinstance(b, int)) else op(a, b)
            return op(a, b)

        return f

    lt, le = _cmp(lambda a, b: a < b), _cmp(lambda a, b: a <= b)
    gt, ge = _cmp(lambda a, b: a > b), _cmp(lambda a, b: a >= b)

    def eq(self, a, b, exact=False):
        a, b = self._f(a), self._f(b)
        if exact:
            return a == b
        if math.isnan(a) or math.isnan(b):
            return False
        if a == b:
            return True
        d, s = abs(a - b), 1 + abs(a) + abs(b)
        return True if d <= self.tol * s else False

    def ne(self, a, b, exact=False):
        return self.not_(self.eq(a, b, exact))

    def cond(self, c):
        c = self._f(c) if c is not None else None
        return None if c is None else bool(c)

    def and_(self, *c):
        c = [self.cond(x) for x in c]
        if any(x is False for x in c):
            return False
        return None if any(x is None for x in c) else True

    def or_(self, *c):
        c = [self.cond(x) for x in c]
        if any(x is True for x in c):
            return True
        return None if any(x is None for x in c) else False

    def not_(self, c):
        c = self.cond(c)
        return None if c is None else not c

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def ite(self, c, a, b):
        c = self.cond(c)
        if c is None:
            raise Skip()
        return a if c else b

    def decide(self, c):
        c = self.cond(c)
        if c is None:
            raise Skip()
        return c

    def isfinite(self, x):
        return math.isfinite(self._f(x))

    def isnan(self, x):
        return math.isnan(self._f(x))

    def isinf(self, x):
        return math.isinf(self._f(x))

    def assume(self, c):
        if self.cond(c) is not True:
            raise Skip()

    # -- obligations
    def observe(self, x):
        v = self.vals(x)

        def rec(v):
            if isinstance(v, list):
                for y in v:
                    rec(y)
            else:
                self.observed.append(float(v))

        rec(v)

    def check(self, c, label=""):
        if self.cond(c) is False:
            self.failures.append(label)
            return False
        return True

    def check_eq(self, got, want, label="", tol=None):
        g = np.array(self.vals(got), dtype=float)
        w = np.array(self.vals(want), dtype=float)
        self.observe(got)
        if g.shape != w.shape and w.ndim != 0:
            self.failures.append("%s: shape %s instead of %s" % (label, g.shape, w.shape))
            return False
        w = np.broadcast_to(w, g.shape)
        tol = self.tol if tol is None else tol
        scale = 1 + (np.max(np.abs(w[np.isfinite(w)])) if np.isfinite(w).any() else 0)
        with np.errstate(invalid="ignore"):
            bad = np.abs(g - w) > tol * scale
        bad = np.where(np.isfinite(g) & np.isfinite(w), bad, ~((g == w) | (np.isnan(g) & np.isnan(w))))
        if bad.any():
            k = tuple(int(i) for i in np.argwhere(bad)[0]) if bad.ndim else ()
            self.failures.append("%s%s: got %r, want %r" % (label, list(k), float(g[k]), float(w[k])))
            return False
        return True

    def fail(self, label):
        self.failures.append(label)
        return False

    def done(self):
        pass


# ----------------------------------------------------------------------------- running


def load(prop):
    repo = os.environ.get("XRD_REPO", "/repo")
    sys.path.insert(0, repo) if repo not in sys.path else None
    importlib.import_module("harness.%s" % prop.lower())
    return REGISTRY.get(prop, {})


def install_proxies(h, names=MODULES):
    from . import npsym as N

    np_p, m_p = N.NpProxy(), N.MathProxy()
    for m in names:
        try:
            mod = importlib.import_module("xrd_simulator." + m)
        except ImportError:
            continue
        g = mod.__dict__
        if g.get("np") is not None:
            h.patch(g, "np", np_p)
        if "math" in g:
            h.patch(g, "math", m_p)
        h.patch(g, "float", N.PFloat)
        h.patch(g, "int", N.PInt)


def run_symbolic(H, seed, tier, patient=False):
    """Explore one harness; returns a result dictionary.

    patient: the second attempt, made when the first one did not decide: no early end, longer time limits per query.
    """
    import time

    from . import explorer as X
    from . import scalar as S
    from . import tmode as M

    o = H.opts
    th = tier == "thorough"
    ex = X.Explorer(
        seed=seed,
        max_paths=o.get("max_paths", 300) * (5 if th else 1),
        time_limit=o.get("time", 200) * (6 if th else 1),
        timeout_ms=o.get("timeout_ms", 20000) * (6 if th else 1) * (2 if patient else 1),
        branch_ms=o.get("branch_ms", 2000) * (10 if patient else 1),
    )
    ex.stop_fail = 0 if patient else 4
    ex.fork_where = o.get("fork_where", False)
    ex.fork_max = o.get("fork_max", False)
    ex.arc_total = o.get("arc_total", False)
    ex.reached = 0
    t0 = time.time()
    res = {"harness": H.name, "inconclusive": None, "raised": []}

    def body():
        M.reset()
        h = Sym(ex)
        h.tier = tier
        try:
            if o.get("proxies", True):
                install_proxies(h)
            with M.modes():
                H.fn(h)
            h.done()
        except (X.PathEnd, X.Retry):
            raise
        except (X.Inconclusive, S.Unsupported):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            if isinstance(e, TypeError) and "Sym" in str(e):
                raise S.Unsupported(tb[-1500:])
            # is this path feasible? then the code raised on it
            ok = ex.prove(T.FALSE, "raised %s: %s" % (type(e).__name__, str(e)[:200]))
            res["raised"].append({"error": tb[-2500:], "feasible": not ok})
        finally:
            h.unpatch()

    try:
        ex.explore(body)
    except X.Inconclusive as e:
        res["inconclusive"] = str(e)
    except S.Unsupported as e:
        res["inconclusive"] = "unsupported: %s\n%s" % (e, traceback.format_exc()[-2500:])
    except Exception as e:
        res["inconclusive"] = "engine error: %s\n%s" % (e, traceback.format_exc()[-2500:])
    obs = []
    if ex.witness0 is not None:
        for v in ex.first_terms:
            try:
                obs.append(float(T.evaluate(v, ex.witness0)) if isinstance(v, T.Term) else float(v))
            except Exception:
                obs.append(None)
    res.update(
        paths=ex.paths,
        pruned=ex.pruned,
        reached=ex.reached,
        obligations=ex.obligations,
        proved=ex.proved,
        fail=ex.fail[:20],
        nfail=len(ex.fail),
        queries=ex.stats.queries,
        sat=ex.stats.sat,
        unsat=ex.stats.unsat,
        unknown=ex.stats.unknown,
        solver_s=round(ex.stats.time, 3),
        wall_s=round(time.time() - t0, 2),
        witness=ex.witness0,
        witness_obs=obs,
        ops=dict(M.ST.ops),
        terms=len(T.TABLE),
        notes=ex.notes,
    )
    return res


def run_concrete(H, env, seed=0, special=0.0, tier="quick"):
    """Returns (status, failures, used inputs, observed)."""
    h = Conc(env, seed, special)
    h.tier = tier
    try:
        H.fn(h)
        status = "fail" if h.failures else "ok"
    except Skip:
        status = "skip" if not h.failures else "fail"
    except Exception as e:
        h.failures.append("raised %s: %s" % (type(e).__name__, str(e)[:300]))
        h.trace = traceback.format_exc()[-2000:]
        status = "fail"
    finally:
        h.unpatch()
    return status, h.failures, h.used, h.observed
