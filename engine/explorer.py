"""Path exploration by re-execution, path conditions, and proofs on a path."""
from __future__ import annotations

import math
import random
import time
from fractions import Fraction

from . import scalar as S
from . import smt
from . import term as T


class PathEnd(BaseException):
    """The current path is abandoned (assumption violated, infeasible, ...)."""


class Retry(BaseException):
    """The initial witness violates an assumption: draw another one."""


class Inconclusive(Exception):
    pass


INF = math.inf


class Explorer:
    def __init__(self, seed=1, max_paths=200, time_limit=300.0, timeout_ms=20000, branch_ms=3000):
        self.arc_total = False  # arc functions' arguments taken to be in range (the harness compares the arguments)
        self.seed = seed
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms
        self.branch_ms = branch_ms
        self.t_end = time.time() + time_limit
        self.stop_fail = 0
        self.first_fail = None
        self.stats = smt.Stats()
        self.bounds = {}
        self.squares = {}
        self.generators = []  # (names, fn(rng)->dict) to draw a witness
        self.norms = {}
        self.fork_where = False
        self.fork_max = False
        self.pf = None
        self.fail = []  # failed / undecided obligations
        self.obligations = 0
        self.proved = {"trivial": 0, "normalised": 0, "interval": 0, "smt": 0, "decomposed": 0}
        self.paths = 0
        self.pruned = 0
        self.first_terms = []
        self.recording = False
        self.witness0 = None
        self.query_cache = {}
        self.int_cap = 400
        self.labels = {}
        self.notes = []
        self.groups = {}
        self.repairs = []

    # ------------------------------------------------------------------ run
    def explore(self, fn):
        S.STATE.explorer = self
        try:
            self._first(fn)
            while self.todo:
                if self.paths >= self.max_paths:
                    raise Inconclusive("path limit %d reached with %d branches left" % (self.max_paths, len(self.todo)))
                if time.time() > self.t_end:
                    raise Inconclusive("time limit reached after %d paths" % self.paths)
                prefix, wit = self.todo.pop()
                self._run(fn, prefix, wit)
        finally:
            S.STATE.explorer = None

    def _first(self, fn):
        self.todo = []
        for attempt in range(400):
            self.rng = random.Random(self.seed * 1000 + attempt)
            self.witness_draw = {}
            self.first_terms = []
            self.recording = True
            try:
                self.todo = []
                self._run(fn, [], {}, first=True)
                self.recording = False
                self.witness0 = dict(self.witness)
                return
            except Retry:
                continue
        raise Inconclusive("no witness satisfies the harness assumptions")

    def _run(self, fn, prefix, wit, first=False):
        self.is_first = first
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.pc = []
        self.facts = {}
        self.learned = {}
        self.subst = {}
        self.imemo = {}
        self.ememo = {}
        self.witness = wit if wit is not None else None
        self.draw_rng = random.Random(self.seed)
        try:
            fn()
            self.paths += 1
        except PathEnd:
            self.pruned += 1

    # ------------------------------------------------------------------ inputs
    def declare(self, names, gen, bounds=None, squares=None):
        """Register an input group; returns its carrier values on this path."""
        for n in names:
            if bounds and n in bounds:
                self.bounds[n] = bounds[n]
        if squares:
            self.squares.update(squares)
        if self.is_first:
            for n, v in gen(self.rng).items():
                self.witness.setdefault(n, v)
            return {n: self.witness[n] for n in names}
        if self.witness is not None and all(n in self.witness for n in names):
            return {n: self.witness[n] for n in names}
        v = gen(self.draw_rng)
        if self.witness is not None:
            # an input the model said nothing about is unconstrained so far
            for n in names:
                self.witness.setdefault(n, v[n])
            return {n: self.witness[n] for n in names}
        return v

    def declare_group(self, names, gen, bounds=None, squares=None, fix=None):
        key = tuple(names)
        if key not in self.groups:
            self.groups[key] = True
            self.generators.append((names, gen))
            if fix is not None:
                self.repairs.append(fix)
        self.declare(names, gen, bounds, squares)

    # ------------------------------------------------------------------ intervals
    def interval(self, t):
        m = self.imemo
        r = m.get(t.id)
        if r is not None:
            return r
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in m:
                stack.pop()
                continue
            if x.sort == "B":
                m[x.id] = (0.0, 1.0)
                stack.pop()
                continue
            pend = [a for a in x.args if a.id not in m]
            if pend:
                stack.extend(pend)
                continue
            stack.pop()
            lo, hi = _iv(x, [m[a.id] for a in x.args], self.bounds)
            l = self.learned.get(x.id)
            if l is not None:
                lo, hi = max(lo, l[0]), min(hi, l[1])
            m[x.id] = (lo, hi)
        return m[t.id]

    def unit_range(self, a):
        """Is |a| <= 1 certain on this path? (arguments of arccos/arcsin)"""
        lo, hi = self.interval(a)
        if -1 - 1e-12 <= lo and hi <= 1 + 1e-12:
            return True
        c = T.or_(T.gt(a, T.ONE), T.lt(a, T.MINUS_ONE))
        return self.known(c) is False

    def sign(self, t, depth=0):
        """Exact structural sign: 2 certainly > 0, 1 certainly >= 0, 0 not known."""
        if depth > 40:
            return 0
        o = t.op
        if o == "c":
            return 2 if t.data > 0 else (1 if t.data == 0 else 0)
        l = self.learned.get(t.id)
        if o == "v" or l is not None:
            lo = max(self.bounds.get(t.data, (-INF,))[0] if o == "v" else -INF, l[0] if l else -INF)
            if lo > 0:
                return 2
            if lo == 0:
                return 1
            if o == "v":
                return 0
        if o == "+":
            c0 = t.data[0]
            if c0 < 0:
                return 0
            r = 2 if c0 > 0 else 1
            for c, a in zip(t.data[1], t.args):
                s = self.sign(a, depth + 1) if c > 0 else (self.sign(T.neg(a), depth + 1) if a.op in ("v", "+") and depth < 3 else 0)
                if not s:
                    return 0
                r = max(r, s)
            return r
        if o == "*":
            r = 2
            for b, e in zip(t.args, t.data):
                s = self.sign(b, depth + 1)
                if e < 0 and s == 1:
                    s = 2  # the inverse exists
                if e % 2 == 0:
                    s = 2 if (s == 2 or e < 0) else 1
                if not s:
                    return 0
                r = min(r, s)
            return r
        if o == "ite":
            return min(self.sign(t.args[1], depth + 1), self.sign(t.args[2], depth + 1))
        if o == "f":
            n = t.data
            if n == "exp":
                return 2
            if n == "sqrt":
                return 2 if self.sign(t.args[0], depth + 1) == 2 else 1
            if n in ("abs", "acos"):
                return 1
            if n == "max":
                return max(self.sign(a, depth + 1) for a in t.args)
            if n == "min":
                return min(self.sign(a, depth + 1) for a in t.args)
        return 0

    # ------------------------------------------------------------------ facts
    def known(self, cond):
        if cond.op == "true":
            return True
        if cond.op == "false":
            return False
        r = self.facts.get(cond.id)
        if r is not None:
            return r
        n = T.not_(cond)
        r = self.facts.get(n.id)
        if r is not None:
            return not r
        return self._iv_bool(cond)

    def _iv_bool(self, c):
        o = c.op
        if o == "true":
            return True
        if o == "false":
            return False
        r = self.facts.get(c.id)
        if r is not None:
            return r
        if o == "not":
            r = self._iv_bool(c.args[0])
            return None if r is None else not r
        if o in ("and", "or"):
            absorb = o == "or"
            unk = False
            for a in c.args:
                r = self._iv_bool(a)
                if r is None:
                    unk = True
                elif r == absorb:
                    return absorb
            return None if unk else (not absorb)
        if o in ("le", "lt", "eq"):
            lo, hi = self.interval(c.args[0])
            if o != "eq" and hi < 1e-6:
                sg = self.sign(T.neg(c.args[0]))
                if sg == 2 or (sg == 1 and o == "le"):
                    return True
            if o == "lt" and lo > -1e-6 and self.sign(c.args[0]) >= 1:
                return False
            if o == "le" and lo > -1e-6 and self.sign(c.args[0]) == 2:
                return False
            e = 1e-11 * (1 + min(abs(lo), abs(hi))) if (math.isfinite(lo) or math.isfinite(hi)) else 0
            if o == "eq":
                if lo > e or hi < -e:
                    return False
                return None
            if o == "le":
                if hi < -e:
                    return True
                if lo > e:
                    return False
                return None
            if hi < -e:
                return True
            if lo > e:
                return False
            return None
        return None

    def learn(self, cond, why="branch"):
        """Add a true condition to the path."""
        if cond.op == "true":
            return
        if cond.op == "false":
            raise PathEnd()
        if cond.id in self.facts:
            return
        if cond.op == "and":
            for a in cond.args:
                self.learn(a)
            self.facts[cond.id] = True
            return
        self.facts[cond.id] = True
        self.facts[T.not_(cond).id] = False
        self.pc.append(cond)
        t = cond.args[0] if cond.op in ("le", "lt", "eq") else None
        if cond.op == "lt":
            self.facts[T.le0(t).id] = True
            self.facts[T.eq0(t).id] = False
            self.facts[T.lt0(T.neg(t)).id] = False
        if cond.op == "eq":
            self.facts[T.lt0(t).id] = False
            self.facts[T.lt0(T.neg(t)).id] = False
            self.facts[T.le0(t).id] = True
            self.facts[T.le0(T.neg(t)).id] = True
        if t is not None:
            self.imemo = {}
            c0, coef, core = Fraction(0), Fraction(1), t
            if t.op == "+" and len(t.args) == 1:
                c0, coef, core = t.data[0], t.data[1][0], t.args[0]
            elif t.op == "+":
                c0 = t.data[0]
                core = T.sub(t, T.const(c0))
                if core.op == "+" and len(core.args) == 1:
                    coef, core = core.data[1][0], core.args[0]
            lo, hi = self.learned.get(core.id, (-INF, INF))
            v = float(-c0 / coef)
            if cond.op == "eq":
                lo, hi = max(lo, v), min(hi, v)
                if core.op in ("v", "f", "ite") :
                    self.subst[core.id] = -c0 / coef
            elif coef > 0:
                hi = min(hi, v)
            else:
                lo = max(lo, v)
            self.learned[core.id] = (lo, hi)
            ncore = T.neg(core)
            self.learned[ncore.id] = (-hi, -lo)

    def norm(self):
        key = frozenset(self.subst.items())
        n = self.norms.get(key)
        if n is None:
            n = smt.Norm(bounds=self.bounds, squares=self.squares)
            n.subst = dict(self.subst)
            if len(self.norms) > 40:
                self.norms.clear()
            self.norms[key] = n
        return n

    # ------------------------------------------------------------------ decisions
    def decide(self, cond, hint=None):
        k = self.known(cond)
        if k is not None:
            return k
        if time.time() > self.t_end:
            raise Inconclusive("time limit reached on path %d" % self.paths)
        if self.pos < len(self.prefix):
            ent = self.prefix[self.pos]
            cid, d = ent[0], ent[-1]
            if cid != cond.id:
                raise Inconclusive("execution is not deterministic under replay")
            self.pos += 1
            self.trace.append((cid, d))
            self.learn(cond if d else T.not_(cond))
            return d
        d = self._norm_bool(cond)
        if d is None:
            if self.witness is not None:
                v = self._eval(cond)
                if v is not None:
                    d = bool(v)
            if d is None:
                d = True if hint is None else hint
                st, m = self.feasible(cond if d else T.not_(cond))
                if st == "unsat":
                    d = not d
                    return self._take(cond, d)
                if st == "sat" and m is not None:
                    self.witness = m
                    self.ememo = {}
            st, m = self.feasible(T.not_(cond) if d else cond)
            if st != "unsat":
                self.todo.append((self.trace + [(cond.id, not d)], m))
        return self._take(cond, d)

    def _take(self, cond, d):
        self.trace.append((cond.id, d))
        self.pos += 1
        self.prefix = self.trace[:]
        self.learn(cond if d else T.not_(cond))
        return d

    def _eval(self, t):
        try:
            v = T.evaluate(t, self.witness, self.ememo)
        except KeyError:
            return None
        if isinstance(v, float) and math.isnan(v):
            return None
        return v

    def _norm_bool(self, cond):
        if cond.op == "not":
            r = self._norm_bool(cond.args[0])
            return None if r is None else not r
        if cond.op in ("and", "or"):
            absorb = cond.op == "or"
            unk = False
            for a in cond.args:
                r = self.known(a)
                if r is None:
                    r = self._norm_bool(a)
                if r is None:
                    unk = True
                elif r == absorb:
                    return absorb
            return None if unk else not absorb
        if cond.op == "eq":
            try:
                n = self.norm()
                p = n.poly(cond.args[0])
                if n.is_zero(p):
                    return True
                if set(p) == {()}:
                    return False
                return self._poly_known(n, cond.args[0], "eq")
            except (smt.TooBig, ZeroDivisionError):
                pass
        elif cond.op in ("le", "lt"):
            try:
                n = self.norm()
                p = n.poly(cond.args[0])
                if not p:
                    return cond.op == "le"
                if set(p) == {()}:
                    c = p[()]
                    return c <= 0 if cond.op == "le" else c < 0
                return self._poly_known(n, cond.args[0], cond.op)
            except (smt.TooBig, ZeroDivisionError):
                pass
        return None

    def flipped(self, t):
        """Orientation of a comparison with 0 that does not depend on how it is written."""
        try:
            n = self.norm()
            p = n.poly(t)
            if not p or set(p) == {()}:
                return False
            cn = _pcanon(n, p)
            return cn is not None and cn[1] < 0
        except (smt.TooBig, ZeroDivisionError):
            return False

    # facts of the path by normal form: the same comparison may be written in many ways
    def _poly_known(self, n, t, op):
        for _ in range(10):
            facts = self._poly_facts(n)
            gen = n.gen
            p = n.poly(t)
            if n.gen == gen:
                break
        if not p:
            return op != "lt"
        if set(p) == {()}:
            return None
        cn = _pcanon(n, p)
        if cn is None:
            c = p.get((), 0)
            return {"eq": c == 0, "le": c <= 0, "lt": c < 0}[op]
        key, lead, v = cn
        f = facts.get(key)
        if f is None:
            return None
        lo, los, hi, his = f
        # the comparison reads  q <= v  (lead > 0)  or  q >= v
        if op == "eq":
            if lo == v == hi:
                return True
            if v < lo or v > hi or (v == lo and los) or (v == hi and his):
                return False
            return None
        if lead < 0:
            lo, los, hi, his, v = -hi, his, -lo, los, -v
        if op == "le":
            if hi <= v:
                return True
            if lo > v or (lo == v and los):
                return False
        else:
            if hi < v or (hi == v and his):
                return True
            if lo >= v:
                return False
        return None

    def _poly_facts(self, n):
        c = self.pf
        if c is not None and c[0] is n and c[1] == n.gen and c[2] <= len(self.pc) and c[4] is self.pc:
            d, start = c[3], c[2]
        else:
            d, start = {}, 0
        gen = n.gen
        for cond in self.pc[start:]:
            neg = cond.op == "not"
            b = cond.args[0] if neg else cond
            if b.op not in ("le", "lt", "eq"):
                continue
            try:
                p = n.poly(b.args[0])
            except (smt.TooBig, ZeroDivisionError):
                continue
            if not p:
                continue
            if set(p) == {()}:
                continue
            try:
                cn = _pcanon(n, p)
            except smt.TooBig:
                continue
            if cn is None:
                continue
            key, lead, v = cn
            lo, los, hi, his = d.get(key, (-INF, False, INF, False))
            if b.op == "eq":
                if neg:
                    if v == lo:
                        los = True
                    if v == hi:
                        his = True
                else:
                    lo, los, hi, his = v, False, v, False
            elif lead > 0:
                if v < hi or (v == hi and b.op == "lt"):
                    hi, his = v, b.op == "lt"
            else:
                if v > lo or (v == lo and b.op == "lt"):
                    lo, los = v, b.op == "lt"
            d[key] = (lo, los, hi, his)
        if n.gen != gen:  # atoms were renumbered on the way
            self.pf = None
            return self._poly_facts(n)
        self.pf = (n, n.gen, len(self.pc), d, self.pc)
        return d

    def _relevant(self, goal, rounds=1):
        vs = {v.id for v in T.variables([goal])}
        sel = []
        for _ in range(rounds):
            sel = [c for c in self.pc if {v.id for v in _vars(c)} & vs]
            for c in sel:
                vs |= {v.id for v in _vars(c)}
        return sel

    def feasible(self, cond):
        """Is the current path with cond feasible? ('sat', witness) / 'unsat' / 'unknown'."""
        if cond.op == "bv" or (cond.op == "not" and cond.args[0].op == "bv"):
            w = dict(self.witness) if self.witness is not None else None
            if w is not None:
                w[cond.data if cond.op == "bv" else cond.args[0].data] = cond.op == "bv"
            return "sat", w
        key = (frozenset(c.id for c in self.pc), cond.id)
        hit = self.query_cache.get(key)
        if hit is not None:
            return hit
        res = None
        for conds in self._levels(cond):
            v = smt.solve(self.norm(), self.interval, conds, self.branch_ms, self.stats)
            if v.status == "unsat":
                res = ("unsat", None)
                break
            if len(conds) == len(self.pc) + 1 or v.status == "unknown":
                pass
            last = v
        if res is None:
            env = self.repair(last) if last.status == "sat" else None
            if env is not None and not self._holds(env, self.pc + [cond]):
                env = None
            res = (last.status, env)
        self.query_cache[key] = res
        return res

    def _levels(self, cond):
        yield [cond]
        rel = self._relevant(cond)
        if rel:
            yield [cond] + rel
        if len(rel) < len(self.pc):
            yield [cond] + self.pc

    def _holds(self, env, conds):
        memo = {}
        try:
            return all(bool(T.evaluate(c, env, memo)) is True for c in conds)
        except KeyError:
            return False

    def repair(self, verdict):
        """Model of the abstraction -> values for the inputs."""
        if verdict.env is None:
            return None
        norm = verdict.enc.norm
        base = dict(self.witness or self.witness0 or {})
        env = {}
        for (kind, key), v in verdict.env.items():
            if kind == "v" and v is not None:
                env[key] = v
        # angles: trust the model's sine and cosine rather than its angle
        trig = {}
        for (kind, key), v in verdict.env.items():
            if kind in ("sin", "cos") and v is not None:
                a = norm.atoms[key]
                p = a.args[0]
                (m, u), = p.items()
                trig.setdefault((m, u), {})[kind] = v
        for (m, u), sc in trig.items():
            if len(m) == 1 and m[0][1] == 1 and "sin" in sc and "cos" in sc:
                a = norm.atoms[m[0][0]]
                if a.kind == "v":
                    th = math.atan2(sc["sin"], sc["cos"]) / float(u)
                    lo, hi = self.bounds.get(a.key, (-INF, INF))
                    period = 2 * math.pi / float(u)
                    best = None
                    for k in range(-3, 4):
                        c = th + k * period
                        if lo - 1e-9 <= c <= hi + 1e-9:
                            c = min(max(c, lo), hi)
                            if best is None or abs(c - env.get(a.key, c)) < abs(best - env.get(a.key, c)):
                                best = c
                    if best is not None:
                        env[a.key] = best
        base.update(env)
        for r in self.repairs:
            r(base)
        return base

    def assume(self, cond):
        k = self.known(cond)
        if k is True:
            return
        if k is False:
            if self.is_first:
                raise Retry()
            raise PathEnd()
        if self.is_first:
            if not self._eval(cond):
                raise Retry()
        elif self.witness is not None and not self._eval(cond):
            # the witness was found without this assumption: look for another
            st, m = self.feasible(cond)
            if st == "unsat":
                raise PathEnd()
            self.witness = m
            self.ememo = {}
        elif self.witness is None:
            st, m = self.feasible(cond)
            if st == "unsat":
                raise PathEnd()
            self.witness = m
            self.ememo = {}
        self.learn(cond)

    def concretize_int(self, t):
        if not isinstance(t, T.Term):
            raise S.Unsupported("integer conversion of a non-finite value")
        if t.op == "c":
            return int(t.data)
        s = self.subst.get(t.id)
        if s is not None and s.denominator == 1:
            return int(s)
        n = self.norm()
        try:
            p = n.poly(t)
            if set(p) <= {()}:
                return int(p.get((), 0))
        except (smt.TooBig, ZeroDivisionError):
            pass
        lo, hi = self.interval(t)
        if math.isfinite(lo) and math.isfinite(hi) and math.floor(hi + 1e-9) == math.ceil(lo - 1e-9):
            return int(math.floor(hi + 1e-9))
        tried = set()
        while len(tried) <= self.int_cap:
            if self.pos < len(self.prefix):
                ent = self.prefix[self.pos]
                if ent[0] != "i" or ent[1] != t.id:
                    raise Inconclusive("execution is not deterministic under replay (int)")
                _, _, k, d = ent
                self.pos += 1
                self.trace.append(ent)
            else:
                k = None
                if self.witness is not None:
                    v = self._eval(t)
                    if v is not None and math.isfinite(v) and int(round(v)) not in tried:
                        k = int(round(v))
                if k is None:
                    lo, hi = self.interval(t)
                    fin = math.isfinite(lo) and math.isfinite(hi)
                    cands = range(int(math.ceil(lo - 1e-9)), int(math.floor(hi + 1e-9)) + 1) if fin else range(0, self.int_cap)
                    k = next((c for c in cands if c not in tried), None)
                    if k is None:
                        raise PathEnd()
                cond = self._int_cond(t, k)
                known = self.known(cond)
                if known is None and not (self.witness is not None and self._eval(cond)):
                    st, m = self.feasible(cond)
                    if st == "unsat":
                        known = False
                    elif m is not None:
                        self.witness = m
                        self.ememo = {}
                if known is False:
                    d = False
                else:
                    d = True
                    if known is None:
                        st, m = self.feasible(T.not_(cond))
                        if st != "unsat":
                            self.todo.append((self.trace + [("i", t.id, k, False)], m))
                ent = ("i", t.id, k, d)
                self.trace.append(ent)
                self.pos += 1
                self.prefix = self.trace[:]
            tried.add(k)
            cond = self._int_cond(t, k)
            if not d:
                if self.known(cond) is not False:
                    self.learn(T.not_(cond))
                continue
            self.learn(cond)
            self.subst[t.id] = Fraction(k)
            self.learned[t.id] = (float(k), float(k))
            self.imemo = {}
            return k
        raise Inconclusive("an integer has more than %d feasible values" % self.int_cap)

    def _int_cond(self, t, k):
        kc = T.const(k)
        if t.op == "f" and t.data == "floor":
            x = t.args[0]
            return T.and_(T.le(kc, x), T.lt(x, T.const(k + 1)))
        if t.op == "ite" and all(a.op == "f" and a.data == "floor" or a.op == "+" and len(a.args) == 1 and a.args[0].op == "f" and a.args[0].data == "floor" for a in t.args[1:]):
            # truncation towards zero
            c = self.known(t.args[0])
            a = T.FALSE if c is False else self._int_cond(t.args[1], k)
            b = T.FALSE if c is True else self._int_cond(t.args[2], k)
            return T.or_(T.and_(t.args[0], a), T.and_(T.not_(t.args[0]), b))
        if t.op == "+" and len(t.args) == 1 and abs(t.data[1][0]) == 1 and t.args[0].op == "f":
            # c +- x == k
            return self._int_cond(t.args[0], (k - t.data[0]) * t.data[1][0])
        return T.eq(t, kc)

    # ------------------------------------------------------------------ proofs
    def prove(self, goal, label="", detail=None):
        """Show that goal holds on the current path, or record why not."""
        self.obligations += 1
        st, env, how = self._prove(goal)
        if st == "proved":
            self.proved[how] += 1
            return True
        self.fail.append({"label": label, "status": st, "env": env, "goal": T.pretty(goal, 6)[:2000], "path": len(self.pc)})
        if self.stop_fail:
            # enough to go on with: the candidates are replayed, and the exploration is repeated in full unless one is confirmed
            self.first_fail = self.first_fail or time.time()
            good = sum(1 for f in self.fail if f["status"] == "sat" and f["env"])
            if good >= self.stop_fail or len(self.fail) >= 4 * self.stop_fail or time.time() - self.first_fail > 60:
                raise Inconclusive("stopped after %d obligations that do not hold" % len(self.fail))
        return False

    def _prove(self, goal):
        if goal.op == "true":
            return "proved", None, "trivial"
        k = self.known(goal)
        if k is True:
            return "proved", None, "interval"
        if k is None:
            r = self._norm_bool(goal)
            if r is True:
                return "proved", None, "normalised"
        if goal.op == "and":
            for g in goal.args:
                st, env, how = self._prove(g)
                if st != "proved":
                    return st, env, how
            return "proved", None, "decomposed"
        neg = T.not_(goal)
        last = None
        levels = list(self._levels(neg))
        if goal.op == "false":
            levels = [[neg] + self.pc]
        best = None
        left = self.t_end - time.time()
        for i, conds in enumerate(levels):
            v = smt.solve(self.norm(), self.interval, conds, min(self.timeout_ms, max(1000, int(left * 1000))), self.stats)
            if v.status == "unsat":
                return "proved", None, "smt"
            last = v
            if v.status == "sat":
                env = self.repair(v)
                if env is not None and self._holds(env, self.pc + [neg]):
                    return "sat", env, ""
                best = env or best
        env = self.search(neg)
        if env is not None:
            return "sat", env, ""
        return ("sat?" if last.status == "sat" else "unknown"), best or self.witness, ""

    def search(self, neg, tries=200):
        """Concrete point of the path violating the goal, by evaluating terms (helps replay)."""
        rng = random.Random(self.seed + 7)
        for k in range(tries):
            env = {}
            for names, gen in self.generators:
                env.update(gen(rng))
            base = dict(self.witness or {})
            if k % 2 and base:
                # perturb a few inputs only
                for names, gen in self.generators:
                    if rng.random() < 0.7:
                        for n in names:
                            if n in base:
                                env[n] = base[n]
            for n in base:
                env.setdefault(n, base[n])
            if self._holds(env, self.pc + [neg]):
                return env
        return None


_VARS: dict = {}


def _vars(c):
    r = _VARS.get(c.id)
    if r is None:
        r = _VARS[c.id] = T.variables([c])
    return r


def _pcanon(n, p):
    """p = lead * (q - v): (key of q, lead, v); q has no constant term and leading coefficient 1."""
    c0 = p.get((), 0)
    dens = ()
    if any(n.atoms[i].kind == "inv" and len(n.atoms[i].args[0]) > 1 for m in p for i, _ in m):
        q = {m: c for m, c in p.items() if m}
        q, ds = n.clear(q, only=lambda a: len(a.args[0]) > 1)
        if not q:
            return None
        dens = tuple((a.idx, k) for a, k in ds)
        p = q
        lead = p[min(p)]
        return (tuple(sorted((m, c / lead) for m, c in p.items())), dens), lead, -c0 / lead
    m0 = min(m for m in p if m)
    lead = p[m0]
    q = tuple(sorted((m, c / lead) for m, c in p.items() if m))
    return (q, dens), lead, -c0 / lead


# ---------------------------------------------------------------------- interval arithmetic

_PIF = math.pi


def _im(a, b):
    ps = []
    for x in a:
        for y in b:
            ps.append(0.0 if (x == 0 or y == 0) else x * y)
    return min(ps), max(ps)


def _ipow(a, n):
    lo, hi = a
    if n == 0:
        return 1.0, 1.0
    if n < 0:
        lo, hi = _ipow(a, -n)
        if lo > 0:
            return (1 / hi if hi < INF else 0.0), 1 / lo
        if hi < 0:
            return 1 / hi, (1 / lo if lo > -INF else 0.0)
        if lo == 0 and hi > 0:
            return (1 / hi if hi < INF else 0.0), INF
        return -INF, INF
    try:
        if n % 2:
            return lo ** n, hi ** n
        m = max(abs(lo), abs(hi))
        if lo <= 0 <= hi:
            return 0.0, m ** n
        k = min(abs(lo), abs(hi))
        return k ** n, m ** n
    except OverflowError:
        return -INF, INF


def _iv(x, a, bounds):
    o = x.op
    if o == "c":
        v = float(x.data)
        return v, v
    if o == "v":
        return bounds.get(x.data, (-INF, INF))
    if o == "+":
        lo = hi = float(x.data[0])
        for c, (l, h) in zip(x.data[1], a):
            c = float(c)
            if c > 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        if math.isnan(lo):
            lo = -INF
        if math.isnan(hi):
            hi = INF
        return lo, hi
    if o == "*":
        r = (1.0, 1.0)
        for (l, h), e in zip(a, x.data):
            r = _im(r, _ipow((l, h), e))
        return r
    if o == "ite":
        return min(a[1][0], a[2][0]), max(a[1][1], a[2][1])
    if o == "f":
        n = x.data
        l, h = a[0]
        if n == "sqrt":
            return math.sqrt(max(0.0, l)), (math.sqrt(h) if 0 <= h < INF else (INF if h == INF else 0.0))
        if n in ("sin", "cos"):
            return _isincos(n, l, h)
        if n == "acos":
            return math.acos(min(1.0, max(-1.0, h))), math.acos(min(1.0, max(-1.0, l)))
        if n == "asin":
            return math.asin(min(1.0, max(-1.0, l))), math.asin(min(1.0, max(-1.0, h)))
        if n == "atan":
            return math.atan(l), math.atan(h)
        if n == "atan2":
            return -_PIF, _PIF
        if n == "exp":
            try:
                return math.exp(l) if l > -INF else 0.0, (math.exp(h) if h < INF else INF)
            except OverflowError:
                return 0.0, INF
        if n == "log":
            return (math.log(l) if l > 0 else -INF), (math.log(h) if 0 < h < INF else INF)
        if n == "abs":
            if l >= 0:
                return l, h
            if h <= 0:
                return -h, -l
            return 0.0, max(-l, h)
        if n == "floor":
            return (math.floor(l + (1e-9 if False else 0)) if l > -INF else l), (math.floor(h) if h < INF else h)
        if n == "round":
            return (round(l - 1e-9 * max(1.0, abs(l))) if l > -INF else l), (round(h + 1e-9 * max(1.0, abs(h))) if h < INF else h)
        if n == "max":
            return max(p[0] for p in a), max(p[1] for p in a)
        if n == "min":
            return min(p[0] for p in a), min(p[1] for p in a)
        if n == "pow":
            if l >= 0 and a[1][0] == a[1][1]:
                e = a[1][0]
                try:
                    v = (l ** e if l > 0 or e > 0 else INF, h ** e if h < INF else (INF if e > 0 else 0.0))
                    return min(v), max(v)
                except OverflowError:
                    return 0.0, INF
            return 0.0, INF
        if n in FUN_RANGE:
            return FUN_RANGE[n]
    return -INF, INF


FUN_RANGE: dict = {}


def _isincos(n, l, h):
    if not (math.isfinite(l) and math.isfinite(h)) or h - l >= 2 * _PIF:
        return -1.0, 1.0
    sh = 0.0 if n == "sin" else _PIF / 2
    l, h = l + sh, h + sh
    f = sorted((math.sin(l), math.sin(h)))
    lo, hi = f
    e = 1e-12
    k = math.ceil((l - _PIF / 2 - e) / (2 * _PIF))
    if _PIF / 2 + 2 * _PIF * k <= h + e:
        hi = 1.0
    k = math.ceil((l + _PIF / 2 - e) / (2 * _PIF))
    if -_PIF / 2 + 2 * _PIF * k <= h + e:
        lo = -1.0
    return max(-1.0, lo - 1e-15), min(1.0, hi + 1e-15)
