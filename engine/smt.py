"""From terms to solver queries.

Norm turns real terms into polynomials over atoms (inputs, sin/cos of base angles, square
roots, inverses, other functions), using the defining relations of the atoms as rewrite
rules.  Query translates conditions over those polynomials, together with the atoms'
defining axioms, to z3 and asks for a verdict.
"""
from __future__ import annotations

import math
import threading
import time
from fractions import Fraction

import z3

from . import term as T

MAXMON = 6000


class TooBig(Exception):
    pass


class _Restart(Exception):
    pass


# ----------------------------------------------------------------------------- polynomials
# monomial: tuple of (atom index, exponent) sorted by atom index; poly: dict mon -> Fraction

ONE_MON = ()


def pconst(c):
    return {ONE_MON: Fraction(c)} if c != 0 else {}


def padd(a, b, cb=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + cb * c
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c != 0 else {}


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))


class Atom:
    __slots__ = ("idx", "kind", "key", "args", "rule", "info", "isint", "partner", "term")


def pkey(p):
    return tuple(sorted(p.items()))


class Norm:
    def __init__(self, bounds=None, squares=None):
        self.units = {}  # angle monomial description -> Fraction unit
        self.var_rules = squares if squares is not None else {}  # var name -> (power, term)
        self.bounds = bounds if bounds is not None else {}
        self.subst = {}
        self.gen = 0
        self._reset()

    def _reset(self):
        self.gen += 1
        self.atoms = []
        self.bykey = {}
        self.memo = {}
        self.red_memo = {}
        self.funs = {}
        self.angle_desc = {}

    # -- atoms
    def atom(self, kind, key, args=(), isint=False, info=None):
        k = (kind, key)
        i = self.bykey.get(k)
        if i is not None:
            return self.atoms[i]
        a = Atom()
        a.idx = len(self.atoms)
        a.kind, a.key, a.args, a.isint, a.info = kind, key, args, isint, info
        a.rule = None
        a.partner = None
        a.term = None
        self.atoms.append(a)
        self.bykey[k] = a.idx
        return a

    def patom(self, a, e=1):
        return {((a.idx, e),): Fraction(1)}

    # -- arithmetic with reduction
    def mul(self, p, q):
        if len(p) > len(q):
            p, q = q, p
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                mn = _mmul(m, n)
                rd = self._reduce_mon(mn)
                if rd is None:
                    v = r.get(mn, 0) + c * d
                    if v == 0:
                        r.pop(mn, None)
                    else:
                        r[mn] = v
                else:
                    cd = c * d
                    for m2, c2 in rd.items():
                        v = r.get(m2, 0) + cd * c2
                        if v == 0:
                            r.pop(m2, None)
                        else:
                            r[m2] = v
            if len(r) > MAXMON:
                raise TooBig()
        return r

    def pow(self, p, n):
        if n == 0:
            return pconst(1)
        r = None
        b = p
        while n:
            if n & 1:
                r = b if r is None else self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    def _reduce_mon(self, m):
        """None if irreducible, else an equal reduced poly."""
        if not m:
            return None
        hit = self.red_memo.get(m, 0)
        if hit != 0:
            return hit
        res = None
        atoms = self.atoms
        exps = dict(m)
        for i, e in m:
            a = atoms[i]
            # inverse cancellation
            if a.kind == "inv" and a.info is not None and a.info in exps:
                j = a.info
                k = min(e, exps[j])
                d = dict(exps)
                for x in (i, j):
                    d[x] -= k
                    if d[x] == 0:
                        del d[x]
                mm = tuple(sorted(d.items()))
                res = self._reduce_mon(mm) or {mm: Fraction(1)}
                break
            if a.rule is not None and e >= a.rule[0]:
                n, rp = a.rule
                q, rem = divmod(e, n)
                d = dict(exps)
                del d[i]
                if rem:
                    d[i] = rem
                base = {tuple(sorted(d.items())): Fraction(1)}
                res = self.mul(base, self.pow(rp, q))
                break
        self.red_memo[m] = res
        return res

    # -- inverse
    def inv(self, p):
        """Poly for 1/p (p known non-zero on the path)."""
        if not p:
            raise ZeroDivisionError
        if len(p) == 1:
            (m, c), = p.items()
            r = pconst(1 / c)
            for i, e in m:
                r = self.mul(r, self.pow(self.inv_atom(i), e))
            return r
        num, dens = self.clear(p)
        if not num:
            raise ZeroDivisionError
        # p = num * prod inv(d)^k  =>  1/p = prod d^k / num
        r = self._inv_plain(num)
        for a, k in dens:
            r = self.mul(r, self.pow(a.args[0], k))
        return r

    def _inv_plain(self, p):
        if len(p) == 1:
            return self.inv(p)
        # monomial content
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common:
                break
        r = pconst(1)
        if common:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for i, e in common.items():
                    d[i] -= e
                    if d[i] == 0:
                        del d[i]
                q[tuple(sorted(d.items()))] = c
            p = q
            for i, e in common.items():
                r = self.mul(r, self.pow(self.inv_atom(i), e))
        lead = p[min(p)]
        p = pscale(p, 1 / lead)
        a = self.atom("inv", pkey(p), args=(p,))
        return self.mul(pscale(r, 1 / lead), self.patom(a))

    def inv_atom(self, i):
        b = self.atoms[i]
        if b.kind == "inv":
            return b.args[0]
        if b.kind == "sqrt":
            a = self.atom("inv", pkey(self.patom(b)), args=(self.patom(b),), info=i)
            if a.rule is None:
                a.rule = (2, self.inv(b.args[0]))
            return self.patom(a)
        a = self.atom("inv", pkey(self.patom(b)), args=(self.patom(b),), info=i)
        return self.patom(a)

    def clear(self, p, only=None):
        """p = num * prod(inv_a ** k): returns (num, [(atom, k)])."""
        dens = []
        guard = 0
        while True:
            guard += 1
            if guard > 200:
                raise TooBig()
            best = None
            for m in p:
                for i, e in m:
                    a = self.atoms[i]
                    if a.kind == "inv" and (only is None or only(a)):
                        if best is None or i > best:
                            best = i
            if best is None:
                return p, dens
            a = self.atoms[best]
            k = max(dict(m).get(best, 0) for m in p)
            r = {}
            d = a.args[0]
            powers = {0: pconst(1)}
            for m, c in p.items():
                e = dict(m).get(best, 0)
                rest = tuple(x for x in m if x[0] != best)
                if k - e not in powers:
                    powers[k - e] = self.pow(d, k - e)
                r = padd(r, self.mul({rest: c}, powers[k - e]))
                if len(r) > MAXMON:
                    raise TooBig()
            p = r
            dens.append((a, k))

    # -- terms
    def poly(self, t):
        while True:
            try:
                return self._poly(t)
            except _Restart:
                self._reset()

    def _poly(self, t):
        memo = self.memo
        if t.id in memo:
            return memo[t.id]
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if x.op in ("+", "*") or (x.op == "f"):
                pend = [a for a in x.args if a.id not in memo]
                if pend:
                    stack.extend(pend)
                    continue
            stack.pop()
            memo[x.id] = self._poly1(x)
        return memo[t.id]

    def _poly1(self, x):
        o = x.op
        memo = self.memo
        if x.id in self.subst:
            return pconst(self.subst[x.id])
        if o == "c":
            return pconst(x.data)
        if o == "v":
            a = self.atom("v", x.data, isint=x.isint)
            a.term = x
            r = self.var_rules.get(x.data)
            if r is not None and a.rule is None:
                rp = self._poly(r[1])
                a.rule = (r[0], rp)
            return self.patom(a)
        if o == "+":
            r = pconst(x.data[0])
            for c, a in zip(x.data[1], x.args):
                r = padd(r, memo[a.id], c)
            if len(r) > MAXMON:
                raise TooBig()
            return r
        if o == "*":
            r = pconst(1)
            neg = []
            for b, e in zip(x.args, x.data):
                if e > 0:
                    r = self.mul(r, self.pow(memo[b.id], e))
                else:
                    neg.append((b, -e))
            for b, e in neg:
                r = self.mul(r, self.pow(self.inv(memo[b.id]), e))
            return r
        if o == "ite":
            a = self.atom("ite", x.id, isint=x.isint)
            a.term = x
            return self.patom(a)
        if o == "f":
            return self._fun(x)
        raise NotImplementedError(o)

    def _fun(self, x):
        name = x.data
        args = [self.memo[a.id] for a in x.args]
        if name == "sqrt":
            return self.sqrt_poly(args[0])
        if name in ("sin", "cos", "tan"):
            c, s = self.cossin(args[0])
            if name == "cos":
                return c
            if name == "sin":
                return s
            return self.mul(s, self.inv(c))
        if name == "abs":
            p = args[0]
            if not p or (len(p) == 1 and ONE_MON in p):
                return pconst(abs(p.get(ONE_MON, 0)))
        if name == "pow":
            e = args[1].get(ONE_MON, Fraction(0)) if len(args[1]) <= 1 else None
            if e is not None and set(args[1]) <= {ONE_MON}:
                q = e.denominator
                if q <= 6 and abs(e.numerator) <= 6:
                    root = self.fatom("root%d" % q, (args[0],), x)
                    if root.rule is None:
                        root.rule = (q, args[0])
                    rp = self.pow(self.patom(root), abs(e.numerator))
                    return rp if e > 0 else self.inv(rp)
        a = self.fatom(name, tuple(args), x)
        if name == "abs" and a.rule is None:
            a.rule = (2, self.mul(args[0], args[0]))
        return self.patom(a)

    def fatom(self, name, args, x):
        if name in ("max", "min"):
            args = tuple(sorted(args, key=pkey))
        key = tuple(pkey(p) for p in args)
        k = (name, key)
        if k in self.bykey:
            return self.atoms[self.bykey[k]]
        # congruence: an existing atom of the same function with provably equal arguments
        if name not in ("max", "min"):
            for i in self.funs.get(name, ())[:40]:
                b = self.atoms[i]
                if len(b.args) == len(args) and all(self.is_zero(padd(p, q, -1)) for p, q in zip(b.args, args)):
                    self.bykey[k] = i
                    return b
        a = self.atom(name, key, args=args, isint=x.isint)
        a.term = x
        self.funs.setdefault(name, []).append(a.idx)
        return a

    def is_zero(self, p):
        if not p:
            return True
        if not any(self.atoms[i].kind == "inv" for m in p for i, _ in m):
            return False
        try:
            return not self.clear(p)[0]
        except TooBig:
            return False

    def nonneg_atom(self, a):
        if a.kind == "v":
            b = self.bounds.get(a.key)
            return 1 if b is not None and b[0] >= 0 else -1 if b is not None and b[1] <= 0 else 0
        return 1 if a.kind in ("sqrt", "abs", "exp") else 0

    def square_content(self, p):
        """p = out^2 * q with the monomial out >= 0: (q, out), or (p, None)."""
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {i: min(e, d[i]) for i, e in common.items() if i in d}
            if not common:
                return p, None
        out, sign = {}, 1
        for i, e in common.items():
            if e >= 2:
                s = self.nonneg_atom(self.atoms[i])
                k = e // 2
                if s == 0 and k % 2:
                    continue
                if s == -1 and k % 2:
                    sign = -sign
                out[i] = k
        if not out:
            return p, None
        q = {}
        for m, c in p.items():
            q[tuple((i, e - 2 * out.get(i, 0)) for i, e in m if e - 2 * out.get(i, 0) > 0)] = c
        return q, {tuple(sorted(out.items())): Fraction(sign)}

    def polynomial_term(self, t, limit=4):
        """t as a sum of at most `limit` products of variables, or None."""
        try:
            p = self.poly(t)
        except (TooBig, ZeroDivisionError):
            return None
        if len(p) > limit or any(self.atoms[i].kind != "v" for m in p for i, _ in m):
            return None
        r = []
        for m, c in sorted(p.items(), key=lambda mc: tuple((self.atoms[i].key, e) for i, e in mc[0])):
            r.append(T.mul(T.const(c), *[T.powi(self.atoms[i].term, e) for i, e in m]))
        return T.add(*r) if r else T.ZERO

    def sqrt_poly(self, p):
        if not p:
            return {}
        if set(p) == {ONE_MON}:
            c = p[ONE_MON]
            t = T.sqrt(T.const(c))
            if t.op == "c":
                return pconst(t.data)
        p, out = self.square_content(p)
        if out is not None:
            return self.mul(out, self.sqrt_poly(p))
        # perfect-square rational content
        lead = abs(p[min(p)])
        n, d = lead.numerator, lead.denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        c = Fraction(1)
        if n > 0 and rn * rn == n and rd * rd == d and lead != 1:
            p = pscale(p, 1 / lead)
            c = Fraction(rn, rd)
        a = None
        key = pkey(p)
        if ("sqrt", key) in self.bykey:
            a = self.atoms[self.bykey[("sqrt", key)]]
        else:
            for i in self.funs.get("sqrt", ())[:40]:
                b = self.atoms[i]
                if self.is_zero(padd(b.args[0], p, -1)):
                    a = b
                    self.bykey[("sqrt", key)] = i
                    break
        if a is None:
            a = self.atom("sqrt", key, args=(p,))
            a.rule = (2, p)
            self.funs.setdefault("sqrt", []).append(a.idx)
        return {((a.idx, 1),): c}

    # -- angles
    def _desc(self, m):
        """Stable description of an angle monomial (survives _reset)."""
        d = []
        for i, e in m:
            a = self.atoms[i]
            d.append((a.kind, a.key if a.kind == "v" else (a.term.id if a.term is not None else repr(a.key)), e))
        return tuple(d)

    def cossin(self, p):
        C, S = pconst(1), {}
        for m, coef in p.items():
            c, s = self._cs_mon(m, coef)
            C, S = (
                padd(self.mul(C, c), self.mul(S, s), -1),
                padd(self.mul(S, c), self.mul(C, s)),
            )
        return C, S

    def _cs_mon(self, m, coef):
        if m == ONE_MON:
            q = coef / (T.PI / 2)
            if q.denominator == 1:
                k = int(q) % 4
                return [(pconst(1), {}), ({}, pconst(1)), (pconst(-1), {}), ({}, pconst(-1))][k]
        desc = self._desc(m) if m != ONE_MON else ("const",)
        u = self.units.get(desc)
        ac = abs(coef)
        if m == ONE_MON:
            desc = ("const", ac)  # unrelated constants are independent atoms
            u = self.units.get(desc)
        if u is None:
            u = self.units[desc] = ac
        k = ac / u
        if k.denominator != 1:
            g = Fraction(math.gcd(ac.numerator * u.denominator, u.numerator * ac.denominator), ac.denominator * u.denominator)
            if ac / g <= 16 and u / g <= 16:
                self.units[desc] = g
                raise _Restart()
            desc = desc + (ac,)
            u = self.units.setdefault(desc, ac)
            k = ac / u
        k = int(k)
        c, s = self._cs_base(m, u, desc)
        # (c + i s)^k
        C, S = pconst(1), {}
        for _ in range(k):
            C, S = (
                padd(self.mul(C, c), self.mul(S, s), -1),
                padd(self.mul(S, c), self.mul(C, s)),
            )
        if coef < 0:
            S = pscale(S, -1)
        return C, S

    def _cs_base(self, m, u, desc):
        if len(m) == 1 and m[0][1] == 1:
            a = self.atoms[m[0][0]]
            one = pconst(1)
            if a.kind == "atan":
                x = a.args[0]
                x2 = self.mul(x, x)
                if u == 2:
                    w = self.inv(padd(one, x2))
                    return self.mul(padd(one, x2, -1), w), self.mul(pscale(x, 2), w)
                if u == 1:
                    w = self.inv(self.sqrt_poly(padd(one, x2)))
                    return w, self.mul(x, w)
            if a.kind == "acos":
                x = a.args[0]
                if u == 1:
                    return x, self.sqrt_poly(padd(one, self.mul(x, x), -1))
                if u == Fraction(1, 2):
                    h = Fraction(1, 2)
                    return self.sqrt_poly(padd(pconst(h), x, h)), self.sqrt_poly(padd(pconst(h), x, -h))
            if a.kind == "asin" and u == 1:
                x = a.args[0]
                return self.sqrt_poly(padd(one, self.mul(x, x), -1)), x
            if a.kind == "atan2" and u == 1:
                y, x = a.args
                w = self.inv(self.sqrt_poly(padd(self.mul(x, x), self.mul(y, y))))
                return self.mul(x, w), self.mul(y, w)
        ca = self.atom("cos", (desc, u), args=({m: u},))
        sa = self.atom("sin", (desc, u), args=({m: u},))
        if sa.rule is None:
            ca.partner, sa.partner = sa.idx, ca.idx
            sa.rule = (2, {ONE_MON: Fraction(1), ((ca.idx, 2),): Fraction(-1)})
        return self.patom(ca), self.patom(sa)


# ----------------------------------------------------------------------------- queries


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.normalised = 0

    def add(self, verdict, dt):
        self.queries += 1
        self.time += dt
        setattr(self, verdict, getattr(self, verdict) + 1)


class Encoder:
    """One z3 problem."""

    def __init__(self, norm, interval, use_norm=True):
        self.norm = norm
        self.interval = interval  # callable: term -> (lo, hi) floats
        self.z = {}
        self.done = set()
        self.constraints = []
        self.bool_memo = {}
        self.struct = {}
        self.hasint = False
        self.queue = []

    def zatom(self, i):
        v = self.z.get(i)
        if v is None:
            a = self.norm.atoms[i]
            name = "%s%d" % (a.key if a.kind == "v" else a.kind, i)
            if a.isint:
                self.hasint = True
                v = z3.ToReal(z3.Int(name))
            else:
                v = z3.Real(name)
            self.z[i] = v
            self.queue.append(i)
        return v

    def zpoly(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in p.items():
            f = [z3.RealVal(str(c))] if (c != 1 or not m) else []
            for i, e in m:
                v = self.zatom(i)
                f.extend([v] * e)
            x = f[0]
            for y in f[1:]:
                x = x * y
            ts.append(x)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def positive_inv(self, a):
        p = a.args[0]
        return self.poly_positive(p)

    def poly_positive(self, p):
        if not p:
            return False
        strict = False
        for m, c in p.items():
            if c < 0:
                return self._interval_pos(p)
            ok = True
            st = True
            for i, e in m:
                a = self.norm.atoms[i]
                lo = self.atom_bounds(a)[0]
                if e % 2 == 0:
                    st = st and (lo > 0)
                    continue
                if lo > 0:
                    continue
                if lo >= 0:
                    st = False
                    continue
                ok = False
                break
            if not ok:
                return self._interval_pos(p)
            strict = strict or st
        return strict or self._interval_pos(p)

    def _interval_pos(self, p):
        lo = 0.0
        for m, c in p.items():
            a, b = float(c), float(c)
            for i, e in m:
                l, h = self.atom_bounds(self.norm.atoms[i])
                for _ in range(e):
                    pr = [_m(a, l), _m(a, h), _m(b, l), _m(b, h)]
                    a, b = min(pr), max(pr)
            lo += a
        return lo > 1e-9

    def atom_bounds(self, a):
        if a.kind == "v":
            return self.norm.bounds.get(a.key, (-math.inf, math.inf))
        if a.kind == "sqrt":
            return (0.0, math.inf)
        if a.kind in ("sin", "cos"):
            return (-1.0, 1.0)
        if a.kind == "exp":
            return (1e-300, math.inf)
        if a.kind == "inv":
            # the sign of the inverse is that of the base
            if a.info is not None:
                b = self.norm.atoms[a.info]
                lo, hi = self.atom_bounds(b)
                if b.kind == "sqrt" or lo >= 0:
                    return (1e-300, math.inf if lo <= 0 else 1 / lo)
                if hi <= 0:
                    return (-math.inf, -1e-300)
            return (-math.inf, math.inf)
        if a.term is not None:
            return self.interval(a.term)
        return (-math.inf, math.inf)

    # -- booleans
    def zbool(self, b):
        r = self.bool_memo.get(b.id)
        if r is None:
            r = self._zbool(b)
            self.bool_memo[b.id] = r
        return r

    def _zbool(self, b):
        o = b.op
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "bv":
            return z3.Bool("b_" + str(b.data))
        if o == "not":
            return z3.Not(self.zbool(b.args[0]))
        if o == "and":
            return z3.And([self.zbool(x) for x in b.args])
        if o == "or":
            return z3.Or([self.zbool(x) for x in b.args])
        t = b.args[0]
        try:
            p = self.norm.poly(t)
            if o == "eq":
                p, _ = self.norm.clear(p)
                return self.zpoly(p) == 0
            p, _ = self.norm.clear(p, only=self.positive_inv)
            if any(self.norm.atoms[i].kind == "inv" for m in p for i, _ in m):
                # multiply by the squared denominators of the remaining (non-zero) inverses
                q, dens = self.norm.clear(p)
                for a, k in dens:
                    if k % 2:
                        q = self.norm.mul(q, a.args[0])
                p = q
            e = self.zpoly(p)
        except TooBig:
            e = self.zstruct(t)
            if o == "eq":
                return e == 0
        return e <= 0 if o == "le" else e < 0

    def zstruct(self, t):
        """Structure-preserving encoding for terms whose polynomial is too large."""
        r = self.struct.get(t.id)
        if r is not None:
            return r
        o = t.op
        if o == "+":
            r = z3.Sum([z3.RealVal(str(t.data[0]))] + [z3.RealVal(str(c)) * self.zsmall(a) for c, a in zip(t.data[1], t.args)])
        elif o == "*":
            r = z3.RealVal(1)
            for b, e in zip(t.args, t.data):
                v = self.zsmall(b)
                if e < 0:
                    w = z3.Real("winv%d" % b.id)
                    self.constraints.append(w * v == 1)
                    v = w
                for _ in range(abs(e)):
                    r = r * v
        elif o == "c":
            r = z3.RealVal(str(t.data))
        elif o == "ite":
            r = z3.If(self.zbool(t.args[0]), self.zsmall(t.args[1]), self.zsmall(t.args[2]))
        elif o == "f" and t.data == "sqrt":
            r = z3.Real("wsqrt%d" % t.id)
            self.constraints += [r >= 0, r * r == self.zsmall(t.args[0])]
        elif o == "f" and t.data == "abs":
            v = self.zsmall(t.args[0])
            r = z3.If(v >= 0, v, -v)
        elif o == "f":
            r = z3.Real("w%s%d" % (t.data, t.id))
        else:
            raise NotImplementedError(o)
        self.struct[t.id] = r
        return r

    def zsmall(self, t):
        try:
            p = self.norm.poly(t)
            if len(p) <= 60:
                return self.zpoly(p)
        except TooBig:
            pass
        v = z3.Real("cut%d" % t.id)
        if t.id not in self.struct:
            e = self.zstruct(t)
            self.constraints.append(v == e)
        return v

    # -- axioms
    def axioms(self):
        norm = self.norm
        byname = {}
        while self.queue:
            i = self.queue.pop()
            if i in self.done:
                continue
            self.done.add(i)
            a = norm.atoms[i]
            v = self.z[i]
            C = self.constraints
            k = a.kind
            if k == "v":
                lo, hi = norm.bounds.get(a.key, (-math.inf, math.inf))
                if lo > -math.inf:
                    C.append(v >= z3.RealVal(str(T.snap(lo))))
                if hi < math.inf:
                    C.append(v <= z3.RealVal(str(T.snap(hi))))
                if a.rule is not None:
                    n, rp = a.rule
                    lhs = v
                    for _ in range(n - 1):
                        lhs = lhs * v
                    C.append(lhs == self.zpoly(rp))
            elif k in ("sin", "cos"):
                j = a.partner
                w = self.zatom(j)
                if k == "sin" or j not in self.done:
                    C += [v * v + w * w == 1, v <= 1, v >= -1, w <= 1, w >= -1]
                    s, c = (v, w) if k == "sin" else (w, v)
                    self._angle_signs(a, s, c)
            elif k == "sqrt":
                C += [v >= 0, v * v == self.zpoly(a.args[0])]
            elif k == "inv":
                C.append(v * self.zpoly(a.args[0]) == 1)
            elif k == "abs":
                x = self.zpoly(a.args[0])
                C += [v >= 0, z3.Or(v == x, v == -x)]
            elif k in ("max", "min"):
                xs = [self.zpoly(p) for p in a.args]
                C.append(z3.Or([v == x for x in xs]))
                C += [(v >= x) if k == "max" else (v <= x) for x in xs]
            elif k == "floor":
                x = self.zpoly(a.args[0])
                C += [v <= x, x < v + 1]
            elif k == "round":
                x = self.zpoly(a.args[0])
                h = z3.RealVal("1/2")
                C += [v - h <= x, x <= v + h]
            elif k == "ite":
                t = a.term
                c = self.zbool(t.args[0])
                x, y = self._zany(t.args[1]), self._zany(t.args[2])
                C += [z3.Implies(c, v == x), z3.Implies(z3.Not(c), v == y)]
            elif k == "exp":
                x = self.zpoly(a.args[0])
                C += [v > 0, v >= 1 + x, z3.Implies(x <= 0, v <= 1), z3.Implies(x < 0, v < 1)]
                byname.setdefault(k, []).append((v, x))
            elif k == "acos":
                x = self.zpoly(a.args[0])
                C += [v >= 0, v <= _zpi(1), x <= 1, x >= -1]
                self._arc_points(a, v, x, math.acos, -1)
                byname.setdefault(k, []).append((v, -x))
            elif k == "asin":
                x = self.zpoly(a.args[0])
                C += [v >= -_zpi(Fraction(1, 2)), v <= _zpi(Fraction(1, 2)), x <= 1, x >= -1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
                byname.setdefault(k, []).append((v, x))
            elif k == "atan":
                x = self.zpoly(a.args[0])
                C += [v > -_zpi(Fraction(1, 2)), v < _zpi(Fraction(1, 2)), z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
                C += [z3.Implies(x == 1, v == _zpi(Fraction(1, 4))), z3.Implies(x > 0, v < x), z3.Implies(x < 0, v > x)]
                byname.setdefault(k, []).append((v, x))
            elif k == "log":
                x = self.zpoly(a.args[0])
                C += [v <= x - 1, z3.Implies(x > 1, v > 0), z3.Implies(x < 1, v < 0)]
                byname.setdefault(k, []).append((v, x))
            elif k.startswith("root"):
                n = int(k[4:])
                lhs = v
                for _ in range(n - 1):
                    lhs = lhs * v
                C += [v >= 0, lhs == self.zpoly(a.args[0])]
            elif k == "atan2":
                C += [v >= -_zpi(1), v <= _zpi(1)]
            # interval facts for anything else
            if k not in ("v", "sin", "cos", "inv") and a.term is not None:
                lo, hi = self.interval(a.term)
                if lo > -math.inf:
                    C.append(v >= z3.RealVal(str(Fraction(lo).limit_denominator(10**9) - Fraction(1, 10**8))))
                if hi < math.inf:
                    C.append(v <= z3.RealVal(str(Fraction(hi).limit_denominator(10**9) + Fraction(1, 10**8))))
        for name, lst in byname.items():
            if len(lst) <= 10:
                for p in range(len(lst)):
                    for q in range(p + 1, len(lst)):
                        (v, x), (w, y) = lst[p], lst[q]
                        self.constraints += [z3.Implies(x < y, v < w), z3.Implies(x > y, v > w), z3.Implies(x == y, v == w)]
        if self.queue:
            self.axioms()

    def _zany(self, t):
        if t.sort == "B":
            return self.zbool(t)
        try:
            return self.zpoly(self.norm.poly(t))
        except TooBig:
            return self.zstruct(t)

    def _arc_points(self, a, v, x, f, direction):
        """Values at a few special points plus sign facts."""
        C = self.constraints
        C += [z3.Implies(x == 1, v == 0), z3.Implies(x == 0, v == _zpi(Fraction(1, 2))), z3.Implies(x > 0, v < _zpi(Fraction(1, 2))), z3.Implies(x < 0, v > _zpi(Fraction(1, 2))), z3.Implies(x < 1, v > 0), z3.Implies(x > -1, v < _zpi(1))]

    def _angle_signs(self, a, s, c):
        """Quadrant facts from interval bounds of the angle."""
        p = a.args[0]
        lo = hi = 0.0
        for m, co in p.items():
            l = h = float(co)
            for i, e in m:
                bl, bh = self.atom_bounds(self.norm.atoms[i])
                for _ in range(e):
                    pr = [_m(l, bl), _m(l, bh), _m(h, bl), _m(h, bh)]
                    l, h = min(pr), max(pr)
            lo += l
            hi += h
        if not (math.isfinite(lo) and math.isfinite(hi)):
            return
        if set(p) == {ONE_MON}:
            x = float(p[ONE_MON])
            for z, f in ((s, math.sin(x)), (c, math.cos(x))):
                fr = Fraction(f)
                e = Fraction(1, 10**14)
                self.constraints += [z >= z3.RealVal(str(fr - e)), z <= z3.RealVal(str(fr + e))]
            return
        C = self.constraints
        e = 1e-12
        if lo >= -e and hi <= math.pi + e:
            C.append(s >= 0)
        if lo >= -math.pi - e and hi <= e:
            C.append(s <= 0)
        if lo >= -math.pi / 2 - e and hi <= math.pi / 2 + e:
            C.append(c >= 0)
        x = self.zpoly(p)
        if lo >= -math.pi and hi <= math.pi:
            C += [z3.Implies(x > 0, s >= 0), z3.Implies(x < 0, s <= 0), z3.Implies(x == 0, z3.And(s == 0, c == 1))]
            h = _zpi(Fraction(1, 2))
            C += [z3.Implies(z3.And(x <= h, x >= -h), c >= 0), z3.Implies(z3.Or(x > h, x < -h), c < 0)]
            C += [z3.Implies(x >= 0, s <= x), z3.Implies(x <= 0, s >= x)]
        if lo > -math.pi and hi < math.pi:
            C += [z3.Implies(x > 0, s > 0), z3.Implies(x < 0, s < 0)]


def _m(a, b):
    if a == 0 or b == 0:
        return 0.0
    return a * b


def _zpi(q):
    return z3.RealVal(str(Fraction(q) * T.PI))


class Verdict:
    def __init__(self, status, env=None, why=""):
        self.status = status
        self.env = env
        self.why = why


def _frac(v):
    try:
        return float(v.as_fraction())
    except Exception:
        try:
            return float(v.approx(20).as_fraction())
        except Exception:
            return None


def solve(norm, interval, conds, timeout_ms, stats, want_model=True, quick=False):
    """conds: list of bool terms. Returns Verdict sat/unsat/unknown."""
    t0 = time.time()
    try:
        for _ in range(30):
            gen = norm.gen
            enc = Encoder(norm, interval)
            zs = [enc.zbool(c) for c in conds]
            enc.axioms()
            if norm.gen == gen:  # otherwise the atoms were renumbered while encoding
                break
        else:
            raise TooBig()
    except TooBig:
        stats.add("unknown", time.time() - t0)
        return Verdict("unknown", why="too large")
    except ZeroDivisionError:
        # a denominator is identically zero under the relations: the path is contradictory
        stats.add("unsat", time.time() - t0)
        return Verdict("unsat", why="zero denominator on path")
    status, model = "unknown", None
    tries = ["smt"] if enc.hasint else (["nlsat", "smt"] if not quick else ["smt", "nlsat"])
    zs_simple = z3.And(zs + enc.constraints)
    for tr in tries:
        left = timeout_ms - int((time.time() - t0) * 1000)
        if left < 50:
            break
        budget = left if tr == tries[-1] else max(200, left // 2)
        s = z3.Solver() if tr == "smt" else z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", budget)
        s.add(zs_simple)
        # nlsat does not always honour its time-out: interrupt it from outside
        timer = threading.Timer(budget / 1000.0 * 1.3 + 0.5, z3.main_ctx().interrupt)
        timer.daemon = True
        timer.start()
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        finally:
            timer.cancel()
        if r == z3.unsat:
            status = "unsat"
            break
        if r == z3.sat:
            status = "sat"
            model = s.model()
            break
    env = None
    if status == "sat" and want_model:
        env = {}
        for i, z in enc.z.items():
            a = norm.atoms[i]
            v = model.eval(z, model_completion=True)
            env[(a.kind, a.key if a.kind == "v" else i)] = _frac(v)
    dt = time.time() - t0
    stats.add(status, dt)
    v = Verdict(status, env)
    v.enc = enc if want_model else None
    return v
