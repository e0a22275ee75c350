"""Scalar semantics shared by tensors, numpy objects and Python scalars.

A scalar value is either a Term (sort R or B) or a non-finite Python float (nan, +-inf).
Operations whose IEEE result depends on an exceptional condition (division by zero, square
root of a negative number, ...) ask the explorer which case holds, so that along one path a
value is either an exact real term or a definite non-finite constant.
"""
from __future__ import annotations

import math
from fractions import Fraction

from . import term as T

NAN = float("nan")
INF = float("inf")


class Unsupported(Exception):
    """The engine cannot encode something the code did; the check is inconclusive."""


class _State:
    explorer = None


STATE = _State()


def decide(cond) -> bool:
    if isinstance(cond, bool):
        return cond
    if cond.op == "true":
        return True
    if cond.op == "false":
        return False
    if STATE.explorer is None:
        raise Unsupported("branch on a symbolic condition outside an exploration")
    return STATE.explorer.decide(cond)


def V(x):
    """Python number -> scalar value."""
    if isinstance(x, T.Term):
        return x
    if isinstance(x, bool):
        return T.boolc(x)
    if isinstance(x, (int, Fraction)):
        return T.const(x)
    x = float(x)
    if math.isfinite(x):
        return T.const(x)
    return x


def R(x):
    """Coerce to a real-sorted value (bools become 0/1)."""
    if isinstance(x, T.Term) and x.sort == "B":
        return T.ite(x, T.ONE, T.ZERO)
    return x


def B(x):
    """Coerce to a boolean term."""
    if isinstance(x, T.Term):
        return x if x.sort == "B" else T.not_(T.eq0(x))
    return T.TRUE  # nan and inf are truthy


def special(x):
    return not isinstance(x, T.Term)


def _sign_split(t):
    """-1, 0, 1 on this path."""
    if decide(T.lt0(t)):
        return -1
    if decide(T.eq0(t)):
        return 0
    return 1


def _tofloat(x):
    return x if special(x) else None


def add(a, b):
    a, b = R(a), R(b)
    if special(a) or special(b):
        fa = a if special(a) else 0.0
        fb = b if special(b) else 0.0
        return fa + fb
    return T.add(a, b)


def neg(a):
    a = R(a)
    return -a if special(a) else T.neg(a)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    a, b = R(a), R(b)
    if special(a) or special(b):
        if special(a) and special(b):
            return a * b
        s, t = (a, b) if special(a) else (b, a)
        if math.isnan(s):
            return NAN
        sg = _sign_split(t)
        return NAN if sg == 0 else s * sg
    return T.mul(a, b)


def div(a, b):
    a, b = R(a), R(b)
    if special(b):
        if math.isnan(b) or special(a):
            return NAN
        return T.ZERO
    if special(a):
        if math.isnan(a):
            return NAN
        sg = _sign_split(b)
        return a * (sg if sg else 1)  # inf/0 = inf (sign of zero not modelled)
    if b.op == "c":
        if b.data == 0:
            sg = _sign_split(a)
            return NAN if sg == 0 else sg * INF
        return T.scale(1 / b.data, a)
    if decide(T.eq0(b)):
        sg = _sign_split(a)
        return NAN if sg == 0 else sg * INF
    return T.div(a, b)


def reciprocal(a):
    return div(T.ONE, a)


def sqrt(a):
    a = R(a)
    if special(a):
        return a if a > 0 or math.isnan(a) else NAN
    t = T.sqrt(a)
    if t.op == "c":
        return t
    if not nonneg_obvious(a) and decide(T.lt0(a)):
        return NAN
    ex = STATE.explorer
    if ex is not None and a.op in ("+", "*"):
        r = ex.norm().polynomial_term(t)
        if r is not None:
            return r
    return t


def nonneg_obvious(a):
    """Syntactic sum-of-squares style check."""
    if a.op == "c":
        return a.data >= 0
    if STATE.explorer is not None and STATE.explorer.sign(a):
        return True
    if a.op == "f":
        return a.data in ("sqrt", "abs", "exp") or (a.data == "max" and any(nonneg_obvious(x) for x in a.args))
    if a.op == "*":
        return all(e % 2 == 0 or nonneg_obvious(b) for b, e in zip(a.args, a.data))
    if a.op == "+":
        return a.data[0] >= 0 and all(c >= 0 and nonneg_obvious(b) for c, b in zip(a.data[1], a.args))
    if a.op == "ite":
        return nonneg_obvious(a.args[1]) and nonneg_obvious(a.args[2])
    return False


def powr(a, b):
    a, b = R(a), R(b)
    if special(a) or special(b):
        if special(b):
            raise Unsupported("non-finite exponent")
        if b.op == "c":
            try:
                return float(a) ** float(b.data)
            except OverflowError:
                return INF
        raise Unsupported("power of a non-finite base")
    if b.op == "c":
        e = b.data
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                return div(T.ONE, T.powi(a, -n))
            return T.powi(a, n)
        if e == Fraction(1, 2):
            return sqrt(a)
        if e == Fraction(-1, 2):
            return div(T.ONE, sqrt(a))
        if e == Fraction(3, 2):
            return mul(a, sqrt(a))
        if a.op == "c":
            return V(float(a.data) ** float(e))
        # a**(p/q): defined for a > 0 (and 0)
        if decide(T.lt0(a)):
            return NAN
        return T.fun("pow", a, b)
    if a.op == "c" and a.data == 1:
        return T.ONE
    if decide(T.le0(a)):
        raise Unsupported("power of a non-positive base with symbolic exponent")
    return T.fun("pow", a, b)


def _unary(name):
    pyf = {"sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "atan": math.atan}[name]

    def f(a):
        a = R(a)
        if special(a):
            if name == "exp":
                return a if math.isnan(a) else (INF if a > 0 else T.ZERO)
            if name == "atan":
                return a if math.isnan(a) else V(math.copysign(math.pi / 2, a))
            return NAN
        t = T.fun(name, a)
        if a.op == "c" and t.op == "f":
            return V(pyf(float(a.data)))
        return t

    return f


sin, cos, tan, exp, atan = (_unary(n) for n in ("sin", "cos", "tan", "exp", "atan"))


def _arc(name, pyf):
    def f(a):
        a = R(a)
        if special(a):
            return NAN
        if a.op == "c":
            return V(pyf(float(a.data))) if -1 <= a.data <= 1 else NAN
        if not STATE.explorer.arc_total and not STATE.explorer.unit_range(a):
            if decide(T.or_(T.gt(a, T.ONE), T.lt(a, T.MINUS_ONE))):
                return NAN
        return T.fun(name, a)

    return f


acos, asin = _arc("acos", math.acos), _arc("asin", math.asin)


def log(a):
    a = R(a)
    if special(a):
        return a if (a > 0 or math.isnan(a)) else NAN
    if a.op == "c":
        return V(math.log(a.data)) if a.data > 0 else (NAN if a.data < 0 else -INF)
    sg = _sign_split(a)
    return T.fun("log", a) if sg > 0 else (-INF if sg == 0 else NAN)


def atan2(y, x):
    y, x = R(y), R(x)
    if special(y) or special(x):
        return NAN
    if y.op == "c" and x.op == "c":
        return V(math.atan2(y.data, x.data))
    return T.fun("atan2", y, x)


def absv(a):
    a = R(a)
    if special(a):
        return abs(a)
    if nonneg_obvious(a):
        return a
    return T.fun("abs", a)


def sign(a):
    a = R(a)
    if special(a):
        return NAN if math.isnan(a) else V(math.copysign(1, a))
    return T.ite(T.lt0(a), T.MINUS_ONE, T.ite(T.eq0(a), T.ZERO, T.ONE))


def _constant(a, fn):
    """The value of floor/round where the bounds of a leave only one."""
    ex = STATE.explorer
    if ex is None:
        return None
    lo, hi = ex.interval(a)
    if not (math.isfinite(lo) and math.isfinite(hi)):
        return None
    e = 1e-9 * max(1.0, abs(lo), abs(hi))
    x, y = fn(lo - e), fn(hi + e)
    return x if x == y else None


def floor(a):
    a = R(a)
    if special(a):
        return a
    f = T.fun("floor", a)
    if f.op == "f":
        c = _constant(a, math.floor)
        if c is not None:
            return V(c)
    return f


def ceil(a):
    return neg(floor(neg(a)))


def trunc(a):
    a = R(a)
    if special(a):
        return a
    if a.isint:
        return a
    if nonneg_obvious(a):
        return floor(a)
    f = floor(a)
    if f.op == "c" and f.data >= 0:
        return f
    return T.ite(T.lt0(a), T.neg(T.fun("floor", T.neg(a))), f)


def roundhe(a):
    """Round half to even."""
    a = R(a)
    if special(a):
        return a
    if a.isint:
        return a
    if a.op == "c":
        return V(round(a.data))
    c = _constant(a, round)
    return V(c) if c is not None else T.fun("round", a, isint=True)


def mod(a, b):
    """Python/torch remainder (sign of divisor)."""
    q = floor(div(a, b))
    return sub(a, mul(q, b))


def fmod(a, b):
    return sub(a, mul(trunc(div(a, b)), b))


def floordiv(a, b):
    return floor(div(a, b))


# comparisons -> boolean terms


def _cmp(op, a, b):
    a, b = R(a), R(b)
    if special(a) or special(b):
        fa = a if special(a) else None
        fb = b if special(b) else None
        if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
            return T.boolc(op == "ne")
        fa = 0.0 if fa is None else fa
        fb = 0.0 if fb is None else fb
        r = {"lt": fa < fb, "le": fa <= fb, "gt": fa > fb, "ge": fa >= fb, "eq": fa == fb, "ne": fa != fb}[op]
        return T.boolc(r)
    if op == "lt":
        return T.lt(a, b)
    if op == "le":
        return T.le(a, b)
    if op == "gt":
        return T.gt(a, b)
    if op == "ge":
        return T.ge(a, b)
    if op == "eq":
        return T.eq(a, b)
    return T.not_(T.eq(a, b))


def eq(a, b):
    if isinstance(a, T.Term) and isinstance(b, T.Term) and a.sort == "B" and b.sort == "B":
        return T.or_(T.and_(a, b), T.and_(T.not_(a), T.not_(b)))
    return _cmp("eq", a, b)


def ne(a, b):
    return T.not_(eq(a, b))


def lt(a, b):
    return _cmp("lt", a, b)


def le(a, b):
    return _cmp("le", a, b)


def gt(a, b):
    return _cmp("gt", a, b)


def ge(a, b):
    return _cmp("ge", a, b)


def maximum(a, b):
    a, b = R(a), R(b)
    if special(a) or special(b):
        if (special(a) and math.isnan(a)) or (special(b) and math.isnan(b)):
            return NAN
        s, o = (a, b) if special(a) else (b, a)
        if special(o):
            return max(s, o)
        return s if s > 0 else o
    return _pick("max", a, b)


def _pick(name, a, b):
    ex = STATE.explorer
    if ex is not None and a is not b and not (a.op == "c" and b.op == "c"):
        if ex.fork_max and ex.flipped(T.sub(a, b)):
            a, b = b, a
        c = T.le(a, b)
        k = ex.known(c)
        if k is None and ex.fork_max:
            k = ex.decide(c)
        if k is not None:
            return b if k == (name == "max") else a
    return T.fun(name, a, b)


def minimum(a, b):
    return neg_if(maximum(neg(a), neg(b))) if (special(R(a)) or special(R(b))) else _pick("min", R(a), R(b))


def neg_if(x):
    return neg(x)


def where(c, a, b):
    c = B(c)
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if (not special(a)) and (not special(b)):
        if a is b:
            return a
        if a.op == "c" and b.op == "c" and a.sort == "R":
            x, y = float(a.data), float(b.data)
            if abs(x - y) <= 1e-13 * (abs(x) + abs(y)):
                return a  # double-precision noise
    if STATE.explorer is not None and STATE.explorer.known(c) is not None:
        return a if STATE.explorer.known(c) else b
    if special(a) or special(b) or (STATE.explorer is not None and STATE.explorer.fork_where):
        if isinstance(a, T.Term) and isinstance(b, T.Term) and a.op == "c" and b.op == "c" and a.sort == "R":
            return T.ite(c, a, b)
        return a if decide(c) else b
    if a.sort != b.sort:
        a, b = R(a), R(b)
    return T.ite(c, a, b)


def isnan(a):
    return T.boolc(special(a) and math.isnan(a))


def isinf(a):
    return T.boolc(special(a) and math.isinf(a))


def isfinite(a):
    return T.boolc(not special(a))


def to_bool(a):
    return B(a)


def land(a, b):
    return T.and_(B(a), B(b))


def lor(a, b):
    return T.or_(B(a), B(b))


def lnot(a):
    return T.not_(B(a))


def lxor(a, b):
    a, b = B(a), B(b)
    return T.or_(T.and_(a, T.not_(b)), T.and_(T.not_(a), b))


def summ(vals):
    """n-ary sum."""
    vals = [R(v) for v in vals]
    sp = [v for v in vals if special(v)]
    if sp:
        s = 0.0
        for v in sp:
            s += v
        return s
    return T.lin(0, [(1, v) for v in vals])


def dot(us, vs):
    if any(special(R(x)) for x in us) or any(special(R(x)) for x in vs):
        return summ([mul(a, b) for a, b in zip(us, vs)])
    pairs = []
    for a, b in zip(us, vs):
        a, b = R(a), R(b)
        if a.op == "c":
            pairs.append((a.data, b))
        elif b.op == "c":
            pairs.append((b.data, a))
        else:
            pairs.append((1, T.mul(a, b)))
    return T.lin(0, pairs)
