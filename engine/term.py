"""Hash-consed real/bool terms over symbolic inputs.

Real terms are exact (fractions.Fraction constants): the engine reasons about the
real-number semantics of the code, see DESIGN.md for what that leaves out.

Every term has an integer id (index into TABLE); id 0 is never used, so that an int64
tensor of ids can mark "this element is concrete" with 0.
"""
from __future__ import annotations

import math
from fractions import Fraction

TABLE: list = [None]
_INTERN: dict = {}


class Term:
    __slots__ = ("id", "op", "args", "data", "sort", "isint")

    def __repr__(self):
        return pretty(self)


def _mk(op, args, data, sort, isint=False):
    key = (op, tuple(a.id for a in args), data)
    t = _INTERN.get(key)
    if t is None:
        t = Term()
        t.id = len(TABLE)
        t.op = op
        t.args = args
        t.data = data
        t.sort = sort
        t.isint = isint
        TABLE.append(t)
        _INTERN[key] = t
    return t


# ----------------------------------------------------------------------------- constants

PI = Fraction(math.pi)
_SNAP: dict = {}


def snap(x: float) -> Fraction:
    """Read a double as the simplest rational (or rational multiple of pi) it rounds from.

    0.1 -> 1/10, 1/3. -> 1/3, math.pi/180 -> PI/180 (PI itself is the double's exact value).
    """
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    x = float(x)
    r = _SNAP.get(x)
    if r is not None:
        return r
    if x == int(x) if math.isfinite(x) else False:
        r = Fraction(int(x))
    else:
        f = Fraction(x)
        r = f.limit_denominator(100000)
        if float(r) != x:
            q = Fraction(x / math.pi).limit_denominator(2000)
            if q != 0 and (float(q) * math.pi == x or float(q * PI) == x):
                r = q * PI
            else:
                q = Fraction(x / math.pi**2).limit_denominator(200)
                r = q * PI * PI if q != 0 and abs(float(q) * math.pi**2 - x) <= 2e-16 * abs(x) else f
    if len(_SNAP) < 2_000_000:
        _SNAP[x] = r
    return r


def const(v) -> Term:
    v = snap(v)
    return _mk("c", (), v, "R", v.denominator == 1)


ZERO = const(0)
ONE = const(1)
MINUS_ONE = const(-1)


def var(name, isint=False) -> Term:
    return _mk("v", (), name, "R", isint)


def is_const(t):
    return t.op == "c"


# ----------------------------------------------------------------------------- add / mul
# '+' : data = (constant, coefs tuple), args = terms (sorted by id), none of them '+' or 'c'
# '*' : data = exponent tuple, args = base terms (sorted by id); no constants inside


def _split(t):
    """t -> (coef, core) with core free of a numeric factor (core None for constants)."""
    if t.op == "c":
        return t.data, None
    if t.op == "+" and t.data[0] == 0 and len(t.args) == 1:
        return t.data[1][0], t.args[0]
    return Fraction(1), t


def lin(const0, pairs):
    acc: dict = {}
    c0 = Fraction(const0)
    for coef, t in pairs:
        if coef == 0:
            continue
        if t.op == "c":
            c0 += coef * t.data
        elif t.op == "+":
            c0 += coef * t.data[0]
            for cc, tt in zip(t.data[1], t.args):
                acc[tt] = acc.get(tt, 0) + coef * cc
        else:
            acc[t] = acc.get(t, 0) + coef
    items = [(t, c) for t, c in acc.items() if c != 0]
    if not items:
        return const(c0)
    items.sort(key=lambda p: p[0].id)
    if c0 == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    args = tuple(t for t, _ in items)
    coefs = tuple(c if type(c) is Fraction else Fraction(c) for _, c in items)
    isint = (
        c0.denominator == 1
        and all(c.denominator == 1 for c in coefs)
        and all(a.isint for a in args)
    )
    return _mk("+", args, (c0, coefs), "R", isint)


def add(*ts):
    return lin(0, [(1, t) for t in ts])


def sub(a, b):
    return lin(0, [(1, a), (-1, b)])


def neg(a):
    return lin(0, [(-1, a)])


def scale(c, a):
    return lin(0, [(Fraction(c), a)])


def mulpow(pairs):
    """Product of base**exp."""
    coef = Fraction(1)
    acc: dict = {}
    stack = list(pairs)
    while stack:
        b, e = stack.pop()
        if e == 0:
            continue
        if b.op == "c":
            if b.data == 0 and e < 0:
                raise ZeroDivisionError("symbolic 0**negative")
            coef *= b.data ** e
            continue
        c, core = _split(b)
        if c != 1:
            coef *= c ** e
            b = core
        if b.op == "*":
            for bb, ee in zip(b.args, b.data):
                acc[bb] = acc.get(bb, 0) + ee * e
            continue
        if b.op == "+":
            # canonical leading coefficient 1, so that powers of proportional sums merge
            lead = b.data[1][0]
            if lead != 1:
                coef *= lead ** e
                b = lin(b.data[0] / lead, [(cc / lead, tt) for cc, tt in zip(b.data[1], b.args)])
                if b.op == "*":
                    stack.append((b, e))
                    continue
        acc[b] = acc.get(b, 0) + e
    if coef == 0:
        return ZERO
    # sqrt(x)^2 -> x
    again = [(b, e) for b, e in acc.items() if b.op == "f" and b.data == "sqrt" and abs(e) >= 2]
    if again:
        out = []
        for b, e in acc.items():
            if b.op == "f" and b.data == "sqrt" and abs(e) >= 2:
                q = int(e / 2) if e > 0 else -int(-e / 2)
                out.append((b.args[0], q))
                out.append((b, e - 2 * q))
            else:
                out.append((b, e))
        return mulpow(out + [(const(coef), 1)])
    items = [(b, e) for b, e in acc.items() if e != 0]
    if not items:
        return const(coef)
    items.sort(key=lambda p: p[0].id)
    if len(items) == 1 and items[0][1] == 1:
        core = items[0][0]
    else:
        core = _mk(
            "*",
            tuple(b for b, _ in items),
            tuple(e for _, e in items),
            "R",
            all(b.isint for b, _ in items) and all(e > 0 for _, e in items),
        )
    if coef == 1:
        return core
    return lin(0, [(coef, core)])


def mul(*ts):
    if len(ts) == 2:
        a, b = ts
        if a.op == "c":
            return lin(0, [(a.data, b)])
        if b.op == "c":
            return lin(0, [(b.data, a)])
    return mulpow([(t, 1) for t in ts])


def powi(a, n):
    return mulpow([(a, n)])


def div(a, b):
    return mulpow([(a, 1), (b, -1)])


# ----------------------------------------------------------------------------- functions


def fun(name, *args, isint=False):
    if name == "sqrt":
        (a,) = args
        if a.op == "c":
            n, d = a.data.numerator, a.data.denominator
            if n >= 0:
                rn, rd = math.isqrt(n), math.isqrt(d)
                if rn * rn == n and rd * rd == d:
                    return const(Fraction(rn, rd))
    elif name in ("sin", "tan", "asin", "atan", "sinh"):
        if args[0].op == "c" and args[0].data == 0:
            return ZERO
        # odd functions: pull the sign of the leading coefficient out
        a = args[0]
        if name in ("sin", "tan", "asin", "atan") and _leading_negative(a):
            return neg(_mk("f", (neg(a),), name, "R"))
    elif name == "cos":
        a = args[0]
        if a.op == "c" and a.data == 0:
            return ONE
        if _leading_negative(a):
            return _mk("f", (neg(a),), "cos", "R")
    elif name == "exp":
        if args[0].op == "c" and args[0].data == 0:
            return ONE
    elif name == "abs":
        a = args[0]
        if a.op == "c":
            return const(abs(a.data))
        if a.op == "f" and a.data in ("abs", "sqrt", "exp", "acos"):
            return a
        c, core = _split(a)
        if c != 1 and core is not None:
            return scale(abs(c), fun("abs", core))
        if _leading_negative(a):
            return _mk("f", (neg(a),), "abs", "R", a.isint)
        return _mk("f", (a,), "abs", "R", a.isint)
    elif name == "floor":
        a = args[0]
        if a.isint:
            return a
        if a.op == "c":
            return const(math.floor(a.data))
        if a.op == "+":
            # floor(x + n) = floor(x) + n
            c0 = a.data[0]
            n = math.floor(c0)
            ints = [(c, t) for c, t in zip(a.data[1], a.args) if t.isint and c.denominator == 1]
            if n != 0 or ints:
                rest = lin(c0 - n, [(c, t) for c, t in zip(a.data[1], a.args) if not (t.isint and c.denominator == 1)])
                if rest.op == "c":
                    return lin(n + math.floor(rest.data), ints)
                return lin(n, ints + [(1, _mk("f", (rest,), "floor", "R", True))])
        return _mk("f", (a,), "floor", "R", True)
    elif name in ("max", "min"):
        return _nary(name, args)
    return _mk("f", tuple(args), name, "R", isint)


def _leading_negative(a):
    if a.op == "+":
        return a.data[1][0] < 0
    if a.op == "c":
        return a.data < 0
    return False


def _nary(name, args):
    seen = []
    cbest = None
    pick = max if name == "max" else min
    for a in args:
        if a.op == "f" and a.data == name:
            inner = a.args
        else:
            inner = (a,)
        for b in inner:
            if b.op == "c":
                cbest = b.data if cbest is None else pick(cbest, b.data)
            elif b not in seen:
                seen.append(b)
    if cbest is not None:
        if not seen:
            return const(cbest)
        seen.append(const(cbest))
    if len(seen) == 1:
        return seen[0]
    seen.sort(key=lambda t: t.id)
    return _mk("f", tuple(seen), name, "R", all(s.isint for s in seen))


def sqrt(a):
    return fun("sqrt", a)


def ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a is b:
        return a
    if a.sort == "B":
        return or_(and_(c, a), and_(not_(c), b))
    return _mk("ite", (c, a, b), None, "R", a.isint and b.isint)


# ----------------------------------------------------------------------------- booleans

TRUE = _mk("true", (), None, "B")
FALSE = _mk("false", (), None, "B")


def boolc(b):
    return TRUE if b else FALSE


def boolvar(name):
    return _mk("bv", (), name, "B")


def _canon(t, signed):
    """Scale so that the leading coefficient is +-1 (or +1 if not signed)."""
    if t.op == "+":
        lead = t.data[1][0]
        s = abs(lead) if signed else lead
        if s != 1:
            t = lin(t.data[0] / s, [(c / s, a) for c, a in zip(t.data[1], t.args)])
    return t


_ARC = {"acos": (0.0, math.pi, math.cos, -1), "asin": (-math.pi / 2, math.pi / 2, math.sin, 1), "atan": (-math.pi / 2, math.pi / 2, math.tan, 1)}


def _arc_cmp(t, strict):
    """c0 + c*arcfun(x) < 0 (or <= 0) as a comparison of x with a number."""
    if t.op == "+":
        if len(t.args) != 1:
            return None
        c0, c, f = t.data[0], t.data[1][0], t.args[0]
    else:
        c0, c, f = Fraction(0), Fraction(1), t
    if f.op != "f" or f.data not in _ARC:
        return None
    lo, hi, fn, mono = _ARC[f.data]
    v = -c0 / c
    x = f.args[0]
    # arc < v  (c > 0)  or  arc > v
    if abs(v - Fraction(lo)) < Fraction(1, 10**13) or abs(v - Fraction(hi)) < Fraction(1, 10**13):
        if f.data == "atan":
            return boolc((v > 0) == (c > 0))
        at = const(round(fn(float(v))))
        less = (c > 0) == (mono > 0)
        d = sub(x, at) if less else sub(at, x)
        return lt0(d) if strict else le0(d)
    if v < lo:
        return boolc(c < 0)
    if v > hi:
        return boolc(c > 0)
    at = snap(round(fn(float(v)), 13))
    less = (c > 0) == (mono > 0)
    d = sub(x, const(at)) if less else sub(const(at), x)
    return lt0(d) if strict else le0(d)


def _eig_cmp(t, strict):
    """c0 + c*eig_i < 0 (or <= 0): the signs of the coefficients of the characteristic polynomial about -c0/c.

    Exact because all three eigenvalues are real (Descartes' rule of signs).
    """
    if t.op == "+":
        if len(t.args) != 1:
            return None
        c0, c, f = t.data[0], t.data[1][0], t.args[0]
    else:
        c0, c, f = Fraction(0), Fraction(1), t
    if f.op != "f" or f.data not in ("eig0", "eig1", "eig2"):
        return None
    i = int(f.data[3])
    v = -c0 / c
    tr, c1, d = f.args
    if v:
        tr, c1, d = (
            sub(tr, const(3 * v)),
            add(const(3 * v * v), mul(const(-2 * v), tr), c1),
            add(d, mul(const(-v), c1), mul(const(v * v), tr), const(-v * v * v)),
        )
    if c < 0:  # eig > v: the negated matrix has its eigenvalues in the opposite order
        tr, d, i = neg(tr), neg(d), 2 - i
    # now: is the i-th smallest eigenvalue negative (or: not positive)
    lt_, le_ = lt0, le0
    n1, p1 = lt_(c1), lt_(neg(c1))
    if strict:
        if i == 0:
            return or_(lt_(tr), n1, lt_(d))
        if i == 1:
            return or_(and_(le_(d), lt_(tr), p1), and_(lt_(neg(d)), or_(le_(tr), le_(c1))))
        return and_(lt_(tr), p1, lt_(d))
    # eig_i <= 0  <=>  not (eig_i > 0)  <=>  not ((-eig)_(2-i) < 0)
    tr, d = neg(tr), neg(d)
    if i == 2:
        return not_(or_(lt_(tr), n1, lt_(d)))
    if i == 1:
        return not_(or_(and_(le_(d), lt_(tr), p1), and_(lt_(neg(d)), or_(le_(tr), le_(c1)))))
    return not_(and_(lt_(tr), p1, lt_(d)))


def le0(t):
    if t.op == "c":
        return boolc(t.data <= 0)
    r = _eig_cmp(t, False)
    if r is not None:
        return r
    r = _arc_cmp(t, False)
    if r is not None:
        return r
    return _mk("le", (_canon(t, True),), None, "B")


def lt0(t):
    if t.op == "c":
        return boolc(t.data < 0)
    r = _eig_cmp(t, True)
    if r is not None:
        return r
    r = _arc_cmp(t, True)
    if r is not None:
        return r
    return _mk("lt", (_canon(t, True),), None, "B")


def eq0(t):
    if t.op == "c":
        return boolc(t.data == 0)
    # a product of powers is zero only if one (positive power) factor is
    t = _canon(t, False)
    if t.op == "*":
        return or_(*[eq0(b) for b, e in zip(t.args, t.data) if e > 0])
    if t.op == "f" and t.data == "sqrt":
        return eq0(t.args[0])
    return _mk("eq", (t,), None, "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le0(sub(b, a))


def gt(a, b):
    return lt0(sub(b, a))


def eq(a, b):
    return eq0(sub(a, b))


def not_(b):
    o = b.op
    if o == "true":
        return FALSE
    if o == "false":
        return TRUE
    if o == "not":
        return b.args[0]
    if o == "le":
        return lt0(neg(b.args[0]))
    if o == "lt":
        return le0(neg(b.args[0]))
    return _mk("not", (b,), None, "B")


def and_(*bs):
    return _andor("and", bs)


def or_(*bs):
    return _andor("or", bs)


def _andor(op, bs):
    unit, absorb = ("true", "false") if op == "and" else ("false", "true")
    out = {}
    stack = list(reversed(bs))
    while stack:
        b = stack.pop()
        if b.op == unit:
            continue
        if b.op == absorb:
            return b
        if b.op == op:
            stack.extend(reversed(b.args))
            continue
        out[b.id] = b
    for b in out.values():
        if not_(b).id in out:
            return FALSE if op == "and" else TRUE
    if not out:
        return TRUE if op == "and" else FALSE
    if len(out) == 1:
        return next(iter(out.values()))
    args = tuple(sorted(out.values(), key=lambda t: t.id))
    return _mk(op, args, None, "B")


def implies(a, b):
    return or_(not_(a), b)


# ----------------------------------------------------------------------------- evaluation


def evaluate(t, env, memo=None):
    """Floating point value of a term under env (name -> float). Iterative."""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        pend = [a for a in x.args if a.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        stack.pop()
        memo[x.id] = _ev(x, [memo[a.id] for a in x.args], env)
    return memo[t.id]


def _ev(x, a, env):
    o = x.op
    try:
        if o == "c":
            return float(x.data)
        if o == "v" or o == "bv":
            return env[x.data]
        if o == "+":
            s = float(x.data[0])
            for c, v in zip(x.data[1], a):
                s += float(c) * v
            return s
        if o == "*":
            p = 1.0
            for b, e in zip(a, x.data):
                p *= b ** e
            return p
        if o == "f":
            return _FN[x.data](*a)
        if o == "ite":
            return a[1] if a[0] else a[2]
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "le":
            return a[0] <= 0
        if o == "lt":
            return a[0] < 0
        if o == "eq":
            return a[0] == 0
        if o == "not":
            return not a[0]
        if o == "and":
            return all(a)
        if o == "or":
            return any(a)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return float("nan")
    raise NotImplementedError(o)


def _round_half_even(v):
    return float(round(v))


_FN = {
    "sqrt": lambda v: math.sqrt(v) if v >= 0 else (0.0 if v > -1e-12 else float("nan")),
    "sin": math.sin,
    "cos": math.cos,
    "tan": math.tan,
    "asin": lambda v: math.asin(max(-1.0, min(1.0, v))) if abs(v) < 1 + 1e-9 else float("nan"),
    "acos": lambda v: math.acos(max(-1.0, min(1.0, v))) if abs(v) < 1 + 1e-9 else float("nan"),
    "atan": math.atan,
    "atan2": math.atan2,
    "exp": math.exp,
    "log": math.log,
    "abs": abs,
    "floor": lambda v: float(math.floor(v)),
    "round": _round_half_even,
    "max": max,
    "min": min,
    "pow": lambda a, b: a ** b,
}


def register_function(name, fn):
    _FN[name] = fn


def variables(ts):
    seen = set()
    out = []
    stack = list(ts)
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("v", "bv"):
            out.append(x)
        stack.extend(x.args)
    return out


def size(t):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        stack.extend(x.args)
    return len(seen)


def pretty(t, depth=6):
    if depth == 0:
        return "…"
    o = t.op
    d = depth - 1
    if o == "c":
        f = t.data
        return str(f) if f.denominator < 10**6 else repr(float(f))
    if o in ("v", "bv"):
        return str(t.data)
    if o == "+":
        s = []
        if t.data[0] != 0:
            s.append(pretty(const(t.data[0]), d))
        for c, a in zip(t.data[1], t.args):
            s.append((("%s*" % (c if c.denominator < 10**6 else float(c))) if c != 1 else "") + pretty(a, d))
        return "(" + " + ".join(s) + ")"
    if o == "*":
        return "*".join(pretty(b, d) + ("" if e == 1 else "^%d" % e) for b, e in zip(t.args, t.data))
    if o == "f":
        return t.data + "(" + ", ".join(pretty(a, d) for a in t.args) + ")"
    if o == "le":
        return pretty(t.args[0], d) + " <= 0"
    if o == "lt":
        return pretty(t.args[0], d) + " < 0"
    if o == "eq":
        return pretty(t.args[0], d) + " == 0"
    return o + "(" + ", ".join(pretty(a, d) for a in t.args) + ")"
