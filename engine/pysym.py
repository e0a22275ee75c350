"""Python-level symbolic scalars (what float()/item()/numpy object elements become)."""
from __future__ import annotations

import math
import numbers
from fractions import Fraction

import numpy as np

from . import scalar as S
from . import term as T


def unwrap(x):
    """number / SymReal / SymBool -> scalar value, or None if not a scalar."""
    if isinstance(x, (SymReal, SymBool)):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return T.boolc(bool(x))
    if isinstance(x, (numbers.Real, np.integer, np.floating)):
        return S.V(x.item() if isinstance(x, np.generic) else x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return unwrap(x.item())
    return None


def wrap(v):
    """scalar value -> Python object: float/bool when concrete."""
    if not isinstance(v, T.Term):
        return float(v)
    if v.op == "c":
        return float(v.data)
    if v.op == "true":
        return True
    if v.op == "false":
        return False
    return SymBool(v) if v.sort == "B" else SymReal(v)


def wrap_exact(v):
    """Like wrap but keeps constants as exact symbolic constants."""
    if not isinstance(v, T.Term):
        return float(v)
    return SymBool(v) if v.sort == "B" else SymReal(v)


def _bin(op):
    f = getattr(S, op)

    def each(o, g):
        """Arrays leave the operation to this scalar: apply it to every element."""
        from . import npsym

        a = npsym.unobj(o)
        out = np.empty(a.shape, dtype=object)
        for k in np.ndindex(*a.shape):
            out[k] = g(a[k])
        return npsym.mk_nd(out)

    def fwd(self, o):
        v = unwrap(o)
        if v is None:
            return each(o, lambda x: f(self.t, x)) if isinstance(o, np.ndarray) else NotImplemented
        return wrap_exact(f(self.t, v))

    def rev(self, o):
        v = unwrap(o)
        if v is None:
            return each(o, lambda x: f(x, self.t)) if isinstance(o, np.ndarray) else NotImplemented
        return wrap_exact(f(v, self.t))

    return fwd, rev


class SymReal:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    __add__, __radd__ = _bin("add")
    __sub__, __rsub__ = _bin("sub")
    __mul__, __rmul__ = _bin("mul")
    __truediv__, __rtruediv__ = _bin("div")
    __pow__, __rpow__ = _bin("powr")
    __mod__, __rmod__ = _bin("mod")
    __floordiv__, __rfloordiv__ = _bin("floordiv")
    __lt__ = _bin("lt")[0]
    __le__ = _bin("le")[0]
    __gt__ = _bin("gt")[0]
    __ge__ = _bin("ge")[0]

    def __eq__(self, o):
        v = unwrap(o)
        if v is None:
            return NotImplemented
        return wrap(S.eq(self.t, v))

    def __ne__(self, o):
        v = unwrap(o)
        if v is None:
            return NotImplemented
        return wrap(S.ne(self.t, v))

    def __hash__(self):
        return hash(self.t.id)

    def __neg__(self):
        return wrap_exact(S.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap_exact(S.absv(self.t))

    def __bool__(self):
        return S.decide(S.B(self.t))

    def __float__(self):
        if self.t.op == "c":
            return float(self.t.data)
        raise S.Unsupported("float() of a symbolic value in code that needs a machine float")

    def __int__(self):
        return S.STATE.explorer.concretize_int(S.trunc(self.t))

    __index__ = __int__

    def __round__(self, nd=None):
        if nd is None:
            return S.STATE.explorer.concretize_int(S.roundhe(self.t))
        f = Fraction(10) ** nd
        return wrap_exact(T.scale(1 / f, S.roundhe(T.scale(f, self.t))))

    def __trunc__(self):
        return self.__int__()

    def __floor__(self):
        return S.STATE.explorer.concretize_int(S.floor(self.t))

    def __ceil__(self):
        return S.STATE.explorer.concretize_int(S.ceil(self.t))

    def __repr__(self):
        return "Sym[%s]" % T.pretty(self.t, 4)

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        return (_rebuild, (self.t.id,))

    # numpy object-array methods
    def sqrt(self):
        return wrap_exact(S.sqrt(self.t))

    def sin(self):
        return wrap_exact(S.sin(self.t))

    def cos(self):
        return wrap_exact(S.cos(self.t))

    def tan(self):
        return wrap_exact(S.tan(self.t))

    def exp(self):
        return wrap_exact(S.exp(self.t))

    def log(self):
        return wrap_exact(S.log(self.t))

    def arccos(self):
        return wrap_exact(S.acos(self.t))

    def arcsin(self):
        return wrap_exact(S.asin(self.t))

    def arctan(self):
        return wrap_exact(S.atan(self.t))

    def arctan2(self, o):
        return wrap_exact(S.atan2(self.t, unwrap(o)))

    def radians(self):
        return wrap_exact(T.scale(T.PI / 180, self.t))

    deg2rad = radians

    def degrees(self):
        return wrap_exact(T.scale(180 / T.PI, self.t))

    rad2deg = degrees

    def floor(self):
        return wrap_exact(S.floor(self.t))

    def ceil(self):
        return wrap_exact(S.ceil(self.t))

    def rint(self):
        return wrap_exact(S.roundhe(self.t))

    def conjugate(self):
        return self

    def item(self):
        return self

    def is_integer(self):
        return self.t.isint

    def square(self):
        return self * self

    @property
    def real(self):
        return self

    @property
    def ndim(self):
        return 0

    @property
    def shape(self):
        return ()

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from . import tmode

        return tmode.scalar_torch_function(func, args, kwargs or {})


class SymBool:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return S.decide(self.t)

    def __and__(self, o):
        v = unwrap(o)
        return NotImplemented if v is None else wrap(T.and_(self.t, S.B(v)))

    __rand__ = __and__

    def __or__(self, o):
        v = unwrap(o)
        return NotImplemented if v is None else wrap(T.or_(self.t, S.B(v)))

    __ror__ = __or__

    def __invert__(self):
        return wrap(T.not_(self.t))

    logical_not = __invert__

    def __xor__(self, o):
        v = unwrap(o)
        return NotImplemented if v is None else wrap(S.lxor(self.t, v))

    __rxor__ = __xor__

    def _num(self):
        return SymReal(S.R(self.t))

    def __add__(self, o):
        return self._num() + (o._num() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * (o._num() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - (o._num() if isinstance(o, SymBool) else o)

    def __eq__(self, o):
        v = unwrap(o)
        return NotImplemented if v is None else wrap(S.eq(self.t, v))

    def __ne__(self, o):
        v = unwrap(o)
        return NotImplemented if v is None else wrap(S.ne(self.t, v))

    def __hash__(self):
        return hash(self.t.id)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def item(self):
        return self

    def __repr__(self):
        return "SymBool[%s]" % T.pretty(self.t, 4)

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        from . import tmode

        return tmode.scalar_torch_function(func, args, kwargs or {})


def _rebuild(i):
    t = T.TABLE[i]
    return SymBool(t) if t.sort == "B" else SymReal(t)


numbers.Real.register(SymReal)
