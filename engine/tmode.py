"""Symbolic execution of torch code.

Tensors stay ordinary torch tensors (their data is the "carrier"); which elements are
symbolic, and which term each one is, is kept on the side in an int64 id tensor per storage,
so that views, aliasing and in-place updates behave as torch makes them behave.  A dispatch
mode computes the ids of every operator's result; a function mode catches the places where
tensors turn into Python or numpy values.
"""
from __future__ import annotations

import contextlib
import itertools
import math
from fractions import Fraction

import numpy as np
import torch
from torch.overrides import TorchFunctionMode
from torch.utils._python_dispatch import TorchDispatchMode

from . import pysym as P
from . import scalar as S
from . import term as T
from .scalar import Unsupported

aten = torch.ops.aten


class _St:
    def __init__(self):
        self.store = {}
        self.internal = 0
        self.ops = {}


ST = _St()


@contextlib.contextmanager
def internal():
    ST.internal += 1
    try:
        yield
    finally:
        ST.internal -= 1


# ----------------------------------------------------------------------------- shadow store


def reset():
    ST.store.clear()


def get_ids(t):
    """int64 tensor of term ids shaped like t, or None if t is concrete. (internal only)"""
    if not ST.store:
        return None
    st = t.untyped_storage()
    e = ST.store.get(st._cdata)
    if e is None:
        return None
    ids, _, isz = e
    if isz != t.element_size():
        if bool(ids.any()):
            raise Unsupported("reinterpreting the bytes of a symbolic tensor")
        return None
    v = torch.as_strided(ids, t.shape, t.stride(), t.storage_offset())
    if not bool((v != 0).any()):
        return None
    return v


def ids_or_zeros(t):
    i = get_ids(t)
    return i if i is not None else torch.zeros(t.shape, dtype=torch.int64)


def set_ids(t, new):
    """Write ids for the elements of t (new: tensor broadcastable to t.shape, or None = all 0)."""
    st = t.untyped_storage()
    e = ST.store.get(st._cdata)
    if e is None:
        if new is None or not bool((new != 0).any()):
            return
        n = st.nbytes() // max(1, t.element_size())
        ids = torch.zeros(n, dtype=torch.int64)
        e = (ids, st, t.element_size())
        ST.store[st._cdata] = e
    v = torch.as_strided(e[0], t.shape, t.stride(), t.storage_offset())
    if new is None:
        v.zero_()
    else:
        v.copy_(new)


def is_symbolic(t):
    ST.internal += 1
    try:
        return get_ids(t) is not None
    finally:
        ST.internal -= 1


_SNAP32: dict = {}


def _snap32(x):
    r = _SNAP32.get(x)
    if r is None:
        r = x
        if math.isfinite(x) and x != int(x):
            f = Fraction(x).limit_denominator(2000)
            if np.float32(float(f)) == np.float32(x):
                r = f
        _SNAP32[x] = r
    return r


def value(idn, carrier, dtype):
    if idn:
        v = T.TABLE[idn]
        if dtype == torch.bool:
            return S.B(v)
        return S.R(v)
    if dtype == torch.bool:
        return T.boolc(bool(carrier))
    if dtype == torch.float32:
        return S.V(_snap32(carrier))
    return S.V(carrier)


def to_obj(t):
    """numpy object array of scalar values."""
    ids = get_ids(t)
    flat = t.detach().reshape(-1).tolist()
    out = np.empty(len(flat), dtype=object)
    if ids is None:
        for k, c in enumerate(flat):
            out[k] = value(0, c, t.dtype)
    else:
        idl = ids.reshape(-1).tolist()
        for k in range(len(flat)):
            out[k] = value(idl[k], flat[k], t.dtype)
    return out.reshape(tuple(t.shape))


def _carrier(v, dtype, fallback):
    """(carrier value, id) of a scalar value."""
    if isinstance(v, T.Term):
        if v.op == "c":
            if dtype.is_floating_point:
                return float(v.data), 0
            if dtype == torch.bool:
                return bool(v.data), 0
            return int(v.data), 0
        if v.op == "true":
            return 1, 0
        if v.op == "false":
            return 0, 0
        ex = S.STATE.explorer
        c = fallback
        if ex is not None and ex.witness is not None:
            e = ex._eval(v)
            if e is not None:
                c = e
        if c is None:
            c = 0
        if not dtype.is_floating_point:
            c = int(c) if (isinstance(c, bool) or math.isfinite(c)) else 0
        return c, v.id
    if dtype.is_floating_point:
        return float(v), 0
    if dtype == torch.bool:
        return bool(v), 0
    raise Unsupported("non-finite value in an integer tensor")


def from_obj(arr, dtype, device=None):
    arr = np.asarray(arr, dtype=object)
    n = arr.size
    flat = arr.reshape(-1)
    cs = [0] * n
    ids = [0] * n
    for k in range(n):
        cs[k], ids[k] = _carrier(flat[k], dtype, None)
    if dtype == torch.bool:
        cs = [bool(c) for c in cs]
    elif not dtype.is_floating_point:
        cs = [int(c) for c in cs]
    t = torch.tensor(cs, dtype=dtype).reshape(arr.shape)
    if any(ids):
        set_ids(t, torch.tensor(ids, dtype=torch.int64).reshape(arr.shape))
    return t


# ----------------------------------------------------------------------------- concretising


def concretize(t):
    """Concrete copy of an integer/bool tensor, forking on its symbolic elements."""
    ids = get_ids(t)
    if ids is None:
        return t
    o = to_obj(t)
    flat = o.reshape(-1)
    ex = S.STATE.explorer
    out = []
    for v in flat:
        if t.dtype == torch.bool:
            out.append(S.decide(v))
        else:
            out.append(ex.concretize_int(v))
    r = torch.tensor(out, dtype=t.dtype).reshape(t.shape)
    return r


# ----------------------------------------------------------------------------- elementwise


def _bcast(args):
    shapes = [a.shape for a in args if isinstance(a, torch.Tensor)]
    return torch.broadcast_shapes(*shapes)


def map_elements(fn, args, out):
    """Write fn(*elements) into out for every position with a symbolic operand."""
    shape = out.shape
    idl, cl = [], []
    anym = None
    for a in args:
        if isinstance(a, torch.Tensor):
            i = get_ids(a)
            ib = i.broadcast_to(shape) if i is not None else None
            if ib is not None:
                m = ib != 0
                anym = m if anym is None else (anym | m)
            idl.append(ib)
            cl.append(a.broadcast_to(shape))
        else:
            idl.append(None)
            cl.append(a)
    if anym is None:
        return out
    pos = torch.nonzero(anym.reshape(-1)).reshape(-1).tolist()
    fi = [None if x is None else x.reshape(-1).tolist() for x in idl]
    fc = [x.detach().reshape(-1).tolist() if isinstance(x, torch.Tensor) else None for x in cl]
    outf = out.reshape(-1).tolist()
    oids = [0] * len(outf)
    memo = {}
    for p in pos:
        vals = []
        key = []
        for a, i, c in zip(args, fi, fc):
            if c is None:
                vals.append(S.V(a) if not isinstance(a, (T.Term,)) else a)
                key.append(None)
            else:
                idn = i[p] if i is not None else 0
                key.append((idn, c[p] if not idn else 0))
                vals.append((idn, c[p], a.dtype))
        k = tuple(key)
        r = memo.get(k)
        if r is None:
            vv = [value(*v) if isinstance(v, tuple) else v for v in vals]
            r = fn(*vv)
            memo[k] = r
        outf[p], oids[p] = _carrier(r, out.dtype, None)
    if out.dtype == torch.bool:
        outf = [bool(x) for x in outf]
    res = torch.tensor(outf, dtype=out.dtype).reshape(shape)
    set_ids(res, torch.tensor(oids, dtype=torch.int64).reshape(shape))
    return res


def _alpha(fn):
    def f(args, kwargs):
        al = kwargs.get("alpha", 1)
        if al == 1:
            return fn
        return lambda a, b: fn(a, S.mul(S.V(al), b))

    return f


def _divmode(args, kwargs):
    m = kwargs.get("rounding_mode")
    if m is None:
        return S.div
    if m == "floor":
        return S.floordiv
    return lambda a, b: S.trunc(S.div(a, b))


def _clamp(a, lo=None, hi=None):
    if lo is not None:
        a = S.maximum(a, lo)
    if hi is not None:
        a = S.minimum(a, hi)
    return a


def _nan_to_num(args, kwargs):
    nan = args[1] if len(args) > 1 and args[1] is not None else kwargs.get("nan") or 0.0
    pinf = args[2] if len(args) > 2 and args[2] is not None else kwargs.get("posinf")
    ninf = args[3] if len(args) > 3 and args[3] is not None else kwargs.get("neginf")
    pinf = 1.7976931348623157e308 if pinf is None else pinf
    ninf = -1.7976931348623157e308 if ninf is None else ninf

    def f(a):
        if not S.special(a):
            return a
        return S.V(nan if math.isnan(a) else (pinf if a > 0 else ninf))

    return f


def _round(args, kwargs):
    d = kwargs.get("decimals", 0)
    if d == 0:
        return S.roundhe
    if d > 4:
        return lambda a: a  # rounding to many decimals is idealised to the identity
    f = Fraction(10) ** d
    return lambda a: a if S.special(S.R(a)) else T.scale(1 / f, S.roundhe(T.scale(f, S.R(a))))


HALF_PI = T.PI / 2

EW = {
    "add": _alpha(S.add),
    "sub": _alpha(S.sub),
    "rsub": lambda a, k: (lambda x, y: S.sub(y, S.mul(S.V(k.get("alpha", 1)), x))),
    "div": _divmode,
    "round": _round,
    "nan_to_num": _nan_to_num,
}
for _n, _f in {
    "mul": S.mul,
    "neg": S.neg,
    "reciprocal": S.reciprocal,
    "sqrt": S.sqrt,
    "rsqrt": lambda a: S.div(T.ONE, S.sqrt(a)),
    "square": lambda a: S.mul(a, a),
    "pow": S.powr,
    "sin": S.sin,
    "cos": S.cos,
    "tan": S.tan,
    "exp": S.exp,
    "exp2": lambda a: S.powr(T.const(2), a),
    "expm1": lambda a: S.sub(S.exp(a), T.ONE),
    "log": S.log,
    "log2": lambda a: S.div(S.log(a), S.V(math.log(2))),
    "log10": lambda a: S.div(S.log(a), S.V(math.log(10))),
    "log1p": lambda a: S.log(S.add(a, T.ONE)),
    "acos": S.acos,
    "asin": S.asin,
    "atan": S.atan,
    "atan2": S.atan2,
    "hypot": lambda a, b: S.sqrt(S.add(S.mul(a, a), S.mul(b, b))),
    "abs": S.absv,
    "sign": S.sign,
    "sgn": S.sign,
    "floor": S.floor,
    "ceil": S.ceil,
    "trunc": S.trunc,
    "frac": lambda a: S.sub(a, S.trunc(a)),
    "remainder": S.mod,
    "fmod": S.fmod,
    "floor_divide": S.floordiv,
    "eq": S.eq,
    "ne": S.ne,
    "lt": S.lt,
    "le": S.le,
    "gt": S.gt,
    "ge": S.ge,
    "maximum": S.maximum,
    "minimum": S.minimum,
    "fmax": S.maximum,
    "fmin": S.minimum,
    "clamp": _clamp,
    "clamp_min": lambda a, b: _clamp(a, b),
    "clamp_max": lambda a, b: _clamp(a, None, b),
    "isnan": S.isnan,
    "isinf": S.isinf,
    "isfinite": S.isfinite,
    "logical_and": S.land,
    "logical_or": S.lor,
    "logical_not": S.lnot,
    "logical_xor": S.lxor,
    "deg2rad": lambda a: a if S.special(S.R(a)) else T.scale(T.PI / 180, S.R(a)),
    "rad2deg": lambda a: a if S.special(S.R(a)) else T.scale(180 / T.PI, S.R(a)),
    "lerp": lambda a, b, w: S.add(a, S.mul(w, S.sub(b, a))),
    "addcmul": None,
    "addcdiv": None,
    "sinc": None,
    "positive": lambda a: a,
    "relu": lambda a: S.maximum(a, T.ZERO),
    "heaviside": lambda a, b: S.where(S.lt(a, T.ZERO), T.ZERO, S.where(S.eq(a, T.ZERO), b, T.ONE)),
    "sinh": lambda a: S.div(S.sub(S.exp(a), S.exp(S.neg(a))), T.const(2)),
    "cosh": lambda a: S.div(S.add(S.exp(a), S.exp(S.neg(a))), T.const(2)),
    "special_xlogy": None,
}.items():
    if _f is not None:
        EW[_n] = (lambda f: (lambda a, k: f))(_f)
EW["addcmul"] = lambda a, k: (lambda x, y, z: S.add(x, S.mul(S.V(k.get("value", 1)), S.mul(y, z))))
EW["addcdiv"] = lambda a, k: (lambda x, y, z: S.add(x, S.mul(S.V(k.get("value", 1)), S.div(y, z))))


def _sinc(x):
    x = S.R(x)
    if S.special(x):
        return S.NAN
    if S.decide(T.eq0(x)):
        return T.ONE
    px = T.scale(T.PI, x)
    return S.div(S.sin(px), px)


EW["sinc"] = lambda a, k: _sinc


def _bitwise(fb, name):
    def f(args, kwargs):
        def g(*vs):
            if all(isinstance(v, T.Term) and v.sort == "B" for v in vs):
                return fb(*vs)
            raise Unsupported("bitwise operation on symbolic integers")

        return g

    return f


EW["bitwise_and"] = _bitwise(T.and_, "and")
EW["bitwise_or"] = _bitwise(T.or_, "or")
EW["bitwise_not"] = _bitwise(T.not_, "not")
EW["bitwise_xor"] = _bitwise(S.lxor, "xor")
EW["__and__"] = EW["bitwise_and"]
EW["__or__"] = EW["bitwise_or"]

# positions that are tensor-or-scalar operands; everything else is a keyword-like option
EW_NARGS = {"round": 1, "nan_to_num": 1}


def _safe(func, args, kwargs, arrs=None):
    try:
        return func(*args, **kwargs)
    except Unsupported:
        raise
    except Exception:
        return None


# ----------------------------------------------------------------------------- movement ops

MOVE = {
    "clone", "cat", "stack", "index_select", "gather", "repeat", "flip", "roll", "constant_pad_nd",
    "tril", "triu", "diag_embed", "slice_scatter", "select_scatter", "as_strided_copy", "expand_copy",
    "view_copy", "permute_copy", "unfold_copy", "slice_copy", "select_copy", "squeeze_copy", "unsqueeze_copy",
    "transpose_copy", "t_copy", "take", "_unsafe_view", "_reshape_alias", "contiguous", "diag", "lift_fresh_copy",
    "diagonal_copy", "unsqueeze", "alias_copy", "detach_copy", "reflection_pad1d", "reflection_pad2d",
    "replication_pad2d", "replication_pad1d", "hstack", "vstack", "repeat_interleave", "diagonal_scatter", "narrow_copy",
    "rot90", "im2col", "pixel_shuffle", "combinations", "cartesian_prod", "block_diag", "_fused_dropout",
}
INPLACE_VIEW = {"squeeze_", "unsqueeze_", "t_", "transpose_", "swapaxes_", "swapdims_", "as_strided_", "detach_"}
NODATA = {
    "zeros_like", "ones_like", "empty_like", "full_like", "new_zeros", "new_ones", "new_empty", "new_full",
    "rand_like", "randn_like", "new_empty_strided", "sym_size", "size", "stride", "sym_stride", "sym_numel",
    "dim", "is_same_size", "_has_same_storage_numel", "storage_offset", "is_contiguous", "result_type", "numel", "resize_",
    "record_stream", "_version",
}


def _tree_map(fn, x):
    if isinstance(x, torch.Tensor):
        return fn(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_tree_map(fn, y) for y in x)
    return x


def _tensors(x, out):
    if isinstance(x, torch.Tensor):
        out.append(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            _tensors(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            _tensors(y, out)
    return out


def _cast_needed(src, dst_dtype):
    return src.dtype.is_floating_point and not dst_dtype.is_floating_point and dst_dtype != torch.bool


def write(dst, res):
    """dst[...] = res (broadcast, cast): carrier and ids."""
    ids = get_ids(res)
    if ids is not None and _cast_needed(res, dst.dtype):
        res = map_elements(S.trunc, [res], res.to(dst.dtype) if not bool(torch.isnan(res).any()) else torch.zeros(res.shape, dtype=dst.dtype))
        ids = get_ids(res)
    elif ids is not None and dst.dtype == torch.bool and res.dtype != torch.bool:
        res = map_elements(S.B, [res], torch.zeros(res.shape, dtype=torch.bool))
        ids = get_ids(res)
    if ids is not None:
        ids = ids.clone()  # dst and res may overlap
    dst.copy_(res)
    set_ids(dst, ids)
    return dst


def cast(t, dtype):
    if t.dtype == dtype:
        r = t.clone()
        set_ids(r, ids_or_zeros(t))
        return r
    r = torch.empty(t.shape, dtype=dtype)
    return write(r, t)


# ----------------------------------------------------------------------------- special handlers

H = {}


def handler(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f

    return deco


def _norm_dims(dim, nd):
    if dim is None:
        return tuple(range(nd))
    if isinstance(dim, int):
        dim = (dim,)
    dim = tuple(d % nd if nd else 0 for d in dim)
    return dim if dim else tuple(range(nd))


def reduce_obj(o, dim, keepdim, f):
    nd = o.ndim
    if nd == 0:
        return np.array(f([o[()]]), dtype=object)
    dims = _norm_dims(dim, nd)
    keep = [i for i in range(nd) if i not in dims]
    oshape = [o.shape[i] for i in keep]
    tr = np.transpose(o, keep + list(dims)).reshape([int(np.prod(oshape, dtype=int)) if oshape else 1, -1])
    out = np.empty(tr.shape[0], dtype=object)
    for i in range(tr.shape[0]):
        out[i] = f(list(tr[i]))
    if keepdim:
        sh = [1 if i in dims else o.shape[i] for i in range(nd)]
    else:
        sh = oshape
    return out.reshape(sh)


def _args(names, defaults, args, kwargs):
    r = dict(zip(names, defaults))
    for n, a in zip(names, args):
        r[n] = a
    for k, v in kwargs.items():
        if k in r:
            r[k] = v
    return [r[n] for n in names]


def _fdtype(t, dtype=None):
    if dtype is not None:
        return dtype
    return t.dtype


@handler("sum", "nansum")
def _(func, args, kwargs):
    ov = func._overloadname
    if ov in ("", "default"):
        x, = args[:1]
        dim, keep = None, False
    else:
        x, dim, keep = _args(["x", "dim", "keepdim"], [None, None, False], args, kwargs)
    dt = kwargs.get("dtype") or (x.dtype if x.dtype.is_floating_point else torch.int64)
    return from_obj(reduce_obj(to_obj(x), dim, keep, S.summ), dt)


@handler("mean")
def _(func, args, kwargs):
    if func._overloadname in ("", "default"):
        x, dim, keep = args[0], None, False
    else:
        x, dim, keep = _args(["x", "dim", "keepdim"], [None, None, False], args, kwargs)
    return from_obj(reduce_obj(to_obj(x), dim, keep, lambda v: S.div(S.summ(v), T.const(len(v))) if v else S.NAN), kwargs.get("dtype") or x.dtype)


@handler("prod")
def _(func, args, kwargs):
    if func._overloadname in ("", "default"):
        x, dim, keep = args[0], None, False
    else:
        x, dim, keep = _args(["x", "dim", "keepdim"], [None, None, False], args, kwargs)

    def f(v):
        r = T.ONE
        for y in v:
            r = S.mul(r, y)
        return r

    return from_obj(reduce_obj(to_obj(x), dim, keep, f), kwargs.get("dtype") or (x.dtype if x.dtype.is_floating_point else torch.int64))


@handler("var", "std")
def _(func, args, kwargs):
    x = args[0]
    dim = args[1] if len(args) > 1 else kwargs.get("dim")
    corr = kwargs.get("correction", 1)
    if corr is None:
        corr = 1
    keep = kwargs.get("keepdim", False)
    name = func._schema.name.split("::")[1]

    def f(v):
        m = S.div(S.summ(v), T.const(len(v)))
        r = S.div(S.summ([S.mul(S.sub(a, m), S.sub(a, m)) for a in v]), T.const(len(v) - corr))
        return S.sqrt(r) if name == "std" else r

    return from_obj(reduce_obj(to_obj(x), dim, keep, f), x.dtype)


@handler("linalg_vector_norm", "norm")
def _(func, args, kwargs):
    if func._schema.name == "aten::norm":
        if func._overloadname == "Scalar":
            x, p = _args(["x", "p"], [None, 2], args, kwargs)
            dim, keep = None, False
        else:
            x, p, dim, keep = _args(["x", "p", "dim", "keepdim"], [None, 2, None, False], args, kwargs)
        p = 2 if p is None else p
    else:
        x, p, dim, keep = _args(["x", "ord", "dim", "keepdim"], [None, 2, None, False], args, kwargs)

    def f(v):
        if p == 2:
            return S.sqrt(S.summ([S.mul(a, a) for a in v]))
        if p == 1:
            return S.summ([S.absv(a) for a in v])
        if p == math.inf:
            r = S.absv(v[0])
            for a in v[1:]:
                r = S.maximum(r, S.absv(a))
            return r
        raise Unsupported("norm order %s" % p)

    return from_obj(reduce_obj(to_obj(x), dim, keep, f), kwargs.get("dtype") or x.dtype)


def _fold(f):
    def g(v):
        if not v:
            raise IndexError("reduction over an empty dimension")
        r = v[0]
        for a in v[1:]:
            r = f(r, a)
        return r

    return g


@handler("amax", "amin")
def _(func, args, kwargs):
    x, dim, keep = _args(["x", "dim", "keepdim"], [None, None, False], args, kwargs)
    f = S.maximum if func._schema.name.endswith("amax") else S.minimum
    return from_obj(reduce_obj(to_obj(x), dim, keep, _fold(f)), x.dtype)


def _argbest(v, gt):
    """Index term of the first best element (torch returns the first of equals on CPU)."""
    n = len(v)
    for a in range(n):
        if S.special(S.R(v[a])) and math.isnan(v[a]):
            return T.const(a)
    r = T.const(n - 1)
    for i in range(n - 2, -1, -1):
        c = T.and_(*([gt(v[i], v[j], False) for j in range(i + 1, n)] + [gt(v[i], v[j], True) for j in range(i)]))
        r = T.ite(c, T.const(i), r)
    return r


def _gt(a, b, strict):
    return S.gt(a, b) if strict else S.ge(a, b)


def _lt(a, b, strict):
    return S.lt(a, b) if strict else S.le(a, b)


@handler("max", "min", "argmax", "argmin")
def _(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    ismax = name.endswith("max")
    f = S.maximum if ismax else S.minimum
    cmp = _gt if ismax else _lt
    x = args[0]
    o = to_obj(x)
    if x.dtype == torch.bool:
        f = S.lor if ismax else S.land
        cmp = (lambda a, b, st: _gt(S.R(a), S.R(b), st)) if ismax else (lambda a, b, st: _lt(S.R(a), S.R(b), st))
    if name in ("max", "min"):
        if func._overloadname in ("", "default", "unary_out"):
            return from_obj(reduce_obj(o, None, False, _fold(f)), x.dtype)
        if func._overloadname == "other":
            return map_elements(f, list(args[:2]), func(*args))
        _, dim, keep = _args(["x", "dim", "keepdim"], [None, None, False], args, kwargs)
        vals = reduce_obj(o, dim, keep, _fold(f))
        idx = reduce_obj(o, dim, keep, lambda v: _argbest(v, cmp))
        like = func(*args, **kwargs)
        return type(like)((from_obj(vals, x.dtype), from_obj(idx, torch.int64)))
    _, dim, keep = _args(["x", "dim", "keepdim"], [None, None, False], args, kwargs)
    return from_obj(reduce_obj(o, dim, keep, lambda v: _argbest(v, cmp)), torch.int64)


@handler("aminmax")
def _(func, args, kwargs):
    dim, keep = kwargs.get("dim"), kwargs.get("keepdim", False)
    x = args[0]
    o = to_obj(x)
    return (from_obj(reduce_obj(o, dim, keep, _fold(S.minimum)), x.dtype), from_obj(reduce_obj(o, dim, keep, _fold(S.maximum)), x.dtype))


@handler("any", "all")
def _(func, args, kwargs):
    x, dim, keep = _args(["x", "dim", "keepdim"], [None, None, False], args, kwargs)
    f = T.or_ if func._schema.name.endswith("any") else T.and_
    return from_obj(reduce_obj(to_obj(x), dim, keep, lambda v: f(*[S.B(a) for a in v])), torch.bool)


@handler("count_nonzero")
def _(func, args, kwargs):
    x, dim = _args(["x", "dim"], [None, None], args, kwargs)
    return from_obj(reduce_obj(to_obj(x), dim, False, lambda v: S.summ([S.R(S.B(a)) for a in v])), torch.int64)


@handler("cumsum", "cumprod")
def _(func, args, kwargs):
    x, dim = args[0], args[1] if len(args) > 1 else kwargs["dim"]
    f = S.add if "sum" in func._schema.name else S.mul
    o = to_obj(x)
    if o.ndim == 0:
        return from_obj(o, x.dtype)
    o = np.moveaxis(o, dim, 0).copy()
    for i in range(1, o.shape[0]):
        for k in np.ndindex(*o.shape[1:]):
            o[(i,) + k] = f(o[(i - 1,) + k], o[(i,) + k])
    dt = kwargs.get("dtype") or (x.dtype if x.dtype.is_floating_point else torch.int64)
    return from_obj(np.moveaxis(o, 0, dim), dt)


def _sort_list(v, descending):
    """Stable insertion sort; comparisons fork. Returns permutation."""
    order = []
    for i in range(len(v)):
        p = len(order)
        while p > 0:
            a, b = v[order[p - 1]], v[i]
            c = S.lt(a, b) if descending else S.gt(a, b)
            if S.decide(S.B(c)):
                p -= 1
            else:
                break
        order.insert(p, i)
    return order


@handler("sort", "argsort", "topk", "msort")
def _(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    x = args[0]
    if name == "topk":
        raise Unsupported("topk")
    if func._overloadname in ("stable", "stable_"):
        dim = kwargs.get("dim", -1)
        desc = kwargs.get("descending", False)
        if len(args) > 2:
            dim = args[2]
    else:
        _, dim, desc = _args(["x", "dim", "descending"], [None, -1, False], args, kwargs)
    o = to_obj(x)
    if o.ndim == 0:
        vals, idx = o, np.zeros((), dtype=object)
    else:
        om = np.moveaxis(o, dim, -1)
        vals = om.copy()
        idx = np.empty(om.shape, dtype=object)
        for k in np.ndindex(*om.shape[:-1]):
            perm = _sort_list(list(om[k]), desc)
            for j, p in enumerate(perm):
                vals[k + (j,)] = om[k + (p,)]
                idx[k + (j,)] = T.const(p)
        vals, idx = np.moveaxis(vals, -1, dim), np.moveaxis(idx, -1, dim)
    ti = from_obj(idx, torch.int64)
    if name == "argsort":
        return ti
    tv = from_obj(vals, x.dtype)
    if name == "msort":
        return tv
    return torch.return_types.sort((tv, ti))


@handler("_unique2", "unique_dim", "_unique", "unique_consecutive")
def _(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    if name != "_unique2":
        raise Unsupported(name)
    x, srt, inv, cnt = _args(["x", "sorted", "return_inverse", "return_counts"], [None, True, False, False], args, kwargs)
    flat = list(to_obj(x).reshape(-1))
    perm = _sort_list(flat, False)
    vals, inverse, counts = [], [0] * len(flat), []
    for p in perm:
        if vals and S.decide(S.B(S.eq(vals[-1], flat[p]))):
            counts[-1] += 1
        else:
            vals.append(flat[p])
            counts.append(1)
        inverse[p] = len(vals) - 1
    return (
        from_obj(np.array(vals + [None], dtype=object)[:-1], x.dtype),
        torch.tensor(inverse, dtype=torch.int64).reshape(x.shape),
        torch.tensor(counts, dtype=torch.int64),
    )


@handler("bucketize", "searchsorted")
def _(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    right = kwargs.get("right", False) or kwargs.get("side") == "right"
    out32 = kwargs.get("out_int32", False)
    if name == "bucketize":
        x, bd = args[0], args[1]
    else:
        bd, x = args[0], args[1]
    xs = to_obj(x) if isinstance(x, torch.Tensor) else np.array(S.V(x), dtype=object)
    bs = to_obj(bd)
    f = S.ge if right else S.gt
    out = np.empty(xs.shape, dtype=object)
    for k in np.ndindex(*xs.shape):
        row = bs if bs.ndim == 1 else bs[k[:-1]]
        if S.special(S.R(xs[k])) and math.isnan(xs[k]):
            out[k] = T.const(len(row))
        else:
            # searchsorted counts the boundaries below x (boundaries are sorted)
            out[k] = S.summ([S.R(f(xs[k], b)) for b in row])
    return from_obj(out, torch.int32 if out32 else torch.int64)


# ---- linear algebra


def _mm(a, b):
    n, k = a.shape
    m = b.shape[1]
    out = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            out[i, j] = S.dot(list(a[i]), list(b[:, j]))
    return out


@handler("mm")
def _(func, args, kwargs):
    return from_obj(_mm(to_obj(args[0]), to_obj(args[1])), args[0].dtype)


@handler("bmm")
def _(func, args, kwargs):
    a, b = to_obj(args[0]), to_obj(args[1])
    out = np.empty((a.shape[0], a.shape[1], b.shape[2]), dtype=object)
    for i in range(a.shape[0]):
        out[i] = _mm(a[i], b[i])
    return from_obj(out, args[0].dtype)


@handler("mv")
def _(func, args, kwargs):
    a, b = to_obj(args[0]), to_obj(args[1])
    return from_obj(_mm(a, b[:, None])[:, 0], args[0].dtype)


@handler("dot", "vdot")
def _(func, args, kwargs):
    return from_obj(np.array(S.dot(list(to_obj(args[0])), list(to_obj(args[1]))), dtype=object), args[0].dtype)


def _ew2(f, a, b):
    a, b = np.broadcast_arrays(a, b)
    out = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape):
        out[k] = f(a[k], b[k])
    return out


@handler("addmm", "baddbmm", "addmv")
def _(func, args, kwargs):
    be, al = S.V(kwargs.get("beta", 1)), S.V(kwargs.get("alpha", 1))
    c, a, b = (to_obj(x) for x in args[:3])
    if b.ndim == 1:
        p = _mm(a, b[:, None])[:, 0]
    elif b.ndim == 2:
        p = _mm(a, b)
    else:
        p = np.stack([_mm(x, y) for x, y in zip(a, b)])
    r = _ew2(lambda u, v: S.add(S.mul(be, u), S.mul(al, v)), np.broadcast_to(c, p.shape), p)
    return from_obj(r, args[1].dtype)


@handler("linalg_cross", "cross")
def _(func, args, kwargs):
    d = kwargs.get("dim", args[2] if len(args) > 2 else None)
    d = -1 if d is None and func._schema.name.endswith("linalg_cross") else d
    a, b = np.broadcast_arrays(to_obj(args[0]), to_obj(args[1]))
    if d is None:
        d = next(i for i, s in enumerate(a.shape) if s == 3)
    a, b = np.moveaxis(a, d, -1), np.moveaxis(b, d, -1)
    out = np.empty(a.shape, dtype=object)
    for k in np.ndindex(*a.shape[:-1]):
        x, y = a[k], b[k]
        out[k + (0,)] = S.sub(S.mul(x[1], y[2]), S.mul(x[2], y[1]))
        out[k + (1,)] = S.sub(S.mul(x[2], y[0]), S.mul(x[0], y[2]))
        out[k + (2,)] = S.sub(S.mul(x[0], y[1]), S.mul(x[1], y[0]))
    return from_obj(np.moveaxis(out, -1, d), args[0].dtype)


def det_obj(m):
    n = m.shape[0]
    if n == 0:
        return T.ONE
    if n == 1:
        return m[0, 0]
    if n == 2:
        return S.sub(S.mul(m[0, 0], m[1, 1]), S.mul(m[0, 1], m[1, 0]))
    terms = []
    for j in range(n):
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = S.mul(m[0, j], det_obj(minor))
        terms.append(t if j % 2 == 0 else S.neg(t))
    return S.summ(terms)


def adj_obj(m):
    n = m.shape[0]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            c = det_obj(np.delete(np.delete(m, j, 0), i, 1))
            out[i, j] = c if (i + j) % 2 == 0 else S.neg(c)
    return out


def _batched(o, nd, f, oshape):
    b = o.shape[: o.ndim - nd]
    out = np.empty(b + oshape, dtype=object)
    for k in np.ndindex(*b):
        out[k] = f(o[k])
    return out


@handler("_linalg_det", "linalg_det", "det")
def _(func, args, kwargs):
    o = to_obj(args[0])
    r = from_obj(_batched(o, 2, det_obj, ()), args[0].dtype)
    if func._schema.name.endswith("::_linalg_det"):
        lu = torch.full(args[0].shape, float("nan"), dtype=args[0].dtype)
        return (r, lu, torch.zeros(args[0].shape[:-1], dtype=torch.int32))
    return r


def _inv(m):
    d = det_obj(m)
    if isinstance(d, T.Term) and S.decide(T.eq0(d)):
        return None
    ad = adj_obj(m)
    out = np.empty(m.shape, dtype=object)
    for k in np.ndindex(*m.shape):
        out[k] = S.div(ad[k], d)
    return out


@handler("linalg_inv_ex")
def _(func, args, kwargs):
    o = to_obj(args[0])
    b = o.shape[:-2]
    out = np.empty(o.shape, dtype=object)
    info = np.zeros(b, dtype=np.int32)
    for k in np.ndindex(*b):
        r = _inv(o[k])
        if r is None:
            info[k] = o.shape[-1]
            out[k] = S.NAN
        else:
            out[k] = r
    return torch.return_types.linalg_inv_ex((from_obj(out, args[0].dtype), torch.as_tensor(info)))


@handler("inverse")
def _(func, args, kwargs):
    o = to_obj(args[0])
    out = np.empty(o.shape, dtype=object)
    for k in np.ndindex(*o.shape[:-2]):
        r = _inv(o[k])
        if r is None:
            raise torch.linalg.LinAlgError("singular")
        out[k] = r
    return from_obj(out, args[0].dtype)


@handler("_linalg_solve_ex")
def _(func, args, kwargs):
    a, b = to_obj(args[0]), to_obj(args[1])
    left = kwargs.get("left", True)
    if not left:
        raise Unsupported("solve from the right")
    vec = b.ndim == a.ndim - 1
    if vec:
        b = b[..., None]
    bb = a.shape[:-2]
    b = np.broadcast_to(b, bb + b.shape[-2:])
    out = np.empty(b.shape, dtype=object)
    info = np.zeros(bb, dtype=np.int32)
    for k in np.ndindex(*bb):
        r = _inv(a[k])
        if r is None:
            info[k] = 1
            out[k] = S.NAN
        else:
            out[k] = _mm(r, b[k])
    if vec:
        out = out[..., 0]
    lu = torch.full(args[0].shape, float("nan"), dtype=args[0].dtype)
    return (from_obj(out, args[0].dtype), lu, torch.zeros(args[0].shape[:-1], dtype=torch.int32), torch.as_tensor(info))


def chol_obj(m):
    n = m.shape[0]
    L = np.empty((n, n), dtype=object)
    L[...] = T.ZERO
    for j in range(n):
        d = S.sub(m[j, j], S.summ([S.mul(L[j, k], L[j, k]) for k in range(j)]))
        if S.special(d) or S.decide(T.le0(d)):
            return None, j + 1
        L[j, j] = S.sqrt(d)
        for i in range(j + 1, n):
            L[i, j] = S.div(S.sub(m[i, j], S.summ([S.mul(L[i, k], L[j, k]) for k in range(j)])), L[j, j])
    return L, 0


@handler("linalg_cholesky_ex")
def _(func, args, kwargs):
    o = to_obj(args[0])
    upper = kwargs.get("upper", False)
    out = np.empty(o.shape, dtype=object)
    info = np.zeros(o.shape[:-2], dtype=np.int32)
    for k in np.ndindex(*o.shape[:-2]):
        m = o[k]
        L, i = chol_obj(m.T if upper else m)
        if L is None:
            info[k] = i
            out[k] = S.NAN
        else:
            out[k] = L.T if upper else L
    return torch.return_types.linalg_cholesky_ex((from_obj(out, args[0].dtype), torch.as_tensor(info)))


@handler("_linalg_eigh")
def _(func, args, kwargs):
    """Eigenvalues of symmetric 3x3 matrices, as functions of the characteristic polynomial."""
    o = to_obj(args[0])
    compute_v = kwargs.get("compute_v", args[2] if len(args) > 2 else True)
    n = o.shape[-1]
    out = np.empty(o.shape[:-1], dtype=object)
    for k in np.ndindex(*o.shape[:-2]):
        m = o[k]
        for i in range(n):
            for j in range(i):
                m = m.copy()
                m[j, i] = m[i, j]  # the lower triangle is the one that is read
        for i, v in enumerate(eig_terms(m)):
            out[k + (i,)] = v
    # eigenvectors are not encoded: using one is undefined, which no obligation survives
    vec = torch.full(args[0].shape if compute_v else (0,), float("nan"), dtype=args[0].dtype)
    return torch.return_types.linalg_eigh((from_obj(out, args[0].dtype), vec))


def eig_terms(m):
    """Ascending eigenvalue terms constrained by trace, second invariant and determinant."""
    if m.shape[0] != 3:
        raise Unsupported("eigenvalues of a %d x %d matrix" % m.shape)
    tr = S.summ([m[i, i] for i in range(3)])
    c1 = S.summ([S.sub(S.mul(m[i, i], m[j, j]), S.mul(m[i, j], m[j, i])) for i, j in ((0, 1), (0, 2), (1, 2))])
    d = det_obj(m)
    ls = [T.fun("eig%d" % i, tr, c1, d) for i in range(3)]
    ex = S.STATE.explorer
    l0, l1, l2 = ls
    for c in (
        T.eq(S.summ(ls), tr),
        T.eq(S.summ([T.mul(l0, l1), T.mul(l0, l2), T.mul(l1, l2)]), c1),
        T.eq(T.mul(l0, l1, l2), d),
        T.le(l0, l1),
        T.le(l1, l2),
    ):
        ex.learn(c, "eig")
    return ls


def _eig_eval(i):
    def f(tr, c1, d):
        r = sorted(np.roots([1.0, -tr, c1, -d]).real)
        return float(r[i])

    return f


for _i in range(3):
    T.register_function("eig%d" % _i, _eig_eval(_i))


@handler("linalg_eigvalsh")
def _(func, args, kwargs):
    o = to_obj(args[0])
    out = np.empty(o.shape[:-1], dtype=object)
    for k in np.ndindex(*o.shape[:-2]):
        for i, v in enumerate(eig_terms(o[k])):
            out[k + (i,)] = v
    return from_obj(out, args[0].dtype)


@handler("convolution")
def _(func, args, kwargs):
    x, w, bias, stride, padding, dilation, transposed, outpad, groups = _args(
        ["x", "w", "b", "stride", "padding", "dilation", "transposed", "output_padding", "groups"], [None] * 9, args, kwargs
    )
    if transposed or groups != 1 or any(d != 1 for d in dilation):
        raise Unsupported("this convolution")
    X, W = to_obj(x), to_obj(w)
    nd = X.ndim - 2
    if nd == 1:
        X, W = X[:, :, None, :], W[:, :, None, :]
        stride, padding = [1] + list(stride), [0] + list(padding)
    N, C, Hh, Ww = X.shape
    O, _, kh, kw = W.shape
    ph, pw = padding
    sh, sw = stride
    oh, ow = (Hh + 2 * ph - kh) // sh + 1, (Ww + 2 * pw - kw) // sw + 1
    out = np.empty((N, O, oh, ow), dtype=object)
    for n, o, i, j in itertools.product(range(N), range(O), range(oh), range(ow)):
        us, vs = [], []
        for c, a, b in itertools.product(range(C), range(kh), range(kw)):
            y, z = i * sh + a - ph, j * sw + b - pw
            if 0 <= y < Hh and 0 <= z < Ww:
                us.append(X[n, c, y, z])
                vs.append(W[o, c, a, b])
        out[n, o, i, j] = S.dot(us, vs)
    if bias is not None:
        B = to_obj(bias)
        for o in range(O):
            for k in np.ndindex(N, oh, ow):
                out[(k[0], o) + k[1:]] = S.add(out[(k[0], o) + k[1:]], B[o])
    if nd == 1:
        out = out[:, :, 0, :]
    return from_obj(out, x.dtype)


# ---- indexing


@handler("index", "_unsafe_index")
def _(func, args, kwargs):
    x, idx = args[0], args[1]
    idx = [concretize(i) if i is not None else None for i in idx]
    out = func(x, idx)
    xi = get_ids(x)
    if xi is not None:
        set_ids(out, func(xi, idx))
    return out


@handler("index_put", "_unsafe_index_put", "_index_put_impl")
def _(func, args, kwargs):
    x, idx, v = args[0], list(args[1]), args[2]
    acc = args[3] if len(args) > 3 else kwargs.get("accumulate", False)
    sym = [i for i in idx if i is not None and get_ids(i) is not None]
    if sym and len(idx) == 1 and idx[0].dtype == torch.bool and v.numel() == 1 and not acc:
        m = idx[0]
        while m.dim() < x.dim():
            m2 = m.unsqueeze(-1)
            m = m2
        return where_t(m, v.reshape(()), x, x.dtype)
    idx = [concretize(i) if i is not None else None for i in idx]
    out = cast(x, x.dtype)
    if not acc:
        vv = cast(v, x.dtype)
        out.index_put_(idx, vv)
        ids = ids_or_zeros(x).clone()
        ids.index_put_(idx, ids_or_zeros(vv))
        set_ids(out, ids)
        return out
    # accumulate: explicit additions in index order
    pos = torch.arange(x.numel()).reshape(x.shape)[tuple(slice(None) if i is None else i for i in idx)]
    V = np.broadcast_to(to_obj(v), tuple(pos.shape))
    o = to_obj(x).reshape(-1).copy()
    for p, val in zip(pos.reshape(-1).tolist(), V.reshape(-1)):
        o[p] = S.add(o[p], val)
    return from_obj(o.reshape(tuple(x.shape)), x.dtype)


@handler("scatter_add", "scatter_reduce", "scatter", "index_add", "index_copy", "index_fill")
def _(func, args, kwargs):
    name = func._schema.name.split("::")[1]
    x, dim, idx = args[0], args[1], concretize(args[2])
    src = args[3]
    red = kwargs.get("reduce", args[4] if len(args) > 4 and isinstance(args[4], str) else None)
    o = to_obj(x).copy()
    if name in ("index_add", "index_copy", "index_fill"):
        om = np.moveaxis(o, dim, 0)
        s = np.moveaxis(to_obj(src), dim, 0) if isinstance(src, torch.Tensor) and src.dim() else None
        al = S.V(kwargs.get("alpha", 1))
        for n, i in enumerate(idx.reshape(-1).tolist()):
            for k in np.ndindex(*om.shape[1:]):
                sv = s[(n,) + k] if s is not None else (to_obj(src)[()] if isinstance(src, torch.Tensor) else S.V(src))
                om[(i,) + k] = S.add(om[(i,) + k], S.mul(al, sv)) if name == "index_add" else sv
        return from_obj(o, x.dtype)
    s = to_obj(src) if isinstance(src, torch.Tensor) else None
    ii = idx.numpy() if not torch.is_tensor(idx) else np.array(idx.tolist(), dtype=int).reshape(tuple(idx.shape))
    for k in np.ndindex(*ii.shape):
        kk = list(k)
        kk[dim % o.ndim if o.ndim else 0] = int(ii[k])
        kk = tuple(kk)
        sv = s[k] if s is not None else S.V(src)
        if name == "scatter_add" or red in ("add", "sum"):
            o[kk] = S.add(o[kk], sv)
        elif name == "scatter" and red is None:
            o[kk] = sv
        else:
            raise Unsupported("scatter with reduce=%s" % red)
    return from_obj(o, x.dtype)


@handler("nonzero", "argwhere")
def _(func, args, kwargs):
    x = args[0]
    if x.dtype != torch.bool:
        x = map_elements(S.B, [x], torch.zeros(x.shape, dtype=torch.bool) | (x != 0))
    return func(concretize(x))


@handler("masked_select")
def _(func, args, kwargs):
    x, m = args
    m = concretize(m)
    out = func(x, m)
    if get_ids(x) is not None:
        set_ids(out, func(get_ids(x), m))
    return out


def where_t(c, a, b, dtype=None):
    if dtype is None:
        dtype = torch.result_type(a, b)
    shape = torch.broadcast_shapes(c.shape, a.shape, b.shape)
    if get_ids(c) is None:
        out = torch.where(c, cast(a, dtype), cast(b, dtype))
        set_ids(out, torch.where(c, ids_or_zeros(a), ids_or_zeros(b)))
        return out
    out = torch.zeros(shape, dtype=dtype)
    base = torch.where(c, a.to(dtype), b.to(dtype))
    out = map_elements(S.where, [c, a, b], base)
    return out


@handler("where")
def _(func, args, kwargs):
    if len(args) == 1:
        raise Unsupported("where(cond)")
    c, a, b = args
    if c.dtype != torch.bool:
        c = map_elements(S.B, [c], c != 0)
    a = a if isinstance(a, torch.Tensor) else torch.tensor(a)
    b = b if isinstance(b, torch.Tensor) else torch.tensor(b)
    return where_t(c, a, b)


@handler("masked_fill")
def _(func, args, kwargs):
    x, m, v = args
    v = v if isinstance(v, torch.Tensor) else torch.tensor(v, dtype=x.dtype if x.dtype.is_floating_point else None)
    return where_t(m, v, x, x.dtype)


@handler("masked_scatter")
def _(func, args, kwargs):
    x, m, src = args
    m = concretize(m)
    out = func(x, m, src)
    set_ids(out, func(ids_or_zeros(x), m, ids_or_zeros(src)))
    return out


@handler("copy")
def _(func, args, kwargs):
    x, src = args[0], args[1]
    out = torch.empty(x.shape, dtype=x.dtype)
    return write(out, src.broadcast_to(x.shape))


@handler("fill")
def _(func, args, kwargs):
    x, v = args
    v = v if isinstance(v, torch.Tensor) else torch.tensor(v)
    out = torch.empty(x.shape, dtype=x.dtype)
    return write(out, v.broadcast_to(x.shape))


@handler("zero")
def _(func, args, kwargs):
    return torch.zeros(args[0].shape, dtype=args[0].dtype)


@handler("_to_copy")
def _(func, args, kwargs):
    x = args[0]
    return cast(x, kwargs.get("dtype") or x.dtype)


@handler("_local_scalar_dense", "item")
def _(func, args, kwargs):
    x = args[0]
    v = to_obj(x).reshape(-1)[0]
    if isinstance(v, float):
        return v
    if x.dtype == torch.bool:
        return S.decide(v)
    if v.op == "c":
        return float(v.data) if x.dtype.is_floating_point else int(v.data)
    if not x.dtype.is_floating_point or v.isint:
        k = S.STATE.explorer.concretize_int(v)
        return float(k) if x.dtype.is_floating_point else k
    raise Unsupported("a symbolic real reaches code that needs a machine number")


@handler("is_nonzero")
def _(func, args, kwargs):
    return S.decide(S.B(to_obj(args[0]).reshape(-1)[0]))


@handler("equal")
def _(func, args, kwargs):
    a, b = args
    if a.shape != b.shape:
        return False
    return S.decide(T.and_(*[S.B(S.eq(x, y)) for x, y in zip(to_obj(a).reshape(-1), to_obj(b).reshape(-1))]))


@handler("isclose")
def _(func, args, kwargs):
    rtol = S.V(kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5))
    atol = S.V(kwargs.get("atol", args[3] if len(args) > 3 else 1e-8))

    def f(a, b):
        return S.le(S.absv(S.sub(a, b)), S.add(atol, S.mul(rtol, S.absv(b))))

    return map_elements(f, list(args[:2]), func(*args, **kwargs))


@handler("allclose")
def _(func, args, kwargs):
    rtol = S.V(kwargs.get("rtol", args[2] if len(args) > 2 else 1e-5))
    atol = S.V(kwargs.get("atol", args[3] if len(args) > 3 else 1e-8))
    a, b = np.broadcast_arrays(to_obj(args[0]), to_obj(args[1]))
    cs = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        cs.append(S.le(S.absv(S.sub(x, y)), S.add(atol, S.mul(rtol, S.absv(y)))))
    return all(S.decide(c) for c in cs)


@handler("histc", "bincount")
def _(func, args, kwargs):
    if func._schema.name.endswith("bincount"):
        x = concretize(args[0])
        w = args[1] if len(args) > 1 else kwargs.get("weights")
        ml = kwargs.get("minlength", args[2] if len(args) > 2 else 0)
        n = max(int(x.max()) + 1 if x.numel() else 0, ml)
        o = np.empty(n, dtype=object)
        o[...] = T.ZERO
        W = to_obj(w) if w is not None else None
        for k, i in enumerate(x.tolist()):
            o[i] = S.add(o[i], W[k] if W is not None else T.ONE)
        return from_obj(o, w.dtype if w is not None else torch.int64)
    raise Unsupported("histc")


@handler("trace")
def _(func, args, kwargs):
    o = to_obj(args[0])
    return from_obj(np.array(S.summ([o[i, i] for i in range(min(o.shape))]), dtype=object), args[0].dtype)


@handler("logsumexp", "softmax", "_softmax")
def _(func, args, kwargs):
    raise Unsupported(func._schema.name)


@handler("bernoulli", "multinomial")
def _(func, args, kwargs):
    raise Unsupported(func._schema.name)


@handler("linspace")
def _(func, args, kwargs):
    start, end, steps = args[:3]
    a = to_obj(start)[()] if isinstance(start, torch.Tensor) else S.V(start)
    b = to_obj(end)[()] if isinstance(end, torch.Tensor) else S.V(end)
    return linspace_t(a, b, steps, kwargs.get("dtype") or torch.get_default_dtype())


def linspace_t(a, b, steps, dtype):
    o = np.empty(steps, dtype=object)
    for i in range(steps):
        if steps == 1:
            o[i] = a
        else:
            o[i] = S.add(a, S.mul(S.div(S.sub(b, a), T.const(steps - 1)), T.const(i)))
    return from_obj(o, dtype)


@handler("repeat_interleave_sym")
def _(func, args, kwargs):
    raise Unsupported("repeat_interleave by symbolic counts")


# ----------------------------------------------------------------------------- the modes


def _base(name):
    return name[:-1] if name.endswith("_") and not name.startswith("__") else name


def dispatch(func, args, kwargs):
    """Functional or in-place operator with at least one symbolic argument. (internal)"""
    schema = func._schema
    name = schema.name.split("::")[1]
    ST.ops[name] = ST.ops.get(name, 0) + 1
    rets = schema.returns
    # views share storage: nothing to compute
    if rets and all(r.alias_info is not None and not r.alias_info.is_write for r in rets):
        return func(*args, **kwargs)
    if name in NODATA or name in INPLACE_VIEW:
        return func(*args, **kwargs)
    # in-place and out= variants
    inplace = bool(schema.arguments) and schema.arguments[0].alias_info is not None and schema.arguments[0].alias_info.is_write
    outs = [a.name for a in schema.arguments if a.kwarg_only and a.alias_info is not None and a.alias_info.is_write]
    if inplace:
        base = _base(name)
        dst = args[0]
        fn = functional(base, func)
        res = compute(base, fn, args, kwargs)
        write(dst, res if res.shape == dst.shape else res.broadcast_to(dst.shape))
        return dst
    if outs:
        kw = {k: v for k, v in kwargs.items() if k not in outs}
        tgt = [kwargs[k] for k in outs]
        fn = functional(name, func)
        res = compute(name, fn, args, kw)
        res = res if isinstance(res, (tuple, list)) else (res,)
        for d, r in zip(tgt, res):
            if d.shape != r.shape:
                d.resize_(r.shape)
            write(d, r)
        return tgt[0] if len(tgt) == 1 else tuple(tgt)
    return compute(name, func, args, kwargs)


def functional(base, func):
    pk = getattr(aten, base, None)
    if pk is None:
        raise Unsupported("no functional form of %s" % func)
    ov = func._overloadname
    for cand in (ov.replace("_out", ""), ov, ov.replace("out", ""), "default", "Tensor", "dim", "Tensor_Tensor"):
        cand = cand if cand else "default"
        if cand in pk.overloads():
            f = getattr(pk, cand)
            if "Tensor" not in str(f._schema.arguments[0].type):
                continue
            if not any(a.kwarg_only and a.alias_info is not None and a.alias_info.is_write for a in f._schema.arguments):
                return f
    return pk


class _Pk:
    pass


def compute(name, func, args, kwargs):
    if name in EW:
        fn = EW[name](args, kwargs)
        n = EW_NARGS.get(name)
        ops = list(args[:n]) if n else list(args)
        if name == "clamp":
            # keyword bounds
            lo = kwargs.get("min", args[1] if len(args) > 1 else None)
            hi = kwargs.get("max", args[2] if len(args) > 2 else None)
            x = args[0]
            out = func(*args, **kwargs)
            if lo is not None and hi is not None:
                return map_elements(lambda a, b, c: _clamp(a, b, c), [x, lo, hi], out)
            if lo is not None:
                return map_elements(lambda a, b: _clamp(a, b), [x, lo], out)
            return map_elements(lambda a, c: _clamp(a, None, c), [x, hi], out)
        out = func(*args, **kwargs)
        if name == "pow" and not out.dtype.is_floating_point:
            pass
        return map_elements(fn, ops, out)
    h = H.get(name)
    if h is not None:
        return h(_FuncView(func, name), args, kwargs) if not hasattr(func, "_schema") else h(func, args, kwargs)
    if name in MOVE:
        out = func(*args, **kwargs)
        args2 = _tree_map(_ids_arg, args)
        # index arguments keep their (concrete) values
        args2 = _keep_indices(name, args, args2)
        ids = func(*args2, **kwargs)
        set_ids(out, ids)
        return out
    raise NoHandler("operator %s on symbolic data" % name)


class NoHandler(Unsupported):
    pass


class _FuncView:
    """Overload packet dressed up as an overload (name and overload name only)."""

    def __init__(self, pk, name):
        self._pk = pk
        self._overloadname = "default"
        self._schema = type("Sch", (), {"name": "aten::" + name})()

    def __call__(self, *a, **k):
        return self._pk(*a, **k)


def _ids_arg(t):
    return ids_or_zeros(t)


INDEX_ARG = {"index_select": [2], "gather": [2], "take": [1], "repeat_interleave": [1]}


def _keep_indices(name, args, args2):
    pos = INDEX_ARG.get(name)
    if not pos:
        return args2
    args2 = list(args2)
    for p in pos:
        if p < len(args):
            args2[p] = args[p]
    return tuple(args2)


class SymDispatch(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if ST.internal:
            return func(*args, **kwargs)
        ts = _tensors(args, [])
        if kwargs:
            _tensors(kwargs, ts)
        ST.internal += 1
        try:
            sym = False
            for t in ts:
                if get_ids(t) is not None:
                    sym = True
                    break
            if not sym:
                return func(*args, **kwargs)
            name = func._schema.name.split("::")[1]
            pos = INDEX_ARG.get(name)
            if pos:
                args = list(args)
                for p in pos:
                    if p < len(args) and isinstance(args[p], torch.Tensor):
                        args[p] = concretize(args[p])
                args = tuple(args)
            try:
                return dispatch(func, args, kwargs)
            except NoHandler as e:
                err = e
        finally:
            ST.internal -= 1
        return self.decomposed(func, args, kwargs, err)

    def decomposed(self, func, args, kwargs, err):
        """Operators without semantics here: use torch's own definition in simpler ones."""
        with self:
            try:
                r = func.decompose(*args, **kwargs)
            except Exception as e:
                if isinstance(e, Unsupported):
                    raise
                r = NotImplemented
            if r is not NotImplemented:
                return r
            from torch._decomp import decomposition_table

            d = decomposition_table.get(func)
            if d is None:
                raise Unsupported(str(err))
            return d(*args, **kwargs)


# ----------------------------------------------------------------------------- Python boundary


def tensor_value(t):
    """SymReal/SymBool/number of a one-element tensor."""
    ST.internal += 1
    try:
        if get_ids(t) is None:
            return t.detach().reshape(-1).tolist()[0] if t.numel() == 1 else t.item()
        if t.numel() != 1:
            raise RuntimeError("a Tensor with %d elements cannot be converted to Scalar" % t.numel())
        return P.wrap(to_obj(t).reshape(-1)[0])
    finally:
        ST.internal -= 1


def has_sym(x, depth=0):
    if isinstance(x, (P.SymReal, P.SymBool)):
        return True
    if isinstance(x, torch.Tensor):
        return is_symbolic(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    return False


def obj_of(x):
    """Nested data -> object array of scalar values."""
    if isinstance(x, torch.Tensor):
        ST.internal += 1
        try:
            return to_obj(x)
        finally:
            ST.internal -= 1
    if isinstance(x, np.ndarray):
        out = np.empty(x.shape, dtype=object)
        xf = np.asarray(x)
        for k in np.ndindex(*x.shape):
            v = P.unwrap(xf[k])
            if v is None:
                raise Unsupported("array element %r" % (xf[k],))
            out[k] = v
        return out
    if isinstance(x, (list, tuple)):
        subs = [obj_of(y) for y in x]
        if not subs:
            return np.empty((0,), dtype=object)
        sh = subs[0].shape
        if any(s.shape != sh for s in subs):
            raise ValueError("ragged data")
        return np.stack(subs)
    v = P.unwrap(x)
    if v is None:
        raise Unsupported("data element %r" % (x,))
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def make_tensor(x, dtype=None):
    o = obj_of(x)
    if dtype is None:
        sorts = {v.sort if isinstance(v, T.Term) else "R" for v in o.reshape(-1)}
        dtype = torch.bool if sorts == {"B"} else torch.get_default_dtype()
    ST.internal += 1
    try:
        if dtype == torch.bool:
            o2 = np.empty(o.shape, dtype=object)
            for k in np.ndindex(*o.shape):
                o2[k] = S.B(o[k])
            return from_obj(o2, dtype)
        o2 = np.empty(o.shape, dtype=object)
        for k in np.ndindex(*o.shape):
            v = S.R(o[k])
            if not dtype.is_floating_point:
                v = S.trunc(v)
            o2[k] = v
        return from_obj(o2, dtype)
    finally:
        ST.internal -= 1


def scalar_tensor(x):
    return make_tensor(x)


TENSOR_CTORS = {torch.tensor, torch.as_tensor, torch.asarray, torch.from_numpy, torch.Tensor.new_tensor}
_SHAPE_FNS = {torch.zeros, torch.ones, torch.empty, torch.full, torch.eye, torch.rand}


def _prep(x):
    if isinstance(x, (P.SymReal, P.SymBool)):
        return scalar_tensor(x)
    if isinstance(x, list) and has_sym(x) and not any(isinstance(y, torch.Tensor) for y in x):
        return x
    if isinstance(x, (tuple, list)):
        return type(x)(_prep(y) for y in x) if type(x) in (tuple, list) else x
    return x


def _toint(x):
    if isinstance(x, (P.SymReal, P.SymBool)):
        return int(x)
    if isinstance(x, torch.Tensor) and is_symbolic(x):
        return int(x)
    if isinstance(x, (tuple, list)):
        return type(x)(_toint(y) for y in x)
    return x


def torch_function(func, args, kwargs):
    from . import npsym

    if ST.internal:
        return func(*args, **kwargs)
    if func in TENSOR_CTORS:
        data = args[-1] if func is torch.Tensor.new_tensor else (args[0] if args else kwargs.get("data"))
        if isinstance(data, (P.SymReal, P.SymBool)) or (not isinstance(data, torch.Tensor) and has_sym(data)):
            return make_tensor(data, kwargs.get("dtype"))
        if func is torch.tensor and isinstance(data, torch.Tensor) and is_symbolic(data):
            r = data.clone()
            return r.to(kwargs["dtype"]) if kwargs.get("dtype") else r
        return func(*args, **kwargs)
    nm = getattr(func, "__name__", "")
    if args and isinstance(args[0], torch.Tensor) and nm in _PYCONV and is_symbolic(args[0]):
        t = args[0]
        if nm == "item":
            return tensor_value(t)
        if nm == "tolist":
            return npsym.to_array(t).tolist()
        if nm in ("numpy", "__array__"):
            return npsym.to_array(t)
        if nm in ("__repr__", "__str__", "__format__"):
            return "<symbolic tensor %s>" % (tuple(t.shape),)
        if nm == "__float__":
            v = tensor_value(t)
            return v if isinstance(v, float) else float(v)
        if nm in ("__int__", "__index__", "__long__"):
            return int(tensor_value(t))
        if nm == "__bool__":
            if t.numel() != 1:
                raise RuntimeError("Boolean value of Tensor with more than one value is ambiguous")
            return bool(tensor_value(t))
        if nm == "__deepcopy__":
            return t.clone()
        if nm == "__reduce_ex__":
            raise Unsupported("pickling a symbolic tensor")
    if func in _SHAPE_FNS:
        if func is torch.full:
            fv = args[1] if len(args) > 1 else kwargs.get("fill_value")
            if has_sym(fv):
                kw = {k: v for k, v in kwargs.items() if k not in ("fill_value", "size")}
                size = _toint(args[0] if args else kwargs["size"])
                r = torch.zeros(size, **kw)
                r[...] = fv if isinstance(fv, torch.Tensor) else scalar_tensor(fv)
                return r
        return func(*[_toint(a) for a in args], **kwargs)
    if func in (torch.arange, torch.linspace, torch.range) and any(has_sym(a) for a in list(args) + list(kwargs.values())):
        return _range(func, args, kwargs)
    if any(has_sym_scalar(a) for a in args) or any(has_sym_scalar(a) for a in kwargs.values()):
        if nm in ("view", "reshape", "repeat", "expand", "tile", "new_zeros", "new_ones", "split", "chunk", "narrow", "unfold", "repeat_interleave", "pad"):
            args = tuple(args[:1]) + tuple(_toint(a) for a in args[1:])
            kwargs = {k: _toint(v) for k, v in kwargs.items()}
        elif nm in ("__getitem__", "__setitem__"):
            key = _index_key(args[1])
            args = (args[0], key) + tuple(_prep(a) for a in args[2:])
        else:
            args = tuple(_prep(a) for a in args)
            kwargs = {k: _prep(v) for k, v in kwargs.items()}
    if nm in ("__getitem__", "__setitem__") and len(args) > 2 and isinstance(args[2], (list, tuple, np.ndarray)) and has_sym(args[2]):
        args = (args[0], args[1], make_tensor(args[2]))
    return func(*args, **kwargs)


def _index_key(k):
    if isinstance(k, tuple):
        return tuple(_index_key(x) for x in k)
    if isinstance(k, list):
        return [_index_key(x) for x in k]
    if isinstance(k, slice):
        return slice(*[int(x) if isinstance(x, (P.SymReal, P.SymBool)) else x for x in (k.start, k.stop, k.step)])
    if isinstance(k, P.SymReal):
        return int(k)
    if isinstance(k, P.SymBool):
        return bool(k)
    return k


def has_sym_scalar(x, depth=0):
    if isinstance(x, (P.SymReal, P.SymBool)):
        return True
    if isinstance(x, slice):
        return any(isinstance(y, P.SymReal) for y in (x.start, x.stop, x.step))
    if isinstance(x, (list, tuple)) and depth < 5:
        return any(has_sym_scalar(y, depth + 1) for y in x)
    return False


_PYCONV = {"item", "tolist", "numpy", "__array__", "__repr__", "__str__", "__format__", "__float__", "__int__", "__index__", "__bool__", "__deepcopy__", "__reduce_ex__", "__long__"}


def _num(x):
    if isinstance(x, torch.Tensor):
        return S.R(obj_of(x).reshape(-1)[0])
    return S.R(P.unwrap(x))


def arange_values(a, b, s):
    """torch.arange: ceil((b-a)/s) values a + i*s."""
    n = S.ceil(S.div(S.sub(b, a), s))
    n = S.STATE.explorer.concretize_int(n)
    return [S.add(a, S.mul(T.const(i), s)) for i in range(max(0, n))]


def _range(func, args, kwargs):
    dtype = kwargs.get("dtype")
    if func is torch.linspace:
        a, b, n = _args(["start", "end", "steps"], [None, None, None], args, kwargs)
        ST.internal += 1
        try:
            return linspace_t(_num(a), _num(b), int(n), dtype or torch.get_default_dtype())
        finally:
            ST.internal -= 1
    pos = list(args)
    if len(pos) == 1 and "end" not in kwargs:
        start, end, step = 0, pos[0], kwargs.get("step", 1)
    else:
        start, end, step = _args(["start", "end", "step"], [0, None, 1], args, kwargs)
    allint = all((isinstance(x, int) or (isinstance(x, P.SymReal) and x.t.isint) or (isinstance(x, torch.Tensor) and not x.dtype.is_floating_point)) for x in (start, end, step))
    vals = arange_values(_num(start), _num(end), _num(step))
    o = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        o[i] = v
    ST.internal += 1
    try:
        return from_obj(o, dtype or (torch.int64 if allint else torch.get_default_dtype()))
    finally:
        ST.internal -= 1


class SymFunction(TorchFunctionMode):
    def __torch_function__(self, func, types, args=(), kwargs=None):
        return torch_function(func, args, kwargs or {})


def scalar_torch_function(func, args, kwargs):
    return torch_function(func, args, kwargs)


_from_numpy = torch.from_numpy


def _from_numpy_sym(a):
    """torch.from_numpy does not go through function modes."""
    if ST.internal or not has_sym(a):
        return _from_numpy(a)
    return make_tensor(a, None)


@contextlib.contextmanager
def modes():
    torch.from_numpy = _from_numpy_sym
    try:
        with SymDispatch(), SymFunction():
            yield
    finally:
        torch.from_numpy = _from_numpy
