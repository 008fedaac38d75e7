"""NumPy as the code under test sees it during a symbolic run.

`SymArray` is a real `numpy.ndarray` (object dtype) holding symbolic scalars,
so shapes, broadcasting, indexing, views and aliasing are NumPy's own.  The
`numpy` module handed to the code is `facade()`: creation routines return
SymArrays, `linalg` has an exact symbolic meaning, everything else forwards.
"""
import math
import types as _types
from fractions import Fraction

import numpy as np

from . import terms as t
from .terms import B, S, Inf, Unsupported, F8, I8, BOOL, ctx

OBJ = np.dtype(object)


class FloatShim(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, S) and o.ld == F8)

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __call__(cls, *a):
        if a and isinstance(a[0], S):
            return S(a[0].v, a[0].nan, F8)
        if a and isinstance(a[0], SymArray):
            if a[0].size != 1:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            if a[0].ndim:
                np.zeros(a[0].shape).__float__()
            return S.lift(raw(a[0]).reshape(-1)[0])
        return float(*a)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class float_shim(metaclass=FloatShim):
    fromhex = float.fromhex


def norm_dtype(dt):
    if dt is None:
        return F8
    if dt is float_shim:
        return F8
    dt = np.dtype(dt)
    if dt.kind == "c":
        raise Unsupported("complex dtype")
    return dt


def _dt_arg(x):
    """What NumPy's promotion sees for an operand."""
    if isinstance(x, SymArray):
        return x._ld
    if isinstance(x, S):
        return x.ld
    if isinstance(x, B):
        return BOOL
    if isinstance(x, (np.ndarray, np.generic)):
        return x.dtype
    if isinstance(x, bool):
        return BOOL
    if isinstance(x, int):
        return int
    if isinstance(x, (float, Fraction, Inf)):
        return float
    if isinstance(x, (list, tuple)):
        leaves = list(_flat(x))
        if any(isinstance(v, (S, SymArray, B)) for v in leaves):
            return np.result_type(*[_rt(v) for v in leaves])
        return np.asarray(x).dtype
    raise Unsupported(f"operand {type(x)}")


def _flat(x):
    for v in x:
        if isinstance(v, (list, tuple)):
            yield from _flat(v)
        else:
            yield v


def _rt(x):
    d = _dt_arg(x)
    return d if isinstance(d, np.dtype) else np.dtype(d)


_LD_CACHE = {}


def ufunc_ld(ufunc, args):
    dts = tuple(_dt_arg(a) for a in args)
    if any(isinstance(d, np.dtype) and d.kind == "O" for d in dts):
        return F8
    if all(not isinstance(d, np.dtype) for d in dts):
        dts = tuple(np.dtype(d) for d in dts)
    key = (ufunc, dts)
    r = _LD_CACHE.get(key)
    if r is None:
        r = ufunc.resolve_dtypes(dts + (None,) * ufunc.nout)[-1]
        _LD_CACHE[key] = r
    return r


def binop_ld(op, a, b):
    if type(a) is S and type(b) is S and a.ld is F8 and b.ld is F8:
        return F8
    return ufunc_ld(getattr(np, op), (a, b))


def cast(x, ld):
    """Store `x` into an array whose NumPy dtype is `ld`."""
    if ld.kind == "O":
        return x
    if ld.kind == "b":
        if isinstance(x, B):
            return x
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, S):
            return x._truth()
        return bool(x)
    if isinstance(x, B):
        x = x._num()
    if x is None:
        if ld.kind == "f":
            return S(t.ZERO, t.TRUE, ld)
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
    s = S.lift(x)
    if isinstance(s, Inf):
        if ld.kind == "f":
            return s
        raise OverflowError("cannot convert float infinity to integer")
    if s.ld is ld:
        return s
    if ld.kind == "f":
        if ld.itemsize >= 8:
            return S(s.v, s.nan, ld)
        if s.ld.kind == "f" and s.ld.itemsize <= ld.itemsize:
            return S(s.v, s.nan, ld)
        return t._round_ld(S(s.v, s.nan, ld))
    if ld.kind in "iu":
        if s.ld.kind in "iub":
            return S(s.v, s.nan, ld) if np.can_cast(s.ld, ld) else t.wrap_int(s, ld)
        # float -> integer: truncation; a NaN becomes the most negative value
        if s.nan is t.TRUE:
            return S(t.const(np.iinfo(ld).min), t.FALSE, ld)
        if s.nan is not t.FALSE and bool(B(s.nan)):
            return S(t.const(np.iinfo(ld).min), t.FALSE, ld)
        if s.v.op == "c":
            s = S(t.const(int(s.v.val)), t.FALSE, ld)
        else:
            s = S(t.uf("!trunc", (s.v,)), t.FALSE, ld)
        return s if ld.itemsize == 8 and ld.kind == "i" else t.wrap_int(s, ld)
    raise Unsupported(f"dtype {ld}")


def raw(a):
    return np.ndarray.view(a, np.ndarray) if isinstance(a, SymArray) else a


def scalar_array(s):
    o = np.empty((), dtype=object)
    o[()] = s
    return wrap(o, s.ld if isinstance(s, S) else BOOL)


def wrap(o, ld):
    """Object ndarray -> SymArray of logical dtype ld (elements are cast)."""
    a = np.ndarray.view(o, SymArray)
    a._ld = ld
    return a


def lift_array(o, ld):
    """Any array/nesting -> fresh SymArray with elements cast to ld."""
    src = to_obj(o)
    out = np.empty(src.shape, dtype=object)
    of, sf = out.reshape(-1), src.reshape(-1)
    for i in range(sf.size):
        of[i] = cast(sf[i], ld)
    return wrap(out, ld)


def _has_sym(x):
    if isinstance(x, (S, SymArray, B, Inf)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_has_sym(v) for v in x)
    return False


def to_obj(x):
    """Operand -> plain object ndarray (sharing memory for a SymArray)."""
    if isinstance(x, SymArray):
        return raw(x)
    if isinstance(x, np.ndarray):
        return x.astype(object)
    if isinstance(x, (S, B, Inf)) or t.is_pynum(x):
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    if isinstance(x, (list, tuple)):
        if not _has_sym(x):
            return np.asarray(x).astype(object)
        parts = [to_obj(v) for v in x]
        # the shape rules (ragged input and so on) are NumPy's own
        shp = np.array([np.zeros(p.shape) for p in parts]).shape
        o = np.empty(shp, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p if p.shape else p[()]
        return o
    if x is None:
        o = np.empty((), dtype=object)
        return o
    raise Unsupported(f"operand {type(x)}")


def result(o, ld):
    """Result of an operation: 0-d becomes a scalar, as in NumPy."""
    if isinstance(o, np.ndarray):
        if o.ndim == 0:
            return _sc(o[()], ld)
        if o.dtype != object:
            return o
        return wrap(o, ld)
    return _sc(o, ld)


def _sc(x, ld):
    if isinstance(x, (S, B, Inf)):
        if isinstance(x, S) and x.ld is not ld and ld.kind in "iuf":
            return S(x.v, x.nan, ld)
        return x
    if ld.kind == "b":
        return np.bool_(x) if not isinstance(x, B) else x
    if ld.kind in "iuf" and t.is_pynum(x):
        return S.lift(x, ld) if ld.kind == "f" else ld.type(int(x))
    return x


class Flat:
    pass


class SymArray(np.ndarray):
    _ld = F8
    __array_priority__ = 3000

    def __array_finalize__(self, obj):
        self._ld = getattr(obj, "_ld", F8)

    @property
    def dtype(self):
        return self._ld

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self.size * self._ld.itemsize

    def __repr__(self):
        return f"SymArray({raw(self).tolist()!r}, {self._ld})"

    __str__ = __repr__

    # -- protocol
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_function(func, args, kwargs)

    def __array__(self, *a, **k):
        raise Unsupported("a symbolic array was converted to a plain one")

    # -- access
    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, conc_index(idx))
        if isinstance(r, SymArray):
            return r
        return _sc(r, self._ld)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(len(self)):
            yield self[i]

    def __setitem__(self, idx, value):
        idx = conc_index(idx)
        src = to_obj(value)
        dummy = np.zeros(self.shape)
        dummy[idx] = np.zeros(src.shape)  # raises what NumPy raises
        tgt = np.ndarray.__getitem__(raw(self), idx)
        ld = self._ld
        if not isinstance(tgt, np.ndarray):
            np.ndarray.__setitem__(raw(self), idx, cast(src.reshape(-1)[0], ld))
            return
        vals = np.empty(src.shape, dtype=object)
        vf, sf = vals.reshape(-1), src.reshape(-1)
        for i in range(sf.size):
            vf[i] = cast(sf[i], ld)
        np.ndarray.__setitem__(raw(self), idx, vals)

    def item(self, *a):
        if not a and self.size != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return _sc(raw(self).item(*a), self._ld)

    def itemset(self, *a):
        raise AttributeError("itemset")

    def tolist(self):
        return raw(self).tolist()

    def fill(self, v):
        self[...] = v

    def copy(self, order="C"):
        return wrap(raw(self).copy(order), self._ld)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        ld = norm_dtype(dt)
        if not copy and ld == self._ld:
            return self
        if not np.can_cast(self._ld, ld, casting):
            np.zeros(1, self._ld).astype(ld, casting=casting)
        return lift_array(self, ld)

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, SymArray)
        if not a and not k:
            return np.ndarray.view(self, SymArray)
        raise Unsupported("view with a dtype")

    def flatten(self, order="C"):
        return wrap(raw(self).flatten(order), self._ld)

    @property
    def flat(self):
        return iter([_sc(x, self._ld) for x in raw(self).flat])

    @property
    def real(self):
        return self

    def conj(self):
        return self

    conjugate = conj

    # -- truth and reductions
    def __bool__(self):
        if self.size == 1:
            return bool(raw(self).reshape(-1)[0])
        return bool(np.zeros(self.shape))  # NumPy's error

    def __float__(self):
        if self.size != 1 or self.ndim:
            return float(np.zeros(self.shape))
        return float(self.item())

    def __int__(self):
        if self.size != 1 or self.ndim:
            return int(np.zeros(self.shape))
        return int(self.item())

    def __index__(self):
        if self._ld.kind not in "iub" or self.ndim:
            return np.zeros(self.shape, self._ld).__index__()
        return int(self.item())

    def __contains__(self, x):
        return bool((self == x).any())

    def all(self, axis=None, out=None, keepdims=False, *, where=True):
        return _reduce_bool(self, axis, keepdims, t.band, t.TRUE, out, where)

    def any(self, axis=None, out=None, keepdims=False, *, where=True):
        return _reduce_bool(self, axis, keepdims, t.bor, t.FALSE, out, where)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False):
        return np.add.reduce(self, axis=axis, keepdims=keepdims, out=out)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return np.multiply.reduce(self, axis=axis, keepdims=keepdims, out=out)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False):
        s = self.sum(axis=axis, keepdims=keepdims)
        k = self.size // max(1, np.size(s))
        return s / float(k)

    def max(self, axis=None, out=None, keepdims=False):
        return np.maximum.reduce(self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False):
        return np.minimum.reduce(self, axis=axis, keepdims=keepdims)

    def dot(self, b, out=None):
        return do_function(np.dot, (self, b), {})

    def trace(self, *a, **k):
        return do_function(np.trace, (self,) + a, k)

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, lo)
        if hi is not None:
            r = np.minimum(r, hi)
        return r

    def nonzero(self):
        return conc_bool(self).nonzero()

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        d = self - self.mean(axis=axis, keepdims=True)
        k = self.size if axis is None else self.shape[axis]
        return (d * d).sum(axis=axis, keepdims=keepdims) / float(k - ddof)

    def std(self, *a, **k):
        return np.sqrt(self.var(*a, **k))

    def ptp(self, axis=None, out=None, keepdims=False):
        return self.max(axis=axis, keepdims=keepdims) - self.min(axis=axis, keepdims=keepdims)

    def cumsum(self, axis=None, dtype=None, out=None):
        return do_function(np.cumsum, (self,), {"axis": axis})

    def cumprod(self, axis=None, dtype=None, out=None):
        return _cumprod(self, axis)

    def round(self, decimals=0, out=None):
        return _round(self, decimals)

    def argsort(self, axis=-1, kind=None, order=None, **k):
        return _argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None, **k):
        self[...] = _sort(self, axis)

    def argmax(self, axis=None, out=None, **k):
        return _argbest(self, axis, lambda a, b: b > a)

    def argmin(self, axis=None, out=None, **k):
        return _argbest(self, axis, lambda a, b: b < a)

    def tobytes(self, *a, **k):
        return Bytes(self)

    def unsupported(self, *a, **k):
        raise Unsupported("array method")

    partition = searchsorted = put = choose = compress = tofile = unsupported


class Bytes:
    """The memory of an array, as a dictionary key: equal when every element
    is (exact values; -0.0 and the payload of a NaN do not exist here)."""

    def __init__(self, a):
        self.key, self.vals = (a._ld.str, a.size), list(raw(a).reshape(-1))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if not isinstance(o, Bytes) or o.key != self.key:
            return False
        acc = t.TRUE
        for x, y in zip(self.vals, o.vals):
            x, y = _sl(x), _sl(y)
            acc = t.band(acc, t.bor(t.band(x.nan, y.nan), t.band((x == y).n, t.band(t.bnot(x.nan), t.bnot(y.nan)))))
        return bool(_tob(acc))

    def __ne__(self, o):
        return not self == o


def conc_bool(a):
    """Boolean array with every element decided (the explorer forks)."""
    f = raw(a).reshape(-1)
    o = np.array([bool(x) for x in f], dtype=bool).reshape(a.shape)
    return o


def conc_index(idx):
    if isinstance(idx, tuple):
        return tuple(conc_index(i) for i in idx)
    if isinstance(idx, SymArray):
        if idx._ld.kind == "b":
            return conc_bool(idx)
        if idx._ld.kind in "iu":
            return np.array([int(x) for x in raw(idx).reshape(-1)], dtype=int).reshape(idx.shape)
        return np.zeros(1)[np.zeros(idx.shape)]
    if isinstance(idx, B):
        return bool(idx)
    if isinstance(idx, S):
        return idx.__index__()
    if isinstance(idx, slice):
        return slice(*(x.__index__() if isinstance(x, S) else x for x in (idx.start, idx.stop, idx.step)))
    if isinstance(idx, list) and _has_sym(idx):
        return [conc_index(i) for i in idx]
    return idx


def _bnode(x):
    return x.n if isinstance(x, B) else (x._truth().n if isinstance(x, S) else (t.TRUE if x else t.FALSE))


def _reduce_bool(a, axis, keepdims, f, unit, out, where):
    if out is not None or where is not True:
        raise Unsupported("all/any with out or where")
    o = np.empty(a.shape, dtype=object)
    of, rf = o.reshape(-1), to_obj(a).reshape(-1)
    for i in range(rf.size):
        of[i] = _bnode(rf[i])
    if axis is None:
        acc = unit
        for n in of:
            acc = f(acc, n)
        r = acc
        if keepdims:
            e = np.empty((1,) * a.ndim, dtype=object)
            e[...] = _tob(r)
            return wrap(e, BOOL)
        return _tob(r)
    r = np.frompyfunc(f, 2, 1).reduce(o, axis=axis, keepdims=keepdims, initial=unit)
    if isinstance(r, np.ndarray):
        q = np.empty(r.shape, dtype=object)
        qf, rf = q.reshape(-1), r.reshape(-1)
        for i in range(rf.size):
            qf[i] = _tob(rf[i])
        return result(q, BOOL)
    return _tob(r)


def _tob(n):
    if n is t.TRUE:
        return np.True_
    if n is t.FALSE:
        return np.False_
    return B(n)


# ------------------------------------------------------------------ ufuncs
def _sl(x):
    return S.lift(x)


def _max(a, b, prop=True):
    a, b = _sl(a), _sl(b)
    if isinstance(a, Inf):
        return b if a.sign < 0 else a
    if isinstance(b, Inf):
        return a if b.sign < 0 else b
    if prop:
        nan = t.bor(a.nan, b.nan)
        r = a if bool(B(t.ble(b.v, a.v))) else b
        return S(r.v, nan, r.ld)
    if bool(B(a.nan)):
        return b
    if bool(B(b.nan)):
        return a
    return a if bool(B(t.ble(b.v, a.v))) else b


def _min(a, b, prop=True):
    a, b = _sl(a), _sl(b)
    if isinstance(a, Inf):
        return b if a.sign > 0 else a
    if isinstance(b, Inf):
        return a if b.sign > 0 else b
    if prop:
        nan = t.bor(a.nan, b.nan)
        r = a if bool(B(t.ble(a.v, b.v))) else b
        return S(r.v, nan, r.ld)
    if bool(B(a.nan)):
        return b
    if bool(B(b.nan)):
        return a
    return a if bool(B(t.ble(a.v, b.v))) else b


def _sign(a):
    a = _sl(a)
    if bool(B(t.blt(a.v, t.ZERO))):
        return S(t.const(-1), a.nan, a.ld)
    if bool(B(t.blt(t.ZERO, a.v))):
        return S(t.ONE, a.nan, a.ld)
    return S(t.ZERO, a.nan, a.ld)


def _b2(f):
    return lambda a, b: _tob(f(_bnode(a), _bnode(b)))


def _xor(a, b):
    return t.bor(t.band(a, t.bnot(b)), t.band(t.bnot(a), b))


def _cmpf(name):
    import operator
    op = getattr(operator, name)

    def f(a, b):
        if not isinstance(a, (S, B, Inf)) and not isinstance(b, (S, B, Inf)):
            return bool(op(a, b))
        r = op(a, b)
        return _tob(r.n) if isinstance(r, B) else r
    return f


def _floor(a):
    a = _sl(a)
    if a.v.op == "c":
        import math
        return S(t.const(math.floor(a.v.val)), a.nan, a.ld)
    return S(t.uf("!floor", (a.v,)), a.nan, a.ld)


def _rint(a):
    a = _sl(a)
    if a.v.op == "c":
        return S(t.const(round(a.v.val)), a.nan, a.ld)
    return S(t.uf("!round", (a.v,)), a.nan, a.ld)


def _trunc(a):
    a = _sl(a)
    if a.v.op == "c":
        return S(t.const(int(a.v.val)), a.nan, a.ld)
    return S(t.uf("!trunc", (a.v,)), a.nan, a.ld)


def _isnan(a):
    if isinstance(a, Inf):
        return np.False_
    return _tob(_sl(a).nan)


def _isinf(a):
    return np.bool_(isinstance(a, Inf))


def _isfinite(a):
    if isinstance(a, Inf):
        return np.False_
    return _tob(t.bnot(_sl(a).nan))


def _arith(name):
    import operator
    op = getattr(operator, name)

    def f(a, b):
        a = _sl(a) if not isinstance(a, S) else a
        return op(a, b)
    return f


def _uf2(name, a, b):
    a, b = _sl(a), _sl(b)
    return S(t.uf(name, (a.v, b.v)), t.bor(a.nan, b.nan), F8)


_E = {
    np.add: _arith("add"), np.subtract: _arith("sub"), np.multiply: _arith("mul"),
    np.true_divide: _arith("truediv"), np.power: _arith("pow"), np.float_power: _arith("pow"),
    np.negative: lambda a: -_sl(a), np.positive: lambda a: _sl(a),
    np.absolute: lambda a: abs(_sl(a)), np.fabs: lambda a: abs(_sl(a)),
    np.square: lambda a: _sl(a) * _sl(a), np.reciprocal: lambda a: 1.0 / _sl(a),
    np.sqrt: lambda a: _sl(a).sqrt(), np.exp: lambda a: _sl(a).exp(),
    np.log: lambda a: _sl(a).log(), np.sin: lambda a: _sl(a).sin(),
    np.cos: lambda a: _sl(a).cos(), np.tan: lambda a: _sl(a).tan(),
    np.tanh: lambda a: _sl(a).tanh(), np.arctan: lambda a: _sl(a).arctan(),
    np.arcsin: lambda a: _sl(a)._uf("!arcsin"), np.arccos: lambda a: _sl(a)._uf("!arccos"), np.cbrt: lambda a: _sl(a)._uf("!cbrt"),
    np.sinh: lambda a: (_sl(a).exp() - (-_sl(a)).exp()) / 2.0, np.cosh: lambda a: (_sl(a).exp() + (-_sl(a)).exp()) / 2.0,
    np.arctan2: lambda a, b: _uf2("!arctan2", a, b), np.copysign: lambda a, b: -abs(_sl(a)) if bool(B(t.blt(_sl(b).v, t.ZERO))) else abs(_sl(a)),
    np.fmod: lambda a, b: _sl(a) - _sl(b) * _trunc(_sl(a) / _sl(b)),
    np.conjugate: lambda a: _sl(a),
    np.maximum: _max, np.minimum: _min,
    np.fmax: lambda a, b: _max(a, b, False), np.fmin: lambda a, b: _min(a, b, False),
    np.sign: _sign, np.floor: _floor, np.trunc: _trunc, np.rint: lambda a: _rint(a),
    np.ceil: lambda a: -_floor(-_sl(a)), np.hypot: lambda a, b: (_sl(a) * _sl(a) + _sl(b) * _sl(b)).sqrt(),
    np.exp2: lambda a: (_sl(a) * math.log(2.0)).exp(), np.expm1: lambda a: _sl(a).exp() - 1.0,
    np.log1p: lambda a: (1.0 + _sl(a)).log(), np.log2: lambda a: _sl(a).log() / math.log(2.0),
    np.log10: lambda a: _sl(a).log() / math.log(10.0),
    np.heaviside: lambda a, h: (lambda s: S(t.ZERO, s.nan, s.ld) if s.v is t.const(-1) else S(t.ONE, s.nan, s.ld) if s.v is t.ONE else _sl(h))(_sign(a)),
    np.signbit: lambda a: _tob(t.blt(_sl(a).v, t.ZERO)),
    np.degrees: lambda a: _sl(a) * (180.0 / math.pi), np.radians: lambda a: _sl(a) * (math.pi / 180.0),
    np.floor_divide: lambda a, b: _floor(_sl(a) / _sl(b)),
    np.remainder: lambda a, b: _sl(a) - _sl(b) * _floor(_sl(a) / _sl(b)),
    np.isnan: _isnan, np.isinf: _isinf, np.isfinite: _isfinite,
    np.less: _cmpf("lt"), np.less_equal: _cmpf("le"), np.greater: _cmpf("gt"),
    np.greater_equal: _cmpf("ge"), np.equal: _cmpf("eq"), np.not_equal: _cmpf("ne"),
    np.logical_and: _b2(t.band), np.logical_or: _b2(t.bor), np.logical_xor: _b2(_xor),
    np.bitwise_and: _b2(t.band), np.bitwise_or: _b2(t.bor), np.bitwise_xor: _b2(_xor),
    np.logical_not: lambda a: _tob(t.bnot(_bnode(a))),
    np.invert: lambda a: _tob(t.bnot(_bnode(a))),
}
_BOOLOUT = {np.isnan, np.isinf, np.isfinite, np.less, np.less_equal, np.greater,
            np.greater_equal, np.equal, np.not_equal, np.logical_and, np.logical_or,
            np.logical_xor, np.logical_not, np.signbit}
_PY = {u: np.frompyfunc(f, u.nin, 1) for u, f in _E.items()}
_MATMULS = {np.matmul} | {getattr(np, n) for n in ("vecdot", "matvec", "vecmat") if hasattr(np, n)}


def do_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if kw.pop("where", True) is not True:
        raise Unsupported("ufunc where=")
    dt = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if ufunc in (np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert):
        if any(_rt(i).kind != "b" for i in inputs):
            raise Unsupported("integer bit operations")
    if ufunc in _BOOLOUT:
        ld = BOOL
    else:
        ld = None
    if method == "__call__":
        if ld is None:
            ld = ufunc_ld(ufunc, inputs) if ufunc not in (np.positive, np.conjugate) else _rt(inputs[0])
        objs = [to_obj(x) for x in inputs]
        if ufunc in _MATMULS:
            objs = [_lift_obj(o) for o in objs]
            r = _factor_product(*objs) if ufunc is np.matmul and not kw else None
            if r is None:
                r = ufunc(*objs, **kw)
            if isinstance(r, np.ndarray) and 0 in r.shape:
                pass
            elif not all(o.size for o in objs):
                r = np.zeros(np.shape(r))
                r = to_obj(r)
        elif ufunc in _PY:
            if kw:
                raise Unsupported(f"{ufunc.__name__} with {list(kw)}")
            r = _PY[ufunc](*objs)
        else:
            raise Unsupported(f"numpy.{ufunc.__name__}")
    elif method == "reduce":
        a = inputs[0]
        axis = kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        init = kw.pop("initial", None)
        if kw:
            raise Unsupported(f"reduce with {list(kw)}")
        if ufunc in (np.logical_and, np.logical_or):
            f, unit = (t.band, t.TRUE) if ufunc is np.logical_and else (t.bor, t.FALSE)
            return _reduce_bool(_as_sym(a), axis, keep, f, unit, out, True)
        ld = np.result_type(_rt(a), np.int64) if _rt(a).kind in "bi" else _rt(a)
        o = to_obj(a)
        o = _lift_obj(o) if _rt(a).kind != "b" else np.frompyfunc(lambda x: int(bool(x)), 1, 1)(o)
        pf = _PY.get(ufunc)
        if pf is None or ufunc not in (np.add, np.multiply, np.maximum, np.minimum, np.fmax, np.fmin):
            raise Unsupported(f"reduce of {ufunc.__name__}")
        extra = {} if init is None else {"initial": init}
        if init is None and ufunc in (np.add, np.multiply) and (o.size == 0 or axis is None or isinstance(axis, tuple)):
            extra = {"initial": S.lift(0 if ufunc is np.add else 1)}
        if o.ndim == 0:
            r = o[()]
        elif axis is None:
            r = pf.reduce(o.reshape(-1), axis=0, **extra)
            if keep:
                q = np.empty((1,) * o.ndim, dtype=object)
                q[...] = r
                r = q
        else:
            r = pf.reduce(o, axis=axis, keepdims=keep, **extra)
    elif method in ("outer", "accumulate"):
        pf = _PY.get(ufunc)
        if pf is None:
            raise Unsupported(f"{method} of {ufunc.__name__}")
        ld = ld or ufunc_ld(ufunc, inputs[:ufunc.nin] if method == "outer" else (inputs[0], inputs[0]))
        r = getattr(pf, method)(*[_lift_obj(to_obj(x)) for x in inputs], **kw)
    else:
        raise Unsupported(f"ufunc method {method}")
    if dt is not None:
        ld = norm_dtype(dt)
        r = lift_array(r, ld) if isinstance(r, np.ndarray) else cast(r, ld)
        r = raw(r) if isinstance(r, SymArray) else r
    if ld.kind == "f" and ld.itemsize < 8 and isinstance(r, np.ndarray) and r.dtype == object:
        r = raw(lift_array(r, ld))
    if out is not None:
        tgt = out[0]
        if not isinstance(tgt, SymArray):
            raise Unsupported("output into a plain array")
        if not np.can_cast(ld, tgt._ld, "same_kind"):
            np.add(np.zeros(1, ld), np.zeros(1, ld), out=np.zeros(1, tgt._ld))  # NumPy's error
            raise TypeError("cannot cast ufunc output")
        rs = np.shape(r)
        if np.broadcast_shapes(rs, tgt.shape) != tgt.shape:
            np.add(np.zeros(rs), np.zeros(rs), out=np.zeros(tgt.shape))
        tgt[...] = r
        return tgt
    if isinstance(r, np.ndarray) and r.dtype == object and r.ndim and ld.kind in "iuf":
        _fix_ld(r, ld)
    return result(r, ld)


def _fix_ld(o, ld):
    f = o.reshape(-1) if o.flags.c_contiguous else None
    if f is None:
        for i in np.ndindex(o.shape):
            x = o[i]
            if type(x) is S and x.ld is ld:
                continue
            o[i] = cast(x, ld)
        return
    for i in range(f.size):
        x = f[i]
        if type(x) is S and x.ld is ld:
            continue
        f[i] = cast(x, ld)


def _lift_obj(o):
    out = np.empty(o.shape, dtype=object)
    of, sf = out.reshape(-1), o.reshape(-1)
    for i in range(sf.size):
        x = sf[i]
        of[i] = x if isinstance(x, (S, Inf)) else S.lift(x)
    return out


def _as_sym(a):
    if isinstance(a, SymArray):
        return a
    return wrap(to_obj(a), _rt(a))


# --------------------------------------------------------- array functions
_STRUCT = {n for n in """concatenate stack vstack hstack column_stack dstack reshape transpose
swapaxes moveaxis rollaxis expand_dims squeeze atleast_1d atleast_2d atleast_3d ravel broadcast_to
broadcast_arrays tile repeat flip flipud fliplr roll diag diagonal diagflat tril triu split
array_split vsplit hsplit delete insert append take rot90 resize block permute_dims matrix_transpose
concat fill_diagonal copyto shape ndim size may_share_memory shares_memory take_along_axis
unstack""".split()}
_ARITHF = {n for n in "dot inner outer kron vdot tensordot trace cumsum cross".split()}
_IMPL = {}


def impl(*names):
    def deco(f):
        for n in names:
            fn = np
            for p in n.split("."):
                fn = getattr(fn, p, None)
            if fn is not None:
                _IMPL[fn] = f
        return f
    return deco


def _unwrap(x, lds):
    if isinstance(x, SymArray):
        lds.append(x._ld)
        return raw(x)
    if isinstance(x, (S, B)):
        lds.append(x.dtype)
        return to_obj(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(_unwrap(v, lds) for v in x)
    if isinstance(x, list):
        return [_unwrap(v, lds) for v in x]
    if isinstance(x, np.ndarray) and x.dtype.kind in "fiub":
        lds.append(x.dtype)
        return x
    return x


def _rewrap(r, ld):
    if isinstance(r, np.ndarray) and r.dtype == object:
        return wrap(r, ld) if r.ndim else _sc(r[()], ld)
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(_rewrap(x, ld) for x in r)
    if isinstance(r, list):
        return [_rewrap(x, ld) for x in r]
    return _sc(r, ld) if isinstance(r, (S, B)) else r


def do_function(func, args, kwargs):
    f = _IMPL.get(func)
    if f is not None:
        return f(*args, **kwargs)
    name = getattr(func, "__name__", "?")
    if name in ("shape", "ndim", "size", "may_share_memory", "shares_memory"):
        return func(*_unwrap(args, []), **kwargs)
    if name in ("atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to") or name in _STRUCT:
        lds = []
        a = _unwrap(args, lds)
        k = {x: _unwrap(v, lds) for x, v in kwargs.items()}
        if k.pop("dtype", None) is not None or k.get("out") is not None:
            raise Unsupported(f"{name} with dtype/out")
        ld = np.result_type(*lds) if lds else F8
        if name == "fill_diagonal" or name == "copyto":
            tgt = args[0]
            src = lift_array(args[1], tgt._ld)
            func(raw(tgt), raw(src) if src.ndim else raw(src)[()], **k)
            return None
        r = func(*a, **k)
        if len(set(lds)) > 1 and isinstance(r, np.ndarray) and r.dtype == object and name in (
                "concatenate", "stack", "vstack", "hstack", "column_stack", "dstack", "append", "insert", "block", "concat"):
            r = raw(lift_array(r, ld))
        return _rewrap(r, ld)
    if name in _ARITHF:
        lds = []
        a = _unwrap(args, lds)
        a = tuple(_lift_obj(to_obj(x)) if isinstance(x, np.ndarray) or t.is_pynum(x) or (isinstance(x, list) and name in ("dot", "inner", "outer", "kron", "vdot")) else x for x in a)
        if name in ("trace", "cumsum"):
            a = (a[0],) + tuple(args[1:])
        if kwargs.get("out") is not None:
            raise Unsupported(f"{name} with out")
        ld = np.result_type(*lds)
        if name == "dot" and not kwargs and len(a) == 2:
            r = _factor_product(*[to_obj(x) for x in a])
            if r is not None:
                return _rewrap(r, ld)
        return _rewrap(func(*a, **kwargs), ld)
    raise Unsupported(f"numpy.{getattr(func, '__module__', '')}.{name}")


@impl("einsum")
def _einsum(*ops, **kw):
    kw.pop("optimize", None)
    if kw or not isinstance(ops[0], str):
        raise Unsupported("einsum form")
    arrs = [_lift_obj(to_obj(o)) for o in ops[1:]]
    spec = ops[0].replace(" ", "")
    # shape and validity from NumPy, values from the definition
    shp = np.einsum(spec, *[np.zeros(a.shape) for a in arrs]).shape
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    if "->" in spec:
        lhs, rhs = spec.split("->")
    else:
        lhs = spec
        letters = lhs.replace(",", "")
        rhs = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    subs = lhs.split(",")
    dims = {}
    for s, a in zip(subs, arrs):
        for c, d in zip(s, a.shape):
            dims[c] = max(d, dims.get(c, 1))
    inner = [c for c in dims if c not in rhs]
    out = np.empty(shp, dtype=object)
    for oi in np.ndindex(*shp):
        env = dict(zip(rhs, oi))
        acc = None
        for ii in np.ndindex(*[dims[c] for c in inner]):
            env.update(zip(inner, ii))
            p = None
            for s, a in zip(subs, arrs):
                v = a[tuple(env[c] if a.shape[k] > 1 else 0 for k, c in enumerate(s))]
                p = v if p is None else p * v
            acc = p if acc is None else acc + p
        out[oi] = S.lift(0) if acc is None else acc
    ld = np.result_type(*[_rt(o) for o in ops[1:]])
    return result(out, ld)


@impl("sum")
def _sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return _as_sym(a).sum(axis=axis, out=out, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)


@impl("prod")
def _prod(a, axis=None, **k):
    return _as_sym(a).prod(axis=axis)


@impl("mean")
def _mean(a, axis=None, **k):
    return _as_sym(a).mean(axis=axis)


@impl("all")
def _all(a, axis=None, out=None, keepdims=False, **k):
    return _as_sym(a).all(axis=axis, out=out, keepdims=keepdims is True)


@impl("any")
def _any(a, axis=None, out=None, keepdims=False, **k):
    return _as_sym(a).any(axis=axis, out=out, keepdims=keepdims is True)


@impl("max", "amax")
def _amax(a, axis=None, **k):
    return _as_sym(a).max(axis=axis)


@impl("min", "amin")
def _amin(a, axis=None, **k):
    return _as_sym(a).min(axis=axis)


@impl("clip")
def _clip(a, a_min=None, a_max=None, **k):
    r = a
    if a_min is not None:
        r = np.maximum(r, a_min)
    if a_max is not None:
        r = np.minimum(r, a_max)
    return r


@impl("copy")
def _copy(a, order="K", subok=False):
    return _as_sym(a).copy()


@impl("astype")
def _astype(a, dt, **k):
    return a.astype(dt)


@impl("full_like")
def _full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    ld = norm_dtype(dtype) if dtype is not None else _rt(a)
    return full(np.shape(to_obj(a)) if shape is None else shape, fill_value, ld)


@impl("zeros_like")
def _zeros_like(a, dtype=None, order="K", subok=True, shape=None):
    return _full_like(a, 0, dtype, shape=shape)


@impl("ones_like")
def _ones_like(a, dtype=None, order="K", subok=True, shape=None):
    return _full_like(a, 1, dtype, shape=shape)


@impl("empty_like")
def _empty_like(a, dtype=None, order="K", subok=True, shape=None):
    return empty(np.shape(to_obj(a)) if shape is None else shape, norm_dtype(dtype) if dtype is not None else _rt(a))


@impl("where")
def _where(c, *ab):
    cb = conc_bool(_as_sym(c)) if _has_sym(c) else np.asarray(c, dtype=bool)
    if not ab:
        return cb.nonzero()
    a, b = ab
    ld = np.result_type(_dtw(a), _dtw(b))
    oa, ob = to_obj(a), to_obj(b)
    ca, aa, bb = np.broadcast_arrays(cb, oa, ob)
    out = np.empty(ca.shape, dtype=object)
    for i in np.ndindex(ca.shape):
        out[i] = cast(aa[i] if ca[i] else bb[i], ld)
    return wrap(out, ld)


def _dtw(x):
    d = _dt_arg(x)
    if d is float:
        return 0.0
    if d is int:
        return 0
    return d


@impl("array_equal")
def _array_equal(a, b, equal_nan=False):
    oa, ob = to_obj(a), to_obj(b)
    if oa.shape != ob.shape:
        return False
    acc = t.TRUE
    for x, y in zip(oa.reshape(-1), ob.reshape(-1)):
        x, y = _sl(x), _sl(y)
        e = (x == y).n
        if equal_nan:
            e = t.bor(e, t.band(x.nan, y.nan))
        acc = t.band(acc, e)
    return _tob(acc)


def _close(a, b, rtol, atol, equal_nan=False):
    a, b = _sl(a), _sl(b)
    if isinstance(a, Inf) or isinstance(b, Inf):
        raise Unsupported("isclose with infinity")
    d, lim = (a - b).v, lambda sg: t.add(t.const(atol), t.mul(t.const(sg * rtol), b.v))

    def within(x):
        return t.band(t.ble(d, x), t.ble(t.neg(x), d))
    n = t.bor(t.band(t.ble(t.ZERO, b.v), within(lim(1))), t.band(t.blt(b.v, t.ZERO), within(lim(-1))))
    n = t.band(n, t.band(t.bnot(a.nan), t.bnot(b.nan)))
    if equal_nan:
        n = t.bor(n, t.band(a.nan, b.nan))
    return _tob(n)


@impl("isclose")
def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np.frompyfunc(lambda x, y: _close(x, y, Fraction(rtol), Fraction(atol), equal_nan), 2, 1)(to_obj(a), to_obj(b))
    return result(r, BOOL)


@impl("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np.frompyfunc(lambda x, y: _close(x, y, Fraction(rtol), Fraction(atol), equal_nan), 2, 1)(to_obj(a), to_obj(b))
    acc = t.TRUE
    for x in np.atleast_1d(r).reshape(-1):
        acc = t.band(acc, _bnode(x))
    return _tob(acc)


@impl("nan_to_num")
def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(s):
        s = _sl(s)
        if s.nan is t.FALSE:
            return s
        return S.lift(nan, s.ld) if bool(B(s.nan)) else S(s.v, t.FALSE, s.ld)
    r = np.frompyfunc(f, 1, 1)(to_obj(x))
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return result(r, _rt(x))


@impl("count_nonzero")
def _count_nonzero(a, axis=None, **k):
    return np.count_nonzero(conc_bool(_as_sym(a)), axis=axis)


@impl("nonzero")
def _nonzero(a):
    return conc_bool(_as_sym(a)).nonzero()


@impl("flatnonzero")
def _flatnonzero(a):
    return np.flatnonzero(conc_bool(_as_sym(a)))


@impl("argwhere")
def _argwhere(a):
    return np.argwhere(conc_bool(_as_sym(a)))


@impl("var")
def _var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return _as_sym(a).var(axis=axis, ddof=ddof, keepdims=keepdims is True)


@impl("std")
def _std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return _as_sym(a).std(axis=axis, ddof=ddof, keepdims=keepdims is True)


@impl("ptp")
def _ptp(a, axis=None, out=None, keepdims=False):
    return _as_sym(a).ptp(axis=axis, keepdims=keepdims is True)


@impl("cumprod")
def _cumprod(a, axis=None, **k):
    a = _as_sym(a)
    return np.multiply.accumulate(a.reshape(-1) if axis is None else a, axis=axis or 0)


@impl("round", "around")
def _round(a, decimals=0, out=None):
    a = _as_sym(a)
    if a._ld.kind in "iub":
        return a.copy()
    k = S.lift(Fraction(10) ** decimals, a._ld)
    return result(np.frompyfunc(lambda x: _rint(_sl(x) * k) / k, 1, 1)(raw(a)), a._ld)


@impl("fix")
def _fix(a, out=None):
    return np.trunc(_as_sym(a))


def _order(vals):
    """Indices that sort the values (NaNs last), as far as asked: forks."""
    import functools

    def cmp(i, j):
        x, y = _sl(vals[i]), _sl(vals[j])
        xn, yn = bool(B(x.nan)), bool(B(y.nan))
        if xn or yn:
            return xn - yn
        return -1 if bool(x < y) else (1 if bool(y < x) else 0)
    return sorted(range(len(vals)), key=functools.cmp_to_key(cmp))


def _along(a, axis, f, dt):
    o = np.moveaxis(raw(a), axis, -1)
    out = np.empty(o.shape, dtype=dt)
    for i in np.ndindex(*o.shape[:-1]):
        out[i] = f(list(o[i]))
    return np.moveaxis(out, -1, axis)


@impl("argsort")
def _argsort(a, axis=-1, kind=None, order=None, **k):
    a = _as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return _along(a, axis, _order, int)


@impl("sort")
def _sort(a, axis=-1, kind=None, order=None, **k):
    a = _as_sym(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    return wrap(_along(a, axis, lambda v: [v[i] for i in _order(v)], object), a._ld)


def _argbest(a, axis, better):
    if axis is None:
        a, axis = a.reshape(-1), 0
    o = np.moveaxis(raw(a), axis, -1)
    out = np.empty(o.shape[:-1], dtype=int)
    for i in np.ndindex(*o.shape[:-1]):
        best = 0
        for k in range(1, o.shape[-1]):
            x, y = _sl(o[i][best]), _sl(o[i][k])
            if bool(B(x.nan)):
                break
            if bool(B(y.nan)) or bool(better(x, y)):
                best = k
        out[i] = best
    return out if out.ndim else int(out)


@impl("argmax")
def _argmax(a, axis=None, **k):
    return _as_sym(a).argmax(axis)


@impl("argmin")
def _argmin(a, axis=None, **k):
    return _as_sym(a).argmin(axis)


@impl("median")
def _median(a, axis=None, **k):
    s = _sort(a, axis)
    if axis is None:
        axis = 0
    n = s.shape[axis]
    s = np.moveaxis(s, axis, 0)
    return s[n // 2] + 0.0 if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2.0


@impl("average")
def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _as_sym(a).mean(axis=axis)
    w = _as_sym(weights)
    return (_as_sym(a) * w).sum(axis=axis) / w.sum(axis=axis)


@impl("diff")
def _diff(a, n=1, axis=-1, **k):
    a = _as_sym(a)
    for _ in range(n):
        b = np.moveaxis(a, axis, 0)
        a = np.moveaxis(b[1:] - b[:-1], 0, axis)
    return a


@impl("nanmax")
def _nanmax(a, axis=None, **k):
    return np.fmax.reduce(_as_sym(a), axis=axis)


@impl("nanmin")
def _nanmin(a, axis=None, **k):
    return np.fmin.reduce(_as_sym(a), axis=axis)


@impl("nanmean")
def _nanmean(a, axis=None, **k):
    a = _as_sym(a)
    n = np.count_nonzero(~conc_bool(np.isnan(a)), axis=axis)
    if np.any(n == 0):
        raise Unsupported("nanmean of an empty selection")
    return _nansum(a, axis=axis) / (n * 1.0)


@impl("array_equiv")
def _array_equiv(a, b):
    x, y = np.broadcast_arrays(to_obj(a), to_obj(b))
    return _array_equal(wrap(np.array(x), _rt(a)), wrap(np.array(y), _rt(b)))


@impl("isin")
def _isin(a, b, **k):
    a = _as_sym(a)
    bs = [_sl(x) for x in to_obj(b).reshape(-1)]

    def f(x):
        acc = t.FALSE
        for y in bs:
            acc = t.bor(acc, (_sl(x) == y).n)
        return _tob(acc)
    return result(np.frompyfunc(f, 1, 1)(raw(a)), BOOL)


@impl("unique")
def _unique(a, **k):
    if k:
        raise Unsupported("unique with options")
    s = _sort(a, None)
    keep = [x for i, x in enumerate(raw(s)) if i == 0 or not bool(_sl(raw(s)[i - 1]) == _sl(x))]
    out = np.empty(len(keep), dtype=object)
    out[:] = keep
    return wrap(out, s._ld)


@impl("select")
def _select(conds, choices, default=0):
    r = default
    for c, v in zip(reversed(conds), reversed(choices)):
        r = np.where(c, v, r) if _has_sym(c) or not _has_sym(v) and not _has_sym(r) else _where(c, v, r)
    return r


@impl("putmask", "place")
def _putmask(a, mask, values):
    a[conc_bool(_as_sym(mask)) if _has_sym(mask) else np.asarray(mask, bool)] = values


@impl("apply_along_axis")
def _apply(f, axis, a, *args, **k):
    a = np.moveaxis(_as_sym(a), axis, -1)
    rows = [f(a[i], *args, **k) for i in np.ndindex(*a.shape[:-1])]
    r = _c_array(rows)
    r = r.reshape(a.shape[:-1] + r.shape[1:])
    return np.moveaxis(r, -1, axis) if r.ndim == a.ndim else r


@impl("triu_indices_from", "tril_indices_from", "diag_indices_from")
def _indices_from(a, k=0):
    raise Unsupported("indices from an array")


for _n, _base in (("triu_indices_from", np.triu_indices), ("tril_indices_from", np.tril_indices)):
    _IMPL[getattr(np, _n)] = lambda a, k=0, _base=_base: _base(np.shape(raw(a))[-2], k, np.shape(raw(a))[-1])
_IMPL[np.diag_indices_from] = lambda a: np.diag_indices(np.shape(raw(a))[0], np.ndim(raw(a)))


@impl("nansum")
def _nansum(a, axis=None, **k):
    return _sum(_nan_to_num(a), axis=axis)


@impl("real")
def _real(a):
    return a


@impl("isrealobj")
def _isrealobj(a):
    return True


@impl("iscomplexobj")
def _iscomplexobj(a):
    return False


@impl("result_type")
def _result_type(*a):
    return np.result_type(*[_dtw(x) if isinstance(x, (S, SymArray, B)) else x for x in a])


@impl("can_cast")
def _can_cast(a, b, casting="safe"):
    return np.can_cast(_rt(a) if isinstance(a, (S, SymArray)) else a, b, casting)


@impl("array_repr", "array_str", "array2string")
def _repr(a, *r, **k):
    return repr(a)


# ------------------------------------------------------------------ linalg
def minor(m, i, j):
    return [[x for c, x in enumerate(r) if c != j] for k, r in enumerate(m) if k != i]


def det_of(m):
    n = len(m)
    if n == 0:
        return S.lift(1)
    if n == 1:
        return m[0][0]
    if n > 6:
        raise Unsupported("determinant above 6x6")
    acc = None
    for j in range(n):
        term = m[0][j] * det_of(minor(m, 0, j))
        acc = term if acc is None else (acc + term if j % 2 == 0 else acc - term)
    return acc


def inv_of(m):
    """Exact inverse by cofactors; records that the determinant is nonzero."""
    n = len(m)
    d = det_of(m)
    if d.v.op == "c" and d.v.val == 0 and d.nan is t.FALSE:
        raise np.linalg.LinAlgError("Singular matrix")
    ctx().saw_det(d)
    one = S.lift(1.0)
    di = one / d
    if n == 1:
        return [[di]]
    return [[(det_of(minor(m, j, i)) * (1 if (i + j) % 2 == 0 else -1)) * di for j in range(n)] for i in range(n)]


def _mat(o):
    return [[_sl(x) for x in r] for r in o]


def _fl(*args):
    ld = np.result_type(*[_rt(a) for a in args])
    return ld if ld.kind == "f" else F8


@impl("linalg.solve")
def _solve(a, b):
    oa, ob = to_obj(a), to_obj(b)
    if oa.ndim >= 2 and oa.shape[-1] == oa.shape[-2]:
        eye = np.broadcast_to(np.eye(oa.shape[-1]), oa.shape)
    else:
        eye = np.zeros(oa.shape)
    shp = np.linalg.solve(eye, np.zeros(ob.shape)).shape  # NumPy's shape rules
    ld = _fl(a, b)
    out = np.empty(shp, dtype=object)
    vec = ob.ndim == 1
    r = _half_solve(oa, ob)
    if r is not None:
        return _rl(r, ld)
    if oa.ndim == 2 and ob.ndim <= 2:
        inv = inv_of(_mat(oa))
        bb = _lift_obj(ob)
        n = oa.shape[0]
        if vec:
            for i in range(n):
                out[i] = _dotl(inv[i], bb)
        else:
            for i in range(n):
                for j in range(ob.shape[1]):
                    out[i, j] = _dotl(inv[i], bb[:, j])
        return _rl(out, ld)
    batch = shp[:-2] if not vec else shp[:-1]
    ba = np.broadcast_to(oa, batch + oa.shape[-2:])
    bb = ob if vec else np.broadcast_to(ob, batch + ob.shape[-2:])
    for i in np.ndindex(*batch):
        r = _solve(wrap(np.array(ba[i]), _rt(a)), wrap(np.array(bb if vec else bb[i]), _rt(b)))
        out[i] = raw(r)
    return _rl(out, ld)


def _dotl(r, c):
    acc = None
    for x, y in zip(r, c):
        p = x * y
        acc = p if acc is None else acc + p
    return acc


def _rl(out, ld):
    if ld.itemsize < 8:
        return lift_array(out, ld)
    _fix_ld(out, ld)
    return wrap(out, ld)


def _square(a):
    o = to_obj(a)
    if o.ndim < 2 or o.shape[-1] != o.shape[-2]:
        np.linalg.inv(np.zeros(o.shape))
    return o


@impl("linalg.inv")
def _inv(a):
    o = _square(a)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(*o.shape[:-2]):
        m = inv_of(_mat(o[i]))
        n = o.shape[-1]
        for r in range(n):
            for c in range(n):
                out[i + (r, c)] = m[r][c]
    if o.ndim == 2:
        full, half = getattr(ctx(), "factors", (None, None))
        M = full.get(_akey(_lifted(o))) if full else None
        if M is not None:
            half[_akey(out)] = (M, _lifted(np.array(np.eye(n), dtype=object)))
    return _rl(out, _fl(a))


def _cutoff(tol, o):
    """Whether singular values below tol times the largest are dropped (a
    cutoff at the level of rounding never matters over the reals)."""
    if tol is None or (isinstance(tol, str) and tol == "warn"):
        return False
    tol = S.lift(tol)
    if tol.v.op != "c" or tol.v.val < 0:
        raise Unsupported("symbolic cutoff")
    if tol.v.val <= Fraction(1, 10**12) or 1 in o.shape[-2:]:
        return False
    if o.ndim != 2:
        raise Unsupported("pseudo-inverse of a stack with a cutoff")
    c = _opaque_mat("!cond", o)
    return bool(c * tol > 1)


def _truncated(o, tol):
    """Entries of the pseudo-inverse with dropped singular values: opaque."""
    vs = [_sl(x) for x in o.reshape(-1)]
    nan = t.FALSE
    for v in vs:
        nan = t.bor(nan, v.nan)
    out = np.empty(o.shape[::-1], dtype=object)
    for k, i in enumerate(np.ndindex(*out.shape)):
        out[i] = S(t.uf("!pinv", [t.const(S.lift(tol).v.val), t.const(k), t.const(o.shape[0])] + [v.v for v in vs]), nan, F8)
    return out


@impl("linalg.pinv")
def _pinv(a, rcond=None, hermitian=False, *, rtol=None):
    o = to_obj(a)
    if o.ndim < 2:
        np.linalg.pinv(np.zeros(o.shape))
    tol = rtol if rtol is not None else rcond
    if _cutoff(tol, o):
        return wrap(_truncated(o, tol), _fl(a))
    if o.shape[-1] == o.shape[-2]:
        return _inv(a)  # invertible case; singular matrices are outside the claim
    if o.ndim == 2:
        T = np.swapaxes(_as_sym(a), -1, -2)
        if o.shape[0] > o.shape[1]:
            return _inv(T @ a) @ T
        return T @ _inv(a @ T)
    raise Unsupported("pinv of a stack of rectangles")


@impl("linalg.lstsq")
def _lstsq(a, b, rcond=None):
    o = to_obj(a)
    if o.shape[0] == o.shape[1]:
        if S.lift(-1 if rcond is None or isinstance(rcond, str) else rcond).v.val > 0 and _cutoff(rcond, o):
            x = wrap(_truncated(o, rcond), _fl(a)) @ _as_sym(b)
        else:
            x = _solve(a, b)
        return x, np.zeros(0), o.shape[0], None
    raise Unsupported("rectangular lstsq")


@impl("linalg.det")
def _det(a):
    o = _square(a)
    if o.ndim == 2:
        return _sc(det_of(_mat(o)), _fl(a))
    out = np.empty(o.shape[:-2], dtype=object)
    for i in np.ndindex(*o.shape[:-2]):
        out[i] = det_of(_mat(o[i]))
    return _rl(out, _fl(a))


@impl("linalg.norm")
def _norm(x, ord=None, axis=None, keepdims=False):
    o = to_obj(x)
    if axis is not None or keepdims:
        raise Unsupported("norm axis")
    if ord in (None, "fro") or (ord == 2 and o.ndim == 1):
        acc = S.lift(0.0)
        for v in o.reshape(-1):
            v = _sl(v)
            acc = acc + v * v
        return acc.sqrt()
    if ord == np.inf and o.ndim == 1:
        return np.max(abs(_as_sym(x)))
    if ord == 1 and o.ndim == 1:
        return np.sum(abs(_as_sym(x)))
    if ord == 2 and o.ndim == 2 and o.shape[0] == o.shape[1]:
        return _opaque_mat("!norm2", o)
    raise Unsupported("norm order")


def _opaque_mat(name, o):
    vs = [_sl(x) for x in o.reshape(-1)]
    nan = t.FALSE
    for v in vs:
        nan = t.bor(nan, v.nan)
    return S(t.uf(name, [v.v for v in vs]), nan, F8)


@impl("linalg.cond")
def _cond(x, p=None):
    return _opaque_mat("!cond", _square(x))


@impl("linalg.matrix_rank")
def _rank(x, *a, **k):
    s = _opaque_mat("!rank", _square(x))
    return S(s.v, s.nan, I8)


@impl("linalg.svd", "linalg.svdvals")
def _svd(x, full_matrices=True, compute_uv=True, hermitian=False):
    o = to_obj(x)
    if compute_uv or o.ndim != 2:
        raise Unsupported("singular vectors")
    vs = [_sl(v) for v in o.reshape(-1)]
    nan = t.FALSE
    for v in vs:
        nan = t.bor(nan, v.nan)
    out = np.empty(min(o.shape), dtype=object)
    for k in range(len(out)):
        out[k] = S(t.uf("!svd", [t.const(k), t.const(o.shape[0])] + [v.v for v in vs]), nan, F8)
    return wrap(out, F8)


@impl("linalg.eigvalsh", "linalg.eigvals")
def _eigvalsh(x, *a, **k):
    o = _square(x)
    if o.ndim != 2:
        raise Unsupported("eigvalsh of a stack")
    out = np.empty(o.shape[0], dtype=object)
    for i in range(o.shape[0]):
        out[i] = _opaque_mat(f"!eigh{i}", o) if o.shape[0] > 1 else _sl(o[0, 0])
    return wrap(out, F8)


@impl("linalg.cholesky")
def _chol(a, *, upper=False):
    """The factor of a matrix taken to be positive definite; that its pivots
    are nonzero is recorded like the determinants of linear systems."""
    o = _square(a)
    if o.ndim != 2:
        raise Unsupported("cholesky of a stack")
    n = o.shape[0]
    m = _mat(o)
    m = [[m[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]  # NumPy reads the lower triangle
    L = [[S.lift(0.0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = m[i][j]
            for k in range(j):
                s = s - L[i][k] * L[j][k]
            if i == j:
                if s.v.op == "c" and s.v.val <= 0:
                    raise np.linalg.LinAlgError("Matrix is not positive definite")
                L[i][i] = s.sqrt() if s.v.op == "c" else s._uf("!sqrt")
                if s.v.op != "c":
                    ctx().assume_nonzero(L[i][i].v)
                    ctx().saw_det(det_of([r[:i + 1] for r in m[:i + 1]]))
            else:
                L[i][j] = s / L[j][j]
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            out[i, j] = L[i][j] if not upper else L[j][i]
    f = np.array(L, dtype=object).reshape(n, n)
    M = np.empty((n, n), dtype=object)
    M[...] = m
    _factors()[0].setdefault(_akey(f), M)
    return wrap(out, F8)


# Products with a Cholesky factor L of M, known by the identity of their
# entries: L L' = M, and with V = L^-1 B, W = L^-1 C: V'W = B' M^-1 C and
# L'^-1 V = M^-1 B.  Exact over the reals; spares the solver the square roots.
def _factors():
    c = ctx()
    if not hasattr(c, "factors"):
        c.factors = ({}, {})
    return c.factors


def _akey(o):
    return (o.shape,) + tuple((x.v.nid, x.nan.nid) if isinstance(x, S) else ("c", repr(x)) for x in o.reshape(-1))


def _lifted(o):
    return np.frompyfunc(_sl, 1, 1)(o) if o.size else o


def _half_solve(oa, ob):
    """Solutions of a triangular system with a known factor, if it is one."""
    full, half = getattr(ctx(), "factors", (None, None))
    if not full or oa.ndim != 2 or ob.ndim > 2:
        return None
    oa, ob = _lifted(oa), _lifted(ob)
    if _akey(oa.T) in full and _akey(ob) in half:
        M, B = half[_akey(ob)]
        if M is full[_akey(oa.T)]:
            inv = np.empty(oa.shape, dtype=object)
            inv[...] = inv_of(_mat(M))
            return np.dot(inv, B)
    M = full.get(_akey(oa))
    if M is not None:
        inv = inv_of(_mat(oa))
        r = np.dot(np.array(inv, dtype=object).reshape(oa.shape), ob)
        half[_akey(r)] = (M, ob)
        return r
    return None


def _factor_product(oa, ob):
    full, half = getattr(ctx(), "factors", (None, None))
    if not full or oa.ndim not in (1, 2) or ob.ndim not in (1, 2) or oa.ndim + ob.ndim < 3:
        return None
    oa, ob = _lifted(oa), _lifted(ob)
    ka, kat, kb = _akey(oa), _akey(oa.T), _akey(ob)
    if ka in full and kb == _akey(oa.T):
        return full[ka]
    if kat in half and kb in half and half[kat][0] is half[kb][0]:
        M, V = half[kat]
        inv = np.empty(M.shape, dtype=object)
        inv[...] = inv_of(_mat(M))
        return np.dot(np.dot(V.T, inv), half[kb][1])
    if ka in half:  # L^-1 (C b)
        M, V = half[ka]
        if V.ndim == 2:
            r = np.dot(oa, ob)
            half[_akey(_lifted(r))] = (M, np.dot(_lifted(V), ob))
            return r
    return None


@impl("linalg.multi_dot")
def _multi_dot(arrays, *, out=None):
    r = arrays[0]
    for a in arrays[1:]:
        r = do_function(np.dot, (r, a), {})
    return r


@impl("linalg.matrix_power")
def _matrix_power(a, k):
    if k < 0:
        a, k = _inv(a), -k
    r = facade().identity(to_obj(a).shape[0])
    for _ in range(k):
        r = r @ a
    return r


@impl("linalg.matrix_transpose")
def _mt(a):
    return np.swapaxes(a, -1, -2)


@impl("linalg.slogdet")
def _slogdet(a):
    d = _det(a)
    s = _sign(d)
    return s, abs(d).log()


# ---------------------------------------------------------------- creation
def full(shape, fill, ld):
    o = np.empty(shape, dtype=object)
    src = to_obj(fill)
    vals = np.empty(src.shape, dtype=object)
    vf, sf = vals.reshape(-1), src.reshape(-1)
    for i in range(sf.size):
        vf[i] = cast(sf[i], ld)
    o[...] = vals
    return wrap(o, ld)


_EMPTY = [0]


def empty(shape, ld):
    o = np.empty(shape, dtype=object)
    f = o.reshape(-1)
    for i in range(f.size):
        if ld.kind == "O":
            f[i] = None
        elif ld.kind == "b":
            f[i] = False
        else:
            f[i] = S(t.var(ctx().fresh_name("uninit")), t.FALSE, ld)
    return wrap(o, ld)


def _shape(s):
    if isinstance(s, (int, np.integer)):
        return int(s)
    if isinstance(s, S):
        return s.__index__()
    if isinstance(s, (tuple, list)):
        return tuple(_shape(x) for x in s)
    return s


def _c_array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    if isinstance(obj, SymArray):
        ld = norm_dtype(dtype) if dtype is not None else obj._ld
        if copy or ld != obj._ld:
            a = lift_array(obj, ld) if ld != obj._ld else obj.copy()
        else:
            a = obj
    elif _has_sym(obj):
        if dtype is not None and norm_dtype(dtype).kind != "O":
            ld = norm_dtype(dtype)
        else:
            leaves = list(_flat(obj)) if isinstance(obj, (list, tuple)) else [obj]
            ld = np.result_type(*[_rt(v) for v in leaves])
        a = lift_array(obj, ld)
    else:
        if dtype is float_shim:
            dtype = float
        r = np.array(obj, dtype=dtype) if copy else np.asarray(obj, dtype=dtype)
        if r.dtype.kind in "fiub":
            a = lift_array(r, r.dtype)
        else:
            return r
    while a.ndim < ndmin:
        a = a[None]
    return a


def _c_asarray(obj, dtype=None, order=None, *, copy=None, like=None, **k):
    if isinstance(obj, SymArray) and (dtype is None or norm_dtype(dtype) == obj._ld):
        return obj.copy() if copy else obj
    if isinstance(obj, np.ndarray) and not isinstance(obj, SymArray) and dtype is None:
        return obj
    return _c_array(obj, dtype, copy=True)


def _ld_or(dtype, default=F8):
    return default if dtype is None else norm_dtype(dtype)


def _c_eye(N, M=None, k=0, dtype=float, order="C", **kw):
    r = np.eye(_shape(N), None if M is None else _shape(M), k)
    return lift_array(r, norm_dtype(dtype))


_CREATE = {
    "array": _c_array, "asarray": _c_asarray, "asanyarray": _c_asarray,
    "ascontiguousarray": lambda a, dtype=None, **k: np_ndmin1(_c_asarray(a, dtype)),
    "asfortranarray": lambda a, dtype=None, **k: _c_asarray(a, dtype),
    "require": lambda a, dtype=None, *r, **k: _c_asarray(a, dtype),
    "asarray_chkfinite": lambda a, dtype=None, **k: _c_asarray(a, dtype),
    "zeros": lambda shape, dtype=None, order="C", **k: full(_shape(shape), 0, _ld_or(dtype)),
    "ones": lambda shape, dtype=None, order="C", **k: full(_shape(shape), 1, _ld_or(dtype)),
    "empty": lambda shape, dtype=None, order="C", **k: empty(_shape(shape), _ld_or(dtype)),
    "full": lambda shape, fill_value, dtype=None, order="C", **k: full(
        _shape(shape), fill_value, _ld_or(dtype, _rt(fill_value))),
    "identity": lambda n, dtype=None, **k: _c_eye(n, dtype=dtype),
    "eye": _c_eye,
    "float64": lambda x=0.0: float_shim(x) if isinstance(x, (S, SymArray)) else np.float64(x),
    "isscalar": lambda x: True if isinstance(x, S) else np.isscalar(x),
}


def np_ndmin1(a):
    return a if np.ndim(raw(a) if isinstance(a, SymArray) else a) else _as_sym(a).reshape(1)


class _DTypeCallable:
    """np.float64 as seen by the code: usable as dtype, type and converter."""

    def __init__(self, real):
        self.real = real
        self.dtype = np.dtype(real)


def _fix_kw(kw):
    if kw.get("dtype") is float_shim:
        kw["dtype"] = float
    return kw


class _Forward:
    def __init__(self, fn):
        self.fn = fn
        self.__name__ = getattr(fn, "__name__", "?")

    def __call__(self, *a, **k):
        _fix_kw(k)
        if self.fn in _IMPL and any(_has_sym(x) for x in a):
            return _IMPL[self.fn](*a, **k)
        if any(_has_sym(x) for x in a) or any(_has_sym(x) for x in k.values()):
            if isinstance(self.fn, np.ufunc):
                return do_ufunc(self.fn, "__call__", a, k)
            if type(self.fn).__name__ in ("_ArrayFunctionDispatcher",) or hasattr(self.fn, "__wrapped__"):
                return do_function(self.fn, a, k)
            if self.__name__ in _STRUCT | _ARITHF or self.fn in _IMPL:
                return do_function(self.fn, a, k)
        return self.fn(*a, **k)

    def __getattr__(self, name):
        a = getattr(self.fn, name)
        if isinstance(self.fn, np.ufunc) and name in ("reduce", "accumulate", "outer", "reduceat", "at"):
            def m(*x, **k):
                if any(_has_sym(v) for v in x):
                    if name == "reduce" and len(x) > 1:
                        k.setdefault("axis", x[1])
                        x = x[:1]
                    return do_ufunc(self.fn, name, x, k)
                return a(*x, **k)
            return m
        return a


class _Mod(_types.ModuleType):
    def __init__(self, name, real, over):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__.update(over)
        if hasattr(real, "__path__"):
            self.__dict__["__path__"] = []

    def __getattr__(self, name):
        v = getattr(self._real, name)
        if isinstance(v, _types.ModuleType):
            raise Unsupported(f"numpy.{name}")
        if isinstance(v, type) or not callable(v) or isinstance(v, np.dtype):
            r = v
        else:
            r = _Forward(v)
        self.__dict__[name] = r
        return r


_FACADE = []


def facade():
    if _FACADE:
        return _FACADE[0]
    linalg = _Mod("numpy.linalg", np.linalg, {"LinAlgError": np.linalg.LinAlgError})
    over = dict(_CREATE)
    over.pop("float64")
    over["linalg"] = linalg
    over["float64"] = np.float64
    m = _Mod("numpy", np, over)
    tp = _types.ModuleType("numpy.typing")
    tp.NDArray, tp.ArrayLike, tp.DTypeLike = np.typing.NDArray, np.typing.ArrayLike, np.typing.DTypeLike
    m.__dict__["typing"] = tp
    _FACADE.append(m)
    return m


def math_facade():
    import math
    m = _types.ModuleType("math")
    m.__dict__.update({k: v for k, v in vars(math).items() if not k.startswith("__")})

    def mk(name, f):
        orig = getattr(math, name)
        return lambda x, *a, **k: f(_scalar(x)) if isinstance(x, (S, SymArray)) else orig(x, *a, **k)

    def _scalar(x):
        return x if isinstance(x, S) else x.item()
    m.sqrt = mk("sqrt", lambda s: s.sqrt())
    m.isnan = mk("isnan", lambda s: B(s.nan))
    m.isfinite = mk("isfinite", lambda s: B(t.bnot(s.nan)))
    m.isinf = mk("isinf", lambda s: False)
    m.fabs = mk("fabs", abs)
    for n in ("exp", "log", "sin", "cos", "tan", "tanh"):
        m.__dict__[n] = mk(n, lambda s, n=n: getattr(s, n)())
    m.atan = mk("atan", lambda s: s.arctan())
    m.asin, m.acos = mk("asin", lambda s: s._uf("!arcsin")), mk("acos", lambda s: s._uf("!arccos"))
    m.atan2 = lambda y, x: _uf2("!arctan2", *(_scalar(v) if isinstance(v, (S, SymArray)) else v for v in (y, x))) \
        if any(isinstance(v, (S, SymArray)) for v in (y, x)) else math.atan2(y, x)
    return m
