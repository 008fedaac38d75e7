"""Hash-consed symbolic terms: the values the code under test computes with.

A real-valued term is a Node over exact rationals; a symbolic scalar `S` pairs
such a value with a Boolean node telling whether the scalar is NaN.  Truth
values are `B`; asking one for its Python truth value makes the explorer fork.
"""
from fractions import Fraction

import numpy as np


class Unsupported(BaseException):
    """The encoding does not cover an operation the code performed.

    Deliberately not an `Exception`, so code under test cannot swallow it.
    """


class Node:
    __slots__ = ("op", "args", "nid", "val")

    def __init__(self, op, args, nid, val=None):
        self.op, self.args, self.nid, self.val = op, args, nid, val

    def __repr__(self):
        if self.op == "c":
            return str(self.val)
        if self.op in ("v", "bv"):
            return str(self.val)
        head = f"{self.op}:{self.val}" if self.val is not None else self.op
        return f"({head} {' '.join(map(repr, self.args))})"


_TABLE = {}
_NODES = []


def _mk(op, args=(), val=None):
    key = (op, tuple(a.nid for a in args), val)
    n = _TABLE.get(key)
    if n is None:
        n = Node(op, tuple(args), len(_NODES), val)
        _TABLE[key] = n
        _NODES.append(n)
    return n


def node_count():
    return len(_NODES)


def reset():
    """Forget every term (between independent scenarios), keep true/false/0/1."""
    _TABLE.clear()
    _NODES.clear()
    for op, args, val, name in _CORE:
        n = globals().get(name)
        if n is None:
            n = Node(op, args, 0, val)
            globals()[name] = n
        n.nid = len(_NODES)
        _TABLE[(op, (), val)] = n
        _NODES.append(n)


_CORE = [
    ("true", (), None, "TRUE"),
    ("false", (), None, "FALSE"),
    ("c", (), Fraction(0), "ZERO"),
    ("c", (), Fraction(1), "ONE"),
]
TRUE = FALSE = ZERO = ONE = None
reset()


def const(x):
    return _mk("c", (), Fraction(x))


def var(name):
    return _mk("v", (), name)


def bvar(name):
    return _mk("bv", (), name)


def add(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.val + b.val)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return _mk("+", (a, b) if a.nid <= b.nid else (b, a))


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.val * b.val)
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if b.op == "c":
        a, b = b, a
    if a.op == "c" and b.op == "*" and b.args[0].op == "c":
        return mul(const(a.val * b.args[0].val), b.args[1])
    if a.op != "c" and b.nid < a.nid:
        a, b = b, a
    return _mk("*", (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def inv(a):
    if a.op == "c":
        if a.val == 0:
            raise Unsupported("division by the constant zero")
        return const(1 / a.val)
    if a.op == "inv":
        return a.args[0]
    return _mk("inv", (a,))


def uf(name, args):
    return _mk("uf", tuple(args), name)


def mk_like(n, args):
    """The node `n` with its children replaced (folding constants again)."""
    op = n.op
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "inv":
        return inv(*args)
    if op == "uf":
        return uf(n.val, args)
    if op == "not":
        return bnot(*args)
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "le":
        return ble(*args)
    if op == "lt":
        return blt(*args)
    if op == "eq":
        return beq(*args)
    return n


# ---------------------------------------------------------------- Booleans
def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,))


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return _mk("and", (a, b) if a.nid <= b.nid else (b, a))


def bor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return _mk("or", (a, b) if a.nid <= b.nid else (b, a))


def ble(a, b):
    if a.op == "c" and b.op == "c":
        return TRUE if a.val <= b.val else FALSE
    if a is b:
        return TRUE
    return _mk("le", (a, b))


def blt(a, b):
    if a.op == "c" and b.op == "c":
        return TRUE if a.val < b.val else FALSE
    if a is b:
        return FALSE
    return _mk("lt", (a, b))


def beq(a, b):
    if a.op == "c" and b.op == "c":
        return TRUE if a.val == b.val else FALSE
    if a is b:
        return TRUE
    return _mk("eq", (a, b) if a.nid <= b.nid else (b, a))


def bconst(x):
    return TRUE if x else FALSE


def cone(roots, stop=None):
    """All nodes below `roots`, in an order where children come first."""
    seen, todo = {}, list(roots)
    while todo:
        n = todo.pop()
        if n.nid in seen:
            continue
        seen[n.nid] = n
        if stop is not None and n in stop:
            continue
        todo.extend(n.args)
    return [seen[i] for i in sorted(seen)]


# ------------------------------------------------- opaque real functions
# name -> evaluator on floats; in the solver they are uninterpreted (sqrt gets
# its defining axioms), in a concrete evaluation they are computed.
import math

OPAQUE = {
    "!sqrt": lambda x: math.sqrt(x) if x >= 0 else float("nan"),
    "!trunc": lambda x: Fraction(math.trunc(x)),
    "!floor": lambda x: Fraction(math.floor(x)),
    "!round": lambda x: Fraction(round(x)),
    "!wrap": lambda x, lo, span: (math.floor(x) - lo) % span + lo,
    "!f32": lambda x: Fraction(float(np.float32(float(x)))),
    "!f16": lambda x: Fraction(float(np.float16(float(x)))),
    "!exp": lambda x: math.exp(x),
    "!log": lambda x: math.log(x) if x > 0 else float("nan"),
    "!sin": lambda x: math.sin(x),
    "!cos": lambda x: math.cos(x),
    "!tan": lambda x: math.tan(x),
    "!tanh": lambda x: math.tanh(x),
    "!arctan": lambda x: math.atan(x),
    "!arctan2": lambda y, x: math.atan2(y, x),
    "!arcsin": lambda x: math.asin(x) if abs(x) <= 1 else float("nan"),
    "!arccos": lambda x: math.acos(x) if abs(x) <= 1 else float("nan"),
    "!cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
}


def _matfun(fn):
    def ev(*xs):
        k = math.isqrt(len(xs))
        return float(fn(np.array([float(x) for x in xs]).reshape(k, k)))
    return ev


def _pinv_entry(tol, k, rows, *xs):
    m = np.array([float(x) for x in xs]).reshape(int(rows), -1)
    if not np.isfinite(m).all():
        return float("nan")
    return float(np.linalg.pinv(m, float(tol)).reshape(-1)[int(k)])


OPAQUE["!pinv"] = _pinv_entry
OPAQUE["!svd"] = lambda k, rows, *xs: float(np.linalg.svd(
    np.array([float(x) for x in xs]).reshape(int(rows), -1), compute_uv=False)[int(k)])
OPAQUE["!cond"] = _matfun(np.linalg.cond)
OPAQUE["!rank"] = _matfun(np.linalg.matrix_rank)
OPAQUE["!norm2"] = _matfun(lambda m: np.linalg.norm(m, 2))
for _i in range(6):
    OPAQUE[f"!eigh{_i}"] = _matfun(lambda m, i=_i: np.linalg.eigvalsh(m)[i])


def evaluate(roots, values, ufs=None):
    """Exact value of every node below roots; `values` maps variable names."""
    out = {}
    for n in cone(roots):
        a = [out[x.nid] for x in n.args]
        op = n.op
        if op == "c":
            r = n.val
        elif op in ("v", "bv"):
            r = values[n.val]
        elif op == "+":
            r = a[0] + a[1]
        elif op == "*":
            r = a[0] * a[1]
            if isinstance(r, Fraction) and r.numerator.bit_length() > 200000:
                raise OverflowError("number too long")
        elif op == "inv":
            r = 1 / a[0]
        elif op == "uf":
            if n.val in OPAQUE:
                r = OPAQUE[n.val](*a)
            else:
                r = ufs(n.val, a)
        elif op == "true":
            r = True
        elif op == "false":
            r = False
        elif op == "not":
            r = not a[0]
        elif op == "and":
            r = a[0] and a[1]
        elif op == "or":
            r = a[0] or a[1]
        elif op == "le":
            r = a[0] <= a[1]
        elif op == "lt":
            r = a[0] < a[1]
        elif op == "eq":
            r = a[0] == a[1]
        else:
            raise AssertionError(op)
        out[n.nid] = r
    return out


# ------------------------------------------------------------- context
class _Ctx:
    cur = None


def ctx():
    if _Ctx.cur is None:
        raise Unsupported("symbolic value used outside a symbolic run")
    return _Ctx.cur


F8 = np.dtype("f8")
I8 = np.dtype("i8")
BOOL = np.dtype("?")


class B:
    """Symbolic truth value."""

    __slots__ = ("n",)
    __array_priority__ = 2000

    def __init__(self, n):
        self.n = n

    dtype = BOOL
    shape = ()
    ndim = 0
    size = 1

    def __bool__(self):
        if self.n is TRUE:
            return True
        if self.n is FALSE:
            return False
        return ctx().decide(self.n)

    def all(self, *a, **k):
        return self

    any = all

    def item(self):
        return self

    def copy(self):
        return self

    @staticmethod
    def node(o):
        if isinstance(o, B):
            return o.n
        if isinstance(o, (bool, np.bool_)):
            return TRUE if o else FALSE
        if isinstance(o, S):
            return o._truth().n
        return TRUE if o else FALSE

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return B(f(self.n, B.node(o)))

    def __and__(self, o):
        return self._bin(o, band)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, bor)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: bor(band(a, bnot(b)), band(bnot(a), b)))

    __rxor__ = __xor__

    def __invert__(self):
        return B(bnot(self.n))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_, B)):
            return ~(self ^ o)
        return self._num() == o

    def __ne__(self, o):
        if isinstance(o, (bool, np.bool_, B)):
            return self ^ o
        return self._num() != o

    def __hash__(self):
        return hash(bool(self))

    # arithmetic on a truth value forks on it
    def _num(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return self._num()

    __index__ = __int__

    def __float__(self):
        return float(self._num())

    def __add__(self, o):
        return o + self._num() if not isinstance(o, B) else self._num() + o._num()

    __radd__ = __add__

    def __mul__(self, o):
        return o * self._num() if not isinstance(o, B) else self._num() * o._num()

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __lt__(self, o):
        return self._num() < o

    def __le__(self, o):
        return self._num() <= o

    def __gt__(self, o):
        return self._num() > o

    def __ge__(self, o):
        return self._num() >= o

    def __repr__(self):
        return f"B{self.n!r}"


_PYNUM = (int, float, Fraction, np.integer, np.floating, np.bool_)


def is_pynum(o):
    return isinstance(o, _PYNUM)


class S:
    """Symbolic scalar: a real term and a NaN flag, plus the NumPy dtype it
    stands for.  Infinities are not represented (see DESIGN.md)."""

    __slots__ = ("v", "nan", "ld")
    __array_priority__ = 2000

    def __init__(self, v, nan=FALSE, ld=F8):
        self.v, self.nan, self.ld = v, nan, ld

    # -- numpy-scalar look-alike
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return self.ld

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self, *a):
        return self

    def copy(self):
        return self

    def transpose(self, *a):
        return self

    def conj(self):
        return self

    conjugate = conj

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr
        return arr.do_function(func, args, kwargs)

    def _arr(self):
        from . import arr
        return arr.scalar_array(self)

    def reshape(self, *a):
        return self._arr().reshape(*a)

    def ravel(self, *a):
        return self._arr().ravel()

    def flatten(self, *a):
        return self._arr().flatten()

    def astype(self, dt, **k):
        from . import arr
        return arr.cast(self, arr.norm_dtype(dt))

    def all(self, *a, **k):
        return self._truth()

    any = all

    def sum(self, *a, **k):
        return self

    max = min = mean = trace = squeeze = sum

    def __getitem__(self, idx):
        if idx is Ellipsis or idx == ():
            return self
        if idx is None or isinstance(idx, tuple):
            return self._arr()[idx]
        raise IndexError("invalid index to scalar variable.")

    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")

    # -- conversions
    def is_const(self):
        return self.v.op == "c" and self.nan in (TRUE, FALSE)

    def pyval(self):
        if self.nan is TRUE:
            return float("nan")
        if self.v.op == "c" and self.nan is FALSE:
            return self.v.val
        raise Unsupported("a symbolic number was turned into a Python number")

    def __float__(self):
        return float(self.pyval())

    def __int__(self):
        return int(self.pyval())

    def __index__(self):
        x = self.pyval()
        if self.ld.kind not in "iub":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(x)

    def __round__(self, k=0):
        raise Unsupported("round")

    # -- lifting
    @staticmethod
    def lift(o, ld=None):
        if isinstance(o, S):
            return o
        if isinstance(o, B):
            o = o._num()
        if isinstance(o, (bool, np.bool_)):
            return S(ONE if o else ZERO, FALSE, ld or BOOL)
        if isinstance(o, (int, np.integer)):
            return S(const(int(o)), FALSE, ld or (o.dtype if isinstance(o, np.integer) else I8))
        if isinstance(o, Fraction):
            return S(const(o), FALSE, ld or F8)
        if isinstance(o, (float, np.floating)):
            d = ld or (o.dtype if isinstance(o, np.floating) else F8)
            if o != o:
                return S(ZERO, TRUE, d)
            if o in (float("inf"), float("-inf")):
                return Inf(1 if o > 0 else -1)
            return S(const(Fraction(float(o))), FALSE, d)
        if isinstance(o, Inf):
            return o
        raise Unsupported(f"cannot lift {type(o)}")

    def _ld(self, o, op):
        from . import arr
        return arr.binop_ld(op, self, o)

    def _bin(self, o, f, op, swap=False):
        if isinstance(o, (np.ndarray, Inf)):
            return NotImplemented
        try:
            s = S.lift(o)
        except Unsupported:
            return NotImplemented
        if isinstance(s, Inf):
            if op == "add":
                return s
            raise Unsupported("arithmetic with infinity")
        a, b = (s, self) if swap else (self, s)
        ld = self._ld(o, op)
        r = S(f(a.v, b.v), bor(a.nan, b.nan), ld)
        return _round_ld(r)

    def __add__(self, o):
        return self._bin(o, add, "add")

    def __radd__(self, o):
        return self._bin(o, add, "add", True)

    def __sub__(self, o):
        return self._bin(o, sub, "subtract")

    def __rsub__(self, o):
        return self._bin(o, sub, "subtract", True)

    def __mul__(self, o):
        return self._bin(o, mul, "multiply")

    def __rmul__(self, o):
        return self._bin(o, mul, "multiply", True)

    def __truediv__(self, o):
        return self._bin(o, _div, "true_divide")

    def __rtruediv__(self, o):
        return self._bin(o, _div, "true_divide", True)

    def __neg__(self):
        return S(neg(self.v), self.nan, self.ld)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.v.op == "c":
            return S(const(abs(self.v.val)), self.nan, self.ld)
        if bool(B(band(bnot(self.nan), blt(self.v, ZERO)))):
            return -self
        return self

    def __pow__(self, k):
        if isinstance(k, S) and k.is_const():
            k = k.pyval()
        if isinstance(k, _PYNUM) and float(k) == int(k) and abs(k) <= 8:
            k = int(k)
            base = self if k >= 0 else 1 / self
            r = S(ONE, FALSE, self.ld)
            for _ in range(abs(k)):
                r = r * base
            return r
        if isinstance(k, _PYNUM) and float(k) == 0.5:
            return self.sqrt()
        raise Unsupported(f"power {k!r}")

    def _uf(self, name):
        return _round_ld(S(uf(name, (self.v,)), self.nan, self.ld if self.ld.kind == "f" else F8))

    def sqrt(self):
        if self.v.op == "c" and self.v.val >= 0:
            import math as m
            q = self.v.val
            a, b = m.isqrt(q.numerator), m.isqrt(q.denominator)
            if a * a == q.numerator and b * b == q.denominator:
                return S(const(Fraction(a, b)), self.nan, F8)
        if bool(B(band(bnot(self.nan), blt(self.v, ZERO)))):
            return S(ZERO, TRUE, F8)
        return self._uf("!sqrt")

    def exp(self):
        return self._uf("!exp")

    def log(self):
        return self._uf("!log")

    def sin(self):
        return self._uf("!sin")

    def cos(self):
        return self._uf("!cos")

    def tan(self):
        return self._uf("!tan")

    def tanh(self):
        return self._uf("!tanh")

    def arctan(self):
        return self._uf("!arctan")

    # -- comparisons
    def _cmp(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        if o is None:
            return NotImplemented
        try:
            o = S.lift(o)
        except Unsupported:
            return NotImplemented
        if isinstance(o, Inf):
            return NotImplemented
        return B(band(band(bnot(self.nan), bnot(o.nan)), f(self.v, o.v)))

    def __lt__(self, o):
        if isinstance(o, (float, np.floating)) and o in (float("inf"), float("-inf")):
            return B(bnot(self.nan)) if o > 0 else False
        return self._cmp(o, blt)

    def __le__(self, o):
        if isinstance(o, (float, np.floating)) and o in (float("inf"), float("-inf")):
            return B(bnot(self.nan)) if o > 0 else False
        return self._cmp(o, ble)

    def __gt__(self, o):
        if isinstance(o, (float, np.floating)) and o in (float("inf"), float("-inf")):
            return B(bnot(self.nan)) if o < 0 else False
        return self._cmp(o, lambda a, b: blt(b, a))

    def __ge__(self, o):
        if isinstance(o, (float, np.floating)) and o in (float("inf"), float("-inf")):
            return B(bnot(self.nan)) if o < 0 else False
        return self._cmp(o, lambda a, b: ble(b, a))

    def __eq__(self, o):
        if isinstance(o, (float, np.floating)) and o in (float("inf"), float("-inf")):
            return False
        r = self._cmp(o, beq)
        return r

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        if isinstance(r, B):
            return ~r
        return not r

    def __hash__(self):
        # the same for all, so that a dictionary asks __eq__, which forks
        return hash(self.v.val) if self.v.op == "c" and self.nan is FALSE else 7919

    def _truth(self):
        return B(bor(self.nan, bnot(beq(self.v, ZERO))))

    def __bool__(self):
        return bool(self._truth())

    def isnan(self):
        return B(self.nan)

    def __repr__(self):
        if self.nan is TRUE:
            return "S(nan)"
        return f"S({self.v!r}{'' if self.nan is FALSE else '|nan? ' + repr(self.nan)})"


class Inf:
    """Placeholder for an infinite constant: only ever compared against."""

    __slots__ = ("sign",)
    ld = F8

    def __init__(self, sign):
        self.sign = sign

    def __neg__(self):
        return Inf(-self.sign)

    def __lt__(self, o):
        return float("inf") * self.sign < o if not isinstance(o, S) else (o > float("inf") * self.sign)

    def __gt__(self, o):
        return o < float("inf") * self.sign

    def __le__(self, o):
        return o >= float("inf") * self.sign

    def __ge__(self, o):
        return o <= float("inf") * self.sign

    def _no(self, *a):
        raise Unsupported("arithmetic with infinity")

    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _no
    __truediv__ = __rtruediv__ = _no

    def __float__(self):
        return float("inf") * self.sign

    def __bool__(self):
        return True


def _div(a, b):
    if b.op != "c":
        c = _Ctx.cur
        if c is not None:
            c.assume_nonzero(b)
    elif b.val == 0:
        raise Unsupported("division by the constant zero")
    return mul(a, inv(b))


def wrap_int(s, ld):
    """Two's complement wrap-around into a narrower integer type."""
    info = np.iinfo(ld)
    lo, span = int(info.min), int(info.max) - int(info.min) + 1
    if s.v.op == "c":
        return S(const((int(s.v.val) - lo) % span + lo), s.nan, ld)
    if s.v.op == "uf" and s.v.val == "!wrap" and s.v.args[1].val == lo and s.v.args[2].val == span:
        return S(s.v, s.nan, ld)
    return S(uf("!wrap", (s.v, const(lo), const(span))), s.nan, ld)


def _round_ld(s):
    if s.ld.kind in "iu" and (s.ld.itemsize < 8 or s.ld.kind == "u"):
        return wrap_int(s, s.ld)
    if s.ld.kind == "f" and s.ld.itemsize < 8 and s.v.op != "c":
        name = "!f32" if s.ld.itemsize == 4 else "!f16"
        if not (s.v.op == "uf" and s.v.val == name):
            return S(uf(name, (s.v,)), s.nan, s.ld)
    if s.ld.kind == "f" and s.ld.itemsize < 8:
        return S(const(OPAQUE["!f32" if s.ld.itemsize == 4 else "!f16"](s.v.val)) if s.v.op == "c" else s.v, s.nan, s.ld)
    return s
