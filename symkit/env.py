"""The environment a scenario runs in: symbolic (SymEnv) or concrete (ConcEnv).

A scenario is ordinary Python that drives the public API and states what must
hold.  Both environments name their inputs identically, so a solver model found
symbolically replays on the real package without translation.
"""
import itertools
import os
import sys
from fractions import Fraction

import numpy as np

from . import template
from .spec import det


def names(name, shape):
    if shape == ():
        return [name]
    return [f"{name}[{','.join(map(str, i))}]" for i in np.ndindex(*shape)]


def rnd(rng, scale):
    k = 0
    while k == 0:
        k = rng.randint(-16 * scale, 16 * scale)
    return Fraction(k, 8)


def rnd_int(rng, scale):
    k = 0
    while k == 0:
        k = rng.randint(-4 * scale, 4 * scale)
    return Fraction(k)


def peculiar(rng, d, ns, shape, cov=False):
    """Once in a while, inputs of a peculiar form: unchanging, diagonal, ..."""
    if rng.randrange(8) == 0:
        tiny = {n: Fraction(rng.randint(1, 2**20), 2**30) for n in sorted(ns)}  # needs all of a double's digits
        for i, n in zip(np.ndindex(*shape), ns):
            if not cov or len(shape) < 2 or i[-1] == i[-2]:
                d[n] += tiny.pop(n, 0)
        return d
    if len(ns) < 2 or rng.randrange(7):
        return d
    where = dict(zip(np.ndindex(*shape), ns))
    square = len(shape) > 1 and shape[-1] == shape[-2] > 1
    if cov and len(shape) == 2 and not square:
        return d
    kind = rng.choice((("still",) * 2 if not cov or len(shape) != 2 else ()) + (("diagonal", "scalar", "unit") if square else ())
                      + (() if cov else ("same", "holes") + (("symmetric", "triangular") if square else ())))
    for i, n in where.items():
        if n + "?nan" in d:
            continue
        if square and kind in ("diagonal", "scalar", "unit", "triangular"):
            r, c = i[-2:]
            if r > c or r < c and kind != "triangular":
                d[n] = Fraction(0)
            elif r == c and kind != "triangular" and kind != "diagonal":
                d[n] = d[where[i[:-2] + (0, 0)]] if kind == "scalar" else Fraction(1)
        elif kind == "still":
            d[n] = d[where[(0,) + i[1:]]]
        elif kind == "same":
            d[n] = d[ns[0]]
        elif kind == "holes" and not rng.randrange(3):
            d[n] = Fraction(0)
        elif kind == "symmetric":
            d[n] = d[where[i[:-2] + tuple(sorted(i[-2:]))]]
    return d


def minors(m, k):
    """All principal minors of size k."""
    return [det([[m[i][j] for j in c] for i in c]) for c in itertools.combinations(range(len(m)), k)]


def about_covariance(label):
    """Whether a label names a covariance: compared on the covariances' scale."""
    return "covarian" in label or "errors" in label


class BaseEnv:
    def __init__(self):
        self.groups = []
        self.validity = []
        self.int_vars = set()
        self.cov_names = []
        self.cov_groups = set()

    # ---------------------------------------------------------------- inputs
    def real(self, name, shape, dtype="f8", nan=None, sample=None):
        """Array of arbitrary reals.  nan=None: no NaN; 'each': every element
        may independently be NaN; 'all': NaN throughout."""
        ns = names(name, shape)
        ints = np.dtype(dtype).kind in "iu"
        pick = sample or (rnd_int if ints else rnd)

        def g(rng, scale):
            d = {n: pick(rng, scale) for n in ns}
            if nan == "each":
                mode = rng.randint(0, 2)
                for n in ns:
                    d[n + "?nan"] = bool(mode == 1 or (mode == 2 and rng.randint(0, 1)))
            return d if ints else peculiar(rng, d, ns, shape)
        self.groups.append(g)
        if ints:
            self.int_vars.update(ns)
        return self._leaf(ns, shape, dtype, nan)

    def flag(self, name):
        """An arbitrary truth value (every outcome is explored)."""
        self.groups.append(lambda rng, scale: {name: bool(rng.randint(0, 1))})
        return self._flag(name)

    def choice(self, name, k):
        """An arbitrary index below k (every value is explored)."""
        def g(rng, scale):
            j = rng.randrange(k)
            return {f"{name}={i}": i == j for i in range(k - 1)}
        self.groups.append(g)
        for i in range(k - 1):
            if self._flag(f"{name}={i}"):
                return i
        return k - 1

    def pos(self, name, shape):
        """Array of arbitrary positive reals."""
        ns = names(name, shape)
        self.groups.append(lambda rng, scale: peculiar(
            rng, {n: Fraction(rng.randint(2, 16 * scale), 8) for n in ns}, ns, shape, cov=True))
        a = self._leaf(ns, shape, "f8", None)
        for n in ns:
            self._assume_pos(n)
        self.validity.append((ns, lambda v, ns=ns: [v(n) > 0 for n in ns]))
        return a

    def cov(self, name, n, N=None, dtype="f8", full=False, semi=False):
        """Covariance: symmetric n x n (or a stack of N).  Symbolically any
        symmetric matrix; as concrete input always positive definite (`semi`:
        semidefinite, sometimes singular).  `full` drops the symmetry."""
        lead = [()] if N is None else [(k,) for k in range(N)]
        shape = (n, n) if N is None else (N, n, n)

        def nm(k, i, j):
            i, j = (i, j) if full else (min(i, j), max(i, j))
            return f"{name}[{','.join(map(str, k + (i, j)))}]"
        allns = [nm(k, i, j) for k in lead for i in range(n) for j in range(n)]

        def g(rng, scale):
            d = {}
            for k in lead:
                if np.dtype(dtype).kind in "iu":
                    L = [[rng.randint(-1, 2) for _ in range(n)] for _ in range(n)]
                    eps = 1
                else:
                    L = [[Fraction(rng.randint(-6, 6), 8) * scale for _ in range(n)] for _ in range(n)]
                    eps = Fraction(rng.randint(2, 8), 8)
                    if semi and scale > 1:
                        eps = Fraction(0)
                        for q in rng.sample(range(n), rng.randint(0, n)):
                            for r in L:
                                r[q] = Fraction(0)
                for i in range(n):
                    for j in range(i, n):
                        d[nm(k, i, j)] = Fraction(sum(L[i][q] * L[j][q] for q in range(n)) + (eps if i == j else 0))
                        if full:
                            d[nm(k, j, i)] = d[nm(k, i, j)]
            return d if np.dtype(dtype).kind in "iu" else peculiar(rng, d, allns, shape, cov=True)
        self.cov_groups.add(len(self.groups))
        self.groups.append(g)
        self.cov_names += allns
        if np.dtype(dtype).kind in "iu":
            self.int_vars.update(allns)
        for k in lead:
            ns = [nm(k, i, j) for i in range(n) for j in range(n)]

            def mk(v, k=k):
                m = [[v(nm(k, i, j)) for j in range(n)] for i in range(n)]
                if semi and n <= 3:
                    c = [d >= 0 for k in range(1, n + 1) for d in minors(m, k)]
                else:
                    c = [det([r[:k] for r in m[:k]]) > 0 for k in range(1, n + 1)]
                if full:
                    c += [m[i][j] == m[j][i] for i in range(n) for j in range(i)]
                return c
            self.validity.append((ns, mk))
        return self._leaf(allns, shape, dtype, None)

    def param(self, v):
        return v


def _sum(xs):
    acc = xs[0]
    for x in xs[1:]:
        acc = acc + x
    return acc


# =================================================================== concrete
class ConcEnv(BaseEnv):
    symbolic = False

    def __init__(self, values):
        super().__init__()
        self.values = values
        import kalmankit
        self.kit = kalmankit
        self.np = np
        self.mismatches = []
        self.outputs, self.expected, self.scales = {}, {}, {}
        self.mag = 1.0
        self.worst = 0.0

    def _val(self, n):
        x = float(self.values[n])
        self.mag = max(self.mag, abs(x))
        return x

    def _leaf(self, ns, shape, dtype, nan):
        vals = []
        for n in ns:
            x = self._val(n)
            if nan == "all" or (nan == "each" and self.values[n + "?nan"]):
                x = float("nan")
            vals.append(x)
        a = np.array(vals, dtype="f8").reshape(shape)
        return a.astype(dtype) if np.dtype(dtype) != a.dtype else a

    def _assume_pos(self, n):
        pass

    def _flag(self, n):
        return bool(self.values.get(n, False))

    def _scalar(self, n):
        return Fraction(self._val(n))

    def scalar(self, name, kind="pos"):
        if kind == "pos":
            return float(self.pos(name, ()))
        return float(self.real(name, ()))

    def zero(self):
        return Fraction(0)

    def array(self, nested, dtype="f8"):
        return np.array(_floats(nested), dtype="f8").astype(dtype)

    def vals(self, a):
        """Exact nested-list copy of an array (floats become rationals)."""
        if isinstance(a, (list, tuple)):
            return [self.vals(x) for x in a]
        return _map(np.asarray(a).tolist(), _exact)

    def fn(self, name, shape, wrap=None):
        """An arbitrary function of its array arguments (a fixed one here)."""
        size = int(np.prod(shape)) if shape else 1

        def f(*args):
            flat = [_num(x) for a in args for x in np.asarray(a, dtype=object).reshape(-1).tolist()]
            vals = [template.value(f"{name}.{i}", flat) for i in range(size)]
            if any(isinstance(x, Fraction) for x in vals):
                return _nest(vals, shape)
            return np.array([float(x) for x in vals]).reshape(shape) if shape != () else np.float64(vals[0])
        return f

    def fn_spec(self, name, shape):
        size = int(np.prod(shape)) if shape else 1

        def f(*args):
            flat = [x for a in args for x in _flat(a)]
            return _nest([template.value(f"{name}.{i}", flat) for i in range(size)], shape)
        return f

    def nan(self):
        return float("nan")

    def isnan(self, v):
        return bool(v != v)

    def all_nan(self, vals):
        return all(v != v for v in vals)

    # ------------------------------------------------------------ obligations
    def eq(self, label, actual, expected, tol=1e-9):
        a = np.asarray(actual)
        if a.dtype == object:
            a = np.array(_floats(a.tolist()))
        e = np.array(_floats(expected if isinstance(expected, (list, tuple)) else np.asarray(expected).tolist()), dtype=float)
        if a.shape != e.shape:
            self.bad(label, f"shape {a.shape}, expected {e.shape}")
            return
        a = a.astype(float)
        self.outputs[label] = [float(x) for x in a.reshape(-1)]
        top = max([abs(x) for x in e.reshape(-1) if x == x and abs(x) != np.inf] + [0])
        if about_covariance(label) and self.cov_names:
            scale = max(top, self.cov_unit(), 1e-150)
        else:
            scale = max(1 + top, self.mag)
        self.expected[label] = [float(x) for x in e.reshape(-1)]
        self.scales[label] = scale
        worst, first, count = 0.0, None, 0
        for i, (x, y) in enumerate(zip(a.reshape(-1), e.reshape(-1))):
            if x != x and y != y:
                continue
            err = np.inf if (x != x) != (y != y) or np.isinf(x) != np.isinf(y) else abs(x - y) / scale
            if err > tol:
                count += 1
                if err > worst:
                    first = (i, float(x), float(y))
            worst = max(worst, err)
        self.worst = max(self.worst, worst if worst <= tol else 0.0)
        if first:
            i, x, y = first
            self.bad(label, f"element {i}: got {x!r}, expected {y!r} ({count} of {a.size} differ)", worst)

    def cov_unit(self):
        return max(abs(float(self.values[n])) for n in self.cov_names)

    def bad(self, label, what, err=np.inf):
        self.mismatches.append([label, what, float(min(err, 1e300))])

    same = eq

    def true(self, label, cond, note=""):
        if not bool(cond):
            self.bad(label, note or "false")

    def psd(self, label, M, terms, *steps, free=(), tol=1e-8):
        m = np.array(_floats(self.vals(M)), dtype=float)
        self.outputs[label] = [float(x) for x in m.reshape(-1)]
        if not np.isfinite(m).all():
            self.bad(label, "not finite")
            return
        sc = max(np.abs(m).max(), self.cov_unit()) if self.cov_names else 1 + max(np.abs(m).max(), self.mag)
        if np.abs(m - m.T).max() > tol * sc:
            self.bad(label, f"not symmetric: {m.tolist()}")
        w = np.linalg.eigvalsh((m + m.T) / 2)[0]
        if w < -tol * sc:
            self.bad(label, f"not positive semidefinite: eigenvalue {w!r} of {m.tolist()}")

    def finish(self):
        pass

    def regular(self, label, *mats):
        pass  # a singular system makes the real code raise

    def ge0(self, label, x, tol=1e-7):
        x = float(x)
        self.outputs[label] = [x]
        if not x >= -tol * (1 + self.mag ** 2):
            self.bad(label, f"negative: {x!r}")

    def gt0(self, label, x):
        x = float(x)
        if not x > 0:
            self.bad(label, f"not positive: {x!r}")

    def holds(self, label, cond):
        if not bool(cond):
            self.bad(label, "false")

    def cond(self, c):
        return bool(c)

    def mark(self, *vals):
        pass

    hint = step = mark

    def assume(self, c):
        if not bool(c):
            raise AssertionError("model outside the assumptions")

    def freeze(self, *arrays):
        for a in arrays:
            a.flags.writeable = False


def _exact(x):
    if isinstance(x, (Fraction, bool)):
        return x
    x = float(x) if not isinstance(x, int) else x
    if x != x or x in (float("inf"), float("-inf")):
        return x
    return Fraction(x)


def _num(x):
    return x if isinstance(x, Fraction) else float(x)


def _map(x, f):
    if isinstance(x, list):
        return [_map(v, f) for v in x]
    return f(x)


def _floats(x):
    if isinstance(x, (list, tuple)):
        return [_floats(v) for v in x]
    if isinstance(x, np.ndarray):
        return _floats(x.tolist())
    return float(x)


def _flat(x):
    if isinstance(x, (list, tuple)):
        for v in x:
            yield from _flat(v)
    elif isinstance(x, np.ndarray):
        yield from x.reshape(-1).tolist()
    else:
        yield x


def _nest(vals, shape):
    if shape == ():
        return vals[0]
    if len(shape) == 1:
        return list(vals)
    step = len(vals) // shape[0]
    return [_nest(vals[i * step:(i + 1) * step], shape[1:]) for i in range(shape[0])]
