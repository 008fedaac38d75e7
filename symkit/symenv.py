"""Symbolic counterpart of ConcEnv (imports z3 machinery; not for replay)."""
import sys
from fractions import Fraction

import numpy as np

from . import arr, spec, template
from . import terms as t
from .engine import Obl, Pos, Psd
from .env import BaseEnv, _flat, _nest
from .terms import B, S


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, ctx, kit):
        super().__init__()
        self.ctx = ctx
        self.kit = kit
        self.np = arr.facade()
        self.obls = []
        self.marks = []
        self.hints = []
        self.uf_names = set()
        self.known, self.definite = set(), set()
        self.pd_dets, self.reg_label = [], None

    # ---------------------------------------------------------------- inputs
    def _leaf(self, ns, shape, dtype, nan):
        ld = np.dtype(dtype)
        o = np.empty(shape, dtype=object)
        f = o.reshape(-1)
        for i, n in enumerate(ns):
            flag = t.FALSE
            if nan == "all":
                flag = t.TRUE
            elif nan == "each":
                flag = t.bvar(n + "?nan")
            f[i] = S(t.var(n), flag, ld)
        return arr.wrap(o, ld)

    def _assume_pos(self, n):
        self.ctx.assume(t.blt(t.ZERO, t.var(n)))

    def cov(self, name, n, N=None, semi=False, **k):
        a = super().cov(name, n, N, semi=semi, **k)
        v = self.vals(a)
        for m in [v] if N is None else v:
            self.known.add(_key(m))
            if not semi:
                self.definite.add(_key(m))
        return a

    def _scalar(self, n):
        return S(t.var(n))

    def _flag(self, n):
        return bool(B(t.bvar(n)))

    def scalar(self, name, kind="pos"):
        a = self.pos(name, ()) if kind == "pos" else self.real(name, ())
        return arr.raw(a)[()]

    def zero(self):
        return S(t.ZERO)

    def array(self, nested, dtype="f8"):
        return arr.lift_array(nested, np.dtype(dtype))

    def vals(self, a):
        if isinstance(a, (list, tuple)):
            return [self.vals(x) for x in a]
        if isinstance(a, np.ndarray):
            return _mapl(arr.to_obj(a).tolist(), S.lift)
        return S.lift(a)

    def _args(self, flat):
        nodes = []
        for x in flat:
            x = S.lift(x)
            if x.nan is t.TRUE:
                nodes.append(t.const(template.NAN_ARG))
            elif x.nan is t.FALSE:
                nodes.append(x.v)
            else:
                nodes.append(t.const(template.NAN_ARG) if bool(B(x.nan)) else x.v)
        return nodes

    def fn(self, name, shape):
        size = int(np.prod(shape)) if shape else 1

        def f(*args):
            if any(isinstance(a, list) for a in args):
                return self.fn_spec(name, shape)(*args)
            nodes = self._args([x for a in args for x in arr.to_obj(a).reshape(-1)])
            vals = [S(t.uf(f"{name}.{i}", nodes)) for i in range(size)]
            if shape == ():
                return vals[0]
            return arr.lift_array(_nest(vals, shape), arr.F8)
        return f

    def fn_spec(self, name, shape):
        size = int(np.prod(shape)) if shape else 1

        def f(*args):
            nodes = self._args([x for a in args for x in _flat(a)])
            return _nest([S(t.uf(f"{name}.{i}", nodes)) for i in range(size)], shape)
        return f

    def nan(self):
        return S(t.ZERO, t.TRUE)

    def isnan(self, v):
        return bool(B(S.lift(v).nan))

    def all_nan(self, vals):
        """Whether all are NaN, without taking sides."""
        n = t.TRUE
        for v in vals:
            n = t.band(n, S.lift(v).nan)
        return B(n)

    # evaluation hooks for the model search
    @staticmethod
    def ufs(name, args):
        return template.value(name, args)

    @staticmethod
    def template_node(name, args):
        return template.apply(name, args, t.add, t.mul, t.const)

    # ------------------------------------------------------------ obligations
    def eq(self, label, actual, expected, tol=None):
        a, e = _arr(actual), _arr(expected)
        if a.shape != e.shape:
            self.obls.append(Obl(label, "struct", note=f"shape {a.shape}, expected {e.shape}"))
            return
        for i, (x, y) in enumerate(zip(a.reshape(-1), e.reshape(-1))):
            self.obls.append(Obl(f"{label}#{i}", "eq", S.lift(x), S.lift(y)))

    same = eq

    def true(self, label, cond, note=""):
        if isinstance(cond, B):
            self.obls.append(Obl(label, "bool", cond.n))
        elif not bool(cond):
            self.obls.append(Obl(label, "struct", note=note or "false"))
        else:
            self.obls.append(Obl(label, "bool", t.TRUE))

    def psd(self, label, M, terms, *steps, free=()):
        """M is symmetric positive semidefinite; certificate: M equals the sum
        of W X W^T over `terms` = (W or None, X), each X an input covariance or
        shown positive semidefinite before; `steps` are intermediate forms,
        `free` which terms may be treated as variables in comparing them."""
        M = self.vals(M)
        n = len(M)
        first = self.congruence(terms)
        self.obls.append(Psd(label, [[S.lift(x) for x in r] for r in M],
                             [[S.lift(c[i][j]) for c in (M, first) + steps] for i in range(n) for j in range(n)],
                             [frozenset(S.lift(x).v.nid for v in f for x in _flat(v)) for f in free]))
        self.known.add(_key(M))
        self.known.add(_key(spec.sym(M)))

    def congruence(self, terms):
        total = None
        for W, X in terms:
            X = self.vals(X)
            if _key(X) not in self.known:
                raise AssertionError("a certificate uses a matrix not known to be semidefinite")
            Y = X if W is None else spec.mm(spec.mm(W, X), spec.T(W))
            total = Y if total is None else spec.add(total, Y)
        return total

    def regular(self, label, *mats):
        """Every linear system the code solved was nonsingular: each
        determinant it depends on is that of a positive definite matrix, given
        as congruence terms of which one is (None, an input covariance)."""
        for terms in mats:
            if not any(W is None and _key(self.vals(X)) in self.definite for W, X in terms):
                raise AssertionError("a certificate matrix is not known to be definite")
            self.pd_dets.append(S.lift(spec.det(self.congruence(terms))).v)
        self.reg_label = label

    def finish(self):
        if self.reg_label is None:
            return
        seen = set()
        for d in self.ctx.dets:
            if d.v.op != "c" and d.v.nid not in seen:
                seen.add(d.v.nid)
                self.obls.append(Pos(f"{self.reg_label} {len(seen)}", d.v, self.pd_dets))

    def ge0(self, label, x, tol=None):
        x = S.lift(x)
        self.obls.append(Obl(label, "bool", t.band(t.bnot(x.nan), t.ble(t.ZERO, x.v))))

    def gt0(self, label, x):
        x = S.lift(x)
        self.obls.append(Obl(label, "bool", t.band(t.bnot(x.nan), t.blt(t.ZERO, x.v))))

    def holds(self, label, cond):
        self.true(label, cond)

    def cond(self, c):
        return bool(c)

    def mark(self, *vals):
        for v in vals:
            for x in _flat(v) if isinstance(v, (list, tuple)) else [v]:
                x = S.lift(x)
                if x.v.op not in ("c", "v"):
                    self.marks.append(x.v)

    def hint(self, *vals):
        """Terms whose equalities are worth finding before anything else."""
        for v in vals:
            self.hints.extend(S.lift(x).v for x in (_flat(v) if isinstance(v, (list, tuple)) else [v]))

    def step(self, free, *forms):
        """Forms of one value to be shown equal in turn, with the terms of
        `free` as variables.  Only steers the proof."""
        ids = frozenset(S.lift(x).v.nid for f in free for x in (_flat(f) if isinstance(f, (list, tuple)) else [f])
                        if S.lift(x).v.op != "c")
        rows = [[S.lift(x).v for x in _flat(f)] for f in forms]
        for f in free:
            self.hint(f)
        self.hints.append((ids, rows, sys._getframe(1).f_lineno))

    def assume(self, c):
        self.ctx.assume(c.n if isinstance(c, B) else t.bconst(bool(c)))

    def freeze(self, *arrays):
        for a in arrays:
            a.flags.writeable = False


def _key(M):
    return tuple(S.lift(x).v.nid for r in M for x in r)


def _arr(x):
    if isinstance(x, np.ndarray):
        return arr.to_obj(x)
    return arr.to_obj(x)


def _mapl(x, f):
    if isinstance(x, list):
        return [_mapl(v, f) for v in x]
    return f(x)
