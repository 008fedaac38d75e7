"""Path exploration, solver queries, equivalence sweeping and model search."""
import heapq
import json
import os
import random
import select
import signal
import time
import zlib
from fractions import Fraction

import numpy as np
import z3

from . import terms as t
from .env import about_covariance
from .terms import B, S, Unsupported

SOLVE_MS = 20000


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.paths = 0
        self.decisions = 0
        self.api_calls = 0
        self.obligations = 0
        self.discharged = 0
        self.by_congruence = 0
        self.lemmas = 0
        self.nodes = 0
        self.validated = 0
        self.functions = {}
        self.scenarios = []
        self.assumed_nonzero = 0
        self.worst = 0.0
        self.rounding = 0

    def merge(self, o):
        for k, v in vars(o).items():
            mine = getattr(self, k)
            if isinstance(v, list):
                mine.extend(v)
            elif isinstance(v, dict):
                for q, c in v.items():
                    mine[q] = mine.get(q, 0) + c
            elif k == "worst":
                self.worst = max(mine, v)
            else:
                setattr(self, k, mine + v)


class Z3:
    """Term -> z3 translation; division becomes a defined inverse variable."""

    def __init__(self):
        self.memo = {}
        self.side = []
        self.funcs = {}
        self.vars = {}

    def _fresh(self, n):
        return z3.Real(f"_d{n.nid}")

    def tr(self, root):
        for n in t.cone([root], stop=self.stop):
            if n.nid not in self.memo:
                self.memo[n.nid] = self._one(n)
        return self.memo[root.nid]

    @property
    def stop(self):
        class _St:
            def __contains__(s, n, m=self.memo):
                return n.nid in m
        return _St()

    def _one(self, n):
        a = [self.memo[x.nid] for x in n.args]
        op = n.op
        if op == "c":
            return z3.RealVal(str(n.val))
        if op == "v":
            v = z3.Real(n.val)
            self.vars[n.val] = v
            return v
        if op == "bv":
            v = z3.Bool(n.val)
            self.vars[n.val] = v
            return v
        if op == "+":
            return a[0] + a[1]
        if op == "*":
            return a[0] * a[1]
        if op == "inv":
            i = self._fresh(n)
            self.side.append(i * a[0] == 1)
            return i
        if op == "uf":
            if n.val == "!sqrt":
                i = self._fresh(n)
                self.side.append(z3.And(i >= 0, i * i == a[0]))
                return i
            if n.val == "!trunc":
                fl = z3.ToReal(z3.ToInt(a[0]))
                return z3.If(a[0] >= 0, fl, -z3.ToReal(z3.ToInt(-a[0])))
            if n.val == "!floor":
                return z3.ToReal(z3.ToInt(a[0]))
            if n.val == "!round":  # half to even
                lo = z3.ToInt(a[0])
                up = z3.Or(a[0] - z3.ToReal(lo) > z3.RealVal("1/2"), z3.And(a[0] - z3.ToReal(lo) == z3.RealVal("1/2"), lo % 2 == 1))
                return z3.ToReal(z3.If(up, lo + 1, lo))
            if n.val == "!wrap":
                lo, span = int(n.args[1].val), int(n.args[2].val)
                return z3.ToReal((z3.ToInt(a[0]) - lo) % span + lo)
            f = self.funcs.get((n.val, len(a)))
            if f is None:
                f = z3.Function(n.val, *([z3.RealSort()] * (len(a) + 1)))
                self.funcs[(n.val, len(a))] = f
            return f(*a)
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a[0], a[1])
        if op == "or":
            return z3.Or(a[0], a[1])
        if op == "le":
            return a[0] <= a[1]
        if op == "lt":
            return a[0] < a[1]
        if op == "eq":
            return a[0] == a[1]
        raise AssertionError(op)


def run_query(stats, constraints, ms=SOLVE_MS, logic=None):
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", ms)
    for c in constraints:
        s.add(c)
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    stats.solver_s += time.time() - t0
    stats.queries += 1
    setattr(stats, r, getattr(stats, r) + 1)
    return r


def hard_query(stats, constraints, ms, variables=None):
    """The same in a child process, for constraints z3 may not let go of.  With
    `variables` (name: term), also their values in a model."""
    def ask():
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(constraints)
        r = str(s.check())
        vals = {}
        if r == "sat" and variables:
            mod = s.model()
            for name, zv in variables.items():
                x = mod.eval(zv, model_completion=True)
                vals[name] = z3.is_true(x) if z3.is_bool(x) else str(_q(x))
        return json.dumps([r, vals])
    t0 = time.time()
    try:
        r, vals = json.loads(in_child(ask, ms // 1000 + 2))
    except ValueError:
        r, vals = "unknown", {}
    stats.solver_s += time.time() - t0
    stats.queries += 1
    setattr(stats, r, getattr(stats, r) + 1)
    vals = {k: v if isinstance(v, bool) else Fraction(v) for k, v in vals.items()}
    return r if variables is None else (r, vals)


# ----------------------------------------------------------- exploration
class Pool:
    """A few concrete inputs carried along a path: they show branches to be
    feasible without asking the solver, and which to explore first."""

    SIZE, SECONDS = 20, 6

    def __init__(self, env, seed):
        self.env = env
        self.members = [{"rng": random.Random(f"{seed}/{i}"), "spread": i % 4 == 3, "scale": 1 if i % 3 else 10,
                         "v": {}, "ev": {}, "groups": 0} for i in range(self.SIZE)]
        self.alive = list(self.members)
        self.spent = 0.0
        self.checked = 0

    def complete(self, m):
        env = self.env
        while m["groups"] < len(env.groups):
            i = m["groups"]
            d = env.groups[i](m["rng"], m["scale"])
            if m["spread"] and not any(k in env.int_vars for k in d):
                f = Fraction(10) ** m["rng"].choice((-6, -3, 0, 3))
                d = {k: x if isinstance(x, bool) else x * f for k, x in d.items()}
            m["v"].update(d)
            m["groups"] += 1

    def _value(self, m, n):
        ev = m["ev"]
        self.complete(m)
        for k in t.cone([n], stop=_In(ev)):
            if k.nid in ev:
                continue
            a = [ev[x.nid] for x in k.args]
            op = k.op
            if op == "c":
                r = float(k.val)
            elif op == "v" or op == "bv":
                r = m["v"][k.val]
                r = r if isinstance(r, bool) else float(r)
            elif op == "+":
                r = a[0] + a[1]
            elif op == "*":
                r = a[0] * a[1]
            elif op == "inv":
                r = 1.0 / a[0]
            elif op == "uf":
                f = t.OPAQUE.get(k.val)
                r = float(f(*a) if f else self.env.ufs(k.val, [Fraction(x) for x in a]))
            elif op == "not":
                r = not a[0]
            elif op == "and":
                r = a[0] and a[1]
            elif op == "or":
                r = a[0] or a[1]
            elif op == "le":
                r = a[0] <= a[1]
            elif op == "lt":
                r = a[0] < a[1]
            elif op == "eq":
                r = a[0] == a[1]
            else:
                r = op == "true"
            ev[k.nid] = r
        return ev[n.nid]

    def split(self, n):
        """The members on either side of a condition."""
        yes, no = [], []
        for m in list(self.alive):
            t0 = time.time()
            try:
                (yes if self._value(m, n) else no).append(m)
            except (ArithmeticError, ValueError, KeyError, TypeError):
                self.alive.remove(m)
            self.spent += time.time() - t0
            if self.spent > self.SECONDS:
                self.alive = []
                return [], []
        return yes, no

    def follow(self, assumed):
        for c in assumed[self.checked:]:
            self.alive = self.split(c)[0]
        self.checked = len(assumed)


def in_child(f, seconds):
    """What f says in a child process that is ended on time ("" then): z3 does
    not keep its own time limit inside some nonlinear procedures."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(seconds + 1)  # also when the parent is gone
            data = f().encode()
            while data:
                data = data[os.write(wr, data):]
        finally:
            os._exit(0)
    os.close(wr)
    got, end = [], time.time() + seconds
    try:
        while select.select([rd], [], [], max(end - time.time(), 0))[0]:
            b = os.read(rd, 1 << 16)
            if not b:
                break
            got.append(b)
        else:
            got = []
    finally:
        os.close(rd)
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    return b"".join(got).decode()


class Ctx:
    """One symbolic path."""

    def __init__(self, prefix, stats, limits, unchecked=False):
        self.prefix, self.unchecked = list(prefix), unchecked
        self.trace = []
        self.alts = []
        self.known = {}
        self.nonzero = {}
        self.assumed = []
        self.dets = []
        self.stats = stats
        self.limits = limits
        self._fresh = 0
        self._z3 = Z3()
        self._solver = z3.Solver()
        self._solver.set("timeout", 3000)
        self._nside = 0
        self.pool = None

    def fresh_name(self, base):
        self._fresh += 1
        return f"{base}#{self._fresh}"

    def assume_nonzero(self, n):
        self.nonzero[n.nid] = n

    def saw_det(self, s):
        self.dets.append(s)

    def assume(self, node):
        if node is t.TRUE:
            return
        self.assumed.append(node)
        self._assert(node)

    def _assert(self, node):
        e = self._z3.tr(node)
        self._sync()
        self._solver.add(e)

    def _sync(self):
        for c in self._z3.side[self._nside:]:
            self._solver.add(c)
        self._nside = len(self._z3.side)

    def _feasible(self, node):
        e = self._z3.tr(node)
        self._sync()
        self._solver.push()
        self._solver.add(e)
        t0 = time.time()
        if len(t.cone([node])) > 30:
            r = in_child(lambda: str(self._solver.check()), 4) or "unknown"
        else:
            r = str(self._solver.check())
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        setattr(self.stats, r, getattr(self.stats, r) + 1)
        self._solver.pop()
        return r != "unsat"

    def decide(self, n):
        if n is t.TRUE:
            return True
        if n is t.FALSE:
            return False
        if n.op == "not":
            return not self.decide(n.args[0])
        k = self.known.get(n.nid)
        if k is not None:
            return k
        i = len(self.trace)
        sides = [], []
        if self.pool and self.pool.alive:
            self.pool.follow(self.assumed)
            sides = self.pool.split(n)
        if i < len(self.prefix):
            d = self.prefix[i]
            if i == len(self.prefix) - 1 and self.unchecked and not sides[0 if d else 1]:
                if not self._feasible(n if d else t.bnot(n)):
                    raise Infeasible()
        else:
            if i >= self.limits.get("decisions", 4000):
                raise PathLimit("too many symbolic decisions on one path")
            if sides[0] or sides[1]:
                # the solver is asked about the other side when its turn comes
                d = len(sides[0]) >= len(sides[1])
                both = bool(sides[0]) and bool(sides[1])
                self.alts.append((both, [x for _, x in self.trace] + [not d], not both))
            else:
                yes, no = self._feasible(n), self._feasible(t.bnot(n))
                d = yes
                if yes and no:
                    self.alts.append((False, [x for _, x in self.trace] + [not d], False))
        if self.pool and self.pool.alive:
            self.pool.alive = sides[0 if d else 1]
        self.stats.decisions += 1
        self.trace.append((n, d))
        self.known[n.nid] = d
        self._assert(n if d else t.bnot(n))
        return d

    def path_nodes(self):
        return [n if d else t.bnot(n) for n, d in self.trace]


def literals(nodes):
    """The conjuncts a set of true conditions consists of."""
    out, todo = [], list(nodes)
    while todo:
        n = todo.pop()
        if n.op == "and":
            todo.extend(n.args)
        elif n.op == "not" and n.args[0].op == "or":
            todo.extend(t.bnot(x) for x in n.args[0].args)
        else:
            out.append(n)
    return out


class PathLimit(BaseException):
    pass


class Infeasible(BaseException):
    """No input takes this path."""


class Stopped(BaseException):
    """The scenario's time is up."""


# --------------------------------------------------------------- sweeping
P61 = (1 << 61) - 1


def _h(*xs):
    x = 0
    for y in xs:
        y = zlib.crc32(y.encode()) if isinstance(y, str) else y
        x = (x * 0x9E3779B97F4A7C15 + y + 0x632BE59BD9B4E019) & ((1 << 64) - 1)
        x ^= x >> 29
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9 & ((1 << 64) - 1)
    x = (x ^ (x >> 27)) * 0x94D049BB133111EB & ((1 << 64) - 1)
    return (x ^ (x >> 31)) % P61 or 1


class Frac:
    """A z3 numerator over a product of recorded denominators (unexpanded)."""

    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d


class Sweep:
    """Merge provably equal terms, bottom-up, each merge a z3 unsat answer.

    Candidates come from evaluating every term modulo a prime; a merge is made
    only after the solver has refuted `candidate1 != candidate2` for all reals
    (denominators cleared, so the query is a polynomial disequality).
    """

    def __init__(self, stats, ctx, budget_s):
        self.stats = stats
        self.rep = {}
        self.fp = {}
        self.table = {}
        self.cut = set()
        self.size = {}
        self.deadline = time.time() + budget_s
        self.failed = set()
        self.salt = 0
        self.subst = {}
        for n in literals(ctx.path_nodes()):
            if n.op == "eq":
                a, b = n.args
                if a.op == "v" and b.op == "c":
                    self.subst[a.nid] = b
                elif b.op == "v" and a.op == "c":
                    self.subst[b.nid] = a
        self.lemma_log = []

    # fingerprints
    def fpv(self, n):
        r = self.fp.get(n.nid)
        if r is not None:
            return r
        for m in t.cone([n], stop=_In(self.fp)):
            if m.nid in self.fp:
                continue
            a = [self.fp[x.nid] for x in m.args]
            op = m.op
            if op == "c":
                r = m.val.numerator % P61 * pow(m.val.denominator % P61, P61 - 2, P61) % P61
            elif op == "v":
                r = self.fpv(self.subst[m.nid]) if m.nid in self.subst else _h("v", m.val, self.salt)
            elif op == "+":
                r = (a[0] + a[1]) % P61
            elif op == "*":
                r = a[0] * a[1] % P61
            elif op == "inv":
                r = pow(a[0], P61 - 2, P61)
            elif op == "uf":
                r = _h(m.val, *a)
            else:
                r = 0
            self.fp[m.nid] = r
        return self.fp[n.nid]

    def find(self, n):
        r = self.rep[n.nid]
        while self.rep[r.nid] is not r:
            r = self.rep[r.nid]
        return r

    def step(self, free, forms, where=None):
        """Merge the given forms of one value, entry by entry, comparing them
        with the terms in `free` as variables."""
        for xs in zip(*forms):
            for x, y in zip(xs, xs[1:]):
                self.run([x, y])
                rx, ry = self.find(x), self.find(y)
                if rx is ry or self.fpv(x) != self.fpv(y):
                    continue
                front = frozenset(self.find(t._NODES[i]).nid for i in free if i in self.rep)
                if self.with_front(self._over(x, free), self._over(y, free), front):
                    keep, drop = (rx, ry) if rx.nid < ry.nid else (ry, rx)
                    self.rep[drop.nid] = keep
                    self.cut.add(keep.nid)

    def _over(self, n, free):
        """n with every term in `free` replaced by its representative."""
        new = {}
        for m in t.cone([n], stop=_InUf(free)):
            if m.nid in free or m.op == "uf":
                new[m.nid] = self.find(m) if m.nid in self.rep else m
            else:
                new[m.nid] = t.mk_like(m, [new[k.nid] for k in m.args]) if m.args else m
        return new[n.nid]

    def run(self, roots, first=()):
        for f in _batches(first):
            if isinstance(f, tuple):
                self.step(*f)
            else:
                self.run(f)
        nodes = [n for n in t.cone(roots) if n.op in ("c", "v", "+", "*", "inv", "uf")]
        uses = {}
        for n in nodes:
            for x in n.args:
                uses[x.nid] = uses.get(x.nid, 0) + 1
        for n in nodes:
            self._visit(n)
            if uses.get(n.nid, 0) > 1 and self.find(n).args:
                self.cut.add(self.find(n).nid)

    def _visit(self, n):
        if n.nid in self.rep:
            return
        if n.nid in self.subst:
            r = self.subst[n.nid]
            self._register(r)
            self.rep[n.nid] = r
            return
        kids = [self.find(x) for x in n.args]
        r = n if all(k is x for k, x in zip(kids, n.args)) else t.mk_like(n, kids)
        if r is not n:
            self.fp[r.nid] = self.fpv(n)
            if r.nid in self.rep:
                self.rep[n.nid] = self.find(r)
                return
            # children of a rebuilt node are all representatives
            for m in t.cone([r], stop=_In(self.rep)):
                if m.nid not in self.rep and m is not r:
                    self._register(m)
        got = self._classify(r)
        self.rep[r.nid] = got
        self.rep[n.nid] = got

    def _register(self, r):
        if r.nid in self.rep:
            return
        self.rep[r.nid] = r
        self.table.setdefault(self.fpv(r), []).append(r)

    def _classify(self, r):
        if r.op == "c":
            self.table.setdefault(self.fpv(r), []).append(r)
            return r
        f = self.fpv(r)
        cands = self.table.setdefault(f, [])
        if f == 0 and t.ZERO not in cands:
            cands.insert(0, t.ZERO)
            self.rep.setdefault(t.ZERO.nid, t.ZERO)
        if f == 1 and t.ONE not in cands:
            cands.insert(0, t.ONE)
            self.rep.setdefault(t.ONE.nid, t.ONE)
        for c in cands[:3]:
            if c is r:
                return r
            if self.lemma(r, c):
                self.cut.add(c.nid)
                return c
        cands.append(r)
        return r

    def lemma(self, a, b, big=False):
        """Ask the solver whether a and b are equal for all reals.

        Some already merged nodes below a and b are treated as free variables.
        The nearest ones are tried first; a cheap evaluation with independent
        random values for the free nodes tells when the equality needs more of
        the definitions below, so the solver only sees true identities.
        """
        if time.time() > self.deadline:
            return False
        cap = 400000 if big else 20000
        seen = None
        skip = 0
        order = self._cuts_below(a, b)
        steps = [0]
        while steps[-1] < len(order):
            steps.append(min(len(order), max(4, steps[-1] * 2)))
        for k in steps:
            frontier = self._front(order, k)
            if frontier == seen:
                continue
            seen = frontier
            if self._agree(a, b, frontier):
                # tighten: fold back every node whose definition is not needed
                free = set(frontier)
                for nid in order[:k]:
                    free.add(nid)
                    if not self._agree(a, b, free):
                        free.discard(nid)
                frontier = frozenset(free)
                if self._est([a, b], frontier) > cap:
                    return False
                if self._identity(a, b, frontier, 20000 if big else 5000):
                    self.stats.lemmas += 1
                    return True
                skip += 1
                if skip >= 2:
                    return False
        return False

    def with_front(self, a, b, front):
        """Equality with exactly the nodes of `front` treated as free."""
        if not self._agree(a, b, front) or self._est([a, b], front) > 400000:
            return False
        ok = self._identity(a, b, front, 20000)
        self.stats.lemmas += ok
        return ok

    def _cuts_below(self, a, b, most=2000):
        """Merged nodes below a and b, latest first."""
        got, seen = [], set()
        heap = [(-a.nid, a), (-b.nid, b)]
        heapq.heapify(heap)
        while heap and len(got) < most:
            _, n = heapq.heappop(heap)
            if n.nid in seen:
                continue
            seen.add(n.nid)
            if n.nid in self.cut and n is not a and n is not b and n.args and not _simple(n):
                got.append(n.nid)
            for x in n.args:
                if x.nid not in seen and x.args:
                    heapq.heappush(heap, (-x.nid, x))
        return got

    @staticmethod
    def _front(order, k):
        return frozenset(order[k:])

    def _agree(self, a, b, frontier):
        val = {}
        for m in t.cone([a, b], stop=_InUf(frontier)):
            op = m.op
            if m.nid in frontier or op == "uf" or op == "v":
                r = _h("f", m.nid, self.salt)
            elif op == "c":
                r = self.fpv(m)
            elif op == "+":
                r = (val[m.args[0].nid] + val[m.args[1].nid]) % P61
            elif op == "*":
                r = val[m.args[0].nid] * val[m.args[1].nid] % P61
            elif op == "inv":
                r = pow(val[m.args[0].nid], P61 - 2, P61)
            else:
                r = 0
            val[m.nid] = r
        return val[a.nid] == val[b.nid]

    def _est(self, roots, frontier):
        """Upper bound on the monomials an expansion could have."""
        est = {}
        for n in t.cone(roots, stop=_InUf(frontier)):
            if n.nid in frontier or not n.args or n.op == "uf":
                est[n.nid] = 1
            elif n.op == "+":
                est[n.nid] = est[n.args[0].nid] + est[n.args[1].nid]
            elif n.op == "*":
                est[n.nid] = min(10**9, est[n.args[0].nid] * est[n.args[1].nid])
            else:
                est[n.nid] = est[n.args[0].nid]
        return max(est[r.nid] for r in roots)

    def _frac(self, roots, frontier):
        out = {}
        for n in t.cone(roots, stop=_InUf(frontier)):
            if n.nid in frontier or n.op in ("v", "uf"):
                out[n.nid] = Frac(z3.Real(f"n{n.nid}"), {})
            elif n.op == "c":
                out[n.nid] = Frac(z3.RealVal(str(n.val)), {})
            elif n.op == "+":
                x, y = out[n.args[0].nid], out[n.args[1].nid]
                out[n.nid] = _fadd(x, y)
            elif n.op == "*":
                x, y = out[n.args[0].nid], out[n.args[1].nid]
                d = dict(x.d)
                for k, (e, p) in y.d.items():
                    d[k] = (e, d[k][1] + p) if k in d else (e, p)
                out[n.nid] = Frac(x.n * y.n, d)
            elif n.op == "inv":
                x = out[n.args[0].nid]
                num = z3.RealVal(1)
                for e, p in x.d.values():
                    for _ in range(p):
                        num = num * e
                out[n.nid] = Frac(num, {x.n.get_id(): (x.n, 1)})
            else:
                raise AssertionError(n.op)
        return [out[r.nid] for r in roots], out

    def _identity(self, a, b, frontier, ms):
        (fa, fb), keep = self._frac([a, b], frontier)
        lhs, rhs = _common(fa, fb)
        r = run_query(self.stats, [lhs != rhs], ms, logic="QF_NRA")
        return r == "unsat"


def _batches(items):
    """Runs of plain terms, and the steps between them."""
    cur = []
    for x in items:
        if isinstance(x, tuple):
            if cur:
                yield cur
            yield x
            cur = []
        else:
            cur.append(x)
    if cur:
        yield cur


def _simple(n):
    """Cheaper to expand than to keep as a variable."""
    return n.op != "uf" and all(not x.args for x in n.args)


class _In:
    def __init__(self, s):
        self.s = s

    def __contains__(self, n):
        return n.nid in self.s


class _InUf:
    def __init__(self, s):
        self.s = s

    def __contains__(self, n):
        return n.nid in self.s or n.op == "uf"


def _scale(x, d, target):
    n = x
    for k, (e, p) in target.items():
        have = d[k][1] if k in d else 0
        for _ in range(p - have):
            n = n * e
    return n


def _lcm(d1, d2):
    d = dict(d1)
    for k, (e, p) in d2.items():
        if k not in d or d[k][1] < p:
            d[k] = (e, p)
    return d


def _fadd(x, y):
    if x.d == y.d:
        return Frac(x.n + y.n, x.d)
    d = _lcm(x.d, y.d)
    return Frac(_scale(x.n, x.d, d) + _scale(y.n, y.d, d), d)


def _common(x, y):
    d = _lcm(x.d, y.d)
    return _scale(x.n, x.d, d), _scale(y.n, y.d, d)


# ------------------------------------------------------------ obligations
class Obl:
    __slots__ = ("label", "kind", "a", "e", "note")

    def __init__(self, label, kind, a=None, e=None, note=""):
        self.label, self.kind, self.a, self.e, self.note = label, kind, a, e, note


class Psd:
    """Obligation: a symmetric matrix is positive semidefinite.  Discharged by
    proving it equal to a sum of W X W^T with X known to be positive
    semidefinite (`chain` holds that sum and intermediate forms of it, one
    list per entry); when that identity fails the property may still hold, so
    only an input with a negative eigenvalue (or visible asymmetry) refutes
    it."""

    __slots__ = ("label", "kind", "mat", "chain", "free", "note")

    def __init__(self, label, mat, chain, free=()):
        self.label, self.kind, self.mat, self.chain, self.note = label, "psd", mat, chain, ""
        self.free = free


class Pos:
    """Obligation: a denominator is positive, certified by being the
    determinant of a matrix known to be positive definite."""

    __slots__ = ("label", "kind", "d", "certs", "note")

    def __init__(self, label, d, certs):
        self.label, self.kind, self.d, self.certs, self.note = label, "pos", d, certs, ""


class Failure:
    def __init__(self, obl, why, model=None):
        self.obl, self.why, self.model = obl, why, model


def bool_valid(stats, ctx, node, ms=SOLVE_MS, nonzero=True):
    """Does `node` hold on this path for every value?  'unsat'/'sat'/'unknown'
    refers to its negation."""
    if node is t.TRUE:
        return "unsat"
    zt = Z3()
    conds = ctx.path_nodes() + ctx.assumed
    cs = [zt.tr(n) for n in conds]
    if nonzero:
        cs += [zt.tr(n) != 0 for n in ctx.nonzero.values()]
    cs.append(z3.Not(zt.tr(node)))
    hard = any(n.op in ("*", "inv") for n in t.cone(conds + [node]))
    return (hard_query if hard else run_query)(stats, cs + zt.side, ms)


def discharge(stats, ctx, obls, marks, budget_s=60, hints=()):
    """Returns (failures, inconclusive): obligations refuted by fingerprint or
    solver, and those the solver could not decide."""
    fails, unk = [], []
    pend, psd, pos, closed, todo = [], [], [], [], []
    for o in obls:
        stats.obligations += 1
        if o.kind == "struct":
            fails.append(Failure(o, o.note))
            continue
        if o.kind == "psd":
            if any(x.nan is not t.FALSE for c in o.chain for x in c):
                fails.append(Failure(o, "may be NaN"))
            else:
                psd.append(o)
            continue
        if o.kind == "pos":
            pos.append(o)
            continue
        if o.kind == "bool":
            r = bool_valid(stats, ctx, o.a)
            if r == "unsat":
                stats.discharged += 1
            elif r == "sat":
                fails.append(Failure(o, "solver: sat"))
            else:
                unk.append(o)
            continue
        a, e = o.a, o.e
        if a.nan is e.nan and a.v is e.v:
            stats.discharged += 1
            stats.by_congruence += 1
            closed.append((a.v, e.v))
            continue
        # NaN flags first
        if a.nan is not e.nan:
            r = bool_valid(stats, ctx, t.bor(t.band(a.nan, e.nan), t.band(t.bnot(a.nan), t.bnot(e.nan))))
            if r != "unsat":
                (fails if r == "sat" else unk).append(Failure(o, "NaN flag differs") if r == "sat" else o)
                continue
        if a.nan is t.TRUE or (a.nan is not t.FALSE and bool_valid(stats, ctx, a.nan) == "unsat"):
            stats.discharged += 1
            continue
        pend.append(o)
    if not pend and not psd and not pos and not closed:
        return fails, unk
    sw = Sweep(stats, ctx, budget_s)
    roots = [x for o in pend for x in (o.a.v, o.e.v)] + list(marks)
    roots += [z.v for o in psd for c in o.chain for z in c[1:] + c[:1]]
    roots += [x for o in pos for x in [o.d] + o.certs]
    for m in marks:
        sw.cut.add(m.nid)
    sw.run(roots, hints)
    for o in pend:
        ra, re_ = sw.find(o.a.v), sw.find(o.e.v)
        if ra is re_:
            closed.append((ra, re_))
            stats.discharged += 1
            stats.by_congruence += 1
        else:
            todo.append((o, ra, re_))
    def same(x, y, free=()):
        rx, ry = sw.find(x), sw.find(y)
        if rx is ry:
            closed.append((rx, ry))
            return True
        if sw.fpv(x) != sw.fpv(y):
            return False
        sw.deadline = max(sw.deadline, time.time() + 20)
        for fr in free:
            if sw.with_front(x, y, fr):
                return True
        return sw.lemma(x, y, big=True) or sw.lemma(rx, ry, big=True)

    for o in psd:
        bad = next((c for c in o.chain if len({sw.fpv(x.v) for x in c}) > 1), None)
        if bad is not None:
            fails.append(Failure(o, "not the expected sum of congruences"))
            continue
        for c in o.chain:
            x, ys = c[0].v, [z.v for z in c[1:]]
            if not all(same(y, z, o.free) for y, z in zip(ys, ys[1:])):
                break
            if not any(same(x, y, o.free) for y in ys[::-1]):
                break
        else:
            stats.discharged += 1
            continue
        unk.append(o)
    for o in pos:
        if any(same(o.d, c) for c in o.certs):
            stats.discharged += 1
            continue
        # no certificate: ask whether it can vanish at all
        r = bool_valid(stats, ctx, t.blt(t.ZERO, o.d), 10000, nonzero=False)
        if r == "unsat":
            stats.discharged += 1
        else:
            fails.append(Failure(o, "a linear system may be singular"))
    if closed:
        # the closing query over the merged representatives
        cs = [z3.Real(f"n{x.nid}") != z3.Real(f"n{y.nid}") for x, y in closed]
        if run_query(stats, [z3.Or(cs)]) != "unsat":
            unk.append(Obl("closing query", "bool"))
    hard_s = 0  # seconds spent on terms known to differ in general
    todo = [(sw.fpv(o.a.v) == sw.fpv(o.e.v), o, ra, re_) for o, ra, re_ in todo]
    for alike, o, ra, re_ in sorted(todo, key=lambda x: x[0]):
        if alike and fails:  # something else is wrong already
            unk.append(o)
            continue
        if alike:
            sw.deadline = max(sw.deadline, time.time() + 30)
            if sw.lemma(ra, re_, big=True):
                stats.discharged += 1
                continue
        # with the path condition and assumptions
        zt = Z3()
        cs = [zt.tr(n) for n in ctx.path_nodes() + ctx.assumed]
        cs += [zt.tr(n) != 0 for n in ctx.nonzero.values()]
        cs.append(zt.tr(o.a.v) != zt.tr(o.e.v))
        if o.a.nan is not t.FALSE:
            cs.append(z3.Not(zt.tr(o.a.nan)))
        constrained = bool(ctx.trace or ctx.assumed)
        if not alike and not constrained:
            # distinct values modulo a prime: not the same rational function
            fails.append(Failure(o, "terms differ"))
            continue
        t0 = time.time()
        r = hard_query(stats, cs + zt.side, 10000) if alike or hard_s < 25 else "unknown"
        if not alike and r != "unsat":
            hard_s += time.time() - t0
        if r == "unsat":
            stats.discharged += 1
        elif r == "sat" or not alike:
            fails.append(Failure(o, f"solver: {r}"))
        else:
            unk.append(o)
    return fails, unk


# ------------------------------------------------------------ model search
def subst_templates(roots, template):
    """Replace uninterpreted user functions by concrete polynomial templates."""
    new = {}
    for n in t.cone(roots):
        kids = [new[x.nid] for x in n.args]
        if n.op == "uf" and n.val not in t.OPAQUE:
            new[n.nid] = template(n.val, kids)
        else:
            new[n.nid] = t.mk_like(n, kids) if kids else n
    return [new[r.nid] for r in roots]


class ModelSearch:
    def __init__(self, stats, ctx, env, seed):
        self.stats, self.ctx, self.env = stats, ctx, env
        self.rng = random.Random(seed)
        self.unit = 1

    def set_unit(self, v):
        self.unit = max([abs(v[n]) for n in self.env.cov_names if n in v] or [1]) or 1

    def members(self, spread=True):
        """The inputs of the pool that followed this path."""
        p = self.ctx.pool
        if not p:
            return []
        p.follow(self.ctx.assumed)
        for m in p.alive:
            p.complete(m)
        return [dict(m["v"]) for m in p.alive if spread or not m["spread"] and m["scale"] == 1]

    def conds(self):
        return self.ctx.path_nodes() + self.ctx.assumed

    def _ok(self, values, extra, least=Fraction(1, 10**9)):
        roots = self.conds() + list(self.ctx.nonzero.values()) + extra
        try:
            ev = t.evaluate(roots, _Default(values, self.rng), self.env.ufs)
        except (ZeroDivisionError, OverflowError, ValueError):
            return None
        for c in self.conds():
            if not ev[c.nid]:
                return None
        for c in self.ctx.nonzero.values():
            x = ev[c.nid]
            if x != x or abs(x) < least:
                return None
        return ev

    def sample(self, scale=1, spread=False):
        """An input; with `spread`, its parts are in very different units."""
        v = {}
        rng = self.rng
        common = Fraction(10) ** rng.choice((-12, -9, -6, -4, -3, 3, 6)) if spread and rng.randint(0, 1) else None
        for i, g in enumerate(self.env.groups):
            d = g(rng, scale)
            if spread:
                f = Fraction(10) ** rng.choice((-9, -6, -4, -2, 0, 0, 2, 4))
                if common is not None:
                    f = common if i in self.env.cov_groups else 1
                elif i not in self.env.cov_groups and rng.randint(0, 2):
                    f = 1
                if not any(k in self.env.int_vars for k in d):
                    d = {k: x if isinstance(x, bool) else x * f for k, x in d.items()}
            v.update(d)
        for n, d in self.ctx.trace:       # flags the path has decided itself
            if n.op == "bv" and n.val in v:
                v[n.val] = d
        self.set_unit(v)
        return v

    def singular(self, obl, tries=300):
        """Inputs on this path that make a denominator zero or negative."""
        found = []
        for i in range(tries):
            v = self.sample(1 if i % 3 else 10)
            try:
                ev = t.evaluate(self.conds() + [obl.d], _Default(v, self.rng), self.env.ufs)
            except (ZeroDivisionError, OverflowError, ValueError):
                continue
            if all(ev[c.nid] for c in self.conds()) and ev[obl.d.nid] <= 0:
                found.append(v)
                if len(found) >= 3:
                    break
        if not found:
            zt = Z3()
            cs = [zt.tr(n) for n in self.conds()] + [zt.tr(obl.d) == 0]
            for names, mk in self.env.validity:
                cs += mk(lambda nm: zt.vars.setdefault(nm, z3.Real(nm)))
            r, vals = hard_query(self.stats, cs + zt.side, 10000, zt.vars)
            if r == "sat":
                found.append({**self.sample(), **vals})
        return found

    def margin(self, obl, ev):
        """How visible the violation of obl is at this point (0: not at all)."""
        if obl.kind == "struct":
            return 1.0
        if obl.kind == "bool":
            return 0.0 if ev[obl.a.nid] else 1.0
        if obl.kind == "psd":
            m = np.array([[float(ev[x.v.nid]) if not ev[x.nan.nid] else np.nan for x in r] for r in obl.mat])
            if not np.isfinite(m).all():
                return 1.0
            sc = float(self.unit) + np.abs(m).max()
            low = -np.linalg.eigvalsh((m + m.T) / 2)[0] / sc
            return float(max(low, np.abs(m - m.T).max() / sc, 0.0))
        na, ne = ev[obl.a.nan.nid], ev[obl.e.nan.nid]
        if na or ne:
            return 1.0 if bool(na) != bool(ne) else 0.0
        a, e = ev[obl.a.v.nid], ev[obl.e.v.nid]
        if a != a or e != e:
            return 1.0
        unit = self.unit if about_covariance(obl.label) else 1
        return float(abs(a - e) / (unit + abs(e)))

    def roots_of(self, obls):
        r = []
        for o in obls:
            if o.kind == "bool":
                r.append(o.a)
            elif o.kind == "eq":
                r += [o.a.v, o.a.nan, o.e.v, o.e.nan]
            elif o.kind == "psd":
                r += [z for row in o.mat for x in row for z in (x.v, x.nan)]
        return r

    def path_models(self, k=1, tries=60, solve=True):
        """Concrete inputs that follow this path (reachability witnesses)."""
        got = []
        pool = self.members(spread=False)
        for i in range(tries):
            v = pool.pop() if pool else self.sample(1 if i < tries // 2 else 8)
            if self._ok(v, []) is not None:
                got.append(v)
                if len(got) >= k:
                    return got
        for i in range(6 if solve else 0):
            v = self._z3_model([], pins=("most", "some", "none")[min(2, i // 2)])
            if v is not None:
                got.append(v)
                if len(got) >= k:
                    break
        return got

    def violations(self, obls, want=6, tries=150, solve=True):
        """Candidate inputs on which some obligation in obls visibly fails."""
        found, weak = [], []
        for o in [o for o in obls if o.kind == "pos"][:3]:
            found += self.singular(o)
        obls = [o for o in obls if o.kind != "pos"]
        if not obls:
            return found
        extra = self.roots_of(obls)
        # square roots and the like are evaluated in floating point
        floor = 1e-4 if any(n.op == "uf" and n.val in t.OPAQUE and n.val not in ("!f32", "!f16", "!trunc", "!floor", "!round", "!wrap") for n in t.cone(extra)) else 1e-8
        if any(o.kind == "psd" for o in obls):
            tries *= 4
        t0 = time.time()
        pool = self.members()
        for i in range(tries):
            if time.time() - t0 > 30:
                break
            v = pool.pop() if pool else self.sample(1 if i % 3 else 10, spread=i % 2 and i > tries // 5)
            self.set_unit(v)
            ev = self._ok(v, extra, Fraction(1, 10**60))
            if ev is None:
                continue
            m = max((self.margin(o, ev) for o in obls), default=0)
            if m > 1e-3:
                found.append(v)
                if len(found) >= want:
                    break
            elif m > floor:
                weak.append((m, v))
        if len(found) < want and solve:
            end = time.time() + (20 if found or weak else 60)
            for o in obls[:4]:
                for pins in ("most", "some", "none"):
                    v = self._z3_model([o], pins) if time.time() < end else None
                    if v is not None:
                        self.set_unit(v)
                        ev = self._ok(v, extra)
                        if ev is not None and max(self.margin(o, ev) for o in obls) <= floor:
                            continue  # not a violation after all
                        found.append(v)
                if len(found) >= want:
                    break
        weak.sort(key=lambda x: -x[0])
        return found + [v for _, v in weak[:want]]

    def _z3_model(self, obls, pins, ms=8000):
        conds = self.conds()
        roots = conds + list(self.ctx.nonzero.values()) + self.roots_of(obls)
        new = subst_templates(roots, self.env.template_node)
        zt = Z3()
        k = len(conds)
        cs = [zt.tr(n) for n in new[:k]]
        m = len(self.ctx.nonzero)
        for n in new[k:k + m]:
            e = zt.tr(n)
            cs.append(z3.Or(e >= z3.Q(1, 16), e <= z3.Q(-1, 16)))
        rest = new[k + m:]
        for o in obls:
            if o.kind == "bool":
                cs.append(z3.Not(zt.tr(rest.pop(0))))
            elif o.kind == "psd":
                k2 = len(o.mat)
                m = [[(zt.tr(rest.pop(0)), rest.pop(0))[0] for _ in range(k2)] for _ in range(k2)]
                bad = [m[i][i] < -z3.Q(1, 50) for i in range(k2)]
                bad += [m[i][j] - m[j][i] > z3.Q(1, 50) for i in range(k2) for j in range(k2) if i != j]
                bad += [m[i][i] * m[j][j] - m[i][j] * m[j][i] < -z3.Q(1, 50) for i in range(k2) for j in range(i)]
                cs.append(z3.Or(bad))
            elif o.kind == "eq":
                av, an, ev, en = (zt.tr(rest.pop(0)) for _ in range(4))
                d = av - ev
                cs.append(z3.Or(an != en, z3.And(z3.Not(an), z3.Or(d > z3.Q(1, 50), d < z3.Q(-1, 50)))))
        base = self.sample()
        hot = set()
        for c in t.cone(new[:k]):
            if c.op in ("v", "bv"):
                hot.add(c.val)
        allv = list(zt.vars)
        if pins == "most":
            free = hot | set(self.rng.sample(allv, min(2, len(allv))))
        elif pins == "some":
            free = hot | set(self.rng.sample(allv, len(allv) // 2))
        else:
            free = set(allv)
        for name, zv in zt.vars.items():
            if name in base and name not in free:
                x = base[name]
                cs.append(zv == (z3.BoolVal(x) if isinstance(x, bool) else z3.RealVal(str(x))))
        for names, mk in self.env.validity:
            if any(x in free for x in names):
                cs += mk(lambda nm: zt.vars.setdefault(nm, z3.Real(nm)))
        for name in free & self.env.int_vars:
            cs.append(zt.vars[name] == z3.ToReal(z3.ToInt(zt.vars[name])))
        r, vals = hard_query(self.stats, cs + zt.side, ms, zt.vars)
        return {**base, **vals} if r == "sat" else None


def _q(x):
    if z3.is_algebraic_value(x):
        x = x.approx(20)
    return Fraction(x.numerator_as_long(), x.denominator_as_long())


class _Default(dict):
    """Leaf values; an uninitialised cell gets an arbitrary number."""

    def __init__(self, d, rng):
        super().__init__(d)
        self.rng = rng

    def __missing__(self, k):
        if "uninit#" in k:
            v = Fraction(self.rng.randint(-64, 64), 8)
            self[k] = v
            return v
        raise KeyError(k)
