"""Independent subsystems, uninformative steps, smoothing a part of a series."""
from symkit import spec as sp
from . import scenario
from .common import M, kf_of, linear
from .extended import nonlinear
from .props3 import build, mark_run, model, run, same_run


def diag(a, b):
    """Block-diagonal matrix."""
    return [list(r) + [0] * len(b[0]) for r in a] + [[0] * len(a[0]) + list(r) for r in b]


@scenario
def subsystems(env, cls, N, n1, n2, m1, m2, op, p=None):
    """Two systems that have nothing to do with each other, estimated
    together, come out as each does on its own."""
    mk = linear if cls == "kf" else nonlinear
    a, b = mk(env, N, n1, m1, p, pre="a."), mk(env, N, n2, m2, p, pre="b.")
    o = M(N=N, n=n1 + n2, m=m1 + m2)
    o.x0, o.P0 = env.array(a.lx0 + b.lx0), env.array(diag(a.lP0, b.lP0))
    o.Q = env.array([diag(q, r) for q, r in zip(a.lQ, b.lQ)])
    o.R = env.array([diag(q, r) for q, r in zip(a.lR, b.lR)])
    o.Z = env.array([v + w for v, w in zip(a.lZ, b.lZ)])
    o.U = o.B = None
    if p:
        o.U = env.array([v + w for v, w in zip(a.lU, b.lU)])
    if cls == "kf":
        o.A = env.array([diag(v, w) for v, w in zip(a.lA, b.lA)])
        o.H = env.array([diag(v, w) for v, w in zip(a.lH, b.lH)])
        if p:
            o.B = env.array([diag(v, w) for v, w in zip(a.lB, b.lB)])
    else:
        def both(g, h, join):
            def fn(x, u=None):
                x = env.vals(x)
                x1, x2 = x[:n1], x[n1:]
                if u is None or not p:
                    return env.array(join(g(x1), h(x2)))
                u = env.vals(u)
                return env.array(join(g(x1, u[:p]), h(x2, u[p:])))
            return fn

        def spec2(s, q):
            return (lambda x, u: getattr(q, s)(x, u)) if p else (lambda x: getattr(q, s)(x, None))
        o.f = both(spec2("sf", a), spec2("sf", b), lambda v, w: v + w)
        o.JA = both(spec2("sJA", a), spec2("sJA", b), diag)
        h = both(lambda x: a.hlist(x), lambda x: b.hlist(x), lambda v, w: v + w)
        J = both(lambda x: a.sJH(x), lambda x: b.sJH(x), diag)
        o.h, o.JH = (lambda x: h(x)), (lambda x: J(x))
    xa, Pa = run(env, build(env, cls, a), op, a.Z, a.U)
    xb, Pb = run(env, build(env, cls, b), op, b.Z, b.U)
    mark_run(env, (xa, Pa), (xb, Pb))
    x, P = run(env, build(env, cls, o), op, o.Z, o.U)
    env.eq("means", x, [v + w for v, w in zip(env.vals(xa), env.vals(xb))])
    env.eq("covariances", P, [diag(v, w) for v, w in zip(env.vals(Pa), env.vals(Pb))])


@scenario
def idle_step(env, N, n, m, op, at, p=None):
    """A step at which nothing moves and nothing is seen, put in anywhere."""
    o = linear(env, N, n, m, p)
    q = M(**o.__dict__)
    zero = [[0] * n for _ in range(n)]

    def put(rows, new):
        return env.array(rows[:at] + [new] + rows[at:])
    q.A, q.Q, q.H = put(o.lA, sp.eye(n)), put(o.lQ, zero), put(o.lH, [[0] * n for _ in range(m)])
    q.R, q.Z = put(o.lR, env.vals(env.cov("Rnew", m))), put(o.lZ, env.vals(env.real("znew", (m,))))
    if p:
        q.U, q.B = put(o.lU, [0] * p), put(o.lB, env.vals(env.real("Bnew", (n, p))))
    a = run(env, kf_of(env, o), op, o.Z, o.U)
    mark_run(env, a)
    b = run(env, kf_of(env, q), op, q.Z, q.U)
    x, P, y, V = (env.vals(v) for v in (*a, *b))
    env.eq("other means", y[:at] + y[at + 1:], x)
    env.eq("other covariances", V[:at] + V[at + 1:], P)
    if at:
        env.eq("mean at the idle step", y[at], x[at - 1])
        env.eq("covariance at the idle step", V[at], P[at - 1])
    elif op == "filter":
        env.eq("mean at the idle step", y[0], o.lx0)
        env.eq("covariance at the idle step", V[0], o.lP0)


@scenario
def blind_sensor(env, N, n, m, op, row, p=None):
    """A further sensor that sees nothing of the state, its noise correlated
    with no other's."""
    o = linear(env, N, n, m, p)
    q = M(**o.__dict__)
    z, r = env.vals(env.real("zb", (N,))), env.vals(env.pos("rb", (N,)))

    def grow(R, v):
        R = [list(s[:row]) + [0] + list(s[row:]) for s in R]
        return R[:row] + [[0] * row + [v] + [0] * (m - row)] + R[row:]
    q.H = env.array([list(H[:row]) + [[0] * n] + list(H[row:]) for H in o.lH])
    q.R = env.array([grow(R, v) for R, v in zip(o.lR, r)])
    q.Z = env.array([list(s[:row]) + [v] + list(s[row:]) for s, v in zip(o.lZ, z)])
    a = run(env, kf_of(env, o), op, o.Z, o.U)
    mark_run(env, a)
    b = run(env, kf_of(env, q), op, q.Z, q.U)
    env.eq("means", b[0], env.vals(a[0]))
    env.eq("covariances", b[1], env.vals(a[1]))


@scenario
def merged_steps(env, N, n, m, op, at, p=None):
    """Two steps of which the first sees nothing are one step with the
    dynamics multiplied and the noises added up."""
    o = linear(env, N, n, m, p)
    q = M(**o.__dict__)
    blank = [[0] * n for _ in range(m)]
    H = o.lH[:at] + [blank] + o.lH[at + 1:]
    o.H = env.array(H)
    A1, A2 = o.lA[at], o.lA[at + 1]

    def cut(rows, new):
        return env.array(rows[:at] + [new] + rows[at + 2:])
    q.A = cut(o.lA, sp.mm(A2, A1))
    q.Q = cut(o.lQ, sp.add(sp.mm(sp.mm(A2, o.lQ[at]), sp.T(A2)), o.lQ[at + 1]))
    q.H, q.R, q.Z = (cut(v, v[at + 1]) for v in (H, o.lR, o.lZ))
    if p:
        q.B = env.array([[list(r) + [0] * p for r in b] for b in o.lB[:at]]
                        + [[list(r) + list(s) for r, s in zip(sp.mm(A2, o.lB[at]), o.lB[at + 1])]]
                        + [[list(r) + [0] * p for r in b] for b in o.lB[at + 2:]])
        q.U = env.array([list(u) + [0] * p for u in o.lU[:at]] + [o.lU[at] + o.lU[at + 1]]
                        + [list(u) + [0] * p for u in o.lU[at + 2:]])
    a = run(env, kf_of(env, o), op, o.Z, o.U)
    mark_run(env, a)
    b = run(env, kf_of(env, q), op, q.Z, q.U)
    x, P = env.vals(a[0]), env.vals(a[1])
    env.eq("means", b[0], x[:at] + x[at + 1:])
    env.eq("covariances", b[1], P[:at] + P[at + 1:])


@scenario
def smooth_tail(env, cls, N, n, m, p=None):
    """Smoothing only what follows step j, from the filtered estimate of that
    step, gives what smoothing everything gives there."""
    o = model(env, cls, N, n, m, p)
    whole = run(env, build(env, cls, o), "smooth", o.Z, o.U)
    x, P = run(env, build(env, cls, o), "filter", o.Z, o.U)
    mark_run(env, whole, (x, P))
    wx, wP = env.vals(whole[0]), env.vals(whole[1])
    names = ("A", "H", "B", "Q", "R") if cls == "kf" else ("Q", "R")
    for j in range(1, N):
        over = {k: None if getattr(o, k) is None else getattr(o, k)[j:] for k in names}
        over.update(x0=x[j - 1], P0=P[j - 1])
        y, V = run(env, build(env, cls, o, **over), "smooth", o.Z[j:], None if o.U is None else o.U[j:])
        env.eq(f"smoothed means after {j}", y, wx[j:])
        env.eq(f"smoothed covariances after {j}", V, wP[j:])


@scenario
def swapped(env, N, n, m, op, at, p=None):
    """If the state does not move from one step to the next, their two
    observations may come in either order."""
    o = linear(env, N, n, m, p)
    A, Q = list(o.lA), list(o.lQ)
    A[at + 1], Q[at + 1] = sp.eye(n), [[0] * n for _ in range(n)]
    o.A, o.Q = env.array(A), env.array(Q)
    if p:
        o.U = env.array([u if k != at + 1 else [0] * p for k, u in enumerate(o.lU)])
    q = M(**o.__dict__)

    def turn(rows):
        rows = list(rows)
        rows[at], rows[at + 1] = rows[at + 1], rows[at]
        return rows
    q.lH, q.lR, q.lZ = turn(o.lH), turn(o.lR), turn(o.lZ)
    q.H, q.R, q.Z = env.array(q.lH), env.array(q.lR), env.array(q.lZ)
    if env.symbolic and n > 1:
        meet(env, o, q, A, Q, at)
    runs = [run(env, kf_of(env, v), op, v.Z, v.U) for v in (o, q)]
    mark_run(env, runs[0])
    x, P = env.vals(runs[0][0]), env.vals(runs[0][1])
    y, V = env.vals(runs[1][0]), env.vals(runs[1][1])
    same = [k for k in range(N) if op == "smooth" or k != at]
    env.eq("means", [y[k] for k in same], [x[k] for k in same])
    env.eq("covariances", [V[k] for k in same], [P[k] for k in same])



def meet(env, o, q, A, Q, at):
    """Proof steps: both orders meet after the two updates."""
    fs = [kf_of(env, v) for v in (o, q)]
    (x1, P1), (x2, P2) = ((env.vals(a) for a in run(env, f, "filter", v.Z, v.U)) for f, v in zip(fs, (o, q)))
    x, P = o.lx0, o.lP0
    for k in range(at + 1):
        xp, Pp = sp.predict(A[k], x, P, Q[k], None if o.C is None else o.C[k])
        env.mark(xp, Pp)
        Pp = sp.sym(Pp)
        if k < at:
            sp.posterior_steps(env, o.lH[k], Pp, o.lR[k], env.vals(fs[0].kalman_gains[k]), P1[k])
            x, P = x1[k], sp.sym(P1[k])
            env.mark(P)
    data = [o.lH[at], o.lH[at + 1], o.lR[at], o.lR[at + 1]]
    env.step([Pp] + data, P1[at + 1], P2[at + 1])
    env.step([Pp, xp, o.lZ[at], o.lZ[at + 1]] + data, x1[at + 1], x2[at + 1])


@scenario
def short_series(env, cls, N, n, m, op, p=None):
    """Runs over the first part of what the model describes leave nothing
    behind for later runs, over the same part or over everything."""
    o = model(env, cls, N, n, m, p)
    f = build(env, cls, o)
    Zs, Us = o.Z[:N - 1], None if o.U is None else o.U[:N - 1]
    want = run(env, build(env, cls, o), op, Zs, Us)
    whole = run(env, build(env, cls, o), op, o.Z, o.U)
    mark_run(env, want, whole)
    for i in range(2):
        same_run(env, f"short run {i}", run(env, f, op, Zs, Us), want)
    same_run(env, "whole run", run(env, f, op, o.Z, o.U), whole)
    same_run(env, "short run after it", run(env, f, op, Zs, Us), want)


@scenario
def integer_functions(env, N, n, m, op):
    """Model functions of the extended filter that return integer arrays."""
    x0, A, H = env.real("x0", (n,), dtype="i8"), env.real("A", (n, n), dtype="i8"), env.real("H", (m, n), dtype="i8")
    P0, Q, R = env.cov("P0", n, dtype="i8"), env.cov("Q", n, N, dtype="i8"), env.cov("R", m, N, dtype="i8")
    Z, c = env.real("Z", (N, m), dtype="i8"), env.real("c", (n,), dtype="i8")
    res = []
    for conv in (lambda v: v, lambda v: env.array(env.vals(v))):
        a = [conv(v) for v in (x0, P0, Q, R, A, H, Z, c)]
        f = env.kit.ExtendedKalmanFilter(a[0], a[1], a[2], a[3], lambda v, u, a=a: a[4] @ v + a[7], lambda v, a=a: a[5] @ v,
                                         lambda v, u, a=a: a[4], lambda v, a=a: a[5])
        if op == "predict":
            res.append(f.predict(xk=a[0], uk=None, Pk=a[1], Qk=a[2][0]))
        elif op == "update":
            res.append(f.update(xk=a[0], Pk=a[1], zk=a[6][0], Rk=a[3][0]))
        else:
            res.append(run(env, f, op, a[6]))
    mark_run(env, res[1])
    same_run(env, "integer functions", *res)
