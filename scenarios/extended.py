"""Extended Kalman filter: steps, filtering, smoothing; arbitrary (and thus
uninterpreted) f, h and Jacobians."""
from symkit import spec as sp

from . import scenario
from .common import M, init_x, kf_of, linear, noise_Q, noise_R, obs_Z, run_args


def nonlinear(env, N, n, m, p=None, zform="vec", rform="mat", qform="mat", xform="vec", pre=""):
    o = M(N=N, n=n, m=m, p=p)
    o.x0, o.lx0 = init_x(env, n, xform, pre + "x0")
    o.P0 = env.cov(pre + "P0", n, semi=qform != "zero")
    o.Q, o.lQ = noise_Q(env, N, n, qform, pre + "Q")
    o.R, o.lR = noise_R(env, N, m, rform, pre + "R")
    o.Z, o.lZ = obs_Z(env, N, m, zform, pre + "Z")
    o.lP0 = env.vals(o.P0)
    if p:
        o.U = env.real(pre + "U", (N, p))
        o.lU = env.vals(o.U)
    else:
        # no control: the model functions do not look at their second argument
        o.U = None
        o.lU = [None] * N
    hshape = () if (m == 1 and zform == "flat") else (m,)
    o.f, o.sf = env.fn(pre + "f", (n,)), env.fn_spec(pre + "f", (n,))
    o.JA, o.sJA = env.fn(pre + "JA", (n, n)), env.fn_spec(pre + "JA", (n, n))
    o.h, o.sh = env.fn(pre + "h", hshape), env.fn_spec(pre + "h", hshape)
    o.JH, o.sJH = env.fn(pre + "JH", (m, n)), env.fn_spec(pre + "JH", (m, n))
    if not p:
        for a in ("f", "sf", "JA", "sJA"):
            setattr(o, a, lambda x, u=None, g=getattr(o, a): g(x))
    o.hlist = (lambda x: [o.sh(x)]) if hshape == () else o.sh
    return o


def ekf_of(env, o):
    return env.kit.ExtendedKalmanFilter(
        xk=o.x0, Pk=o.P0, Q=o.Q, R=o.R, f=o.f, h=o.h, jacobian_A=o.JA, jacobian_H=o.JH)


def spec_filter(env, o):
    x, P = o.lx0, o.lP0
    out = []
    for k in range(o.N):
        J = o.sJA(x, o.lU[k])
        xp = o.sf(x, o.lU[k])
        Pp = sp.add(sp.mm(sp.mm(J, P), sp.T(J)), o.lQ[k])
        x, P, K = sp.update(o.sJH(xp), xp, Pp, o.lZ[k], o.lR[k], hx=o.hlist(xp))
        sp.posterior_steps(env, o.sJH(xp), Pp, o.lR[k], K)
        env.mark(x, P)
        out.append((x, P, K, xp, Pp))
    return out


def spec_smooth(env, o, f):
    N = o.N
    xs, Ps = [None] * N, [None] * N
    xs[-1], Ps[-1] = f[-1][0], f[-1][1]
    for k in range(N - 2, -1, -1):
        x, P = f[k][0], f[k][1]
        J = o.sJA(x, o.lU[k + 1])
        xa = o.sf(x, o.lU[k + 1])
        Pa = sp.add(sp.mm(sp.mm(J, P), sp.T(J)), o.lQ[k + 1])
        G = sp.mm(sp.mm(P, sp.T(J)), sp.inv(Pa))
        xs[k] = sp.add(x, sp.mv(G, sp.sub(xs[k + 1], xa)))
        Ps[k] = sp.add(P, sp.mm(sp.mm(G, sp.sub(Ps[k + 1], Pa)), sp.T(G)))
        env.mark(xs[k], Ps[k])
    return xs, Ps


@scenario
def ekf_predict(env, n, p=1, positional=False):
    o = nonlinear(env, 1, n, 1, p)
    x, P, Q, u = env.real("x", (n,)), env.cov("P", n), env.cov("Qk", n), env.real("u", (p,))
    e = ekf_of(env, o)
    lx, lP, lQ, lu = env.vals(x), env.vals(P), env.vals(Q), env.vals(u)
    if positional:
        xp, Pp = e.predict(x, u, P, Q)
    else:
        xp, Pp = e.predict(xk=x, uk=u, Pk=P, Qk=Q)
    J = o.sJA(lx, lu)
    env.eq("prior mean", xp, o.sf(lx, lu))
    env.eq("prior covariance", Pp, sp.add(sp.mm(sp.mm(J, lP), sp.T(J)), lQ))
    env.true("predict records no gain", len(e.kalman_gains) == 0)


@scenario
def ekf_update(env, n, m, positional=False, zform="vec"):
    o = nonlinear(env, 1, n, m, 1, zform=zform)
    x, P = env.real("x", (n,)), env.cov("P", n)
    R = env.cov("Rk", m)
    if zform == "flat":
        z = env.scalar("z", "real")
        lz = [env.vals([z])[0]]
    else:
        z = env.real("z", (m,))
        lz = env.vals(z)
    e = ekf_of(env, o)
    lx, lP, lR = env.vals(x), env.vals(P), env.vals(R)
    if positional:
        xo, Po = e.update(x, P, z, R)
    else:
        xo, Po = e.update(xk=x, Pk=P, zk=z, Rk=R)
    lH = o.sJH(lx)
    ex, eP, eK = sp.update(lH, lx, lP, lz, lR, hx=o.hlist(lx))
    sp.posterior_steps(env, lH, lP, lR, eK)
    env.eq("posterior mean", xo, ex)
    env.eq("posterior covariance", Po, eP)
    env.true("one gain recorded", len(e.kalman_gains) == 1)
    env.eq("gain", e.kalman_gains[0], eK)
    K = env.vals(e.kalman_gains[0])
    S = sp.add(sp.mm(lH, sp.mm(lP, sp.T(lH))), lR)
    env.eq("gain equation", sp.mm(K, S), sp.mm(lP, sp.T(lH)))


@scenario
def ekf_filter(env, N, n, m, p=None, **forms):
    o = nonlinear(env, N, n, m, p, **forms)
    e = ekf_of(env, o)
    states, errors = e.filter(**run_args(o))
    f = spec_filter(env, o)
    env.eq("states", states, [r[0] for r in f])
    env.eq("errors", errors, [r[1] for r in f])
    env.true("gain count", len(e.kalman_gains) == N)
    for k in range(N):
        env.eq(f"gain {k}", e.kalman_gains[k], f[k][2])


@scenario
def ekf_smooth(env, N, n, m, p=None, **forms):
    o = nonlinear(env, N, n, m, p, **forms)
    e = ekf_of(env, o)
    states, errors = e.smooth(**run_args(o))
    f = spec_filter(env, o)
    xs, Ps = spec_smooth(env, o, f)
    env.eq("smoothed states", states, xs)
    env.eq("smoothed errors", errors, Ps)
