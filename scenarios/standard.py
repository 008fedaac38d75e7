"""Standard Kalman filter: steps, filtering, smoothing."""
from symkit import spec as sp

from . import scenario
from .common import M, kf_of, linear, run_args


def _dummy_kf(env, n, m):
    """Any filter object: predict/update take their matrices as arguments."""
    return env.kit.KalmanFilter(
        A=env.array([sp.eye(n)]), xk=env.array([0.0] * n), B=None, Pk=env.array(sp.eye(n)),
        H=env.array([[[1.0 if i == j else 0.0 for j in range(n)] for i in range(m)]]),
        Q=env.array([sp.eye(n)]), R=env.array([sp.eye(m)]))


@scenario
def kf_predict(env, n, p=1, control="yes", positional=False):
    A, x = env.real("A", (n, n)), env.real("x", (n,))
    P, Q = env.cov("P", n), env.cov("Q", n)
    B = u = c = None
    if control == "yes":
        B, u = env.real("B", (n, p)), env.real("u", (p,))
        c = sp.mv(env.vals(B), env.vals(u))
    elif control == "nan":
        B, u = env.real("B", (n, p), nan="all"), env.real("u", (p,), nan="all")
    kf = _dummy_kf(env, n, 1)
    lA, lx, lP, lQ = env.vals(A), env.vals(x), env.vals(P), env.vals(Q)
    if positional:
        xp, Pp = kf.predict(A, x, B, u, P, Q)
    else:
        xp, Pp = kf.predict(Ak=A, xk=x, Bk=B, uk=u, Pk=P, Qk=Q)
    ex, eP = sp.predict(lA, lx, lP, lQ, c)
    env.eq("prior mean", xp, ex)
    env.eq("prior covariance", Pp, eP)
    env.true("predict records no gain", len(kf.kalman_gains) == 0)


@scenario
def kf_update(env, n, m, zscalar=False, rscalar=False, positional=False):
    H, x = env.real("H", (m, n)), env.real("x", (n,))
    P = env.cov("P", n)
    lR = None
    if rscalar:
        R = env.scalar("R", "pos")
        lR = [[env.vals([R])[0]]]
    else:
        R = env.cov("R", m)
        lR = env.vals(R)
    if zscalar:
        z = env.scalar("z", "real")
        lz = [env.vals([z])[0]]
    else:
        z = env.real("z", (m,))
        lz = env.vals(z)
    kf = _dummy_kf(env, n, m)
    lH, lx, lP = env.vals(H), env.vals(x), env.vals(P)
    if positional:
        xo, Po = kf.update(H, x, P, z, R)
    else:
        xo, Po = kf.update(Hk=H, xk=x, Pk=P, zk=z, Rk=R)
    ex, eP, eK = sp.update(lH, lx, lP, lz, lR)
    sp.posterior_steps(env, lH, lP, lR, eK)
    env.eq("posterior mean", xo, ex)
    env.eq("posterior covariance", Po, eP)
    env.true("one gain recorded", len(kf.kalman_gains) == 1)
    env.eq("gain", kf.kalman_gains[0], eK)
    # the gain solves  K (H P H^T + R) = P H^T
    K = env.vals(kf.kalman_gains[0])
    S = sp.add(sp.mm(lH, sp.mm(lP, sp.T(lH))), lR)
    env.eq("gain equation", sp.mm(K, S), sp.mm(lP, sp.T(lH)))


@scenario
def kf_filter(env, N, n, m, p=None, state_size=False, **forms):
    o = linear(env, N, n, m, p, **forms)
    kf = kf_of(env, o, **({"state_size": n} if state_size else {}))
    states, errors = kf.filter(**run_args(o))
    f = sp.filt(env, o.lA, o.lH, o.lQ, o.lR, o.lZ, o.lx0, o.lP0, o.C)
    env.eq("states", states, [r[0] for r in f])
    env.eq("errors", errors, [r[1] for r in f])
    env.true("gain count", len(kf.kalman_gains) == N)
    for k in range(N):
        env.eq(f"gain {k}", kf.kalman_gains[k], f[k][2])


@scenario
def kf_smooth(env, N, n, m, p=None, **forms):
    o = linear(env, N, n, m, p, **forms)
    kf = kf_of(env, o)
    states, errors = kf.smooth(**run_args(o))
    f = sp.filt(env, o.lA, o.lH, o.lQ, o.lR, o.lZ, o.lx0, o.lP0, o.C)
    xs, Ps = sp.rts(env, f, o.lA, o.lQ, o.C)
    env.eq("smoothed states", states, xs)
    env.eq("smoothed errors", errors, Ps)
