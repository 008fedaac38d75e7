"""Shared model builders.  Every builder returns the arrays handed to the code
together with exact nested-list copies for the specification."""


class M:
    """A bag of named inputs."""

    def __init__(self, **k):
        self.__dict__.update(k)


def obs_Z(env, N, m, zform, name="Z", **k):
    if zform == "flat":
        Z = env.real(name, (N,), **k)
        return Z, [[z] for z in env.vals(Z)]
    Z = env.real(name, (N, m), **k)
    return Z, env.vals(Z)


def noise_R(env, N, m, rform, name="R"):
    if rform == "flat":
        R = env.pos(name, (N,))
        return R, [[[r]] for r in env.vals(R)]
    R = env.cov(name, m, N)
    return R, env.vals(R)


def noise_Q(env, N, n, qform, name="Q"):
    if qform == "flat":
        Q = env.pos(name, (N,))
        return Q, [[[q]] for q in env.vals(Q)]
    if qform == "zero":
        return env.array([[[0] * n for _ in range(n)] for _ in range(N)]), [[[0] * n for _ in range(n)] for _ in range(N)]
    Q = env.cov(name, n, N)
    return Q, env.vals(Q)


def init_x(env, n, xform, name="x0"):
    if xform == "mat":
        x = env.real(name, (1, 1))
        return x, env.vals(x)[0]
    x = env.real(name, (n,))
    return x, env.vals(x)


def linear(env, N, n, m, p=None, zform="vec", rform="mat", qform="mat", xform="vec", pre=""):
    """A time-varying linear model; p=None means no control (B is None)."""
    o = M(N=N, n=n, m=m, p=p)
    o.A = env.real(pre + "A", (N, n, n))
    o.H = env.real(pre + "H", (N, m, n))
    o.x0, o.lx0 = init_x(env, n, xform, pre + "x0")
    o.P0 = env.cov(pre + "P0", n, semi=qform != "zero")
    o.Q, o.lQ = noise_Q(env, N, n, qform, pre + "Q")
    o.R, o.lR = noise_R(env, N, m, rform, pre + "R")
    o.Z, o.lZ = obs_Z(env, N, m, zform, pre + "Z")
    o.lA, o.lH, o.lP0 = env.vals(o.A), env.vals(o.H), env.vals(o.P0)
    o.B = o.U = o.C = None
    if p:
        o.B = env.real(pre + "B", (N, n, p))
        o.U = env.real(pre + "U", (N, p))
        o.lB, o.lU = env.vals(o.B), env.vals(o.U)
        from symkit import spec
        o.C = [spec.mv(b, u) for b, u in zip(o.lB, o.lU)]
    return o


def kf_of(env, o, **k):
    return env.kit.KalmanFilter(A=o.A, xk=o.x0, B=o.B, Pk=o.P0, H=o.H, Q=o.Q, R=o.R, **k)


def run_args(o):
    return {"Z": o.Z} if o.U is None else {"Z": o.Z, "U": o.U}
