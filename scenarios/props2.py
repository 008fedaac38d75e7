"""Covariance and optimality properties of both filters."""
from symkit import spec as sp

from . import scenario
from .common import kf_of, linear, run_args
from .extended import ekf_of, nonlinear
from .standard import _dummy_kf


def imm(K, H):
    """I - K H."""
    n = len(K)
    return sp.sub(sp.eye(n), sp.mm(K, H))


def tri(*ms):
    """Product of several matrices."""
    out = ms[0]
    for m in ms[1:]:
        out = sp.mm(out, m)
    return out


def quad(P, B, S, G, keep=True):
    """P - G B^T - B G^T + G S G^T: the error covariance left by gain G."""
    Gt = sp.T(G)
    return sp.add(sp.sub(sp.sub(P, sp.mm(G, sp.T(B))), sp.mm(B, Gt)), tri(G, S, Gt))


def innovation(H, P, R):
    """Cross covariance P H^T and innovation covariance."""
    B = sp.mm(P, sp.T(H))
    return B, sp.add(sp.mm(H, B), R)


def one_step(env, cls, n, m, semi=True):
    """One update of either filter, with its linearisation."""
    x = env.real("x", (n,))
    P = env.cov("P", n, semi=semi)
    R = env.cov("R", m)
    z = env.real("z", (m,))
    if cls == "kf":
        H = env.real("H", (m, n))
        f, lH, kw = _dummy_kf(env, n, m), env.vals(H), {"Hk": H}
    else:
        o = nonlinear(env, 1, n, m, 1)
        f, lH, kw = ekf_of(env, o), o.sJH(env.vals(x)), {}

    def update(P, R):
        _, Po = f.update(xk=x, Pk=P, zk=z, Rk=R, **kw)
        K = env.vals(f.kalman_gains[-1])
        env.mark(K)
        sp.posterior_steps(env, lH, env.vals(P), env.vals(R), K, env.vals(Po))
        return env.vals(Po), K
    return P, R, lH, update


def proper_update(env, label, P, H, R, Po, K):
    """Posterior and decrease are both covariances.  Marks and proof steps."""
    B, S = innovation(H, P, R)
    env.mark(B, S)
    env.hint(B, S, sp.mm(K, S), sp.mm(K, sp.T(B)), sp.mm(B, sp.T(K)))
    env.psd(f"posterior covariance{label}", Po, [(imm(K, H), P), (K, R)], quad(P, B, S, K), free=[[K, P], [K]])
    env.psd(f"prior minus posterior{label}", sp.sub(P, Po), [(sp.mm(K, H), P), (K, R)], tri(K, S, sp.T(K)), free=[[K, P], [K]])
    return S


# ------------------------------------------------------------- covariances
@scenario
def cov_predict(env, cls, n):
    x = env.real("x", (n,))
    P = env.cov("P", n, semi=True)
    Q = env.cov("Q", n, semi=True)
    if cls == "kf":
        A = env.real("A", (n, n))
        lA = env.vals(A)
        kf = _dummy_kf(env, n, 1)
        _, Pp = kf.predict(Ak=A, xk=x, Bk=None, uk=None, Pk=P, Qk=Q)
    else:
        o = nonlinear(env, 1, n, 1, 1)
        u = env.real("u", (1,))
        lA = o.sJA(env.vals(x), env.vals(u))
        _, Pp = ekf_of(env, o).predict(xk=x, uk=u, Pk=P, Qk=Q)
    env.psd("prior covariance", Pp, [(lA, P), (None, Q)])
    env.regular("predict")


@scenario
def cov_update(env, cls, n, m):
    P, R, H, update = one_step(env, cls, n, m)
    Po, K = update(P, R)
    proper_update(env, "", env.vals(P), H, env.vals(R), Po, K)
    env.regular("innovation covariance", [(H, P), (None, R)])


def cov_model(env, cls, N, n, m):
    o = linear(env, N, n, m) if cls == "kf" else nonlinear(env, N, n, m, 1)
    return o


def cov_steps(env, cls, o, states, errors, K):
    """Per step: prior covariance, transition, decrease of the covariance."""
    out = []
    P = o.lP0
    for k in range(o.N):
        if cls == "kf":
            A, H = o.lA[k], o.lH[k]
        else:
            x = o.lx0 if k == 0 else states[k - 1]
            A, H = o.sJA(x, o.lU[k]), o.sJH(o.sf(x, o.lU[k]))
        Pa = sp.add(tri(A, P, sp.T(A)), o.lQ[k])
        env.mark(Pa)
        env.psd(f"prior covariance {k}", Pa, [(A, P), (None, o.lQ[k])])
        Pa = sp.sym(Pa)
        sp.posterior_steps(env, H, Pa, o.lR[k], K[k], errors[k])
        S = proper_update(env, f" {k}", Pa, H, o.lR[k], errors[k], K[k])
        out.append((Pa, A, sp.sym(sp.sub(Pa, errors[k]))))
        env.regular(f"innovation covariance {k}", [(H, Pa), (None, o.lR[k])])
        P = sp.sym(errors[k])
        env.mark(P)
    return out


@scenario
def cov_filter(env, cls, N, n, m):
    o = cov_model(env, cls, N, n, m)
    f = (kf_of if cls == "kf" else ekf_of)(env, o)
    states, errors = f.filter(**run_args(o))
    cov_steps(env, cls, o, env.vals(states), env.vals(errors), [env.vals(k) for k in f.kalman_gains])


@scenario
def cov_smooth(env, cls, N, n, m):
    o = cov_model(env, cls, N, n, m)
    make = kf_of if cls == "kf" else ekf_of
    f = make(env, o)
    states, errors = f.filter(**run_args(o))
    g = make(env, o)
    _, smoothed = g.smooth(**run_args(o))
    lx, lP, ls = env.vals(states), env.vals(errors), env.vals(smoothed)
    st = cov_steps(env, cls, o, lx, lP, [env.vals(k) for k in f.kalman_gains])
    Ps, less = sp.sym(lP[-1]), None
    for k in range(N - 2, -1, -1):
        Pa, A, drop = st[k + 1]
        P = sp.sym(lP[k])
        env.regular("smoother", [(A, P), (None, o.lQ[k + 1])])
        C = sp.mm(P, sp.T(A))
        G = sp.mm(C, sp.inv(Pa))
        env.mark(C, G)
        env.hint(C, Pa, sp.mm(G, Pa), sp.mm(G, sp.T(C)), sp.mm(C, sp.T(G)))
        Gt = sp.T(G)
        gap = [(G, drop)] + ([] if less is None else [(G, less)])
        Pn = sp.sym(ls[k])
        new = sp.sub(P, Pn)
        env.psd(f"filtered minus smoothed {k}", new, gap, tri(G, sp.sub(Pa, Ps), Gt), free=[[G, Pa, Ps, sp.sym(lP[k + 1])]])
        env.psd(f"smoothed covariance {k}", ls[k], [(imm(G, A), P), (G, o.lQ[k + 1]), (G, Ps)],
                sp.add(quad(P, C, Pa, G), tri(G, Ps, Gt)), free=[[G, Ps, P]])
        Ps, less = Pn, new
        env.mark(Ps)


# --------------------------------------------------------------- optimality
@scenario
def min_variance(env, cls, n, m):
    """Against every other linear gain G."""
    G = env.vals(env.real("G", (n, m)))
    P, R, H, update = one_step(env, cls, n, m)
    Po, K = update(P, R)
    compare_gain(env, "", env.vals(P), H, env.vals(R), Po, K, G)


def compare_gain(env, label, P, H, R, Po, K, G):
    B, S = innovation(H, P, R)
    env.mark(B, S)
    W = imm(G, H)
    other = sp.add(tri(W, P, sp.T(W)), tri(G, R, sp.T(G)))
    E = sp.sub(G, K)
    KS = sp.mm(K, S)
    BK = sp.mm(B, sp.T(K))
    env.hint(B, S, KS, other, quad(P, B, S, G), sp.mm(K, sp.T(B)), BK, sp.sub(P, sp.mm(K, sp.T(B))), sp.sub(P, BK))
    GS, Gt = tri(G, S, sp.T(G)), sp.T(G)
    steps = [tri(E, S, sp.T(E)),
             sp.add(sp.sub(sp.sub(GS, sp.mm(G, sp.T(KS))), sp.mm(KS, Gt)), sp.mm(KS, sp.T(K))),
             sp.add(sp.sub(sp.sub(GS, sp.mm(G, sp.T(B))), sp.mm(B, Gt)), BK),
             sp.sub(quad(P, B, S, G), sp.sub(P, BK)),
             sp.sub(quad(P, B, S, G), Po)]
    env.psd(f"variance of any gain minus the filter's{label}", sp.sub(other, Po),
            [(sp.mm(E, H), P), (E, R)], *steps, free=[[K, B, S, G], [K, S, G], [K, G, P], [G, P, Po]])
    return other


@scenario
def monotone(env, what, n, m):
    """More uncertainty in (prior or noise) never gives less out."""
    P, R, H, update = one_step(env, "kf", n, m)
    D = env.cov("D", n if what == "P" else m, semi=True)
    lP, lR, lD = env.vals(P), env.vals(R), env.vals(D)
    P2 = env.array(sp.add(lP, lD)) if what == "P" else P
    R2 = env.array(sp.add(lR, lD)) if what == "R" else R
    Pa, K1 = update(P, R)
    Pb, K2 = update(P2, R2)
    lP2, lR2 = env.vals(P2), env.vals(R2)
    other = compare_gain(env, " (smaller)", lP, H, lR, Pa, K1, K2)
    W = imm(K2, H)
    extra = (W, lD) if what == "P" else (K2, lD)
    X, V = extra
    B2, S2 = innovation(H, lP2, lR2)
    env.mark(B2, S2)
    env.hint(B2, S2, sp.mm(K2, S2), sp.mm(K2, sp.T(B2)), sp.mm(B2, sp.T(K2)))
    env.psd("posterior grows", sp.sub(Pb, Pa), [(None, sp.sub(other, Pa)), extra],
            sp.sub(sp.add(tri(W, lP2, sp.T(W)), tri(K2, lR2, sp.T(K2))), Pa),
            sp.sub(quad(lP2, B2, S2, K2), Pa), free=[[Pa, K2]])


@scenario
def monotone_run(env, what, N, n, m):
    """Two runs of the filter, one with more initial uncertainty or noise: at
    no step does that one report less."""
    o = linear(env, N, n, m)
    size = m if what == "R" else n
    D = env.cov("D", size, None if what == "P" else N, semi=True)
    lD = env.vals(D)
    b = {"P0": o.P0, "Q": o.Q, "R": o.R}
    key = {"P": "P0", "Q": "Q", "R": "R"}[what]
    grow = sp.add(env.vals(b[key]), lD) if what == "P" else [sp.add(v, d) for v, d in zip(env.vals(b[key]), lD)]
    b[key] = env.array(grow)
    runs = []
    for P0, Q, R in ((o.P0, o.Q, o.R), (b["P0"], b["Q"], b["R"])):
        f = env.kit.KalmanFilter(A=o.A, xk=o.x0, B=None, Pk=P0, H=o.H, Q=Q, R=R)
        _, errors = f.filter(o.Z)
        runs.append((env.vals(P0), env.vals(Q), env.vals(R), env.vals(errors), [env.vals(k) for k in f.kalman_gains]))
    (P1, Q1, R1, E1, K1), (P2, Q2, R2, E2, K2) = runs
    if not env.symbolic:
        for k in range(N):
            env.psd(f"covariance {k} grows", sp.sub(E2[k], E1[k]), [])
        return
    more = lD if what == "P" else None  # how much larger the covariance is so far
    for k in range(N):
        A, H = o.lA[k], o.lH[k]
        prior = []
        for P, Q in ((P1, Q1[k]), (P2, Q2[k])):
            Pa = sp.add(tri(A, P, sp.T(A)), Q)
            env.mark(Pa)
            prior.append(Pa)
        terms = ([(A, more)] if more is not None else []) + ([(None, lD[k])] if what == "Q" else [])
        more = None
        if terms:
            more = sp.sub(prior[1], prior[0])
            env.psd(f"prior covariance {k} grows", more, terms)
            more = sp.sym(more)
        a, c = sp.sym(prior[0]), sp.sym(prior[1])
        env.psd(f"prior covariance {k}", prior[0], [(A, P1), (None, Q1[k])])
        sp.posterior_steps(env, H, a, R1[k], K1[k], E1[k])
        sp.posterior_steps(env, H, c, R2[k], K2[k], E2[k])
        other = compare_gain(env, f" {k} (smaller)", a, H, R1[k], E1[k], K1[k], K2[k])
        W = imm(K2[k], H)
        B2, S2 = innovation(H, c, R2[k])
        env.mark(B2, S2)
        env.hint(B2, S2, sp.mm(K2[k], S2), sp.mm(K2[k], sp.T(B2)), sp.mm(B2, sp.T(K2[k])))
        extra = ([(W, more)] if more is not None else []) + ([(K2[k], lD[k])] if what == "R" else [])
        env.psd(f"covariance {k} grows", sp.sub(E2[k], E1[k]), [(None, sp.sub(other, E1[k]))] + extra,
                sp.sub(sp.add(tri(W, c, sp.T(W)), tri(K2[k], R2[k], sp.T(K2[k]))), E1[k]),
                sp.sub(quad(c, B2, S2, K2[k]), E1[k]), free=[[E1[k], K2[k], a, c], [E1[k], K2[k], c], [E1[k], K2[k]]])
        more = sp.sym(sp.sub(E2[k], E1[k]))
        env.psd(f"covariance {k}", E1[k], [(imm(K1[k], H), a), (K1[k], R1[k])],
                quad(a, *innovation(H, a, R1[k]), K1[k]), free=[[K1[k], a], [K1[k]]])
        P1, P2 = sp.sym(E1[k]), sp.sym(E2[k])
        env.mark(P1, P2)


@scenario
def monotone_predict(env, n):
    A, x = env.real("A", (n, n)), env.real("x", (n,))
    P, Q, D1, D2 = (env.cov(c, n, semi=True) for c in "PQDE")
    f = _dummy_kf(env, n, 1)
    _, Pa = f.predict(Ak=A, xk=x, Bk=None, uk=None, Pk=P, Qk=Q)
    P2 = env.array(sp.add(env.vals(P), env.vals(D1)))
    Q2 = env.array(sp.add(env.vals(Q), env.vals(D2)))
    _, Pb = f.predict(Ak=A, xk=x, Bk=None, uk=None, Pk=P2, Qk=Q2)
    env.psd("prior grows", sp.sub(env.vals(Pb), env.vals(Pa)), [(env.vals(A), D1), (None, D2)])
