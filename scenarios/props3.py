"""Relations between runs: equivalence of the two filters, controls, causality,
data flow, call histories, gain record, integer inputs, invariances."""
from symkit import spec as sp

from . import scenario
from .common import M, kf_of, linear, noise_Q, noise_R, obs_Z, run_args
from .extended import ekf_of, nonlinear, spec_filter, spec_smooth
from .standard import _dummy_kf


def model(env, cls, N, n, m, p=None, **k):
    return linear(env, N, n, m, p, **k) if cls == "kf" else nonlinear(env, N, n, m, p, **k)


def build(env, cls, o, **over):
    o = M(**dict(o.__dict__, **over))
    return kf_of(env, o) if cls == "kf" else ekf_of(env, o)


def run(env, f, op, Z, U=None):
    return getattr(f, op)(**({"Z": Z} if U is None else {"Z": Z, "U": U}))


def same_run(env, label, got, want):
    env.eq(f"{label} means", got[0], env.vals(want[0]))
    env.eq(f"{label} covariances", got[1], env.vals(want[1]))


def mark_run(env, *runs):
    for r in runs:
        env.mark(env.vals(r[0]), env.vals(r[1]))


def tile(env, M_, N):
    return env.array([M_] * N)


# ------------------------------------------------- the two filters agree
@scenario
def ekf_is_kf(env, N, n, m, control="none", op="filter", p=1):
    """On a linear (or affine) model both filters give the same output."""
    A, H = env.real("A", (n, n)), env.real("H", (m, n))
    lA, lH = env.vals(A), env.vals(H)
    o = M(N=N, n=n, m=m)
    o.x0, o.P0 = env.real("x0", (n,)), env.cov("P0", n, semi=True)
    o.Q, o.R = env.cov("Q", n, N), env.cov("R", m, N)
    o.Z = env.real("Z", (N, m))
    o.U = o.B = None
    if control == "yes":
        B = env.real("B", (n, p))
        o.U = env.real("U", (N, p))
        o.B = tile(env, env.vals(B), N)
        f = lambda x, u: A @ x + B @ u
    elif control == "affine":
        b = env.real("b", (n,))
        o.B = tile(env, [[v] for v in env.vals(b)], N)
        Uk = env.array([[1.0]] * N)
        f = lambda x, u: A @ x + b
    else:
        f = lambda x, u: A @ x
    o.A, o.H = tile(env, lA, N), tile(env, lH, N)
    o.f, o.h, o.JA, o.JH = f, (lambda x: H @ x), (lambda x, u: A), (lambda x: H)
    k, e = kf_of(env, o), ekf_of(env, o)
    a = run(env, k, op, o.Z, Uk if control == "affine" else o.U)
    b2 = run(env, e, op, o.Z, o.U)
    mark_run(env, a)
    same_run(env, "extended filter", b2, a)
    for i in range(N):
        env.eq(f"gain {i}", e.kalman_gains[i], env.vals(k.kalman_gains[i]))


# ------------------------------------------------------------------ control
@scenario
def control_rows(env, N, n, m, p, op, how, only=None):
    """Rows of U (or matrices of B) that are absent (all NaN) add nothing, all
    the others are used in full.  Every pattern of absences, or (for longer
    series) every place for the only absence or the only presence."""
    o = linear(env, N, n, m, p)
    lU, lB = env.vals(o.U), env.vals(o.B)
    if only:
        i = env.choice("where", N)
        gone = [(k == i) == (only == "absent") for k in range(N)]
    else:
        gone = [env.flag(f"absent{k}") for k in range(N)]
    nan = env.nan()
    if how == "U":
        o.U = env.array([[nan] * p if g else r for g, r in zip(gone, lU)])
    else:
        o.B = env.array([[[nan] * p] * n if g else r for g, r in zip(gone, lB)])
    o.C = [[0] * n if g else sp.mv(b, u) for g, b, u in zip(gone, lB, lU)]
    got = run(env, kf_of(env, o), op, o.Z, o.U)
    f = sp.filt(env, o.lA, o.lH, o.lQ, o.lR, o.lZ, o.lx0, o.lP0, o.C)
    want = ([r[0] for r in f], [r[1] for r in f]) if op == "filter" else sp.rts(env, f, o.lA, o.lQ, o.C)
    env.eq("means", got[0], want[0])
    env.eq("covariances", got[1], want[1])


@scenario
def control_partial(env, N, n, m, p, op):
    """A row of U with only some entries missing is a control: what depends on
    the missing entries is NaN from there on, never silently left out."""
    o = linear(env, N, n, m, p)
    lB = env.vals(o.B)
    o.U = env.real("V", (N, p), nan="each")
    lU = env.vals(o.U)
    gone = [all(env.isnan(v) for v in u) for u in lU]
    o.C = [[0] * n if g else sp.mv(b, u) for g, b, u in zip(gone, lB, lU)]
    got = run(env, kf_of(env, o), op, o.Z, o.U)
    f = sp.filt(env, o.lA, o.lH, o.lQ, o.lR, o.lZ, o.lx0, o.lP0, o.C)
    want = ([r[0] for r in f], [r[1] for r in f]) if op == "filter" else sp.rts(env, f, o.lA, o.lQ, o.C)
    env.eq("means", got[0], want[0])
    env.eq("covariances", got[1], want[1])


@scenario
def control_forms(env, N, n, m, op):
    """Every way of leaving the control out gives the same output, which is
    that of a zero control."""
    o = linear(env, N, n, m, 1)
    zero_U, zero_B = env.array([[0.0]] * N), env.array([[[0.0]] * n] * N)
    nan_U = env.array([[env.nan()]] * N)
    want = run(env, build(env, "kf", o, B=None), op, o.Z)
    mark_run(env, want)
    for label, B, U in (("B only", o.B, None), ("U only", None, o.U), ("NaN U", o.B, nan_U),
                        ("zero U", o.B, zero_U), ("zero B", zero_B, o.U)):
        same_run(env, label, run(env, build(env, "kf", o, B=B), op, o.Z, U), want)


@scenario
def control_step(env, n, p):
    """One prediction: control omitted as None, or all NaN, in either place."""
    A, x = env.real("A", (n, n)), env.real("x", (n,))
    P, Q = env.cov("P", n), env.cov("Q", n)
    B, u = env.real("B", (n, p)), env.real("u", (p,))
    nB, nu = env.array([[env.nan()] * p] * n), env.array([env.nan()] * p)
    f = _dummy_kf(env, n, 1)
    ex, eP = sp.predict(env.vals(A), env.vals(x), env.vals(P), env.vals(Q))
    cases = [("none none", None, None), ("B none", None, u), ("u none", B, None), ("B nan", nB, u), ("u nan", B, nu),
             ("both nan", nB, nu)]
    for label, b, w in cases:
        xp, Pp = f.predict(Ak=A, xk=x, Bk=b, uk=w, Pk=P, Qk=Q)
        env.eq(f"{label}: mean", xp, ex)
        env.eq(f"{label}: covariance", Pp, eP)


@scenario
def control_used(env, n, p):
    """Control is used even when B or u holds isolated zeros or NaNs only
    elsewhere: every element independently present."""
    A, x = env.real("A", (n, n)), env.real("x", (n,))
    P, Q = env.cov("P", n), env.cov("Q", n)
    B = env.real("B", (n, p))
    u = env.real("u", (p,), nan="each")
    lB, lu = env.vals(B), env.vals(u)
    f = _dummy_kf(env, n, 1)
    xp, Pp = f.predict(Ak=A, xk=x, Bk=B, uk=u, Pk=P, Qk=Q)
    ex, eP = sp.predict(env.vals(A), env.vals(x), env.vals(P), env.vals(Q))
    gone = [env.isnan(v) for v in lu]
    if not all(gone):
        # NaN is "no value": what depends on it is NaN, never silently dropped
        ex = sp.add(ex, sp.mv(lB, lu))
    env.eq("mean", xp, ex)
    env.eq("covariance", Pp, eP)


@scenario
def callback_args(env, N, n, m, op, given, p=1):
    """What the user's functions of an extended filter get for the control:
    the row of U for that step, or nothing (None or all NaN)."""
    o = nonlinear(env, N, n, m, p)
    if given == "partly":
        o.U = env.real("V", (N, p), nan="each")
    seen = []

    def spy(g):
        def w(x, u):
            seen.append(u)
            return g(x, u if given is True else o.stub)
        return w
    o.stub = env.array([0.0] * p)
    o.f, o.JA = spy(o.f), spy(o.JA)
    f = ekf_of(env, o)
    run(env, f, op, o.Z, o.U if given else None)
    env.true("functions were called", len(seen) >= 2 * N)
    for i, u in enumerate(seen):
        if given:
            k = min(i // 2, N - 1) if i < 2 * N else None
            if k is not None:
                env.eq(f"call {i}: control", u, env.vals(o.U)[k])
        elif u is not None:
            flat = env.vals(u) if getattr(u, "ndim", 0) else [env.vals(u)]
            for v in flat:
                env.true(f"call {i}: a placeholder holds no value", env.isnan(v))


@scenario
def callback_step(env, n, p):
    """One extended prediction hands the control over as it is, also when some
    or all of its entries are missing, or when there is none."""
    o = nonlinear(env, 1, n, 1, p)
    u = env.real("u", (p,), nan="each")
    seen = []

    def spy(g):
        def w(x, u):
            seen.append((x, u))
            return g(x, o.U[0])
        return w
    o.f, o.JA = spy(o.f), spy(o.JA)
    f = ekf_of(env, o)
    f.predict(xk=o.x0, uk=u, Pk=o.P0, Qk=o.Q[0])
    env.true("functions were called", len(seen) >= 2)
    for i, (x, w) in enumerate(seen):
        env.eq(f"call {i}: state", x, o.lx0)
        env.eq(f"call {i}: control", w, env.vals(u))
    del seen[:]
    f.predict(xk=o.x0, uk=None, Pk=o.P0, Qk=o.Q[0])
    for i, (x, w) in enumerate(seen):
        env.eq(f"call {i} without control: state", x, o.lx0)
        env.true(f"call {i} without control", w is None or all(env.isnan(v) for v in env.vals(env.np.atleast_1d(w))))


# --------------------------------------------------------------- causality
@scenario
def causal(env, cls, N, n, m, p=None):
    """What comes later never changes what was filtered before."""
    o = model(env, cls, N, n, m, p)
    want = run(env, build(env, cls, o), "filter", o.Z, o.U)
    mark_run(env, want)
    if cls == "kf":
        alt = linear(env, N, n, m, p, pre="alt_")
    else:
        alt = M(Z=env.real("alt_Z", (N, m)), Q=env.cov("alt_Q", n, N), R=env.cov("alt_R", m, N),
                U=env.real("alt_U", (N, p)) if p else None)
    for j in range(1, N):
        def mix(a, b, j=j):
            return None if a is None else env.np.concatenate([a[:j], b[j:]])
        over = {"Q": mix(o.Q, alt.Q), "R": mix(o.R, alt.R)}
        if cls == "kf":
            over.update(A=mix(o.A, alt.A), H=mix(o.H, alt.H), B=mix(o.B, alt.B))
        got = run(env, build(env, cls, o, **over), "filter", mix(o.Z, alt.Z), mix(o.U, alt.U))
        env.eq(f"means before {j}", got[0][:j], env.vals(want[0])[:j])
        env.eq(f"covariances before {j}", got[1][:j], env.vals(want[1])[:j])


@scenario
def resume(env, cls, N, n, m, p=None):
    """Stopping after j observations and starting again from the estimate
    reached gives the same as one run; a prefix alone gives the prefix."""
    o = model(env, cls, N, n, m, p)
    whole = run(env, build(env, cls, o), "filter", o.Z, o.U)
    mark_run(env, whole)
    wx, wP = env.vals(whole[0]), env.vals(whole[1])

    def part(a, lo, hi):
        return None if a is None else a[lo:hi]
    names = ("A", "H", "B", "Q", "R") if cls == "kf" else ("Q", "R")
    for j in range(1, N):
        over = {k: part(getattr(o, k), 0, j) for k in names}
        x1, P1 = run(env, build(env, cls, o, **over), "filter", o.Z[:j], part(o.U, 0, j))
        env.eq(f"prefix {j} means", x1, wx[:j])
        env.eq(f"prefix {j} covariances", P1, wP[:j])
        if N <= 8:  # the model arrays may describe more steps than there are data
            x3, P3 = run(env, build(env, cls, o), "filter", o.Z[:j], part(o.U, 0, j))
            env.eq(f"first {j} means", x3, wx[:j])
            env.eq(f"first {j} covariances", P3, wP[:j])
        over = {k: part(getattr(o, k), j, N) for k in names}
        over.update(x0=x1[-1], P0=P1[-1])
        x2, P2 = run(env, build(env, cls, o, **over), "filter", o.Z[j:], part(o.U, j, N))
        env.eq(f"resumed at {j} means", x2, wx[j:])
        env.eq(f"resumed at {j} covariances", P2, wP[j:])


@scenario
def stepwise(env, cls, N, n, m, p=None):
    """A user's own loop over predict and update gives what filter gives."""
    o = model(env, cls, N, n, m, p)
    g = build(env, cls, o)
    whole = run(env, g, "filter", o.Z, o.U)
    mark_run(env, whole)
    f = build(env, cls, o)
    x, P = o.x0, o.P0
    for k in range(N):
        u = None if o.U is None else o.U[k]
        if cls == "kf":
            x, P = f.predict(Ak=o.A[k], xk=x, Bk=None if o.B is None else o.B[k], uk=u, Pk=P, Qk=o.Q[k])
            x, P = f.update(Hk=o.H[k], xk=x, Pk=P, zk=o.Z[k], Rk=o.R[k])
        else:
            x, P = f.predict(xk=x, uk=u, Pk=P, Qk=o.Q[k])
            x, P = f.update(xk=x, Pk=P, zk=o.Z[k], Rk=o.R[k])
        env.eq(f"mean {k}", x, env.vals(whole[0][k]))
        env.eq(f"covariance {k}", P, env.vals(whole[1][k]))
        env.eq(f"gain {k}", f.kalman_gains[k], env.vals(g.kalman_gains[k]))


@scenario
def last_smoothed(env, cls, N, n, m, p=None):
    """At the last observation smoothing changes nothing."""
    o = model(env, cls, N, n, m, p)
    a = run(env, build(env, cls, o), "filter", o.Z, o.U)
    mark_run(env, a)
    b = run(env, build(env, cls, o), "smooth", o.Z, o.U)
    env.eq("last mean", b[0][-1], env.vals(a[0])[-1])
    env.eq("last covariance", b[1][-1], env.vals(a[1])[-1])


# ---------------------------------------------------------------- data flow
INPUTS = {"kf": ("A", "B", "H", "Q", "R", "x0", "P0", "Z", "U"), "ekf": ("Q", "R", "x0", "P0", "Z", "U")}


@scenario
def pure(env, cls, N, n, m, op, p=None, **forms):
    """Nothing handed in is changed, and nothing handed out is tied to it."""
    o = model(env, cls, N, n, m, p, **forms)
    arrays = {k: getattr(o, k) for k in INPUTS[cls] if getattr(o, k) is not None}
    before = {k: env.vals(a) for k, a in arrays.items()}
    f = build(env, cls, o)
    x, P = run(env, f, op, o.Z, o.U)
    for k, a in arrays.items():
        env.eq(f"{k} after {op}", a, before[k])
    first = (env.vals(x), env.vals(P))
    gains = [env.vals(g) for g in f.kalman_gains]
    # later runs on the same and on other data, and steps, leave the results alone
    for op2 in ("smooth", "filter") if op == "filter" else ("filter", "smooth"):
        run(env, f, op2, o.Z, o.U)
        env.eq(f"means after {op2} of the same data", x, first[0])
        env.eq(f"covariances after {op2} of the same data", P, first[1])
    other = env.real("Zother", tuple(o.Z.shape))
    for op2 in ("filter", "smooth"):
        run(env, f, op2, other, o.U)
    kw = {"Hk": o.H[0]} if cls == "kf" else {}
    f.update(xk=o.x0, Pk=o.P0, zk=other[0], Rk=o.R[0], **kw)
    env.eq("means after later calls", x, first[0])
    env.eq("covariances after later calls", P, first[1])
    for i, g in enumerate(gains):
        env.eq(f"gain {i} after later calls", f.kalman_gains[i], g)
    for k, a in arrays.items():
        env.eq(f"{k} after later calls", a, before[k])
    # writing into the results reaches neither the inputs nor later runs
    keep_x, keep_P = x.copy(), P.copy()
    x[...] = 7.0
    P[...] = 7.0
    for k, a in arrays.items():
        env.eq(f"{k} after writing into the results", a, before[k])
    for i, g in enumerate(gains):
        env.eq(f"gain {i} after writing into the results", f.kalman_gains[i], g)
    y = run(env, f, op, o.Z, o.U)
    env.eq("second run means", y[0], first[0])
    env.eq("second run covariances", y[1], first[1])
    env.eq("copy of the first means", keep_x, first[0])
    env.eq("copy of the first covariances", keep_P, first[1])
    # writing into the arrays handed in does not reach results handed out
    second = (env.vals(y[0]), env.vals(y[1]))
    gains = [env.vals(g) for g in f.kalman_gains]
    for a in arrays.values():
        a[...] = 7.0
    env.eq("means after writing into the inputs", y[0], second[0])
    env.eq("covariances after writing into the inputs", y[1], second[1])
    for i, g in enumerate(gains):
        env.eq(f"gain {i} after writing into the inputs", f.kalman_gains[i], g)


@scenario
def own_functions(env, N, n, op, kind):
    """Model functions may hand back arrays of their own, always the same ones,
    or the very state they are given: nobody writes into those."""
    o = M(N=N, n=n, m=n, p=None)
    o.x0, o.P0, o.Q, o.R, o.Z = env.real("x0", (n,)), env.cov("P0", n), env.cov("Q", n, N), env.cov("R", n, N), env.real("Z", (N, n))
    F, H, a, h = env.real("F", (n, n)), env.real("H", (n, n)), env.real("a", (n,)), env.real("h", (n,))
    lF, lH, la, lh = env.vals(F), env.vals(H), env.vals(a), env.vals(h)
    for k in ("x0", "P0", "Q", "R", "Z"):
        setattr(o, "l" + k, env.vals(getattr(o, k)))
    o.lU = [None] * N
    same = kind == "same"
    o.f, o.h = (lambda x, u: x if same else a), (lambda x: x if same else h)
    o.sf, o.hlist = (lambda x, u: x if same else la), (lambda x: x if same else lh)
    o.JA, o.JH, o.sJA, o.sJH = (lambda x, u: F), (lambda x: H), (lambda x, u: lF), (lambda x: lH)
    e = ekf_of(env, o)
    got = run(env, e, op, o.Z)
    want = spec_filter(env, o)
    want = ([r[0] for r in want], [r[1] for r in want]) if op == "filter" else spec_smooth(env, o, want)
    env.eq("means", got[0], want[0])
    env.eq("covariances", got[1], want[1])
    for what, x, lx in (("transition", a, la), ("observation", h, lh), ("transition Jacobian", F, lF), ("observation Jacobian", H, lH),
                        ("x0", o.x0, o.lx0), ("P0", o.P0, o.lP0), ("Q", o.Q, o.lQ), ("R", o.R, o.lR), ("Z", o.Z, o.lZ)):
        env.eq(f"{what} array after {op}", x, lx)
    first = (env.vals(got[0]), env.vals(got[1]))
    same_run(env, "second run", run(env, e, op, o.Z), first)
    run(env, e, "smooth" if op == "filter" else "filter", o.Z)
    same_run(env, "first result after later runs", got, first)
    e.predict(xk=o.x0, uk=None, Pk=o.P0, Qk=o.Q[0])
    e.update(xk=o.x0, Pk=o.P0, zk=o.Z[0], Rk=o.R[0])
    for what, x, lx in (("transition", a, la), ("observation", h, lh), ("transition Jacobian", F, lF), ("observation Jacobian", H, lH),
                        ("x0", o.x0, o.lx0), ("P0", o.P0, o.lP0)):
        env.eq(f"{what} array after single steps", x, lx)


@scenario
def pure_step(env, cls, n, m, step):
    """predict and update leave their arguments alone."""
    x, P, z, u = env.real("x", (n,)), env.cov("P", n), env.real("z", (m,)), env.real("u", (1,))
    Q, R = env.cov("Qk", n), env.cov("Rk", m)
    args = {"xk": x, "Pk": P}
    if cls == "kf":
        f = _dummy_kf(env, n, m)
        if step == "predict":
            args.update(Ak=env.real("A", (n, n)), Bk=env.real("B", (n, 1)), uk=u, Qk=Q)
        else:
            args.update(Hk=env.real("H", (m, n)), zk=z, Rk=R)
    else:
        f = ekf_of(env, nonlinear(env, 1, n, m, 1))
        args.update(**({"uk": u, "Qk": Q} if step == "predict" else {"zk": z, "Rk": R}))
    before = {k: env.vals(a) for k, a in args.items()}
    got = getattr(f, step)(**args)
    for k, a in args.items():
        env.eq(f"{k} after {step}", a, before[k])
    gains = [env.vals(g) for g in f.kalman_gains]
    for r in got:
        r[...] = 7.0
    for k, a in args.items():
        env.eq(f"{k} after writing into the results of {step}", a, before[k])
    for i, g in enumerate(gains):
        env.eq(f"gain {i} after writing into the results of {step}", f.kalman_gains[i], g)
    got = getattr(f, step)(**args)
    result = [env.vals(r) for r in got]
    for a in args.values():
        a[...] = 7.0
    for label, r, v in zip(("mean", "covariance"), got, result):
        env.eq(f"{label} of {step} after writing into its arguments", r, v)
    for i, g in enumerate(gains):
        env.eq(f"gain {i} after writing into the arguments of {step}", f.kalman_gains[i], g)


# -------------------------------------------------------------- histories
@scenario
def history(env, cls, N, n, m, steps, p=None):
    """After any sequence of earlier calls a run gives what a fresh object
    gives, and earlier results stay as they were."""
    o = model(env, cls, N, n, m, p)
    Z2 = env.real("Z2", (N + 1 if cls == "kf" else N, m))[:N]
    U2 = env.real("U2", (N, p)) if p else None
    want = {op: run(env, build(env, cls, o), op, o.Z, o.U) for op in ("filter", "smooth")}
    mark_run(env, *want.values())
    fresh = {op: (env.vals(r[0]), env.vals(r[1])) for op, r in want.items()}
    f, other = build(env, cls, o), build(env, cls, o)
    kept = []
    for i in range(steps):
        k = env.choice(f"op{i}", 6)
        if k < 2:
            r = run(env, f, ("filter", "smooth")[k], Z2, U2)
        elif k < 4:
            r = run(env, f, ("filter", "smooth")[k - 2], o.Z, o.U)
        elif k == 4:
            u = None if o.U is None else o.U[0]
            kw = {"Ak": o.A[0], "Bk": None if o.B is None else o.B[0]} if cls == "kf" else {}
            r = f.predict(xk=o.x0, uk=u, Pk=o.P0, Qk=o.Q[0], **kw)
        else:
            kw = {"Hk": o.H[0]} if cls == "kf" else {}
            r = f.update(xk=o.x0, Pk=o.P0, zk=Z2[0], Rk=o.R[0], **kw)
        kept.append((r, env.vals(r[0]), env.vals(r[1])))
    run(env, other, "filter", Z2, U2)
    for op in ("filter", "smooth"):
        got = run(env, f, op, o.Z, o.U)
        env.eq(f"{op} means", got[0], fresh[op][0])
        env.eq(f"{op} covariances", got[1], fresh[op][1])
    for i, (r, x, P) in enumerate(kept):
        env.eq(f"result {i} means later", r[0], x)
        env.eq(f"result {i} covariances later", r[1], P)


@scenario
def reused_buffer(env, cls, N, n, m, op, p=None):
    """New contents in the same array object count, also between runs."""
    o = model(env, cls, N, n, m, p)
    Z2 = env.real("Z2", (N, m))
    U2 = env.real("U2", (N, p)) if p else None
    want = run(env, build(env, cls, o), op, Z2, U2)
    mark_run(env, want)
    f = build(env, cls, o)
    first = run(env, f, op, o.Z, o.U)
    x1, P1 = env.vals(first[0]), env.vals(first[1])
    o.Z[...] = Z2
    if p:
        o.U[...] = U2
    same_run(env, "new contents", run(env, f, op, o.Z, o.U), want)
    env.eq("first result kept", first[0], x1)
    env.eq("first covariances kept", first[1], P1)


@scenario
def again(env, cls, step, n, m, how):
    """A step repeated on the same object with one argument changed - given as
    a new array, or by refilling the array in place - is computed anew."""
    o = nonlinear(env, 1, n, m, 1) if cls == "ekf" else None
    f = ekf_of(env, o) if o else _dummy_kf(env, n, m)
    a = {"xk": env.real("x", (n,)), "Pk": env.cov("P", n)}
    b = {"xk": env.real("x2", (n,)), "Pk": env.cov("P2", n)}
    if step == "predict":
        a.update(uk=env.real("u", (1,)), Qk=env.cov("Qk", n))
        b.update(uk=env.real("u2", (1,)), Qk=env.cov("Qk2", n))
        if cls == "kf":
            a.update(Ak=env.real("A", (n, n)), Bk=env.real("B", (n, 1)))
            b.update(Ak=env.real("A2", (n, n)), Bk=env.real("B2", (n, 1)))
    else:
        a.update(zk=env.real("z", (m,)), Rk=env.cov("Rk", m))
        b.update(zk=env.real("z2", (m,)), Rk=env.cov("Rk2", m))
        if cls == "kf":
            a.update(Hk=env.real("H", (m, n)))
            b.update(Hk=env.real("H2", (m, n)))
    first = getattr(f, step)(**a)
    kept = [env.vals(r) for r in first]
    k = sorted(a)[env.choice("changed", len(a))]
    if how == "new":
        a = dict(a, **{k: b[k]})
    else:
        a[k][...] = b[k]
    got = getattr(f, step)(**a)
    v = {w: env.vals(x) for w, x in a.items()}
    if step == "predict" and cls == "kf":
        want = sp.predict(v["Ak"], v["xk"], v["Pk"], v["Qk"], sp.mv(v["Bk"], v["uk"]))
    elif step == "predict":
        J = o.sJA(v["xk"], v["uk"])
        want = o.sf(v["xk"], v["uk"]), sp.add(sp.mm(sp.mm(J, v["Pk"]), sp.T(J)), v["Qk"])
    else:
        H = v["Hk"] if cls == "kf" else o.sJH(v["xk"])
        want = sp.update(H, v["xk"], v["Pk"], v["zk"], v["Rk"], hx=None if cls == "kf" else o.hlist(v["xk"]))
        sp.posterior_steps(env, H, v["Pk"], v["Rk"], want[2])
        env.eq(f"gain with another {k}", f.kalman_gains[1], want[2])
    env.eq(f"mean with another {k}", got[0], want[0])
    env.eq(f"covariance with another {k}", got[1], want[1])
    env.eq("first mean kept", first[0], kept[0])
    env.eq("first covariance kept", first[1], kept[1])


@scenario
def two_filters(env, cls, N, n, m, p=None, n2=None):
    """Filters of different models share nothing, however calls interleave."""
    a, b = model(env, cls, N, n, m, p, pre="a"), model(env, cls, N, n2 or n, m, p, pre="b")
    want, log = {}, {}
    for name, o in (("a", a), ("b", b)):
        f = build(env, cls, o)
        want[name] = [env.vals(r) for op in ("filter", "smooth") for r in run(env, f, op, o.Z, o.U)]
        log[name] = [env.vals(K) for K in f.kalman_gains]
    fa, fb = build(env, cls, a), build(env, cls, b)
    env.true("new filters have no gains", len(fa.kalman_gains) == 0 and len(fb.kalman_gains) == 0)
    got = {"a": [], "b": []}
    for op in ("filter", "smooth"):
        got["a"] += list(run(env, fa, op, a.Z, a.U))
        got["b"] += list(run(env, fb, op, b.Z, b.U))
    for name, f in (("a", fa), ("b", fb)):
        for i, (g, w) in enumerate(zip(got[name], want[name])):
            env.eq(f"{name} result {i}", g, w)
        env.true(f"{name} number of gains", len(f.kalman_gains) == len(log[name]))
        for i, (g, w) in enumerate(zip(f.kalman_gains, log[name])):
            env.eq(f"{name} gain {i}", g, w)


# -------------------------------------------------------------- gain record
@scenario
def gain_log(env, cls, N, n, m, p=None):
    """One gain per update, in order; nothing earlier is dropped or changed;
    prediction adds none."""
    o = model(env, cls, N, n, m, p)
    f, g = build(env, cls, o), build(env, cls, o)
    env.true("starts empty", len(f.kalman_gains) == 0)
    run(env, f, "filter", o.Z, o.U)
    env.true("one per observation", len(f.kalman_gains) == N)
    first = [env.vals(k) for k in f.kalman_gains]
    env.true("objects have their own record", len(g.kalman_gains) == 0)
    # one more update by hand
    kw = {"Hk": o.H[0]} if cls == "kf" else {}
    f.update(xk=o.x0, Pk=o.P0, zk=o.Z[0], Rk=o.R[0], **kw)
    env.true("one more", len(f.kalman_gains) == N + 1)
    kw = {"Ak": o.A[0], "Bk": None if o.B is None else o.B[0]} if cls == "kf" else {}
    f.predict(xk=o.x0, uk=None if o.U is None else o.U[0], Pk=o.P0, Qk=o.Q[0], **kw)
    env.true("prediction adds none", len(f.kalman_gains) == N + 1)
    run(env, f, "smooth", o.Z, o.U)
    now = f.kalman_gains
    env.true("one more per observation", len(now) == 2 * N + 1)
    for i in range(N):
        env.eq(f"gain {i} kept", now[i], first[i])
        env.eq(f"gain {i} of the smoother's forward pass", now[len(now) - N + i], first[i])
    shapes = {tuple(env.np.shape(k)) for k in now}
    env.true("every gain is a matrix of states by sensors", shapes == {(n, m)})
    if shapes != {(n, m)}:
        return
    # what was recorded is the gain that was applied
    lP = env.vals(o.P0)
    if cls == "kf":
        lH = o.lH[0]
        inn = sp.sub(o.lZ[0], sp.mv(lH, o.lx0))
    else:
        lH = o.sJH(o.lx0)
        inn = sp.sub(o.lZ[0], o.hlist(o.lx0))
    K = env.vals(f.kalman_gains[N])
    S = sp.add(sp.mm(lH, sp.mm(lP, sp.T(lH))), o.lR[0])
    env.eq("recorded gain equation", sp.mm(K, S), sp.mm(lP, sp.T(lH)))


# ------------------------------------------------------------ integer input
@scenario
def integer_input(env, cls, N, n, m, op, which, p=None):
    """Integer-typed inputs count by value, and results are not truncated."""
    p = p or (1 if which in ("B", "U", "controls", "everything") else None)
    o = model(env, cls, N, n, m, p)
    shapes = {"A": (N, n, n), "H": (N, m, n), "x0": (n,), "B": (N, n, p), "U": (N, p), "Z": (N, m)}

    def ints(w):
        if w in ("P0", "Q", "R"):
            return env.cov("i" + w, m if w == "R" else n, None if w == "P0" else N, dtype="i8")
        return env.real("i" + w, shapes[w], dtype="i8")
    names = {"all": INPUTS[cls], "everything": INPUTS[cls], "controls": ("B", "U"), "data": ("Z", "U"),
             "dynamics": ("A", "H"), "covariances": ("P0", "Q", "R")}.get(which, (which,))
    names = [k for k in INPUTS[cls] if k in names and getattr(o, k) is not None]
    for w in names:
        setattr(o, w, ints(w))
    got = run(env, build(env, cls, o), op, o.Z, o.U)
    flt = {k: env.array(env.vals(getattr(o, k))) for k in INPUTS[cls] if getattr(o, k) is not None}
    want = run(env, build(env, cls, o, **flt), op, flt["Z"], flt.get("U"))
    mark_run(env, want)
    same_run(env, f"integer {which}", got, want)
    for r in got:
        env.true("floating point result", r.dtype.kind == "f")


@scenario
def integer_step(env, cls, n, m, step):
    """The same for single steps."""
    x, P = env.real("x", (n,), dtype="i8"), env.cov("P", n, dtype="i8")
    if cls == "kf":
        f = _dummy_kf(env, n, m)
        if step == "predict":
            a = {"Ak": env.real("A", (n, n), dtype="i8"), "Bk": env.real("B", (n, 1), dtype="i8"),
                 "uk": env.real("u", (1,), dtype="i8"), "Qk": env.cov("Q", n, dtype="i8")}
        else:
            a = {"Hk": env.real("H", (m, n), dtype="i8"), "zk": env.real("z", (m,), dtype="i8"), "Rk": env.cov("R", m, dtype="i8")}
    else:
        f = ekf_of(env, nonlinear(env, 1, n, m, 1))
        a = ({"uk": env.real("u", (1,), dtype="i8"), "Qk": env.cov("Qi", n, dtype="i8")} if step == "predict" else
             {"zk": env.real("z", (m,), dtype="i8"), "Rk": env.cov("Ri", m, dtype="i8")})
    a.update(xk=x, Pk=P)
    got = getattr(f, step)(**a)
    want = getattr(f, step)(**{k: env.array(env.vals(v)) for k, v in a.items()})
    same_run(env, step, got, want)


# ------------------------------------------------------------- exact tracking
@scenario
def noise_free(env, cls, N, n, m, op, p=None):
    """Started at the truth and fed exact data, the estimate is the truth,
    whatever the covariances."""
    o = model(env, cls, N, n, m, p)
    x, truth, Z = o.lx0, [], []
    for k in range(N):
        if cls == "kf":
            x = sp.mv(o.lA[k], x)
            if p:
                x = sp.add(x, o.C[k])
            z = sp.mv(o.lH[k], x)
        else:
            x = o.sf(x, o.lU[k])
            z = o.hlist(x)
        truth.append(x)
        Z.append(z)
    env.mark(*truth)
    got = run(env, build(env, cls, o), op, env.array(Z), o.U)
    env.eq("estimate", got[0], truth)


# ------------------------------------------------------------------ invariance
def elementary(env, kind, n):
    """A change of basis and its inverse."""
    T, Ti = [list(r) for r in sp.eye(n)], [list(r) for r in sp.eye(n)]
    if kind == "scale":
        c = env.vals(env.pos("c", (1,)))[0]
        T[0][0], Ti[0][0] = c, 1 / c
    elif kind == "shear":
        c = env.vals(env.real("c", (1,)))[0]
        T[0][-1], Ti[0][-1] = c, -c
    elif kind == "swap":
        T[0], T[-1] = T[-1], T[0]
        Ti[0], Ti[-1] = Ti[-1], Ti[0]
    elif kind == "flip":
        T[0][0] = Ti[0][0] = -1
    return T, Ti


def ladder(env, o, T, Ti, sensor):
    """Transformed intermediate values, as stepping stones for the solver."""
    x, P = o.lx0, o.lP0
    f = []
    for k in range(o.N):
        xp, Pp = sp.predict(o.lA[k], x, P, o.lQ[k], None if o.C is None else o.C[k])
        PHt = sp.mm(Pp, sp.T(o.lH[k]))
        S = sp.add(sp.mm(o.lH[k], PHt), o.lR[k])
        Si = sp.inv(S)
        K = sp.mm(PHt, Si)
        KH, KHP = sp.mm(K, o.lH[k]), sp.mm(K, sp.mm(o.lH[k], Pp))
        r = sp.sub(o.lZ[k], sp.mv(o.lH[k], xp))
        env.hint(xp, Pp, PHt, S, Si, K, KH, KHP, r)
        if sensor:
            env.hint(sp.mm(PHt, sp.T(T)), sp.mm(sp.mm(T, S), sp.T(T)), sp.mm(sp.mm(sp.T(Ti), Si), Ti), sp.mm(K, Ti),
                     sp.mv(T, r), sp.mm(sp.mm(T, o.lH[k]), Pp))
        else:
            Tt = sp.T(T)
            env.hint(sp.mv(T, xp), sp.mm(sp.mm(T, Pp), Tt), sp.mm(T, PHt), sp.mm(T, K), sp.mm(sp.mm(T, KH), Ti),
                     sp.mm(sp.mm(T, KHP), Tt))
        x, P = sp.add(xp, sp.mv(K, r)), sp.sub(Pp, KHP)
        f.append((x, P, xp, Pp))
        env.hint(x, P)
        if not sensor:
            env.hint(sp.mv(T, x), sp.mm(sp.mm(T, P), Tt))
    if sensor:
        return
    xs, Ps = f[-1][:2]
    for k in range(o.N - 2, -1, -1):
        x, P = f[k][:2]
        xa, Pa = f[k + 1][2:]
        W = sp.mm(P, sp.T(o.lA[k + 1]))
        Pi = sp.inv(Pa)
        G = sp.mm(W, Pi)
        dx, dP = sp.sub(xs, xa), sp.sub(Ps, Pa)
        env.hint(W, Pi, G, dx, dP, sp.mm(sp.mm(T, W), Tt), sp.mm(sp.mm(sp.T(Ti), Pi), Ti), sp.mm(sp.mm(T, G), Ti),
                 sp.mv(T, dx), sp.mm(sp.mm(T, dP), Tt))
        g = sp.mm(sp.mm(G, dP), sp.T(G))
        xs, Ps = sp.add(x, sp.mv(G, dx)), sp.add(P, g)
        env.hint(g, xs, Ps, sp.mm(sp.mm(T, g), Tt), sp.mv(T, xs), sp.mm(sp.mm(T, Ps), Tt))


@scenario
def state_basis(env, N, n, m, op, kind, p=None):
    """Writing the state in another basis transforms the output accordingly."""
    o = linear(env, N, n, m, p)
    T, Ti = elementary(env, kind, n)
    Tt = sp.T(T)
    a = run(env, kf_of(env, o), op, o.Z, o.U)
    q = M(**o.__dict__)
    q.A = env.array([sp.mm(sp.mm(T, A), Ti) for A in o.lA])
    q.H = env.array([sp.mm(H, Ti) for H in o.lH])
    q.Q = env.array([sp.mm(sp.mm(T, Q), Tt) for Q in o.lQ])
    q.x0, q.P0 = env.array(sp.mv(T, o.lx0)), env.array(sp.mm(sp.mm(T, o.lP0), Tt))
    if p:
        q.B = env.array([sp.mm(T, B) for B in o.lB])
    if env.symbolic:
        ladder(env, o, T, Ti, False)
    b = run(env, kf_of(env, q), op, o.Z, o.U)
    x, P = env.vals(a[0]), env.vals(a[1])
    wx, wP = [sp.mv(T, v) for v in x], [sp.mm(sp.mm(T, v), Tt) for v in P]
    env.mark(wx, wP)
    env.eq("transformed means", b[0], wx)
    env.eq("transformed covariances", b[1], wP)


@scenario
def sensor_basis(env, N, n, m, op, kind):
    """Other units, or another order, of the observations change nothing."""
    o = linear(env, N, n, m)
    T, Ti = elementary(env, kind, m)
    a = run(env, kf_of(env, o), op, o.Z)
    mark_run(env, a)
    q = M(**o.__dict__)
    q.H = env.array([sp.mm(T, H) for H in o.lH])
    q.R = env.array([sp.mm(sp.mm(T, R), sp.T(T)) for R in o.lR])
    if env.symbolic:
        ladder(env, o, T, Ti, True)
    b = run(env, kf_of(env, q), op, env.array([sp.mv(T, z) for z in o.lZ]))
    same_run(env, "rescaled observations", b, a)


@scenario
def superposition(env, N, n, m, op, p=1):
    """Means are affine in (initial mean, controls, observations)."""
    o = linear(env, N, n, m, p)
    t = env.vals(env.real("t", (1,)))[0]
    x2, U2, Z2 = env.real("x2", (n,)), env.real("U2", (N, p)), env.real("Z2", (N, m))

    def mixed(a, b):
        return env.array(sp.add(env.vals(a), sp.scale(t, sp.sub(env.vals(b), env.vals(a)))))
    one = run(env, kf_of(env, o), op, o.Z, o.U)
    two = run(env, build(env, "kf", o, x0=x2), op, Z2, U2)
    mark_run(env, one, two)
    mid = run(env, build(env, "kf", o, x0=mixed(o.x0, x2)), op, mixed(o.Z, Z2), mixed(o.U, U2))
    want = env.vals(mixed(one[0], two[0]))
    env.mark(want)
    env.eq("mixed means", mid[0], want)


@scenario
def data_free_covariance(env, N, n, m, op, p=1):
    """Covariances and gains do not depend on data, controls or initial mean."""
    o = linear(env, N, n, m, p)
    x2, U2, Z2 = env.real("x2", (n,)), env.real("U2", (N, p)), env.real("Z2", (N, m))
    f = kf_of(env, o)
    one = run(env, f, op, o.Z, o.U)
    mark_run(env, one)
    g = build(env, "kf", o, x0=x2)
    two = run(env, g, op, Z2, U2)
    env.eq("covariances", two[1], env.vals(one[1]))
    for k in range(N):
        env.eq(f"gain {k}", g.kalman_gains[k], env.vals(f.kalman_gains[k]))


# ------------------------------------------------------------- scalar noise
@scenario
def float_R(env, cls, N, n, op, zform="vec", p=None):
    """A single float as R is that variance at every step."""
    o = model(env, cls, N, n, 1, p, zform=zform)
    r = env.scalar("r", "pos")
    lr = env.vals(r)
    want = run(env, build(env, cls, o, R=env.array([lr] * N)), op, o.Z, o.U)
    mark_run(env, want)
    same_run(env, "float R", run(env, build(env, cls, o, R=r), op, o.Z, o.U), want)
    same_run(env, "matrix R", run(env, build(env, cls, o, R=env.array([[[lr]]] * N)), op, o.Z, o.U), want)


@scenario
def flat_R(env, cls, N, n, op, extra=0, p=None):
    """A flat list of noises, one per time step (and possibly some beyond the
    data), means the same as the list of 1 x 1 matrices."""
    o = model(env, cls, N, n, 1, p)
    lr = [r[0][0] for r in o.lR] + (env.vals(env.pos("more", (extra,))) if extra else [])
    want = run(env, kf_of(env, o) if cls == "kf" else ekf_of(env, o), op, o.Z, o.U)
    mark_run(env, want)
    same_run(env, "flat R", run(env, build(env, cls, o, R=env.array(lr)), op, o.Z, o.U), want)
    same_run(env, "matrix R", run(env, build(env, cls, o, R=env.array([[[r]] for r in lr])), op, o.Z, o.U), want)


@scenario
def flat_Z(env, cls, N, n, op, p=None):
    """One number per time step, as a flat array or as one-element rows."""
    o = model(env, cls, N, n, 1, p)
    want = run(env, build(env, cls, o), op, o.Z, o.U)
    mark_run(env, want)
    same_run(env, "flat Z", run(env, build(env, cls, o), op, env.array([z[0] for z in o.lZ]), o.U), want)


@scenario
def input_forms(env, N, op):
    """One-dimensional problems may be written with flat arrays (as the
    examples do) or with full matrices; the output is the same."""
    o = linear(env, N, 1, 1, 1)
    want = run(env, kf_of(env, o), op, o.Z, o.U)
    mark_run(env, want)
    lQ, lR, lZ = [q[0][0] for q in o.lQ], [r[0][0] for r in o.lR], [z[0] for z in o.lZ]
    x11 = env.array([o.lx0])
    for label, over, Z in (("flat Z", {}, env.array(lZ)), ("flat R", {"R": env.array(lR)}, o.Z),
                           ("flat Q", {"Q": env.array(lQ)}, o.Z),
                           ("all flat", {"R": env.array(lR), "Q": env.array(lQ)}, env.array(lZ))):
        same_run(env, label, run(env, build(env, "kf", o, **over), op, Z, o.U), want)
    free = run(env, build(env, "kf", o, B=None), op, o.Z)
    mark_run(env, free)
    same_run(env, "matrix initial mean", run(env, build(env, "kf", o, B=None, x0=x11, R=env.array(lR), Q=env.array(lQ)),
                                             op, env.array(lZ)), free)


# ----------------------------------------------------------- several sensors
@scenario
def sequential(env, cls, n, m1, m2):
    """Independent observations of one time, taken together or one after the
    other."""
    m = m1 + m2
    x, P = env.real("x", (n,)), env.cov("P", n)
    R1, R2 = env.cov("R1", m1), env.cov("R2", m2)
    z1, z2 = env.real("z1", (m1,)), env.real("z2", (m2,))
    H1, H2 = env.real("H1", (m1, n)), env.real("H2", (m2, n))
    lH1, lH2, lR1, lR2 = env.vals(H1), env.vals(H2), env.vals(R1), env.vals(R2)
    H = env.array(lH1 + lH2)
    R = env.array([r + [0] * m2 for r in lR1] + [[0] * m1 + r for r in lR2])
    z = env.array(env.vals(z1) + env.vals(z2))
    if cls == "kf":
        f = _dummy_kf(env, n, m)
        fs = [f]
        joint = f.update(Hk=H, xk=x, Pk=P, zk=z, Rk=R)
        a = f.update(Hk=H1, xk=x, Pk=P, zk=z1, Rk=R1)
        mark_run(env, a)
        b = f.update(Hk=H2, xk=a[0], Pk=a[1], zk=z2, Rk=R2)
    else:
        o = nonlinear(env, 1, n, m, 1)

        def filt_of(Hm):
            o.h, o.JH = (lambda v: Hm @ v), (lambda v: Hm)
            fs.append(ekf_of(env, o))
            return fs[-1]
        fs = []
        joint = filt_of(H).update(xk=x, Pk=P, zk=z, Rk=R)
        a = filt_of(H1).update(xk=x, Pk=P, zk=z1, Rk=R1)
        mark_run(env, a)
        b = filt_of(H2).update(xk=a[0], Pk=a[1], zk=z2, Rk=R2)
    gains = [env.vals(K) for f in fs for K in f.kalman_gains]
    for Hm, Pm, Rm, K, Po in ((H, P, R, gains[0], joint[1]), (H1, P, R1, gains[1], a[1]), (H2, a[1], R2, gains[2], b[1])):
        sp.posterior_steps(env, env.vals(Hm), env.vals(Pm), env.vals(Rm), K, env.vals(Po))
    same_run(env, "one after the other", b, joint)


@scenario
def blind(env, cls, n, m):
    """An observation that does not depend on the state teaches nothing; a
    prediction with A = I and Q = 0 changes nothing."""
    x, P = env.real("x", (n,)), env.cov("P", n)
    R, z = env.cov("R", m), env.real("z", (m,))
    zero = env.array([[0.0] * n] * m)
    I, Q0 = env.array(sp.eye(n)), env.array([[0.0] * n] * n)
    if cls == "kf":
        f = _dummy_kf(env, n, m)
        xo, Po = f.update(Hk=zero, xk=x, Pk=P, zk=z, Rk=R)
        xp, Pp = f.predict(Ak=I, xk=x, Bk=None, uk=None, Pk=P, Qk=Q0)
    else:
        o = nonlinear(env, 1, n, m, 1)
        c = env.real("c", (m,))
        o.f, o.JA, o.h, o.JH = (lambda v, u: v), (lambda v, u: I), (lambda v: c), (lambda v: zero)
        f = ekf_of(env, o)
        xo, Po = f.update(xk=x, Pk=P, zk=z, Rk=R)
        xp, Pp = f.predict(xk=x, uk=env.array([0.0]), Pk=P, Qk=Q0)
    lx, lP = env.vals(x), env.vals(P)
    env.eq("mean after a blind update", xo, lx)
    env.eq("covariance after a blind update", Po, lP)
    env.true("one gain recorded", len(f.kalman_gains) == 1)
    env.eq("gain of a blind update", f.kalman_gains[0], [[0] * m for _ in range(n)])
    env.eq("mean after an idle prediction", xp, lx)
    env.eq("covariance after an idle prediction", Pp, lP)


# --------------------------------------------------- batch Gaussian reference
def joint_gaussian(env, o):
    """Means of x_k and z_k, and all their covariances, from the model alone:
    x_k = A_k x_{k-1} + c_k + w_k, z_k = H_k x_k + v_k."""
    N = o.N
    mx, mz, V = [], [], {}
    x, P = o.lx0, o.lP0
    for k in range(N):
        x, P = sp.predict(o.lA[k], x, P, o.lQ[k], None if o.C is None else o.C[k])
        mx.append(x)
        mz.append(sp.mv(o.lH[k], x))
        V[k, k] = P
        for j in range(k):
            V[k, j] = sp.mm(o.lA[k], V[k - 1, j])
            V[j, k] = sp.T(V[k, j])
    return mx, mz, V
