"""The estimates as conditional distributions: orthogonality of the error to
the data, and the smoothed trajectory as the most probable one."""
from symkit import spec as sp

from . import scenario
from .common import M, kf_of, linear
from .props2 import imm
from .props3 import build, joint_gaussian, mark_run, run


def lsum(ms):
    out = None
    for x in ms:
        out = x if out is None else sp.add(out, x)
    return out


def weights(env, o, op):
    """W[k][j]: how the estimate of x_k depends on z_j (zero prior mean, no
    control), read off from runs on unit observations.  Also the covariances."""
    N, n, m = o.N, o.n, o.m
    W = [[[[None] * m for _ in range(n)] for _ in range(N)] for _ in range(N)]
    P = None
    for j in range(N):
        for c in range(m):
            Z = env.array([[1.0 if (i, d) == (j, c) else 0.0 for d in range(m)] for i in range(N)])
            x, P = run(env, kf_of(env, o), op, Z)
            lx = env.vals(x)
            for k in range(N):
                for r in range(n):
                    W[k][j][r][c] = lx[k][r]
    return W, env.vals(P)


def moments(env, o):
    """Cov(x_k, x_i) and Cov(z_j, z_i) from the model alone."""
    _, _, V = joint_gaussian(env, o)
    S, C = {}, {}
    for k in range(o.N):
        for i in range(o.N):
            C[k, i] = sp.mm(V[k, i], sp.T(o.lH[i]))
    for j in range(o.N):
        for i in range(o.N):
            S[j, i] = sp.mm(o.lH[j], C[j, i])
            if i == j:
                S[j, i] = sp.add(S[j, i], o.lR[i])
    return V, C, S


@scenario
def orthogonal(env, N, n, m, op):
    """The error of every estimate is uncorrelated with every observation it
    uses, and the reported covariance is that of the error; by that, the
    estimate is the conditional mean."""
    o = linear(env, N, n, m)
    o.x0 = env.array([0.0] * n)
    W, P = weights(env, o, op)
    V, C, S = moments(env, o)
    if env.symbolic:
        stones(env, o, W, V, C, S, op)
    for k in range(N):
        used = range(N) if op == "smooth" else range(k + 1)
        for i in used:
            env.eq(f"covariance of estimate {k} with observation {i}", lsum([sp.mm(W[k][j], S[j, i]) for j in used]), C[k, i])
        for j in range(N):
            if j not in used:
                env.eq(f"weight of later observation {j} in estimate {k}", W[k][j], [[0] * m for _ in range(n)])
        left = sp.sub(V[k, k], lsum([sp.mm(W[k][j], sp.T(C[k, j])) for j in used]))
        env.eq(f"covariance of the error {k}", P[k], left)


def chain(first, ms):
    for x in ms:
        first = sp.mm(first, x)
    return first


def stones(env, o, W, V, C, S, op):
    """Intermediate forms between the two sides, shown equal one by one:
    with D_k = V_kk - P_k, Cov(estimate k, z_i) is C_ki for i <= k and
    D_k Phi^T H_i^T beyond, and Cov(estimate k, x_l) = V_kl - P_k Gamma^T."""
    N = o.N
    f = sp.filt(env, o.lA, o.lH, o.lQ, o.lR, [[0] * o.m] * N, [0] * o.n, o.lP0, steps=False)
    K, P, Pp = [r[2] for r in f], [r[1] for r in f], [r[4] for r in f]
    A, H = o.lA, o.lH
    At = [sp.T(a) for a in A]
    Ht = [sp.T(h) for h in H]
    zero = [[0] * o.m for _ in range(o.n)]
    F = W  # filter weights
    if op == "smooth":
        F = [[zero] * N for _ in range(N)]
        for k in range(N):
            for j in range(k + 1):
                F[k][j] = K[k] if j == k else sp.mm(imm(K[k], H[k]), sp.mm(A[k], F[k - 1][j]))
    G = [None] * N
    D = [sp.sub(V[k, k], P[k]) for k in range(N)]
    for i in range(N):
        for k in range(N):
            env.hint(V[k, i], C[k, i], S[k, i])
            if i < k:
                env.step([V[k - 1, i]], C[k, i], sp.mm(A[k], C[k - 1, i]))
    E, Y = {}, {}
    for k in range(N):
        L = imm(K[k], H[k])
        B = sp.mm(Pp[k], Ht[k])
        env.hint(B, K[k], Pp[k], P[k], D[k])
        env.step([B, o.lR[k]], sp.mm(K[k], o.lR[k]), sp.mm(L, B))
        env.step([Pp[k], K[k]], P[k], sp.mm(L, Pp[k]))
        if k:
            for j in range(k):
                env.step([F[k - 1][j], K[k]], F[k][j], sp.mm(L, sp.mm(A[k], F[k - 1][j])))
            PA = sp.mm(P[k - 1], At[k])
            G[k - 1] = sp.mm(PA, sp.inv(Pp[k]))
            GP = sp.mm(G[k - 1], Pp[k])
            env.step([PA, Pp[k]], GP, PA)
            env.step([P[k - 1]], sp.mm(A[k], P[k - 1]), sp.T(PA))
            ADA = sp.mm(sp.mm(A[k], D[k - 1]), At[k])
            env.step([P[k - 1], V[k - 1, k - 1], o.lQ[k]], ADA, sp.sub(V[k, k], Pp[k]))
            M = sp.add(sp.mm(L, ADA), sp.mm(sp.mm(K[k], H[k]), V[k, k]))
        else:
            ADA = None
            M = sp.mm(sp.mm(K[k], H[k]), V[k, k])
        M2 = sp.sub(V[k, k], sp.mm(L, Pp[k]))
        if k:
            env.step([K[k], ADA, V[k, k]], M, sp.add(sp.mm(L, sp.sub(V[k, k], Pp[k])), sp.mm(sp.mm(K[k], H[k]), V[k, k])))
        env.step([K[k], Pp[k], V[k, k], ], sp.add(sp.mm(L, sp.sub(V[k, k], Pp[k])), sp.mm(sp.mm(K[k], H[k]), V[k, k])) if k else M, M2)
        env.step([V[k, k], P[k], sp.mm(L, Pp[k])], M2, D[k])
        for i in range(N):
            direct = lsum([sp.mm(F[k][j], S[j, i]) for j in range(k + 1)])
            KS = sp.mm(K[k], S[k, i])
            rec = sp.add(sp.mm(L, sp.mm(A[k], E[k - 1, i])), KS) if k else KS
            env.step([x for j in range(k) for x in (F[k][j], S[j, i], F[k - 1][j])] + [K[k], S[k, i]], direct,
                     lsum([sp.mm(sp.mm(L, sp.mm(A[k], F[k - 1][j])), S[j, i]) for j in range(k)] + [KS]))
            if k:
                env.step([x for j in range(k) for x in (S[j, i], F[k - 1][j])] + [K[k], S[k, i]],
                         lsum([sp.mm(sp.mm(L, sp.mm(A[k], F[k - 1][j])), S[j, i]) for j in range(k)] + [KS]), rec)
            if i < k:
                env.step([C[k - 1, i], C[k, i], K[k]], rec, sp.add(sp.mm(L, sp.mm(A[k], C[k - 1, i])), sp.mm(K[k], sp.mm(H[k], C[k, i]))))
                AC = sp.mm(A[k], C[k - 1, i])
                env.step([AC, K[k]], sp.add(sp.mm(L, AC), sp.mm(K[k], sp.mm(H[k], AC))), AC)
                env.step([C[k, i]], direct, C[k, i])
            else:
                Phi = [At[a] for a in range(k + 1, i + 1)]
                goal = sp.mm(chain(D[k], Phi), Ht[i])
                mid = sp.mm(chain(M, Phi), Ht[i])
                if i == k:
                    mid = sp.add(mid, sp.mm(K[k], o.lR[k]))
                free = [K[k], V[k, k]] + ([D[k - 1]] if k else []) + ([o.lR[k]] if i == k else [])
                if k:
                    env.step([E[k - 1, i], K[k], S[k, i]],
                             rec, sp.add(sp.mm(L, sp.mm(A[k], sp.mm(chain(D[k - 1], [At[k]] + Phi), Ht[i]))), KS))
                    rec = sp.add(sp.mm(L, sp.mm(A[k], sp.mm(chain(D[k - 1], [At[k]] + Phi), Ht[i]))), KS)
                env.step(free, rec, mid)
                env.step([M] + ([K[k], o.lR[k]] if i == k else []), mid, sp.add(goal, sp.mm(K[k], o.lR[k])) if i == k else goal)
                if i == k:
                    LB = sp.mm(L, B)
                    both = sp.add(goal, LB)
                    env.step([D[k], LB], sp.add(goal, sp.mm(K[k], o.lR[k])), both)
                    env.step([V[k, k], K[k], Pp[k]], sp.add(sp.mm(sp.sub(V[k, k], sp.mm(L, Pp[k])), Ht[k]), LB), C[k, k])
                    env.step([LB, P[k], V[k, k]], both, sp.add(sp.mm(sp.sub(V[k, k], P[k]), Ht[k]), LB))
            E[k, i] = direct
            env.hint(direct)
        for l in range(k + 1):
            y = lsum([sp.mm(F[k][j], sp.mm(H[j], V[j, l])) for j in range(k + 1)])
            KHV = sp.mm(K[k], sp.mm(H[k], V[k, l]))
            if l < k:
                rec = sp.add(sp.mm(L, sp.mm(A[k], Y[k - 1, l])), KHV)
                mid = sp.add(lsum([sp.mm(sp.mm(L, sp.mm(A[k], F[k - 1][j])), sp.mm(H[j], V[j, l])) for j in range(k)]), KHV)
                env.step([V[j, l] for j in range(k + 1)] + [F[k][j] for j in range(k + 1)], y, mid)
                env.step([F[k - 1][j] for j in range(k)] + [V[j, l] for j in range(k + 1)] + [K[k]], mid, rec)
                Gam = [sp.T(G[a]) for a in range(k - 2, l - 1, -1)]
                PG = chain(P[k - 1], Gam)
                rec2 = sp.add(sp.mm(L, sp.mm(A[k], sp.sub(V[k - 1, l], PG))), KHV)
                env.step([Y[k - 1, l], KHV, K[k]], rec, rec2)
                env.step([V[k - 1, l], PG, K[k]], rec2, sp.sub(V[k, l], sp.mm(L, sp.mm(A[k], PG))))
                X = sp.mm(P[k], sp.T(G[k - 1]))
                env.step([K[k], Pp[k], G[k - 1]], X, sp.mm(L, sp.mm(Pp[k], sp.T(G[k - 1]))))
                env.step([GP, Pp[k], G[k - 1]], sp.mm(Pp[k], sp.T(G[k - 1])), sp.T(GP))
                AP = sp.mm(A[k], P[k - 1])
                env.step([K[k], AP], sp.mm(L, sp.mm(Pp[k], sp.T(G[k - 1]))), sp.mm(L, AP))
                env.step([K[k], P[k - 1]] + [G[a] for a in range(l, k - 1)], sp.mm(L, sp.mm(A[k], PG)), chain(sp.mm(L, AP), Gam))
                env.step([X] + [G[a] for a in range(l, k - 1)], chain(sp.mm(L, AP), Gam), chain(X, Gam))
                final = sp.sub(V[k, l], chain(P[k], [sp.T(G[k - 1])] + Gam))
                env.step([V[k, l], sp.mm(L, sp.mm(A[k], PG))], sp.sub(V[k, l], sp.mm(L, sp.mm(A[k], PG))), final)
            else:
                if k:
                    mid = sp.add(lsum([sp.mm(sp.mm(L, sp.mm(A[k], F[k - 1][j])), sp.mm(H[j], V[j, k])) for j in range(k)]), KHV)
                    env.step([V[j, k] for j in range(k + 1)] + [F[k][j] for j in range(k + 1)], y, mid)
                    rec = sp.add(sp.mm(sp.mm(L, sp.mm(A[k], Y[k - 1, k - 1])), At[k]), KHV)
                    env.step([F[k - 1][j] for j in range(k)] + [V[j, k - 1] for j in range(k)] + [V[k, k], K[k]], mid, rec)
                    env.step([D[k - 1], K[k], V[k, k]], rec, sp.add(sp.mm(L, ADA), sp.mm(sp.mm(K[k], H[k]), V[k, k])))
                env.step([K[k], V[k, k]], y, M)
                final = D[k]
                env.step([D[k], V[k, k]], sp.sub(V[k, k], y), sp.sub(V[k, k], D[k]), P[k])
                env.step([P[k], V[k, k]], sp.sub(V[k, k], D[k]), P[k])
            Y[k, l] = y
            env.hint(y, final)
    if op != "smooth":
        return
    _, Ps = sp.rts(env, f, A, o.lQ)
    U, Es = {}, {}
    for k in range(N - 1, -1, -1):
        if k == N - 1:
            for l in range(N):
                U[k, l] = lsum([sp.mm(W[k][j], sp.mm(H[j], V[j, l])) for j in range(N)])
                Es[k, l] = lsum([sp.mm(W[k][j], S[j, l]) for j in range(N)])
                env.hint(U[k, l], Es[k, l])
            continue
        g, a, pa = G[k], A[k + 1], Pp[k + 1]
        PA = sp.mm(P[k], At[k + 1])
        for j in range(N):
            env.step([F[k][j], W[k + 1][j], g], W[k][j], sp.add(F[k][j], sp.mm(g, sp.sub(W[k + 1][j], sp.mm(a, F[k][j])))))
        for i in range(N):
            e = lsum([sp.mm(W[k][j], S[j, i]) for j in range(N)])
            fr = [x for j in range(N) for x in (F[k][j], W[k + 1][j], S[j, i])] + [g]
            mid = lsum([sp.mm(sp.add(F[k][j], sp.mm(g, sp.sub(W[k + 1][j], sp.mm(a, F[k][j])))), S[j, i]) for j in range(N)])
            env.step([W[k][j] for j in range(N)] + [S[j, i] for j in range(N)], e, mid)
            rec = sp.add(E[k, i], sp.mm(g, sp.sub(Es[k + 1, i], sp.mm(a, E[k, i]))))
            env.step(fr, mid, rec)
            if i > k:
                Phi = [At[b] for b in range(k + 2, i + 1)]
                ek = sp.mm(chain(D[k], [At[k + 1]] + Phi), Ht[i])
                ck = sp.mm(chain(V[k + 1, k + 1], Phi), Ht[i])
                env.step([V[k + 1, k + 1]], C[k + 1, i], ck)
                r2 = sp.add(ek, sp.mm(g, sp.sub(ck, sp.mm(a, ek))))
                env.step([E[k, i], Es[k + 1, i], g], rec, r2)
                ada = sp.mm(sp.mm(a, D[k]), At[k + 1])
                r3 = sp.mm(chain(sp.add(sp.mm(D[k], At[k + 1]), sp.mm(g, sp.sub(V[k + 1, k + 1], ada))), Phi), Ht[i])
                env.step([D[k], V[k + 1, k + 1], g], r2, r3)
                r4 = sp.mm(chain(sp.add(sp.mm(D[k], At[k + 1]), sp.mm(g, pa)), Phi), Ht[i])
                env.step([V[k + 1, k + 1], pa], sp.sub(V[k + 1, k + 1], sp.sub(V[k + 1, k + 1], pa)), pa)
                env.step([D[k], V[k + 1, k + 1], ada, g], r3, r4)
                r5 = sp.mm(chain(sp.add(sp.mm(D[k], At[k + 1]), PA), Phi), Ht[i])
                env.step([D[k], sp.mm(g, pa)], r4, r5)
                env.step([V[k, k], P[k]], r5, C[k, i])
            Es[k, i] = e
            env.hint(e)
        for l in range(k + 1):
            u = lsum([sp.mm(W[k][j], sp.mm(H[j], V[j, l])) for j in range(N)])
            mid = lsum([sp.mm(sp.add(F[k][j], sp.mm(g, sp.sub(W[k + 1][j], sp.mm(a, F[k][j])))), sp.mm(H[j], V[j, l])) for j in range(N)])
            env.step([W[k][j] for j in range(N)] + [V[j, l] for j in range(N)], u, mid)
            rec = sp.add(Y[k, l], sp.mm(g, sp.sub(U[k + 1, l], sp.mm(a, Y[k, l]))))
            env.step([x for j in range(N) for x in (F[k][j], W[k + 1][j], V[j, l])] + [g], mid, rec)
            Gam = [sp.T(G[b]) for b in range(k - 1, l - 1, -1)]
            gs = [G[b] for b in range(l, k)]
            yk = sp.sub(V[k, l], chain(P[k], Gam))
            uk = sp.sub(V[k + 1, l], chain(Ps[k + 1], [sp.T(g)] + Gam))
            r2 = sp.add(yk, sp.mm(g, sp.sub(uk, sp.mm(a, yk))))
            env.step([Y[k, l], U[k + 1, l], g], rec, r2)
            gap = sp.mm(sp.mm(g, sp.sub(Ps[k + 1], pa)), sp.T(g))
            mid2 = sp.sub(V[k, l], chain(sp.add(P[k], sp.sub(sp.mm(sp.mm(g, Ps[k + 1]), sp.T(g)), sp.mm(g, sp.mm(a, P[k])))), Gam))
            env.step([V[k, l], P[k], Ps[k + 1], g] + gs, r2, mid2)
            gpg = sp.mm(sp.mm(g, pa), sp.T(g))
            env.step([pa, g], gpg, sp.mm(g, sp.T(sp.mm(g, pa))))
            env.step([g, PA], sp.mm(g, sp.T(sp.mm(g, pa))), sp.mm(g, sp.T(PA)), sp.mm(g, sp.mm(a, P[k])))
            env.step([g, P[k]], sp.mm(g, sp.T(PA)), sp.mm(g, sp.mm(a, P[k])))
            s1 = sp.add(P[k], sp.sub(sp.mm(sp.mm(g, Ps[k + 1]), sp.T(g)), sp.mm(g, sp.mm(a, P[k]))))
            s2 = sp.add(P[k], sp.sub(sp.mm(sp.mm(g, Ps[k + 1]), sp.T(g)), gpg))
            env.step([P[k], Ps[k + 1], g, gpg], s1, s2)
            env.step([P[k], Ps[k + 1], g, pa], s2, sp.add(P[k], gap), Ps[k])
            final = sp.sub(V[k, l], chain(Ps[k], Gam))
            env.step([V[k, l], Ps[k]] + gs, mid2, final)
            if l == k:
                env.step([V[k, k], Ps[k]], sp.sub(V[k, k], u), sp.sub(V[k, k], final), Ps[k])
                env.step([V[k, k], Ps[k]], sp.sub(V[k, k], final), Ps[k])
            U[k, l] = u
            env.hint(u, final)


@scenario
def map_trajectory(env, N, n, m, p=None):
    """The smoothed means maximise the joint density of trajectory and data:
    they satisfy its stationarity equations (stated with multipliers, so a
    singular Q is covered)."""
    o = linear(env, N, n, m, p)
    xs, _ = run(env, kf_of(env, o), "smooth", o.Z, o.U)
    x = env.vals(xs)
    if env.symbolic:
        f = sp.filt(env, o.lA, o.lH, o.lQ, o.lR, o.lZ, o.lx0, o.lP0, o.C)
        rs, _ = sp.rts(env, f, o.lA, o.lQ, o.C)
        env.hint(rs)
    lam = None
    out = [None] * N
    for k in range(N - 1, -1, -1):
        Ri = sp.inv(o.lR[k])
        g = sp.mv(sp.T(o.lH[k]), sp.mv(Ri, sp.sub(o.lZ[k], sp.mv(o.lH[k], x[k]))))
        old = lam
        lam = g if lam is None else sp.add(sp.mv(sp.T(o.lA[k + 1]), lam), g)
        if env.symbolic:
            xp, Pp, K, P = f[k][3], f[k][4], f[k][2], f[k][1]
            H, R = o.lH[k], o.lR[k]
            Ht = sp.T(H)
            B = sp.mm(Pp, Ht)
            Sm = sp.add(sp.mm(H, B), R)
            Si = sp.inv(Sm)
            r = sp.sub(o.lZ[k], sp.mv(H, xp))
            L = imm(H, K)
            env.hint(xp, Pp, B, Sm, Si, K, r, P)
            env.step([R, H, B], sp.mm(Ri, L), Si)
            xf = sp.add(xp, sp.mv(K, r))
            env.hint(xf)
            if old is None:
                env.step([xp, K, r, H, Ri], g, sp.mv(Ht, sp.mv(Ri, sp.mv(L, r))), sp.mv(Ht, sp.mv(sp.mm(Ri, L), r)))
                flat = sp.mv(Ht, sp.mv(Si, r))
                env.step([Si, r], sp.mv(Ht, sp.mv(sp.mm(Ri, L), r)), flat)
                env.step([Pp, Si, r], sp.mv(Pp, flat), sp.mv(K, r))
            else:
                # d = A^T of the next multiplier; x_k = filtered + P d
                d = sp.mv(sp.T(o.lA[k + 1]), old)
                Pn = f[k + 1][4]
                Pi = sp.inv(Pn)
                PA = sp.mm(P, sp.T(o.lA[k + 1]))
                dx = sp.sub(x[k + 1], f[k + 1][3])
                env.hint(Pn, Pi, PA, dx, d)
                env.step([Pn, old], sp.mv(Pi, dx), sp.mv(Pi, sp.mv(Pn, old)), old)
                env.step([PA, Pi, dx], sp.mv(sp.mm(PA, Pi), dx), sp.mv(PA, sp.mv(Pi, dx)))
                env.step([PA, old], sp.mv(PA, sp.mv(Pi, dx)), sp.mv(PA, old))
                env.step([P, old], sp.mv(PA, old), sp.mv(P, d))
                Pd, Ppd = sp.mv(P, d), sp.mv(Pp, d)
                HPd = sp.mv(H, Ppd)
                env.hint(Pd, Ppd, HPd)
                env.step([xf, Pd], x[k], sp.add(xf, sp.mv(PA, old)), sp.add(xf, Pd))
                env.step([K, H, Pp, d], sp.mv(H, Pd), sp.mv(L, HPd))
                left = sp.sub(sp.mv(L, r), sp.mv(L, HPd))
                env.step([Ppd, d, Pp, K, HPd], Pd, sp.sub(Ppd, sp.mv(K, HPd)))
                env.step([xp, K, r, Pd], sp.sub(o.lZ[k], sp.mv(H, sp.add(xf, Pd))), sp.sub(sp.mv(L, r), sp.mv(H, Pd)), left)
                e = sp.sub(r, HPd)
                env.step([Ri, K, r, HPd], sp.mv(Ri, left), sp.mv(sp.mm(Ri, L), e))
                env.step([Si, e], sp.mv(sp.mm(Ri, L), e), sp.mv(Si, e))
                flat = sp.mv(Ht, sp.mv(Si, e))
                env.step([sp.mv(Si, e)], g, sp.mv(Ht, sp.mv(Ri, left)), flat)
                env.step([d, flat], lam, sp.add(d, flat))
                env.step([Pp, Si, e, d], sp.mv(Pp, sp.add(d, flat)), sp.add(Ppd, sp.mv(K, e)))
                env.step([Ppd, K, r, HPd], sp.add(Ppd, sp.mv(K, e)), sp.add(sp.mv(K, r), sp.sub(Ppd, sp.mv(K, HPd))))
            env.step([lam, x[k], xp], sp.mv(Pp, lam), sp.sub(x[k], xp))
        env.mark(lam)
        out[k] = lam
    for k in range(N):
        if k == 0:
            xp, Pp = sp.predict(o.lA[0], o.lx0, o.lP0, o.lQ[0], None if o.C is None else o.C[0])
        else:
            xp = sp.mv(o.lA[k], x[k - 1])
            if o.C is not None:
                xp = sp.add(xp, o.C[k])
            Pp = o.lQ[k]
        if env.symbolic:
            # x_{k-1} = filtered + P A^T lam_k, so this is prior + prior covariance lam_k
            fx, fP = f[k][3], f[k][4]
            whole = sp.add(fx, sp.mv(fP, out[k]))
            rhs = sp.add(xp, sp.mv(Pp, out[k]))
            if k:
                back = sp.add(f[k - 1][0], sp.mv(f[k - 1][1], sp.mv(sp.T(o.lA[k]), out[k])))
                step = sp.mv(o.lA[k], back)
                if o.C is not None:
                    step = sp.add(step, o.C[k])
                env.step([f[k - 1][0], f[k - 1][1], out[k]], sp.add(step, sp.mv(Pp, out[k])), whole)
                env.step([x[k - 1], out[k]], rhs, sp.add(step, sp.mv(Pp, out[k])))
            env.step([fx, x[k]], whole, sp.add(fx, sp.sub(x[k], fx)), x[k])
        env.eq(f"stationarity {k}", x[k], sp.add(xp, sp.mv(Pp, out[k])))
