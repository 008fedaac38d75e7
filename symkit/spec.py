"""Reference mathematics on nested lists of exact scalars.

Written from the documentation (class and method docstrings, the cited
textbooks), not from the implementation; used both with symbolic scalars and
with rationals.
"""


def T(A):
    return [list(r) for r in zip(*A)]


def dot(r, c):
    acc = None
    for x, y in zip(r, c):
        p = x * y
        acc = p if acc is None else acc + p
    return acc


def mm(A, Bm):
    Bt = T(Bm)
    return [[dot(r, c) for c in Bt] for r in A]


def mv(A, x):
    return [dot(r, x) for r in A]


def add(A, Bm):
    if isinstance(A, list):
        return [add(a, b) for a, b in zip(A, Bm)]
    return A + Bm


def sub(A, Bm):
    if isinstance(A, list):
        return [sub(a, b) for a, b in zip(A, Bm)]
    return A - Bm


def scale(k, A):
    if isinstance(A, list):
        return [scale(k, a) for a in A]
    return k * A


def sym(A):
    """A written with its upper triangle only."""
    return [[A[min(i, j)][max(i, j)] for j in range(len(A))] for i in range(len(A))]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def outer(x, y):
    return [[a * b for b in y] for a in x]


def det(m):
    if len(m) == 1:
        return m[0][0]
    acc = None
    for j in range(len(m)):
        term = m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
        acc = term if acc is None else (acc + term if j % 2 == 0 else acc - term)
    return acc


def inv(m):
    n = len(m)
    d = det(m)
    if n == 1:
        return [[1 / d]]
    return [[det([r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]) * (1 if (i + j) % 2 == 0 else -1) / d
             for j in range(n)] for i in range(n)]


def predict(A, x, P, Q, c=None):
    """x- = A x (+ control), P- = A P A^T + Q."""
    xp = mv(A, x)
    if c is not None:
        xp = add(xp, c)
    return xp, add(mm(mm(A, P), T(A)), Q)


def update(H, x, P, z, R, hx=None):
    """Measurement update; returns x, P, K."""
    PHt = mm(P, T(H))
    Sm = add(mm(H, PHt), R)
    K = mm(PHt, inv(Sm))
    r = sub(z, mv(H, x) if hx is None else hx)
    return add(x, mv(K, r)), sub(P, mm(K, mm(H, P))), K


def filt(env, A, H, Q, R, Z, x, P, C=None, steps=True):
    """The documented predict/update recursion over the whole sequence."""
    out = []
    for k in range(len(Z)):
        xp, Pp = predict(A[k], x, P, Q[k], None if C is None else C[k])
        x, P, K = update(H[k], xp, Pp, Z[k], R[k])
        if steps:
            posterior_steps(env, H[k], Pp, R[k], K)
        env.mark(x, P)
        out.append((x, P, K, xp, Pp))
    return out


def rts(env, f, A, Q, C=None):
    """Rauch-Tung-Striebel backward pass over filtered (x, P)."""
    N = len(f)
    xs, Ps = [None] * N, [None] * N
    xs[-1], Ps[-1] = f[-1][0], f[-1][1]
    for k in range(N - 2, -1, -1):
        x, P = f[k][0], f[k][1]
        xa, Pa = predict(A[k + 1], x, P, Q[k + 1], None if C is None else C[k + 1])
        G = mm(mm(P, T(A[k + 1])), inv(Pa))
        xs[k] = add(x, mv(G, sub(xs[k + 1], xa)))
        Ps[k] = add(P, mm(mm(G, sub(Ps[k + 1], Pa)), T(G)))
        env.mark(xs[k], Ps[k])
    return xs, Ps


def posterior_steps(env, H, P, R, K, Po=None):
    """Proof steps for other ways to write the posterior covariance: the gain
    equation K S = P H^T, and the Joseph form via it.  Steering only."""
    if not env.symbolic:
        return
    n = len(P)
    PHt, M = mm(P, T(H)), sub(eye(n), mm(K, H))
    S_ = add(mm(H, PHt), R)
    KS, W = mm(K, S_), sub(mm(mm(M, P), T(H)), mm(K, R))
    zero = [[K[0][0] * 0 for _ in K[0]] for _ in K]
    post = mm(M, P)
    env.step([S_, PHt], KS, PHt)
    env.step([K, P, H, R], W, sub(PHt, KS))
    env.step([PHt, KS], sub(PHt, KS), zero)
    env.step([PHt, KS], W, zero)
    env.step([K, P, H, R], add(mm(mm(M, P), T(M)), mm(mm(K, R), T(K))), sub(post, mm(W, T(K))))
    env.step([K, W, post], sub(post, mm(W, T(K))), post)
    env.step([K, P, H], post, sub(P, mm(K, mm(H, P))))
    if Po is not None:
        env.step([K, P, H, R], Po, add(mm(mm(M, P), T(M)), mm(mm(K, R), T(K))))
        env.step([K, P, H, R], Po, post)
