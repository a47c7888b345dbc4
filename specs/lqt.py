"""Reference formulas for discrete-time LQR/LQT (analysed, never executed)."""
import numpy as np
from numpy.linalg import inv


def combine_abcej(A1, b1, C1, e1, J1, A2, b2, C2, e2, J2):
    """Infimal convolution of V1(x_i, x_j) and V2(x_j, x_k) over x_j."""
    n = A1.shape[0]
    W = inv(np.eye(n) + C1 @ J2)
    A = A2 @ W @ A1
    b = A2 @ W @ (b1 + C1 @ e2) + b2
    C = A2 @ W @ C1 @ A2.T + C2
    e = A1.T @ W.T @ (e2 - J2 @ b1) + e1
    J = A1.T @ W.T @ J2 @ A1 + J1
    return A, b, C, e, J


def combine_fc(F1, c1, F2, c2):
    """x -> F2 (F1 x + c1) + c2."""
    return F2 @ F1, F2 @ c1 + c2


def bwd_scan(elems):
    """elems[k] x elems[k+1] x ... x elems[-1] for every k."""
    n = len(elems)
    acc = elems[n - 1]
    out = [acc]
    for j in range(n - 1):
        acc = combine_abcej(*elems[n - 2 - j], *acc)
        out.append(acc)
    out.reverse()
    return out


def fwdbwd_scan(elems):
    """elems[0] x ... x elems[k] for every k."""
    acc = elems[0]
    out = [acc]
    for j in range(len(elems) - 1):
        acc = combine_abcej(*acc, *elems[j + 1])
        out.append(acc)
    return out


def fwd_scan(elems):
    acc = elems[0]
    out = [acc]
    for j in range(len(elems) - 1):
        acc = combine_fc(*acc, *elems[j + 1])
        out.append(acc)
    return out


# ---- LQR ------------------------------------------------------------------

def lqr_gain(S, F, L, U):
    return inv(U + L.T @ S @ L) @ L.T @ S @ F


def lqr_step(S, F, L, X, U):
    """One backward Riccati step."""
    K = lqr_gain(S, F, L, U)
    return X + F.T @ S @ F - F.T @ S @ L @ K


def lqr_backward(F, L, X, U, XT, T):
    S = XT
    Ks = []
    Ss = [S]
    for j in range(T):
        Ks.append(lqr_gain(S, F, L, U))
        S = lqr_step(S, F, L, X, U)
        Ss.append(S)
    Ks.reverse()
    Ss.reverse()
    return Ks, Ss


def lqr_forward(F, L, x0, Ks):
    us = []
    xs = [x0]
    x = x0
    for k in range(len(Ks)):
        us.append(-Ks[k] @ x)
        x = (F - L @ Ks[k]) @ x
        xs.append(x)
    return us, xs


def lqr_elements(F, L, X, U, XT, T):
    z = np.zeros(F.shape[0])
    Z = np.zeros((F.shape[0], F.shape[0]))
    out = []
    for k in range(T):
        out.append((F, z, L @ inv(U) @ L.T, z, X))
    out.append((Z, z, Z, z, XT))
    return out


def lqr_extract(F, L, U, elems):
    n = len(elems)
    Ss = [elems[k][4] for k in range(n)]
    Ks = [lqr_gain(elems[k + 1][4], F, L, U) for k in range(n - 1)]
    return Ks, Ss


def lqr_fwd_elements(F, L, x0, Ks):
    out = []
    for k in range(len(Ks)):
        if k == 0:
            out.append((np.zeros((F.shape[0], F.shape[0])), (F - L @ Ks[0]) @ x0))
        else:
            out.append((F - L @ Ks[k], np.zeros(F.shape[0])))
    return out


def lqr_fwd_extract(x0, Ks, elems):
    T = len(Ks)
    xs = [x0 if k == 0 else elems[k - 1][1] for k in range(T + 1)]
    us = [-Ks[k] @ (x0 if k == 0 else elems[k - 1][1]) for k in range(T)]
    return us, xs


def lqr_iter(F, L, X, U, n):
    S = X
    K = np.zeros((L.shape[1], L.shape[0]))
    for j in range(n):
        K = lqr_gain(S, F, L, U)
        S = lqr_step(S, F, L, X, U)
    return K, S


def lqr_double(F, L, X, U, n):
    z = np.zeros(F.shape[0])
    e = (F, z, L @ inv(U) @ L.T, z, X)
    for j in range(n):
        e = combine_abcej(*e, *e)
    S = e[4]
    return lqr_gain(S, F, L, U), S


def lqr_cost(F, L, X, U, XT, us, xs):
    J = 0.0
    for k in range(len(us)):
        J = J + 0.5 * xs[k] @ X @ xs[k] + 0.5 * us[k] @ U @ us[k]
    return J + 0.5 * xs[len(us)] @ XT @ xs[len(us)]


# ---- LQT ------------------------------------------------------------------

def gain(S, v, F, L, U, c, H, r, Z, s, M):
    """Minimiser u = -K x + d of the stage Hamiltonian."""
    G = inv(Z.T @ U @ Z + L.T @ S @ L)
    K = G @ (L.T @ S @ F + Z.T @ M.T @ H)
    d = G @ (Z.T @ U @ s + Z.T @ M.T @ r - L.T @ S @ c + L.T @ v)
    return K, d


def step(S, v, F, L, X, U, c, H, r, Z, s, M):
    """One dynamic programming step for V(x) = x'Sx/2 - v'x."""
    G = inv(Z.T @ U @ Z + L.T @ S @ L)
    K = G @ (L.T @ S @ F + Z.T @ M.T @ H)
    W = H.T @ M @ Z + F.T @ S @ L
    g = Z.T @ U @ s + Z.T @ M.T @ r - L.T @ S @ c + L.T @ v
    S1 = H.T @ X @ H + F.T @ S @ F - W @ K
    v1 = H.T @ X @ r + H.T @ M @ s + F.T @ (v - S @ c) - K.T @ g
    return S1, v1


def backward(q):
    T = len(q.F)
    S = q.HT.T @ q.XT @ q.HT
    v = q.HT.T @ q.XT @ q.rT
    Ks = []
    ds = []
    Ss = [S]
    vs = [v]
    for j in range(T):
        k = T - 1 - j
        K, d = gain(S, v, q.F[k], q.L[k], q.U[k], q.c[k], q.H[k], q.r[k], q.Z[k], q.s[k], q.M[k])
        S, v = step(S, v, q.F[k], q.L[k], q.X[k], q.U[k], q.c[k], q.H[k], q.r[k], q.Z[k], q.s[k], q.M[k])
        Ks.append(K)
        ds.append(d)
        Ss.append(S)
        vs.append(v)
    Ks.reverse()
    ds.reverse()
    Ss.reverse()
    vs.reverse()
    return Ks, ds, Ss, vs


def element(F, L, X, U, c, H, r, Z, s, M):
    """Conditional value function of one step."""
    D = L @ inv(Z) @ inv(U)
    A = F - D @ M.T @ H
    b = c + D @ M.T @ r + L @ inv(Z) @ s
    C = L @ inv(Z.T @ U @ Z) @ L.T
    Y = X - M @ inv(U) @ M.T
    return A, b, C, H.T @ Y @ r, H.T @ Y @ H


def elements(q):
    out = []
    for k in range(len(q.F)):
        out.append(element(q.F[k], q.L[k], q.X[k], q.U[k], q.c[k], q.H[k], q.r[k], q.Z[k], q.s[k], q.M[k]))
    return out


def terminal(q):
    n = q.F[0].shape[0]
    return (np.zeros((n, n)), np.zeros(n), np.zeros((n, n)), q.HT.T @ q.XT @ q.rT, q.HT.T @ q.XT @ q.HT)


def bwd_elements(q):
    out = elements(q)
    out.append(terminal(q))
    return out


def initial(q, x0):
    n = q.F[0].shape[0]
    return (np.zeros((n, n)), x0, np.zeros((n, n)), np.zeros(n), np.zeros((n, n)))


def fwdbwd_elements(q, x0):
    out = [initial(q, x0)]
    for k in range(len(q.F)):
        out.append(element(q.F[k], q.L[k], q.X[k], q.U[k], q.c[k], q.H[k], q.r[k], q.Z[k], q.s[k], q.M[k]))
    return out


def extract(q, elems):
    n = len(elems)
    Ks = []
    ds = []
    for k in range(n - 1):
        S, v = elems[k + 1][4], elems[k + 1][3]
        K, d = gain(S, v, q.F[k], q.L[k], q.U[k], q.c[k], q.H[k], q.r[k], q.Z[k], q.s[k], q.M[k])
        Ks.append(K)
        ds.append(d)
    return Ks, ds, [elems[k][4] for k in range(n)], [elems[k][3] for k in range(n)]


def forward(q, x0, Ks, ds):
    us = []
    xs = [x0]
    x = x0
    for k in range(len(Ks)):
        u = ds[k] - Ks[k] @ x
        x = q.F[k] @ x + q.L[k] @ u + q.c[k]
        us.append(u)
        xs.append(x)
    return us, xs


def simulate(q, x0, us):
    xs = [x0]
    x = x0
    for k in range(len(us)):
        x = q.F[k] @ x + q.L[k] @ us[k] + q.c[k]
        xs.append(x)
    return xs


def fwd_elements(q, x0, Ks, ds):
    out = []
    for k in range(len(Ks)):
        A = q.F[k] - q.L[k] @ Ks[k]
        b = q.c[k] + q.L[k] @ ds[k]
        if k == 0:
            out.append((np.zeros((A.shape[0], A.shape[0])), A @ x0 + b))
        else:
            out.append((A, b))
    return out


def fwd_extract(x0, Ks, ds, elems):
    T = len(Ks)
    xs = [x0 if k == 0 else elems[k - 1][1] for k in range(T + 1)]
    us = [ds[k] - Ks[k] @ (x0 if k == 0 else elems[k - 1][1]) for k in range(T)]
    return us, xs


def fb_state(b, C, S, v):
    n = C.shape[0]
    return inv(np.eye(n) + C @ S) @ (b + C @ v)


def fb_extract(Ks, ds, Ss, vs, elems):
    n = len(elems)
    xs = [fb_state(elems[k][1], elems[k][2], Ss[k], vs[k]) for k in range(n)]
    us = [ds[k] - Ks[k] @ fb_state(elems[k][1], elems[k][2], Ss[k], vs[k]) for k in range(n - 1)]
    return us, xs


def fb2_state(x0, A, b, C, S, v):
    n = C.shape[0]
    return inv(np.eye(n) + C @ S) @ (A @ x0 + b + C @ v)


def fb2_extract(x0, Ks, ds, Ss, vs, elems):
    T = len(elems)
    xs = [x0]
    us = [ds[0] - Ks[0] @ x0]
    for k in range(1, T + 1):
        x = fb2_state(x0, elems[k - 1][0], elems[k - 1][1], elems[k - 1][2], Ss[k], vs[k])
        xs.append(x)
    for k in range(1, T):
        us.append(ds[k] - Ks[k] @ fb2_state(x0, elems[k - 1][0], elems[k - 1][1], elems[k - 1][2], Ss[k], vs[k]))
    return us, xs


def stage_cost(x, u, X, U, H, r, Z, s, M):
    e = H @ x - r
    f = Z @ u - s
    return 0.5 * e @ X @ e + 0.5 * f @ U @ f + e @ M @ f


def cost(q, us, xs):
    J = 0.0
    T = len(us)
    for k in range(T):
        J = J + stage_cost(xs[k], us[k], q.X[k], q.U[k], q.H[k], q.r[k], q.Z[k], q.s[k], q.M[k])
    e = q.HT @ xs[T] - q.rT
    return J + 0.5 * e @ q.XT @ e


def batch(q, x0):
    """Stacked problem: minimise over u with A x = B u + d."""
    T = len(q.F)
    n = q.F[0].shape[0]
    m = q.L[0].shape[1]
    p = q.H[0].shape[0]
    A = np.zeros((n * T, n * T))
    d = np.zeros(n * T)
    B = np.zeros((n * T, m * T))
    H1 = np.zeros((p * T, n * T))
    r1 = np.zeros(p * T)
    X1 = np.zeros((p * T, p * T))
    H0 = np.zeros((p * T, n * T))
    r0 = np.zeros(p * T)
    Z = np.zeros((m * T, m * T))
    s = np.zeros(m * T)
    U = np.zeros((m * T, m * T))
    M = np.zeros((p * T, m * T))
    for k in range(T):
        A[n * k:n * k + n, n * k:n * k + n] = np.eye(n)
        B[n * k:n * k + n, m * k:m * k + m] = q.L[k]
        Z[m * k:m * k + m, m * k:m * k + m] = q.Z[k]
        U[m * k:m * k + m, m * k:m * k + m] = q.U[k]
        M[p * k:p * k + p, m * k:m * k + m] = q.M[k]
        s[m * k:m * k + m] = q.s[k]
        if k > 0:
            d[n * k:n * k + n] = q.c[k]
            A[n * k:n * k + n, n * (k - 1):n * k] = -q.F[k]
            H0[p * k:p * k + p, n * (k - 1):n * k] = q.H[k]
            r0[p * k:p * k + p] = q.r[k]
        else:
            d[n * k:n * k + n] = q.c[0] + q.F[0] @ x0
            r0[p * k:p * k + p] = q.r[0] - q.H[0] @ x0
        if k < T - 1:
            H1[p * k:p * k + p, n * k:n * k + n] = q.H[k + 1]
            r1[p * k:p * k + p] = q.r[k + 1]
            X1[p * k:p * k + p, p * k:p * k + p] = q.X[k + 1]
        else:
            H1[p * k:p * k + p, n * k:n * k + n] = q.HT
            r1[p * k:p * k + p] = q.rT
            X1[p * k:p * k + p, p * k:p * k + p] = q.XT
    return A, d, B, H1, r1, X1, H0, r0, Z, s, U, M


def batch_solve(q, x0):
    A, d, B, H1, r1, X1, H0, r0, Z, s, U, M = batch(q, x0)
    T = len(q.F)
    n = q.F[0].shape[0]
    m = q.L[0].shape[1]
    P1 = H1 @ inv(A) @ B
    P0 = H0 @ inv(A) @ B
    g1 = r1 - H1 @ inv(A) @ d
    g0 = r0 - H0 @ inv(A) @ d
    u = inv(P1.T @ X1 @ P1 + Z.T @ U @ Z + P0.T @ M @ Z + Z.T @ M.T @ P0) @ (
        P1.T @ X1 @ g1 + Z.T @ U @ s + P0.T @ M @ s + Z.T @ M.T @ g0)
    x = inv(A) @ (B @ u + d)
    us = [u[m * k:m * k + m] for k in range(T)]
    xs = [x0]
    for k in range(T):
        xs.append(x[n * k:n * k + n])
    return us, xs


def transformed_problem(q):
    """Cross-term free equivalent (Z = I): u = w - U^-1 M' (H x - r) + s ..."""
    F = []
    c = []
    X = []
    for k in range(len(q.F)):
        D = q.L[k] @ inv(q.U[k]) @ q.M[k].T
        F.append(q.F[k] - D @ q.H[k])
        c.append(q.c[k] + D @ q.r[k] + q.L[k] @ q.s[k])
        X.append(q.X[k] - q.M[k] @ inv(q.U[k]) @ q.M[k].T)
    return F, c, X


def transformed_backward(q):
    F, c, X = transformed_problem(q)
    T = len(F)
    S = q.HT.T @ q.XT @ q.HT
    v = q.HT.T @ q.XT @ q.rT
    Ks = []
    ds = []
    Ss = [S]
    vs = [v]
    for j in range(T):
        k = T - 1 - j
        L = q.L[k]
        G = inv(q.U[k] + L.T @ S @ L)
        K = G @ L.T @ S @ F[k]
        d = G @ L.T @ (v - S @ c[k])
        Ks.append(K + inv(q.U[k]) @ q.M[k].T @ q.H[k])
        ds.append(d + inv(q.U[k]) @ q.M[k].T @ q.r[k] + q.s[k])
        v = q.H[k].T @ X[k] @ q.r[k] + F[k].T @ (v - S @ c[k]) - F[k].T @ S @ L @ d
        S = q.H[k].T @ X[k] @ q.H[k] + F[k].T @ S @ F[k] - F[k].T @ S @ L @ K
        Ss.append(S)
        vs.append(v)
    Ks.reverse()
    ds.reverse()
    Ss.reverse()
    vs.reverse()
    return Ks, ds, Ss, vs


def dare(F, L, X, U):
    from scipy import linalg
    return linalg.solve_discrete_are(F, L, X, U)


def transformed_gains(q, Ks, ds):
    """Feedback of the general problem from that of the cross-term free one."""
    return ([Ks[k] + inv(q.U[k]) @ q.M[k].T @ q.H[k] for k in range(len(q.F))],
            [ds[k] + inv(q.U[k]) @ q.M[k].T @ q.r[k] + q.s[k] for k in range(len(q.F))])
