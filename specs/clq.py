"""Reference passes for continuous-time LQR/LQT (analysed, never executed).

Dynamics  dx/dt = F(t) x + L(t) u + c(t),
cost      1/2 (H(T) x - rT)' XT (H(T) x - rT)
          + 1/2 int (H x - r)' X (H x - r) + u' U u dt.
P is the tuple of coefficient functions (F, L, X, U, c, H, r).
"""
import numpy as np
from numpy.linalg import inv
from parallel_control.diffeq_np import rk4
from scipy.linalg import expm
from specs.lqt import bwd_scan, fwdbwd_scan, fwd_scan


def constant(M):
    return lambda t: M


def lqr(F, L, X, U):
    """Coefficients of the time-invariant regulator."""
    n = F.shape[0]
    return (constant(F), constant(L), constant(X), constant(U),
            constant(np.zeros(n)), constant(np.eye(n)), constant(np.zeros(n)))


def columns(*parts):
    """Matrices and vectors side by side."""
    return np.concatenate([x if len(x.shape) == 2 else np.reshape(x, (x.shape[0], 1)) for x in parts], axis=1)


def sym(S):
    return 0.5 * (S + S.T)


def control_gram(P, t):
    L = P[1](t)
    return L @ inv(P[3](t)) @ L.T


def state_weight(P, t):
    return P[5](t).T @ P[2](t) @ P[5](t)


def state_pull(P, t):
    return P[5](t).T @ P[2](t) @ P[6](t)


# ---- right-hand sides

def riccati(P, S, v, t):
    F, c, G = P[0](t), P[4](t), control_gram(P, t)
    dS = S @ G @ S - F.T @ S - S @ F - state_weight(P, t)
    dv = S @ G @ v - F.T @ v + S @ c - state_pull(P, t)
    return dS, dv


def affine(P, A, b, C, t):
    """Forward flow of x = A x0 + b under the value function ending here."""
    F, c, W = P[0](t), P[4](t), state_weight(P, t)
    dA = (F - C @ W) @ A
    db = (F - C @ W) @ b + C @ state_pull(P, t) + c
    dC = F @ C + C @ F.T - C @ W @ C + control_gram(P, t)
    return dA, db, dC


def element_end(P, A, b, C, e, J, t):
    """Derivative of the conditional value function with respect to its end time."""
    dA, db, dC = affine(P, A, b, C, t)
    W = state_weight(P, t)
    de = A.T @ (state_pull(P, t) - W @ b)
    dJ = A.T @ W @ A
    return dA, db, dC, de, dJ


def element_start(P, A, b, C, e, J, t):
    """Derivative of the conditional value function with respect to its start time."""
    F, c, G = P[0](t), P[4](t), control_gram(P, t)
    dA = A @ (G @ J - F)
    db = -A @ (G @ e + c)
    dC = -A @ G @ A.T
    de = J @ G @ e - F.T @ e + J @ c - state_pull(P, t)
    dJ = J @ G @ J - F.T @ J - J @ F - state_weight(P, t)
    return dA, db, dC, de, dJ


# ---- sequential passes

def gains(P, t, S, v):
    UL = inv(P[3](t)) @ P[1](t).T
    return UL @ S, UL @ v


def riccati_step(P, dt, t0, S, v, k):
    """From t0 + (k+1) dt to t0 + k dt."""
    n = S.shape[0]

    def f(x, t):
        return columns(*riccati(P, x[:, :n], x[:, n], t))
    x = rk4(f, -dt, columns(S, v), t0 + (k + 1) * dt)
    return sym(x[:, :n]), x[:, n]


def seq_backward(P, steps, dt, t0, S, v):
    Ss, vs, Ks, ds = [S], [v], [], []
    for j in range(steps):
        k = steps - 1 - j
        S, v = riccati_step(P, dt, t0, S, v, k)
        K, d = gains(P, t0 + k * dt, S, v)
        Ss.append(S)
        vs.append(v)
        Ks.append(K)
        ds.append(d)
    Ks.reverse()
    ds.reverse()
    Ss.reverse()
    vs.reverse()
    return Ks, ds, Ss, vs


def terminal(XT, HT, rT):
    return HT.T @ XT @ HT, HT.T @ XT @ rT


def closed_step(P, x, K, d, dt, t, hold):
    """One step of the closed loop: control held over the step, or feedback at every stage."""
    u0 = d - K @ x

    def held(y, s):
        return P[0](s) @ y + P[1](s) @ u0 + P[4](s)

    def feedback(y, s):
        return P[0](s) @ y + P[1](s) @ (d - K @ y) + P[4](s)
    return rk4(held if hold else feedback, dt, x, t), u0


def seq_forward(P, x0, Ks, ds, dt, t0, hold):
    xs, us = [x0], []
    x = x0
    for k in range(len(Ks)):
        x, u = closed_step(P, x, Ks[k], ds[k], dt, t0 + k * dt, hold)
        us.append(u)
        xs.append(x)
    return us, xs


def affine_step(P, dt, t, A, b, C):
    n = A.shape[0]

    def f(x, s):
        return columns(*affine(P, x[:, :n], x[:, n], x[:, n + 1:], s))
    x = rk4(f, dt, columns(A, b, C), t)
    return x[:, :n], x[:, n], sym(x[:, n + 1:])


def seq_fwdbwd(P, A, b, C, steps, dt, t0):
    As, bs, Cs = [A], [b], [C]
    for k in range(steps):
        A, b, C = affine_step(P, dt, t0 + k * dt, A, b, C)
        As.append(A)
        bs.append(b)
        Cs.append(C)
    return As, bs, Cs


def combine(Ks, ds, Ss, vs, bs, Cs):
    n = Cs[0].shape[0]
    xs = [inv(np.eye(n) + Cs[k] @ Ss[k]) @ (bs[k] + Cs[k] @ vs[k]) for k in range(len(Ss))]
    us = [ds[k] - Ks[k] @ xs[k] for k in range(len(Ks))]
    return us, xs


# ---- parallel backward pass

def start_step(P, dt, t, A, b, C, e, J):
    n = A.shape[0]

    def f(x, s):
        return columns(*element_start(P, x[:, :n], x[:, n], x[:, n + 1:2 * n + 1], x[:, 2 * n + 1],
                                      x[:, 2 * n + 2:], s))
    x = rk4(f, -dt, columns(A, b, C, e, J), t)
    return x[:, :n], x[:, n], sym(x[:, n + 1:2 * n + 1]), x[:, 2 * n + 1], sym(x[:, 2 * n + 2:])


def end_step(P, dt, t, A, b, C, e, J):
    n = A.shape[0]

    def f(x, s):
        return columns(*element_end(P, x[:, :n], x[:, n], x[:, n + 1:2 * n + 1], x[:, 2 * n + 1],
                                    x[:, 2 * n + 2:], s))
    x = rk4(f, dt, columns(A, b, C, e, J), t)
    return x[:, :n], x[:, n], sym(x[:, n + 1:2 * n + 1]), x[:, 2 * n + 1], sym(x[:, 2 * n + 2:])


def block(P, n, steps, dt, t0, forward):
    """Conditional value function of [t0, t0 + steps dt]."""
    A, b, C, e, J = np.eye(n), np.zeros(n), np.zeros((n, n)), np.zeros(n), np.zeros((n, n))
    if forward:
        for i in range(steps):
            A, b, C, e, J = end_step(P, dt, t0 + i * dt, A, b, C, e, J)
    else:
        for j in range(steps):
            A, b, C, e, J = start_step(P, dt, t0 + (steps - j) * dt, A, b, C, e, J)
    return A, b, C, e, J


def blocks_elements(P, n, blocks, steps, dt, t0, forward):
    return [block(P, n, steps, dt, t0 + k * steps * dt, forward) for k in range(blocks)]


def bwd_elements(P, n, blocks, steps, dt, t0, S, v, forward):
    out = blocks_elements(P, n, blocks, steps, dt, t0, forward)
    out.append((np.zeros((n, n)), np.zeros(n), np.zeros((n, n)), v, S))
    return out


def bwd_extract(P, elems, steps, dt, t0):
    N = len(elems) - 1
    parts = [seq_backward(P, steps, dt, t0 + k * steps * dt, elems[k + 1][4], elems[k + 1][3]) for k in range(N)]
    Ks = [parts[j // steps][0][j % steps] for j in range(N * steps)]
    ds = [parts[j // steps][1][j % steps] for j in range(N * steps)]
    Ss = [parts[j // steps][2][j % steps + 1] for j in range(N * steps)]
    vs = [parts[j // steps][3][j % steps + 1] for j in range(N * steps)]
    return Ks, ds, [elems[0][4]] + Ss, [elems[0][3]] + vs


def par_backward(P, n, blocks, steps, dt, t0, S, v, forward):
    return bwd_extract(P, bwd_scan(bwd_elements(P, n, blocks, steps, dt, t0, S, v, forward)), steps, dt, t0)


# ---- parallel forward pass

def flow_end(P, dt, t, K, d, A, b):
    n = A.shape[0]

    def f(x, s):
        M = P[0](s) - P[1](s) @ K
        return columns(M @ x[:, :n], M @ x[:, n] + P[4](s) + P[1](s) @ d)
    x = rk4(f, dt, columns(A, b), t)
    return x[:, :n], x[:, n]


def flow_start(P, dt, t, K, d, A, b):
    n = A.shape[0]

    def f(x, s):
        M = P[0](s) - P[1](s) @ K
        return columns(-x[:, :n] @ M, -x[:, :n] @ (P[4](s) + P[1](s) @ d))
    x = rk4(f, -dt, columns(A, b), t)
    return x[:, :n], x[:, n]


def flow_block(P, n, steps, dt, t0, Ks, ds, first, forward):
    A, b = np.eye(n), np.zeros(n)
    if forward:
        for i in range(steps):
            A, b = flow_end(P, dt, t0 + (first + i) * dt, Ks[first + i], ds[first + i], A, b)
    else:
        for j in range(steps):
            i = steps - 1 - j
            A, b = flow_start(P, dt, t0 + (first + i + 1) * dt, Ks[first + i], ds[first + i], A, b)
    return A, b


def fwd_elements(P, n, x0, Ks, ds, blocks, steps, dt, t0, forward):
    out = [(np.eye(n), x0)]
    for k in range(blocks):
        out.append(flow_block(P, n, steps, dt, t0, Ks, ds, k * steps, forward))
    return out


def fwd_extract(P, Ks, ds, elems, steps, dt, t0, hold):
    N = len(elems) - 1
    parts = [seq_forward(P, elems[k][1], [Ks[k * steps + i] for i in range(steps)],
                         [ds[k * steps + i] for i in range(steps)], dt, t0 + k * steps * dt, hold)
             for k in range(N)]
    us = [parts[j // steps][0][j % steps] for j in range(N * steps)]
    xs = [parts[j // steps][1][j % steps] for j in range(N * steps)]
    return us, xs + [elems[N][1]]


def par_forward(P, n, x0, Ks, ds, blocks, steps, dt, t0, forward, hold):
    e = fwd_scan(fwd_elements(P, n, x0, Ks, ds, blocks, steps, dt, t0, forward))
    return fwd_extract(P, Ks, ds, e, steps, dt, t0, hold)


# ---- parallel forward-backward pass

def fb_elements(P, n, x0, blocks, steps, dt, t0, forward):
    z, Z = np.zeros(n), np.zeros((n, n))
    return [(Z, x0, Z, z, Z)] + blocks_elements(P, n, blocks, steps, dt, t0, forward)


def fb_extract(P, Ks, ds, Ss, vs, elems, steps, dt, t0):
    N = len(elems) - 1
    parts = [seq_fwdbwd(P, elems[k][0], elems[k][1], elems[k][2], steps, dt, t0 + k * steps * dt) for k in range(N)]
    bs = [parts[j // steps][1][j % steps] for j in range(N * steps)]
    Cs = [parts[j // steps][2][j % steps] for j in range(N * steps)]
    return combine(Ks, ds, Ss, vs, bs + [parts[N - 1][1][steps]], Cs + [parts[N - 1][2][steps]])


def par_fwdbwd(P, n, x0, Ks, ds, Ss, vs, blocks, steps, dt, t0, forward):
    return fb_extract(P, Ks, ds, Ss, vs, fwdbwd_scan(fb_elements(P, n, x0, blocks, steps, dt, t0, forward)),
                      steps, dt, t0)


# ---- exact solutions for the time-invariant regulator

def exact_backward(F, L, X, U, S, steps, dt):
    """(C, D) propagated by the exponential of the Hamiltonian matrix; S = D C^-1."""
    n = F.shape[0]
    G = L @ inv(U) @ L.T
    Ham = np.block([[F, -G], [-X, -F.T]])
    Psi = expm(-dt * Ham)
    CD = np.concatenate([np.eye(n), S], axis=0)
    Ss, Ks = [S], []
    for j in range(steps):
        CD = Psi @ CD
        S = sym(CD[n:, :] @ inv(CD[:n, :]))
        Ss.append(S)
        Ks.append(inv(U) @ L.T @ S)
    Ss.reverse()
    Ks.reverse()
    return Ks, Ss


def exact_forward(F, L, x0, Ks, dt):
    x = x0
    us, xs = [], [x0]
    for k in range(len(Ks)):
        us.append(-Ks[k] @ x)
        x = expm((F - L @ Ks[k]) * dt) @ x
        xs.append(x)
    return us, xs


def exact_forward_hold(F, L, x0, Ks, dt):
    n, m = L.shape[0], L.shape[1]
    E = expm(np.block([[F, L], [np.zeros((m, n)), np.zeros((m, m))]]) * dt)
    x = x0
    us, xs = [], [x0]
    for k in range(len(Ks)):
        u = -Ks[k] @ x
        us.append(u)
        x = E[:n, :n] @ x + E[:n, n:] @ u
        xs.append(x)
    return us, xs


# ---- batches of problems (leading axis)

def batch_backward(P, steps, dt, t0, S, v):
    parts = [seq_backward(P, steps, dt, t0[j], S[j], v[j]) for j in range(len(t0))]
    return [p[2] for p in parts], [p[3] for p in parts], [p[0] for p in parts], [p[1] for p in parts]


def batch_forward(P, x0, Ks, ds, dt, t0, hold):
    parts = [seq_forward(P, x0[j], Ks[j], ds[j], dt, t0[j], hold) for j in range(len(t0))]
    return [p[1] for p in parts], [p[0] for p in parts]


def batch_fwdbwd(P, A, b, C, steps, dt, t0):
    parts = [seq_fwdbwd(P, A[j], b[j], C[j], steps, dt, t0[j]) for j in range(len(t0))]
    return [p[0] for p in parts], [p[1] for p in parts], [p[2] for p in parts]
