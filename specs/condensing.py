"""Reference partial condensing (analysed, never executed)."""
import numpy as np


def padded(T, R, F, c, L, H, r, X, U):
    """Lists of the steps followed by R steps that neither move nor cost."""
    n, m, p = F[0].shape[0], L[0].shape[1], H[0].shape[0]
    out = [[y[k] for k in range(T)] for y in (F, c, L, H, r, X, U)]
    for _ in range(R):
        out[0] = out[0] + [np.eye(n)]
        out[1] = out[1] + [np.zeros(n)]
        out[2] = out[2] + [np.zeros((n, m))]
        out[3] = out[3] + [np.zeros((p, n))]
        out[4] = out[4] + [np.zeros(p)]
        out[5] = out[5] + [np.zeros((p, p))]
        out[6] = out[6] + [np.eye(m)]
    return out


def block(Nc, k, F, c, L, H, r, X, U):
    """Steps k .. k+Nc-1 as affine functions of the state x at k and of the
    stacked controls u; the cost as a quadratic form K, g of (x, u)."""
    n, m = F[0].shape[0], L[0].shape[1]
    A, B, a = np.eye(n), np.zeros((n, Nc * m)), np.zeros(n)
    K, g = np.zeros((n + Nc * m, n + Nc * m)), np.zeros(n + Nc * m)
    As, Bs, cs = [], [], []
    for i in range(Nc):
        As.append(A)
        Bs.append(B)
        cs.append(a)
        E = np.zeros((m, n + Nc * m))
        E[:, n + i * m:n + (i + 1) * m] = np.eye(m)
        G = H[k + i] @ np.concatenate([A, B], axis=1)
        K = K + G.T @ X[k + i] @ G + E.T @ U[k + i] @ E
        g = g + G.T @ X[k + i] @ (r[k + i] - H[k + i] @ a)
        A, B, a = F[k + i] @ A, F[k + i] @ B + L[k + i] @ E[:, n:], F[k + i] @ a + c[k + i]
    return (A, a, B, K[:n, :n], K[:n, n:], K[n:, n:], g,
            np.concatenate(As, axis=0), np.concatenate(cs, axis=0), np.concatenate(Bs, axis=0))


def lists(T, R, Nc, Tc, *prob):
    q = padded(T, R, *prob)
    bl = [block(Nc, Nc * kp, *q) for kp in range(Tc)]
    return tuple([b[i] for b in bl] for i in range(10))


def arrays(T, R, Nc, Tc, *prob):
    return tuple(np.array(x) for x in lists(T, R, Nc, Tc, *prob))


def gradient(X, M, U, r, s):
    """Linear term of the condensed stage cost with reference r and s."""
    return np.concatenate([X @ r + M @ s, M.T @ r + U @ s], axis=0)


def gradients(X, M, U, r, s):
    return [gradient(X[k], M[k], U[k], r[k], s[k]) for k in range(len(X))]


def array_gradients(X, M, U, r, s):
    return np.array([gradient(X[k], M[k], U[k], r[k], s[k]) for k in range(X.shape[0])])


def recover(us, xs, Lam, cbar, Lbar, Nc, T):
    """Controls and states of every step from those of the blocks."""
    Tc = len(us)
    n = xs[0].shape[0]
    m = us[0].shape[0] // Nc
    u, x = [], []
    for i in range(Tc):
        z = Lam[i] @ xs[i] + cbar[i] + Lbar[i] @ us[i]
        for j in range(Nc):
            u.append(us[i][j * m:(j + 1) * m])
            x.append(z[j * n:(j + 1) * n])
    u = [u[k] for k in range(T)]
    x = [x[k] for k in range(T)]
    return u, x + [xs[Tc]]


def units(c):
    return ([np.eye(c.X[k].shape[0]) for k in range(len(c.X))], [np.eye(c.U[k].shape[0]) for k in range(len(c.U))])


def array_units(X):
    return np.array([np.eye(X.shape[1]) for k in range(X.shape[0])])


def stacked(u, x):
    return np.array(u), np.array(x)


def blkdiag(b, M):
    N, K, L = b.shape[0], b.shape[2], b.shape[3]
    out = np.zeros((N, M * K, M * L))
    for i in range(M):
        out[:, i * K:(i + 1) * K, i * L:(i + 1) * L] = b[:, i]
    return out
