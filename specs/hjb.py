"""Reference grid HJB solver in one dimension (analysed, never executed).

f(x,u) dynamics, L(x,u) running cost, LT(x) terminal cost, grids xs and us,
B blocks of N steps over the horizon T, W[i,j] cost of a block from i to j."""
import numpy as np
from specs import fsc
from parallel_control.diffeq_np import rk4


def slopes(V, dx):
    """Backward and forward differences, one-sided at both ends."""
    n = V.shape[0]
    fw = [(V[i + 1] - V[i]) / dx if i < n - 1 else (V[i] - V[i - 1]) / dx for i in range(n)]
    bw = [(V[i] - V[i - 1]) / dx if i > 0 else (V[i + 1] - V[i]) / dx for i in range(n)]
    return np.array(fw), np.array(bw)


def central(V, dx):
    n = V.shape[0]
    fw, bw = slopes(V, dx)
    return np.array([(fw[i] + bw[i]) / 2 for i in range(n)])


def sym_backup(f, L, V, xs, us, dx):
    D = central(V, dx)
    return np.array([np.array([L(xs[i], us[j]) + f(xs[i], us[j]) * D[i] for j in range(us.shape[0])]).min()
                     for i in range(xs.shape[0])])


def upwind_term(v, fw, bw):
    return max(v, 0.0) * fw + min(v, 0.0) * bw


def upwind_backup(f, L, V, xs, us, dx):
    fw, bw = slopes(V, dx)
    return np.array([np.array([L(xs[i], us[j]) + upwind_term(f(xs[i], us[j]), fw[i], bw[i])
                               for j in range(us.shape[0])]).min() for i in range(xs.shape[0])])


def backward(f, L, LT, T, B, N, xs, us, upwind):
    """Value functions at the block boundaries, first to last."""
    dx = xs[1] - xs[0]
    dt = T / (B * N)
    V = np.array([LT(xs[i]) for i in range(xs.shape[0])])
    Vs = [V]
    for k in range(B):
        for j in range(N):
            if upwind:
                V = V + dt * upwind_backup(f, L, V, xs, us, dx)
            else:
                V = V + dt * sym_backup(f, L, V, xs, us, dx)
        Vs.append(V)
    Vs.reverse()
    return Vs


# ---- composition of blocks

def parabola(q):
    """Minimum of the parabola through the grid minimum and its neighbours
    (reflected at the ends); the grid minimum where the data are flat."""
    n = q.shape[0]
    j = q.argmin()
    a = abs(j - 1)
    b = n - 1 - abs(n - 1 - j - 1)
    c = q[b] + q[a] - 2 * q[j]
    return q[j] - (q[b] - q[a]) ** 2 / c / 8 if c > 0 else q[j]


def combine_interp(A, B):
    n = A.shape[0]
    return np.array([[parabola(np.array([A[i, j] + B[j, k] for j in range(n)])) for k in range(n)] for i in range(n)])


def batch_interp(A, B):
    return np.array([combine_interp(A[b], B[b]) for b in range(A.shape[0])])


def terminal(LT, xs):
    n = xs.shape[0]
    return np.array([[LT(xs[i]) for j in range(n)] for i in range(n)])


def elements(LT, xs, B, W):
    return [W for k in range(B)] + [terminal(LT, xs)]


def block_backward(LT, xs, B, W):
    V = terminal(LT, xs)
    Vs = [V]
    for k in range(B):
        V = combine_interp(W, V)
        Vs.append(V)
    Vs.reverse()
    return [M[:, 0] for M in Vs]


def first_columns(Ms):
    return [Ms[k][:, 0] for k in range(len(Ms))]


def plain_suffixes(E):
    return fsc.suffixes(E)


def suffixes(E):
    N = len(E)
    a = E[N - 1]
    r = [a]
    for j in range(N - 1):
        a = combine_interp(E[N - 2 - j], a)
        r.append(a)
    r.reverse()
    return r


# ---- cost of a block by direct shooting

def shoot(g, L, dt, x0, xf, a, b):
    """Control a[k] + b[k] (t - t_k) on step k."""
    x = np.array([x0, 0.0])
    for k in range(a.shape[0]):
        tk = dt * k

        def rhs(z, t):
            u = a[k] + b[k] * (t - tk)
            return np.array([g(z[0], u), L(z[0], u)])
        x = rk4(rhs, dt, x, tk)
    return x[1], np.array([x[0] - xf])


def zoh_plus_ramp(g, L, T, x0, xf, a, b):
    return shoot(g, L, T / a.shape[0], x0, xf, a, b)


def continuous(g, L, T, x0, xf, th):
    """Continuous piecewise linear control: th = (u(0), slopes)."""
    n = th.shape[0] - 1
    dt = T / n
    u = th[0]
    a = []
    for k in range(n):
        a.append(u)
        u = u + dt * th[k + 1]
    return shoot(g, L, dt, x0, xf, np.array(a), th[1:])


def batch_zoh(g, L, T, x0, xf, a, b):
    r = [zoh_plus_ramp(g, L, T, x0[i], xf[i], a[i], b[i]) for i in range(x0.shape[0])]
    return np.array([p for p, c in r]), np.array([c for p, c in r])


def batch_continuous(g, L, T, x0, xf, th):
    r = [continuous(g, L, T, x0[i], xf[i], th[i]) for i in range(x0.shape[0])]
    return np.array([p for p, c in r]), np.array([c for p, c in r])


def block_cost(solve, method, g, L, T, n, x0s, xfs):
    """W[i,j]: cost of the best control from x0s[i] to xfs[j]."""
    def one(x0, xf):
        if method == 1:
            th = solve(lambda th: zoh_plus_ramp(g, L, T, x0, xf, th[0::2], th[1::2])[0],
                       lambda th: zoh_plus_ramp(g, L, T, x0, xf, th[0::2], th[1::2])[1], np.zeros(2 * n))
            return zoh_plus_ramp(g, L, T, x0, xf, th[0::2], th[1::2])[0]
        th = solve(lambda th: continuous(g, L, T, x0, xf, th)[0],
                   lambda th: continuous(g, L, T, x0, xf, th)[1], np.zeros(n + 1))
        return continuous(g, L, T, x0, xf, th)[0]
    return np.array([[one(x0s[i], xfs[j]) for j in range(xfs.shape[0])] for i in range(x0s.shape[0])])


def quotient(a, b):
    return a / b
