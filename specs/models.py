"""Reference model builders (analysed, never executed)."""
import numpy as np
from numpy.linalg import inv
from scipy.linalg import expm


def discrete(F, dt):
    return expm(F * dt)


def input_gain(F, G, dt):
    """Integral of expm(F s) G over one step (F invertible)."""
    return inv(F) @ (expm(F * dt) - np.eye(F.shape[0])) @ G


def noise_balance(F, L, Qc, dt):
    """d/ds of expm(F s) D expm(F s)' integrated over one step."""
    A, D = expm(F * dt), L @ Qc @ L.T
    return A @ D @ A.T - D


def lyapunov(F, Q):
    return F @ Q + Q @ F.T


def one():
    return np.eye(1)


def unit(n):
    return np.eye(n)


def scaled(q):
    return np.array([[q]])


# ---- the constant velocity model

def velocity(dt):
    F = np.array([[1, 0, dt, 0], [0, 1, 0, dt], [0, 0, 1, 0], [0, 0, 0, 1]])
    L = np.array([[dt * dt / 2, 0], [0, dt * dt / 2], [dt, 0], [0, dt]])
    return F, L


def tracked(points, steps, T, X, Xn):
    """Each point is the reference of the steps that follow it and has
    weight only at the first of them."""
    r = [points[:, k // steps] for k in range(T)]
    W = [X if k % steps == 0 else Xn for k in range(T)]
    return r, W


def linear_lqt(xy, steps):
    N = xy.shape[1]
    T = steps * N
    F, L = velocity(1.0 / steps)
    r, X = tracked(xy, steps, T, 100.0 * np.eye(2), 1e-6 * np.eye(2))
    H = np.eye(2, 4)
    rT = np.array([xy[0, N - 1], xy[1, N - 1], 0, 0])
    x0 = np.array([xy[0, 0], xy[1, 0], 0, 0])
    return (expand(T, F=F, L=L, X=X, U=0.1 * np.eye(2), c=np.zeros(4), H=H, r=r, Z=np.eye(2), s=np.zeros(2),
                   M=np.zeros((2, 2))), np.eye(4), np.eye(4), rT, x0)


def rep(v, T):
    return v if isinstance(v, list) else [v for k in range(T)]


def expand(T, F, L, X, U, c, H, r, Z, s, M):
    return tuple(rep(v, T) for v in (F, L, X, U, c, H, r, Z, s, M))


def car_lqt(xyt, steps):
    N = xyt.shape[1]
    T = steps * N
    r, X = tracked(xyt, steps, T, np.diag(np.array([100.0, 100.0, 1000.0])), 1e-6 * np.eye(3))
    H = np.eye(3, 4)
    rT = xyt[:, N - 1]
    x0 = np.array([xyt[0, 0], xyt[1, 0], xyt[2, 0], 0])
    return (expand(T, F=np.eye(4), L=np.array([[0, 0], [0, 0], [1, 0], [0, 1]]), X=X, U=np.diag(np.array([1.0, 100.0])),
                   c=np.zeros(4), H=H, r=r, Z=np.eye(2), s=np.zeros(2), M=np.zeros((3, 2))),
            1e-6 * np.eye(3), H, rT, x0)


def still(x0, n, m, T):
    return [np.zeros(m) for k in range(T)], [x0] + [np.zeros(n) for k in range(T)]


def guess(us, xs, T):
    return us, xs[0], [xs[k + 1][0:3] for k in range(T)]


def guess_reference(r, x0, m, T):
    return [np.zeros(m) for k in range(T)], x0, [np.stack([r[k][0], r[k][1], r[k][2]]) for k in range(T)]


# ---- chain of masses

def chain(N):
    """(position, velocity) pairs; unit masses and springs, dampers 0.2."""
    A = np.zeros((2 * N, 2 * N))
    for i in range(N):
        for j in range(N):
            if i == j:
                A[2 * i, 2 * j + 1] = 1
                A[2 * i + 1, 2 * j] = -2
                A[2 * i + 1, 2 * j + 1] = -0.4
            if i == j + 1 or j == i + 1:
                A[2 * i + 1, 2 * j] = 1
                A[2 * i + 1, 2 * j + 1] = 0.2
    B = np.zeros((2 * N, 2))
    B[1, 0] = 1
    B[2 * N - 1, 1] = -1
    x0 = np.zeros(2 * N)
    x0[0] = 1
    x0[2 * (N // 2)] = 1
    return A, B, x0


def mass_lqt(A, B, N, dt, T):
    F = expm(A * dt)
    L = inv(A) @ (F - np.eye(2 * N)) @ B
    return (expand(T, F=F, L=L, X=np.eye(2 * N), U=0.1 * np.eye(2), c=np.zeros(2 * N), H=np.eye(2 * N), r=np.zeros(2 * N),
                   Z=np.eye(2), s=np.zeros(2), M=np.zeros((2 * N, 2))), np.eye(2 * N), np.eye(2 * N), np.zeros(2 * N))


# ---- the game

def game(track):
    """Move left, stay, move right; moving costs one."""
    n, T = track.shape
    f = np.zeros((n, 3), dtype=int)
    for x in range(n):
        f[x, 0] = max(x - 1, 0)
        f[x, 1] = x
        f[x, 2] = min(x + 1, n - 1)
    L = [np.stack([track[:, k] + 1.0, track[:, k], track[:, k] + 1.0], axis=1) for k in range(T)]
    return [f for k in range(T)], L, np.zeros(n)


def evaluate(fs, t):
    """Coefficient functions at a time."""
    return tuple(f(t) for f in fs)


def fourier_reference():
    F, H = np.zeros((4, 4)), np.eye(2, 4)
    F[0, 2] = 1
    F[1, 3] = 1
    L = np.zeros((4, 2))
    L[2, 0] = 1
    L[3, 1] = 1
    return (F, L, np.eye(2), 0.1 * np.eye(2), np.zeros(4), H), np.eye(4), np.eye(4), np.array([5.0, 5.0, 0, 0]), 50.0


CX = [5.7770, -2.6692, 1.1187, 0.1379, 0.5718, 1.1214, 0.2998, 0.3325, 0.7451, 0.2117, 0.6595, 0.0401, -0.2995]
CY = [4.3266, -1.4584, -1.2457, 1.1804, 0.2035, 0.5123, 1.0588, 0.2616, -0.6286, -0.3802, 0.2750, -0.0070, -0.0022]


def series(c, t):
    s = c[0]
    for k in range(6):
        w = 2.0 * np.pi * (k + 1) * t / 50.0
        s = s + c[2 * k + 1] * np.cos(w) + c[2 * k + 2] * np.sin(w)
    return s


def curve(t):
    return np.array([series(CX, t), series(CY, t)]), np.array([4.9514, 4.4353, 0, 0])


# ---- one-dimensional models: dynamics, running and terminal cost, horizon

def lin1d(x, u):
    return x + u, x * x / 2 + u * u / 2, x * x, 1.0


def velocity1d(x, u):
    return 1 - x * x / 10 + u, x * x / 2 + u * u / 2, 2 * x * x, 1.0


def upwind1d(x, u):
    return u * x, 0.0, -x, 1.0


def grid(a, b, n):
    return np.array([a + (b - a) * k / (n - 1) for k in range(n)])


def at(model, x, u):
    return model[0](x, u), model[1](x, u), model[2](x), model[3]


def grids(model):
    return model[4], model[5]


def block_value(inf, dt, g):
    """Zero where e^(v dt) x0, 0 <= v <= 1, reaches xf, inf elsewhere;
    rows are initial and columns final points."""
    n = g.shape[0]
    a = np.exp(dt)
    V = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            x, y = g[i], g[j]
            up = x >= 0 and y >= x and y <= a * x
            down = x <= 0 and y <= x and y >= a * x
            V[i, j] = 0.0 if up or down else inf
    return V


# ---- figure trajectory

def figure(N, steps):
    tt = 2 * np.pi * np.arange(N) / (N - 1)
    x = 7 + 4 * np.cos(tt) + 2 * np.sin(2 * tt) + 2 * np.cos(3 * tt)
    y = 7 + 3 * np.sin(tt) - np.sin(2 * tt) + 2 * np.sin(3 * tt)
    h = np.array([np.arctan2(y[min(k, N - 2) + 1] - y[min(k, N - 2)], x[min(k, N - 2) + 1] - x[min(k, N - 2)]) for k in range(N)])
    h = np.unwrap(h)
    return np.stack([x[::steps], y[::steps], h[::steps]]), np.stack([x, y, h])
