"""Reference sequential quadratic programming (analysed, never executed)."""
import numpy as np
import jax


def kkt(G, c, A, b):
    """min x'Gx/2 + c'x subject to Ax = b, multipliers of the constraint."""
    n, m = c.shape[0], b.shape[0]
    K = np.zeros((n + m, n + m))
    K[:n, :n] = G
    K[:n, n:] = -A.T
    K[n:, :n] = A
    rhs = np.concatenate([-c, b])
    z = np.linalg.inv(K) @ rhs
    return z[:n], z[n:]


def batch_kkt(G, c, A, b):
    r = [kkt(G[i], c[i], A[i], b[i]) for i in range(c.shape[0])]
    return np.array([x for x, l in r]), np.array([l for x, l in r])


def lagrangian(fun, con):
    return lambda x, l: fun(x) - l @ con(x)


def step(fun, con, x, lam):
    """Newton step of the Lagrangian system; the criterion is at the old point."""
    L = lagrangian(fun, con)
    H = jax.jacfwd(jax.jacfwd(L))(x, lam)
    p, l = kkt(H, jax.jacfwd(fun)(x), jax.jacfwd(con)(x), -con(x))
    return x + p, l, jax.jacfwd(L)(x, lam)


def norm(v):
    return np.sqrt((v * v).sum())


def fixed(fun, con, x0, n):
    x, lam, crit = x0, np.zeros(con(x0).shape[0]), 1.0
    for k in range(n):
        x, lam, g = step(fun, con, x, lam)
        crit = norm(g)
    return x, n, crit


def until(fun, con, x0, n, tol):
    x, lam, crit = x0, np.zeros(con(x0).shape[0]), 1.0
    it = 0
    for k in range(n):
        if crit > tol:
            x, lam, g = step(fun, con, x, lam)
            crit = norm(g)
            it = it + 1
    return x, it, crit


def trajectory(fun, con, x0, n):
    """All iterates."""
    x, lam = x0, np.zeros(con(x0).shape[0])
    xs, ls, cs = [], [], []
    for k in range(n):
        x, lam, g = step(fun, con, x, lam)
        xs.append(x)
        ls.append(lam)
        cs.append(norm(g))
    return xs, ls, cs


def batch_trajectory(fun, con, x0, par, n):
    m = x0.shape[0]
    x = x0
    lam = np.zeros((m, con(x0[0], par[0]).shape[0]))
    xs, ls, cs = [], [], []
    for k in range(n):
        r = [step(lambda z: fun(z, par[i]), lambda z: con(z, par[i]), x[i], lam[i]) for i in range(m)]
        x = np.array([a for a, b, c in r])
        lam = np.array([b for a, b, c in r])
        g = np.array([c for a, b, c in r])
        xs.append(x)
        ls.append(lam)
        cs.append(np.sqrt((g * g).sum()))
    return xs, ls, cs


def value_grad(fun, x):
    return fun(x), jax.jacfwd(fun)(x)


def value_grad_hess(fun, con, x, lam):
    L = lagrangian(fun, con)
    return L(x, lam), jax.jacfwd(L)(x, lam), jax.jacfwd(jax.jacfwd(L))(x, lam)


def rows(f, x, par):
    """Every system of a batch."""
    return [f(x[i], par[i]) for i in range(x.shape[0])]


def batch_value_grad(fun, x, par):
    r = [value_grad(lambda z: fun(z, par[i]), x[i]) for i in range(x.shape[0])]
    return np.array([a for a, b in r]), np.array([b for a, b in r])


def batch_value_grad_hess(fun, con, x, lam, par):
    r = [value_grad_hess(lambda z: fun(z, par[i]), lambda z: con(z, par[i]), x[i], lam[i]) for i in range(x.shape[0])]
    return np.array([a for a, b, c in r]), np.array([b for a, b, c in r]), np.array([c for a, b, c in r])


# ---- quasi-Newton

def bfgs(B, s, y):
    """Standard update with positive curvature, else unchanged."""
    v = B @ s
    d = s @ y
    return B + np.outer(y, y) / d - np.outer(v, v) / (s @ v) if d > 0 else B


def damped(B, s, y):
    v = B @ s
    sy, sv = s @ y, s @ v
    th = 1.0 if sy >= 0.2 * sv else 0.8 * sv / (sv - sy)
    z = th * y + (1.0 - th) * v
    return B + np.outer(z, z) / (s @ z) - np.outer(v, v) / sv


def merit(fun, con, x):
    return fun(x) + np.abs(con(x)).sum()


def bfgs_eq(fun, con, x0, n, tol, nb, solve, update):
    L = lagrangian(fun, con)
    dL = jax.jacfwd(L)
    x = x0
    B = np.eye(x0.shape[0])
    lam = np.zeros(con(x0).shape[0])
    it, crit = 0, 1.0
    for k in range(n):
        if crit > tol:
            p, l = solve(B, jax.jacfwd(fun)(x), jax.jacfwd(con)(x), -con(x))
            a = 1.0
            m0 = merit(fun, con, x)
            tries = 0
            for j in range(nb):
                if merit(fun, con, x + a * p) > m0:
                    a = a / 2
                    tries = tries + 1
            if tries == nb:
                a = 1.0
            s = a * p
            z = x + s
            lam = lam + a * (l - lam)
            g = dL(z, lam)
            y = g - dL(x, lam)
            B = update(B, s, y)
            x = z
            it = it + 1
            crit = norm(g)
    return x, it, crit
