"""Stochastic models and their data (analysed, never executed)."""
import numpy as np
import math


def burst_channel():
    """State 2 b + s: bit b, channel condition s; independent chains."""
    ps = [[0.97, 0.03], [0.1, 0.9]]
    pb = [[0.95, 0.05], [0.05, 0.95]]
    q = [0.1, 0.3]
    Pi = np.array([[ps[i % 2][j % 2] * pb[i // 2][j // 2] for j in range(4)] for i in range(4)])
    Po = np.array([[q[i % 2] if i // 2 != y else 1 - q[i % 2] for y in range(2)] for i in range(4)])
    return Pi, Po, np.array([0.25, 0.25, 0.25, 0.25])


def row_sums(P):
    n, m = P.shape
    return np.array([sum_of([P[i, j] for j in range(m)]) for i in range(n)])


def sum_of(a):
    s = 0.0
    for x in a:
        s = s + x
    return s


def ones(n):
    return np.array([1.0 for i in range(n)])


def hmm_path(prior, Pi, Po, seed, T):
    np.random.seed(seed)
    x = np.random.choice(prior.shape[0], p=prior)
    xs, ys = [], []
    for k in range(T):
        x = np.random.choice(Pi.shape[1], p=Pi[x])
        y = np.random.choice(Po.shape[1], p=Po[x])
        xs.append(x)
        ys.append(y)
    return np.array(xs), np.array(ys)


def bits(x):
    return np.array([1 if x[i] == 2 else (1 if x[i] == 3 else 0) for i in range(x.shape[0])])


def scene(seed, T, nx):
    """Two random walks from the middle multiply a mask into the scene."""
    rng = np.random.default_rng(seed)
    rng.uniform(0.0, 0.01, size=(nx, T))
    mask = [0.5, 0.3, 0.1, 0.3, 0.5]
    G = np.ones((nx, T))
    for r in range(2):
        x = nx // 2
        for k in range(T):
            u = rng.uniform()
            x = x - 1 if u < 0.2 and x > 0 else (x + 1 if u > 0.8 and x < nx - 1 else x)
            for y in range(nx):
                for i in range(5):
                    if y - x == i - 2:
                        G[y, k] = G[y, k] * mask[i]
    return G, nx // 2


def wander(seed, N):
    """Unit steps with random turns, reflected half a step off the walls of [0, 10]^2."""
    rng = np.random.default_rng(seed)
    x, y, a = 5.0, 5.0, 0.0
    xs, ys = [x], [y]
    for k in range(1, N):
        a = a + np.pi * (rng.uniform() - 0.5)
        a = a + 2 * np.pi if a < 0 else a
        a = a - 2 * np.pi if a > 2 * np.pi else a
        x = bounce(x, math.cos(a))
        y = bounce(y, math.sin(a))
        xs.append(x)
        ys.append(y)
    return np.stack([np.array(xs), np.array(ys)])


def bounce(x, d):
    z = x + d
    if z <= 0.5 or z >= 9.5:
        return 2 * x - z
    return z


# ---- text

def letter_noise(n, e):
    return np.array([[e / n + (1 - e if i == j else 0.0) for j in range(n)] for i in range(n)])


def letter_counts(n, text):
    p = np.ones(n)
    for k in range(len(text)):
        p[text[k]] = p[text[k]] + 1
    return p / p.sum()


def pair_counts(n, text):
    P = np.ones((n, n))
    for k in range(len(text) - 1):
        P[text[k], text[k + 1]] = P[text[k], text[k + 1]] + 1
    return np.array([P[i] / P[i].sum() for i in range(n)])


def word_noise(n, order, e):
    P = letter_noise(n, e)
    return np.array([P[i % n] for i in range(n ** order)])


def word_counts(N, order, table, text):
    p = np.ones(N)
    for k in range(len(text) - order + 1):
        i = table[text[k:k + order]]
        p[i] = p[i] + 1
    return p / p.sum()


def word_pairs(n, order, table, text):
    N = n ** order
    P = np.array([[1e-12 + (1 if (n * i) % N == n * (j // n) else 0) for j in range(N)] for i in range(N)])
    for k in range(len(text) - order):
        i, j = table[text[k:k + order]], table[text[k + 1:k + order + 1]]
        P[i, j] = P[i, j] + 1
    return np.array([P[i] / P[i].sum() for i in range(N)])


def garble(n, e, text):
    P = letter_noise(n, e)
    return [np.random.choice(n, p=P[text[k]]) for k in range(len(text))]


def chars(n, ys):
    return [ys[k] % n for k in range(len(ys))]


def codes(n, text):
    return np.array([text[k] for k in range(len(text))])
