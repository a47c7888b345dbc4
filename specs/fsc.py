"""Reference finite-state control (analysed, never executed).

f[x,u] successor, L[x,u] cost, LT[x] terminal cost."""
import numpy as np

INF = 1e20


def backup(f, L, V):
    Q = L + V[f]
    return Q.argmin(axis=1), Q.min(axis=1)


def seq_backward(f, L, LT):
    N = len(f)
    V = LT
    Vs = [V]
    us = []
    for j in range(N):
        u, V = backup(f[N - 1 - j], L[N - 1 - j], V)
        us.append(u)
        Vs.append(V)
    us.reverse()
    Vs.reverse()
    return us, Vs


def simulate(f, x0, us):
    """Closed loop: us[k][x] is the control at state x."""
    x = x0
    xs = [x]
    uo = []
    for k in range(len(us)):
        u = us[k][x]
        x = f[k][x, u]
        uo.append(u)
        xs.append(x)
    return uo, xs


def open_loop(f, x0, us):
    x = x0
    xs = [x]
    for k in range(len(us)):
        x = f[k][x, us[k]]
        xs.append(x)
    return xs


def element(f, L):
    """V[x,y] = cheapest control taking x to y."""
    nx, nu = L.shape
    V = np.full((nx, nx), INF)
    for u in range(nu):
        for x in range(nx):
            for y in range(nx):
                c = L[x, u] if f[x, u] == y else INF
                V[x, y] = min(V[x, y], c)
    return V


def elements(f, L):
    return [element(f[k], L[k]) for k in range(len(f))]


def last(LT):
    nx = LT.shape[0]
    return np.array([[LT[x] for y in range(nx)] for x in range(nx)])


def first(x0, nx):
    return np.array([[0.0 if y == x0 else INF for y in range(nx)] for x in range(nx)])


def combine(A, B):
    nx = A.shape[0]
    return np.array([[np.array([A[i, j] + B[j, k] for j in range(nx)]).min() for k in range(nx)] for i in range(nx)])


def combine_f(f, g):
    return np.array([g[f[x]] for x in range(f.shape[0])])


def extract(E, f, L):
    """Policies and values from suffix combinations whose last element is the terminal one."""
    N = len(f)
    Vs = [E[k][:, 0] for k in range(N + 1)]
    us = [backup(f[k], L[k], Vs[k + 1])[0] for k in range(N)]
    return us, Vs


def policy_map(f, u):
    return np.array([f[x, u[x]] for x in range(f.shape[0])])


def forward_elements(x0, f, us):
    nx = f[0].shape[0]
    return [np.array([x0 for x in range(nx)])] + [policy_map(f[k], us[k]) for k in range(len(f))]


def extract_forward(E, us):
    xs = [E[k][0] for k in range(len(E))]
    uo = [us[k][xs[k]] for k in range(len(us))]
    return uo, xs


def fwdbwd_elements(x0, f, L):
    return [first(x0, f[0].shape[0])] + elements(f, L)


def extract_fwdbwd(E, us, Vs):
    xs = [(E[k][0, :] + Vs[k]).argmin() for k in range(len(E))]
    uo = [us[k][xs[k]] for k in range(len(us))]
    return uo, xs


def extract_fwdbwd2(x0, E, us, Vs):
    xs = [x0] + [(E[k][x0, :] + Vs[k + 1]).argmin() for k in range(len(E))]
    uo = [us[k][xs[k]] for k in range(len(us))]
    return uo, xs


def cost(f, L, LT, xs, us):
    s = 0.0
    for k in range(len(us)):
        s = s + L[k][xs[k], us[k]]
    return s + LT[xs[len(xs) - 1]]


def suffixes(E):
    N = len(E)
    a = E[N - 1]
    r = [a]
    for j in range(N - 1):
        a = combine(E[N - 2 - j], a)
        r.append(a)
    r.reverse()
    return r


def prefixes(E, op):
    a = E[0]
    r = [a]
    for j in range(len(E) - 1):
        a = op(a, E[j + 1])
        r.append(a)
    return r


def par_backward(f, L, LT):
    return extract(suffixes(elements(f, L) + [last(LT)]), f, L)


def par_forward(x0, f, us):
    return extract_forward(prefixes(forward_elements(x0, f, us), combine_f), us)


def par_fwdbwd(x0, f, L, us, Vs):
    return extract_fwdbwd(prefixes(fwdbwd_elements(x0, f, L), combine), us, Vs)


def par_fwdbwd2(x0, f, L, us, Vs):
    return extract_fwdbwd2(x0, prefixes(elements(f, L), combine), us, Vs)


def batch_combine(A, B):
    return [combine(A[k], B[k]) for k in range(A.shape[0])]


def batch_combine_f(f, g):
    return [combine_f(f[k], g[k]) for k in range(f.shape[0])]


def constant_map(x0, nx):
    return np.array([x0 for x in range(nx)])


def policy_maps(f, us):
    return [policy_map(f[k], us[k]) for k in range(f.shape[0])]


def enumerate2(f, L, LT, x0):
    """Two steps, two controls: cheapest of the four sequences."""
    costs = []
    for a in range(2):
        for b in range(2):
            x1 = f[0][x0, b]
            costs.append(L[0][x0, b] + L[1][x1, a] + LT[f[1][x1, a]])
    best = np.array(costs)
    k = best.argmin()
    us = [k % 2, k // 2]
    return us, open_loop(f, x0, us), best.min()


def expand_list(x, N, given):
    return x if given else [x for k in range(N)]
