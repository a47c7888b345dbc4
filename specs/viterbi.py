"""Reference Viterbi algorithm (analysed, never executed).

prior[i], Pi[i,j] transition i to j, Po[j,y] emission; ys observations."""
import numpy as np
from specs import fsc


def cost(Pi, Po, y):
    """c[i,j] of the transition i to j emitting y."""
    n = Pi.shape[0]
    return np.array([[-np.log(Pi[i, j]) - np.log(Po[j, y]) for j in range(n)] for i in range(n)])


def costs(Pi, Po, ys):
    return [cost(Pi, Po, ys[k]) for k in range(len(ys))]


def forward(prior, Pi, Po, ys):
    """Value functions and best predecessors."""
    V = -np.log(prior)
    Vs, us = [V], []
    for k in range(len(ys)):
        Q = np.expand_dims(V, 1) + cost(Pi, Po, ys[k])
        us.append(Q.argmin(axis=0))
        V = Q.min(axis=0)
        Vs.append(V)
    return us, Vs


def backtrack(us, VT):
    N = len(us)
    x = VT.argmin()
    xs = [x]
    for j in range(N):
        x = us[N - 1 - j][x]
        xs.append(x)
    xs.reverse()
    return xs


def viterbi(prior, Pi, Po, ys):
    us, Vs = forward(prior, Pi, Po, ys)
    return backtrack(us, Vs[len(ys)]), Vs


def forward_prob(prior, Pi, Po, ys):
    V = prior
    Vs = [V]
    us = []
    for k in range(len(ys)):
        Q = np.expand_dims(V, 1) * Pi * np.expand_dims(Po[:, ys[k]], 0)
        us.append(Q.argmax(axis=0))
        V = Q.max(axis=0)
        Vs.append(V)
    return us, Vs


def viterbi_prob(prior, Pi, Po, ys):
    N = len(ys)
    us, Vs = forward_prob(prior, Pi, Po, ys)
    x = Vs[N].argmax()
    xs = [x]
    for j in range(N):
        k = N - 1 - j
        x = (Pi[:, x] * Vs[k]).argmax()
        xs.append(x)
    xs.reverse()
    return xs, Vs


def as_control(prior, Pi, Po, ys):
    """Time-reversed control problem: state j, control i, successor i."""
    N = len(ys)
    n = prior.shape[0]
    f = [np.array([[i for i in range(n)] for j in range(n)]) for k in range(N)]
    L = [cost(Pi, Po, ys[N - 1 - k]).T for k in range(N)]
    return f, L, -np.log(prior)


def rev(xs):
    r = [xs[len(xs) - 1 - k] for k in range(len(xs))]
    return r


def control_viterbi(f, L, LT, par):
    if par:
        us, Vs = fsc.par_backward(f, L, LT)
        uo, xs = fsc.par_forward(Vs[0].argmin(), f, us)
    else:
        us, Vs = fsc.seq_backward(f, L, LT)
        uo, xs = fsc.simulate(f, Vs[0].argmin(), us)
    return rev(xs), rev(Vs)


def control_viterbi_values(f, L, LT):
    us, Vs = fsc.par_backward(f, L, LT)
    uo, xs = fsc.par_fwdbwd(Vs[0].argmin(), f, L, us, Vs)
    return rev(xs), rev(Vs)


# ---- direct parallel methods

def forward_elements(prior, Pi, Po, ys):
    n = prior.shape[0]
    first = np.array([[-np.log(prior[j]) for j in range(n)] for i in range(n)])
    return [first] + costs(Pi, Po, ys)


def par_forward(prior, Pi, Po, ys):
    c = costs(Pi, Po, ys)
    E = fsc.prefixes(forward_elements(prior, Pi, Po, ys), fsc.combine)
    Vs = [E[k][0, :] for k in range(len(E))]
    us = [(np.expand_dims(Vs[k], 1) + c[k]).argmin(axis=0) for k in range(len(ys))]
    return us, Vs


def backward_elements(us, VT):
    x = VT.argmin()
    return [us[k] for k in range(len(us))] + [np.array([x for j in range(VT.shape[0])])]


def par_backward(us, VT):
    E = backward_elements(us, VT)
    N = len(E)
    a = E[N - 1]
    r = [a]
    for j in range(N - 1):
        a = fsc.combine_f(a, E[N - 2 - j])
        r.append(a)
    r.reverse()
    return [e[0] for e in r]


def bwfw_elements(prior, Pi, Po, ys):
    n = prior.shape[0]
    return costs(Pi, Po, ys) + [np.zeros((n, n))]


def par_bwfw(prior, Pi, Po, ys, Vs):
    E = fsc.suffixes(bwfw_elements(prior, Pi, Po, ys))
    Vf = [E[k][:, 0] for k in range(len(E))]
    return [(Vf[k] + Vs[k]).argmin() for k in range(len(E))], Vf


def par_fwbwfw(prior, Pi, Po, ys):
    us, Vs = par_forward(prior, Pi, Po, ys)
    xs, Vf = par_bwfw(prior, Pi, Po, ys, Vs)
    return xs, Vs


def par_fwbw(prior, Pi, Po, ys):
    us, Vs = par_forward(prior, Pi, Po, ys)
    return par_backward(us, Vs[len(ys)]), Vs
