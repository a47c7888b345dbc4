"""Reference parareal iterations for continuous LQT (analysed, never executed).

Boundary values are lists over the blocks+1 block boundaries; T is the length
of the whole horizon."""
from specs.clq import seq_backward, seq_forward, seq_fwdbwd, combine
import numpy as np


# ---- backward: (S, v) at the boundaries, exact at the last one

def init_backward(P, S, v, blocks, T):
    r = seq_backward(P, blocks, T / blocks, 0.0, S, v)
    return r[2], r[3]


def dense_backward(P, Ss, vs, steps, T):
    N = len(Ss) - 1
    dt = T / (N * steps)
    parts = [seq_backward(P, steps, dt, k * steps * dt, Ss[k + 1], vs[k + 1]) for k in range(N)]
    return [p[2][0] for p in parts] + [Ss[N]], [p[3][0] for p in parts] + [vs[N]]


def coarse_backward(P, SF, vF, SG, vG, T):
    N = len(SF) - 1
    dt = T / N
    S, v = SF[N], vF[N]
    Sc, vc, Sn, vn = [S], [v], [S], [v]
    for j in range(N):
        k = N - 1 - j
        r = seq_backward(P, 1, dt, k * dt, S, v)
        G, g = r[2][0], r[3][0]
        S = G + SF[k] - SG[k]
        v = g + vF[k] - vG[k]
        Sc.append(S)
        vc.append(v)
        Sn.append(G)
        vn.append(g)
    Sc.reverse()
    vc.reverse()
    Sn.reverse()
    vn.reverse()
    return Sc, vc, Sn, vn


def final_backward(P, Ss, vs, steps, T):
    N = len(Ss) - 1
    dt = T / (N * steps)
    parts = [seq_backward(P, steps, dt, k * steps * dt, Ss[k + 1], vs[k + 1]) for k in range(N)]
    Ks = [parts[j // steps][0][j % steps] for j in range(N * steps)]
    ds = [parts[j // steps][1][j % steps] for j in range(N * steps)]
    So = [parts[j // steps][2][j % steps] for j in range(N * steps)]
    vo = [parts[j // steps][3][j % steps] for j in range(N * steps)]
    return Ks, ds, So + [Ss[N]], vo + [vs[N]]


def backward(P, S, v, blocks, steps, niter, T):
    Sc, vc = init_backward(P, S, v, blocks, T)
    SG, vG = Sc, vc
    for i in range(niter):
        SF, vF = dense_backward(P, Sc, vc, steps, T)
        Sc, vc, SG, vG = coarse_backward(P, SF, vF, SG, vG, T)
    return final_backward(P, Sc, vc, steps, T)


# ---- forward: x at the boundaries, exact at the first one

def init_forward(P, x0, Ks, ds, blocks, steps, T, hold):
    return seq_forward(P, x0, [Ks[k * steps] for k in range(blocks)], [ds[k * steps] for k in range(blocks)],
                       T / blocks, 0.0, hold)[1]


def parts_forward(P, xs, Ks, ds, steps, T, hold):
    N = len(xs) - 1
    dt = T / (N * steps)
    return [seq_forward(P, xs[k], [Ks[k * steps + i] for i in range(steps)], [ds[k * steps + i] for i in range(steps)],
                        dt, k * steps * dt, hold) for k in range(N)]


def dense_forward(P, xs, Ks, ds, steps, T, hold):
    parts = parts_forward(P, xs, Ks, ds, steps, T, hold)
    return [xs[0]] + [p[1][steps] for p in parts]


def coarse_forward(P, xF, xG, Ks, ds, steps, T, hold):
    N = len(xF) - 1
    dt = T / N
    x = xF[0]
    xc, xn = [x], [x]
    for k in range(N):
        g = seq_forward(P, x, [Ks[k * steps]], [ds[k * steps]], dt, k * dt, hold)[1][1]
        x = g + xF[k + 1] - xG[k + 1]
        xc.append(x)
        xn.append(g)
    return xc, xn


def final_forward(P, xs, Ks, ds, steps, T, hold):
    N = len(xs) - 1
    parts = parts_forward(P, xs, Ks, ds, steps, T, hold)
    us = [parts[j // steps][0][j % steps] for j in range(N * steps)]
    xo = [parts[j // steps][1][j % steps] for j in range(N * steps)]
    return us, xo + [parts[N - 1][1][steps]]


def forward(P, x0, Ks, ds, blocks, steps, niter, T, hold):
    xc = init_forward(P, x0, Ks, ds, blocks, steps, T, hold)
    xG = xc
    for i in range(niter):
        xF = dense_forward(P, xc, Ks, ds, steps, T, hold)
        xc, xG = coarse_forward(P, xF, xG, Ks, ds, steps, T, hold)
    return final_forward(P, xc, Ks, ds, steps, T, hold)


# ---- forward-backward: (A, b, C) at the boundaries

def init_fwdbwd(P, x0, blocks, T):
    n = x0.shape[0]
    return seq_fwdbwd(P, np.zeros((n, n)), x0, np.zeros((n, n)), blocks, T / blocks, 0.0)


def parts_fwdbwd(P, As, bs, Cs, steps, T):
    N = len(As) - 1
    dt = T / (N * steps)
    return [seq_fwdbwd(P, As[k], bs[k], Cs[k], steps, dt, k * steps * dt) for k in range(N)]


def dense_fwdbwd(P, As, bs, Cs, steps, T):
    parts = parts_fwdbwd(P, As, bs, Cs, steps, T)
    return ([As[0]] + [p[0][steps] for p in parts], [bs[0]] + [p[1][steps] for p in parts],
            [Cs[0]] + [p[2][steps] for p in parts])


def coarse_fwdbwd(P, AF, bF, CF, AG, bG, CG, T):
    N = len(AF) - 1
    dt = T / N
    A, b, C = AF[0], bF[0], CF[0]
    Ac, bc, Cc, An, bn, Cn = [A], [b], [C], [A], [b], [C]
    for k in range(N):
        r = seq_fwdbwd(P, A, b, C, 1, dt, k * dt)
        A = r[0][1] + AF[k + 1] - AG[k + 1]
        b = r[1][1] + bF[k + 1] - bG[k + 1]
        C = r[2][1] + CF[k + 1] - CG[k + 1]
        Ac.append(A)
        bc.append(b)
        Cc.append(C)
        An.append(r[0][1])
        bn.append(r[1][1])
        Cn.append(r[2][1])
    return Ac, bc, Cc, An, bn, Cn


def final_fwdbwd(P, As, bs, Cs, steps, T):
    N = len(As) - 1
    parts = parts_fwdbwd(P, As, bs, Cs, steps, T)
    Ao = [parts[j // steps][0][j % steps] for j in range(N * steps)]
    bo = [parts[j // steps][1][j % steps] for j in range(N * steps)]
    Co = [parts[j // steps][2][j % steps] for j in range(N * steps)]
    return Ao + [parts[N - 1][0][steps]], bo + [parts[N - 1][1][steps]], Co + [parts[N - 1][2][steps]]


def fwdbwd(P, x0, blocks, steps, niter, T):
    Ac, bc, Cc = init_fwdbwd(P, x0, blocks, T)
    AG, bG, CG = Ac, bc, Cc
    for i in range(niter):
        AF, bF, CF = dense_fwdbwd(P, Ac, bc, Cc, steps, T)
        Ac, bc, Cc, AG, bG, CG = coarse_fwdbwd(P, AF, bF, CF, AG, bG, CG, T)
    return final_fwdbwd(P, Ac, bc, Cc, steps, T)
