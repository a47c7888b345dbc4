"""Compositions the timed functions of the benchmark modules stand for."""

import tensorflow as tf
import parallel_control.lqt_tf as lqt_tf
import parallel_control.condensing_tf as condensing_tf
import parallel_control.fsc_tf as fsc_tf
import parallel_control.clqt_tf as clqt_tf
import parallel_control.parareal_clqt_tf as para_tf
import parallel_control.nlqt_tf as nlqt_tf
import parallel_control.hjb_grid_1d_tf as hjb_tf


# ---- linear-quadratic tracking

def lqt_back(par, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
    if par:
        return lqt_tf.lqt_par_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
    return lqt_tf.lqt_seq_backwardpass(Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)


def lqt_solve(kind, x0, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us):
    Ss, vs, Kxs, ds = lqt_back(kind > 0, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us)
    if kind == 0:
        return lqt_tf.lqt_seq_forwardpass(x0, Fs, cs, Ls, Kxs, ds)
    if kind == 1:
        return lqt_tf.lqt_par_forwardpass(x0, Fs, cs, Ls, Kxs, ds)
    return lqt_tf.lqt_par_fwdbwdpass(x0, Fs, cs, Ls, Hs, rs, Xs, Us, Ss, vs, Kxs, ds)


def lqt_condensed(kind, x0, Fs, cs, Ls, Hs, HT, rs, rT, Xs, XT, Us, Nc):
    F, c, L, H, r, X, U, M, s, La, cb, Lb = condensing_tf.condense(Fs, cs, Ls, Hs, rs, Xs, Us, Nc)
    Fc, cc, Xc = lqt_tf.lqt_gen_to_canon(F, c, L, H, r, X, U, M, s)
    Ss, vs, Kc, dc = lqt_back(kind > 0, Fc, cc, L, H, HT, r, rT, Xc, XT, U)
    Kx, d = lqt_tf.lqt_canon_to_gen(Kc, dc, H, r, U, M, s)
    if kind == 0:
        xs, us = lqt_tf.lqt_seq_forwardpass(x0, F, c, L, Kx, d)
    elif kind == 1:
        xs, us = lqt_tf.lqt_par_forwardpass(x0, F, c, L, Kx, d)
    else:
        xs, us = lqt_tf.lqt_par_fwdbwdpass(x0, Fc, cc, L, H, r, Xc, U, Ss, vs, Kx, d)
    us1, xs1 = condensing_tf.convertUX(us, xs, La, cb, Lb, Fs.shape[0])
    return xs1, us1


# ---- finite state

def fsc_solve(kind, x0, fs, Ls, LT):
    if kind == 0:
        us, Vs = fsc_tf.fsc_seq_backwardpass(fs, Ls, LT)
        xs, u = fsc_tf.fsc_seq_forwardpass(x0, fs, us)
        return u, xs
    us, Vs = fsc_tf.fsc_par_backwardpass(fs, Ls, LT)
    if kind == 1:
        return fsc_tf.fsc_par_forwardpass(x0, fs, us)
    return fsc_tf.fsc_par_fwdbwdpass(x0, fs, Ls, us, Vs)


def fsc_back(par, fs, Ls, LT):
    if par:
        return fsc_tf.fsc_par_backwardpass(fs, Ls, LT)
    return fsc_tf.fsc_seq_backwardpass(fs, Ls, LT)


# ---- nonlinear iterations

def iterate(kind, us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us):
    for k in range(10):
        if kind == 0:
            us, xs = nlqt_tf.nlqt_iterate_seq(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)
        elif kind == 1:
            us, xs = nlqt_tf.nlqt_iterate_par_1(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)
        else:
            us, xs = nlqt_tf.nlqt_iterate_par_2(us, xs, f, Fx, Fu, Hs, HT, rs, rT, Xs, XT, Us)
    return us, xs


# ---- continuous time

def horizon(blocks, steps, T):
    return T / tf.cast(blocks * steps, T.dtype), tf.zeros((), dtype=T.dtype)


def terminal(XT, HT, rT):
    return tf.matmul(HT, tf.matmul(XT, HT), transpose_a=True), tf.linalg.matvec(HT, tf.linalg.matvec(XT, rT), transpose_a=True)


def clqt_seq(fwd, blocks, steps, x0, XT, HT, rT, T, F, L, X, U, c, H, r):
    N = blocks * steps
    dt, t0 = horizon(blocks, steps, T)
    ST, vT = terminal(XT, HT, rT)
    Ss, vs, Kx, d = clqt_tf.clqt_seq_backwardpass(N, dt, t0, ST, vT, F, L, X, U, c, H, r)
    if fwd == 0:
        return Ss, vs, Kx, d
    if fwd == 1:
        xs, us = clqt_tf.clqt_seq_forwardpass(x0, Kx, d, dt, t0, F, L, c, u_zoh=False)
        return Ss, vs, Kx, d, xs, us
    dt, t0, A0, b0, C0 = clqt_tf.clqt_seq_fwdbwdpass_defaults(x0, N, T)
    As, bs, Cs = clqt_tf.clqt_seq_fwdbwdpass(N, dt, t0, A0, b0, C0, F, L, X, U, c, H, r)
    xs, us = clqt_tf.clqt_combine_fwdbwd(Kx, d, Ss, vs, As, bs, Cs)
    return Ss, vs, Kx, d, xs, us


def clqt_par(fwd, blocks, steps, x0, XT, HT, rT, T, F, L, X, U, c, H, r):
    dt, t0 = horizon(blocks, steps, T)
    ST, vT = terminal(XT, HT, rT)
    Ss, vs, Kx, d = clqt_tf.clqt_par_backwardpass(blocks, steps, dt, t0, ST, vT, F, L, X, U, c, H, r)
    if fwd == 0:
        return Ss, vs, Kx, d
    if fwd == 1:
        xs, us = clqt_tf.clqt_par_forwardpass(blocks, steps, x0, Kx, d, dt, t0, F, L, c, forward=True, u_zoh=False)
    else:
        xs, us = clqt_tf.clqt_par_fwdbwdpass(blocks, steps, x0, Ss, vs, Kx, d, dt, t0, F, L, X, U, c, H, r, forward=True)
    return Ss, vs, Kx, d, xs, us


def clqt_para(fwd, blocks, steps, niter, x0, XT, HT, rT, T, F, L, X, U, c, H, r):
    Ss, vs, Kx, d = para_tf.pclqt_backwardpass(blocks, steps, niter, XT, HT, rT, T, F, L, X, U, c, H, r)
    if fwd == 0:
        return Ss, vs, Kx, d
    if fwd == 1:
        xs, us = para_tf.pclqt_forwardpass(blocks, steps, niter, x0, T, Kx, d, F, L, c)
    else:
        As, bs, Cs = para_tf.pclqt_fwdbwdpass(blocks, steps, niter, x0, T, F, L, X, U, c, H, r)
        xs, us = clqt_tf.clqt_combine_fwdbwd(Kx, d, Ss, vs, As, bs, Cs)
    return Ss, vs, Kx, d, xs, us


# ---- grid value functions

def hjb_solve(kind, f, L, LT, block_T, blocks, steps, xg, ug):
    if kind == 0:
        return hjb_tf.seq_bw_pass_upwind(f, L, LT, block_T * blocks, blocks, steps, xg, ug)
    V = hjb_tf.direct_shooting_block_V(f, L, block_T, steps, xg, max_iter=10)
    if kind == 1:
        return hjb_tf.seq_bw_pass_assoc(LT, blocks, xg, V)
    return hjb_tf.par_bw_pass(LT, blocks, xg, V)


# ---- reported deviations

def deviation(a, b):
    return tf.reduce_max(tf.abs(a - b))


def middle(a, b, n):
    return tf.reduce_max(tf.abs(a[:, n // 3:2 * n // 3] - b[:, n // 3:2 * n // 3]))


def stacked(v):
    return tf.convert_to_tensor(v)
