"""Obligations for parallel_control/clqt_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t
from .clqt_np import coeffs, terminal, gains, values, flows, blocks_total

M = 'parallel_control/clqt_tf.py:'


def lqt(h):
    f = coeffs(h, 'tf')
    P = tuple(f[k] for k in 'FLXUcHr')
    g = terminal(h, 'tf')
    return f, P, g


def args(f, names):
    return [f[k] for k in names]


def go(h, name, *a, **kw):
    return h.func('clqt_tf', name, *a, **kw)


def sc(h):
    return h.scalar('dt', 'tf'), h.scalar('t0', 'tf')


def tens(h, names, N):
    n, m = h.dims('n m')
    h.symmetric('S', 'C', 'eC', 'eJ')
    sh = {'Kx': (m, n), 'd': (m,), 'S': (n, n), 'v': (n,), 'A': (n, n), 'b': (n,), 'C': (n, n),
          'eA': (n, n), 'eb': (n,), 'eC': (n, n), 'ee': (n,), 'eJ': (n, n), 'eF': (n, n), 'ec': (n,)}
    return [h.arr(x, N, *sh[x], lib='tf') for x in names.split()]


def terminal_value(h):
    n = h.dim('n')
    h.symmetric('S0')
    return h.arr('S0', n, n, lib='tf'), h.arr('v0', n, lib='tf')


def bs(h):
    return h.int(h.dim('B', 1)), h.int(h.dim('N', 1))


@ob('C07', M + 'clqt_seq_backwardpass')
def tf_backward(h):
    f, P, g = lqt(h)
    N = h.int(h.dim('N', 1))
    dt, t0 = sc(h)
    S, v = terminal_value(h)
    h.same(go(h, 'clqt_seq_backwardpass', N, dt, t0, S, v, *args(f, 'FLXUcHr')),
           h.spec('pick', 'order', h.spec('clq', 'seq_backward', P, N, dt, t0, S, v), (2, 3, 0, 1)))


@ob('C07', M + 'clqt_seq_backwardpass', 'tf_backward batched')
def tf_backward_batch(h):
    f, P, g = lqt(h)
    n = h.dim('n')
    N, Bt = h.int(h.dim('N', 1)), h.dim('Bt', 1)
    dt = h.scalar('dt', 'tf')
    h.symmetric('S0')
    t0, S, v = h.arr('t0', Bt, lib='tf'), h.arr('S0', Bt, n, n, lib='tf'), h.arr('v0', Bt, n, lib='tf')
    h.same(go(h, 'clqt_seq_backwardpass', N, dt, t0, S, v, *args(f, 'FLXUcHr')),
           h.spec('clq', 'batch_backward', P, N, dt, t0, S, v))


for _z in (False, True):
    def _f(h, z=_z):
        f, P, g = lqt(h)
        n = h.dim('n')
        N = h.dim('N', 1)
        dt, t0 = sc(h)
        x0 = h.arr('x0', n, lib='tf')
        K, d = tens(h, 'Kx d', N)
        K2, d2 = gains(h, N, 'tf')
        h.same(go(h, 'clqt_seq_forwardpass', x0, K, d, dt, t0, *args(f, 'FLc'), u_zoh=z),
               h.spec('pick', 'order', h.spec('clq', 'seq_forward', P, x0, K2, d2, dt, t0, z), (1, 0)))
    ob('C07', M + 'clqt_seq_forwardpass', 'tf_forward' + (' zoh' if _z else ''))(_f)

    def _f(h, z=_z):
        f, P, g = lqt(h)
        n, m = h.dims('n m')
        N, Bt = h.dim('N', 1), h.dim('Bt', 1)
        dt = h.scalar('dt', 'tf')
        t0, x0 = h.arr('t0', Bt, lib='tf'), h.arr('x0', Bt, n, lib='tf')
        K, d = h.arr('Kx', Bt, N, m, n, lib='tf'), h.arr('d', Bt, N, m, lib='tf')
        h.same(go(h, 'clqt_seq_forwardpass', x0, K, d, dt, t0, *args(f, 'FLc'), u_zoh=z),
               h.spec('clq', 'batch_forward', P, x0, K, d, dt, t0, z))
    ob('C07', M + 'clqt_seq_forwardpass', 'tf_forward batched' + (' zoh' if _z else ''))(_f)


@ob('C07', M + 'clqt_seq_fwdbwdpass')
def tf_fwdbwd(h):
    f, P, g = lqt(h)
    n = h.dim('n')
    N = h.int(h.dim('N', 1))
    dt, t0 = sc(h)
    h.symmetric('C0')
    A, b, C = h.arr('A0', n, n, lib='tf'), h.arr('b0', n, lib='tf'), h.arr('C0', n, n, lib='tf')
    h.same(go(h, 'clqt_seq_fwdbwdpass', N, dt, t0, A, b, C, *args(f, 'FLXUcHr')),
           h.spec('clq', 'seq_fwdbwd', P, A, b, C, N, dt, t0))


@ob('C07', M + 'clqt_seq_fwdbwdpass', 'tf_fwdbwd batched')
def tf_fwdbwd_batch(h):
    f, P, g = lqt(h)
    n = h.dim('n')
    N, Bt = h.int(h.dim('N', 1)), h.dim('Bt', 1)
    dt = h.scalar('dt', 'tf')
    h.symmetric('C0')
    t0 = h.arr('t0', Bt, lib='tf')
    A, b, C = h.arr('A0', Bt, n, n, lib='tf'), h.arr('b0', Bt, n, lib='tf'), h.arr('C0', Bt, n, n, lib='tf')
    h.same(go(h, 'clqt_seq_fwdbwdpass', N, dt, t0, A, b, C, *args(f, 'FLXUcHr')),
           h.spec('clq', 'batch_fwdbwd', P, A, b, C, N, dt, t0))


@ob('C07', M + 'clqt_combine_fwdbwd')
def tf_combine(h):
    N = h.dim('N', 1)
    K, d = tens(h, 'Kx d', N)
    S, v, A, b, C = tens(h, 'S v A b C', N + t.ONE)
    K2, d2 = gains(h, N, 'tf')
    S2, v2 = values(h, N + t.ONE, 'tf')
    A2, b2, C2 = flows(h, N + t.ONE, 'tf')
    h.same(go(h, 'clqt_combine_fwdbwd', K, d, S, v, A, b, C),
           h.spec('pick', 'order', h.spec('clq', 'combine', K2, d2, S2, v2, b2, C2), (1, 0)))


@ob('C07', M + 'clqt_seq_backwardpass_defaults')
def tf_backward_defaults(h):
    f, P, g = lqt(h)
    N = h.int(h.dim('N', 1))
    S, v = h.spec('clq', 'terminal', g['XT'], g['HT'], g['rT'])
    h.same(go(h, 'clqt_seq_backwardpass_defaults', N, g['XT'], g['HT'], g['rT'], g['T']),
           (h.spec('ar', 'div', g['T'], N), num(0.0), S, v))


@ob('C07', M + 'clqt_seq_fwdbwdpass_defaults')
def tf_fwdbwd_defaults(h):
    f, P, g = lqt(h)
    n = h.dim('n')
    N = h.int(h.dim('N', 1))
    x0 = h.arr('x0', n, lib='tf')
    Z = h.spec('ar', 'zeros2', h.int(n), h.int(n))
    h.same(go(h, 'clqt_seq_fwdbwdpass_defaults', x0, N, g['T']),
           (h.spec('ar', 'div', g['T'], N), num(0.0), Z, x0, Z))


@ob('C08', M + 'par_backwardpass_defaults')
def tf_par_defaults(h):
    f, P, g = lqt(h)
    B, N = bs(h)
    S, v = h.spec('clq', 'terminal', g['XT'], g['HT'], g['rT'])
    h.same(go(h, 'par_backwardpass_defaults', B, N, g['XT'], g['HT'], g['rT'], g['T']),
           (h.spec('ar', 'div', g['T'], h.spec('ar', 'mul', B, N)), num(0.0), S, v))


@ob('C08', M + 'clqt_par_fwdbwdpass_defaults')
def tf_par_fb_defaults(h):
    f, P, g = lqt(h)
    B, N = bs(h)
    h.same(go(h, 'clqt_par_fwdbwdpass_defaults', B, N, g['T']),
           (h.spec('ar', 'div', g['T'], h.spec('ar', 'mul', B, N)), num(0.0)))


for _fw in (False, True):
    _n = 'end' if _fw else 'start'

    def _f(h, fw=_fw):
        f, P, g = lqt(h)
        B, N = bs(h)
        dt, t0 = sc(h)
        S, v = terminal_value(h)
        ref = h.spec('clq', 'bwd_elements', P, h.int(h.dim('n')), B, N, dt, t0, S, v, fw)
        h.same(go(h, 'par_backwardpass_init_' + ('fw' if fw else 'bw'), B, N, dt, t0, S, v, *args(f, 'FLXUcHr')),
               h.spec('pick', 'columns', ref, (0, 1, 2, 3, 4)))
    ob('C08', M + 'par_backwardpass_init_' + ('fw' if _fw else 'bw'), 'tf_bwd_init ' + _n)(_f)

    def _f(h, fw=_fw):
        if not h.thorough:
            h.opaque_steps()
        f, P, g = lqt(h)
        B, N = bs(h)
        dt, t0 = sc(h)
        S, v = terminal_value(h)
        ref = h.spec('clq', 'par_backward', P, h.int(h.dim('n')), B, N, dt, t0, S, v, fw)
        h.same(go(h, 'clqt_par_backwardpass', B, N, dt, t0, S, v, *args(f, 'FLXUcHr'), forward=fw),
               h.spec('pick', 'order', ref, (2, 3, 0, 1)))
    ob('C08', M + 'clqt_par_backwardpass', 'tf_par_backward ' + _n)(_f)

    def _f(h, fw=_fw):
        f, P, g = lqt(h)
        B, N = bs(h)
        dt, t0 = sc(h)
        x0 = h.arr('x0', h.dim('n'), lib='tf')
        K, d = tens(h, 'Kx d', blocks_total())
        K2, d2 = gains(h, blocks_total(), 'tf')
        ref = h.spec('clq', 'fwd_elements', P, h.int(h.dim('n')), x0, K2, d2, B, N, dt, t0, fw)
        h.same(go(h, 'clqt_par_forwardpass_init_' + ('fw' if fw else 'bw'), B, N, x0, K, d, dt, t0, *args(f, 'FLc')),
               h.spec('pick', 'columns', ref, (0, 1)))
    ob('C08', M + 'clqt_par_forwardpass_init_' + ('fw' if _fw else 'bw'), 'tf_fwd_init ' + _n)(_f)

    for _z in (False, True):
        def _f(h, fw=_fw, z=_z):
            if not h.thorough:
                h.opaque_steps()
            f, P, g = lqt(h)
            B, N = bs(h)
            dt, t0 = sc(h)
            x0 = h.arr('x0', h.dim('n'), lib='tf')
            K, d = tens(h, 'Kx d', blocks_total())
            K2, d2 = gains(h, blocks_total(), 'tf')
            ref = h.spec('clq', 'par_forward', P, h.int(h.dim('n')), x0, K2, d2, B, N, dt, t0, fw, z)
            h.same(go(h, 'clqt_par_forwardpass', B, N, x0, K, d, dt, t0, *args(f, 'FLc'), forward=fw, u_zoh=z),
                   h.spec('pick', 'order', ref, (1, 0)))
        ob('C08', M + 'clqt_par_forwardpass', 'tf_par_forward %s%s' % (_n, ' zoh' if _z else ''))(_f)

    def _f(h, fw=_fw):
        f, P, g = lqt(h)
        B, N = bs(h)
        dt, t0 = sc(h)
        x0 = h.arr('x0', h.dim('n'), lib='tf')
        ref = h.spec('clq', 'fb_elements', P, h.int(h.dim('n')), x0, B, N, dt, t0, fw)
        h.same(go(h, 'par_fwdbwdpass_init', B, N, x0, dt, t0, *args(f, 'FLXUcHr'), forward=fw),
               h.spec('pick', 'columns', ref, (0, 1, 2, 3, 4)))
    ob('C08', M + 'par_fwdbwdpass_init', 'tf_fb_init ' + _n)(_f)

    def _f(h, fw=_fw):
        h.opaque_steps()
        f, P, g = lqt(h)
        B, N = bs(h)
        dt, t0 = sc(h)
        x0 = h.arr('x0', h.dim('n'), lib='tf')
        K, d = tens(h, 'Kx d', blocks_total())
        S, v = tens(h, 'S v', blocks_total() + t.ONE)
        K2, d2 = gains(h, blocks_total(), 'tf')
        S2, v2 = values(h, blocks_total() + t.ONE, 'tf')
        ref = h.spec('clq', 'par_fwdbwd', P, h.int(h.dim('n')), x0, K2, d2, S2, v2, B, N, dt, t0, fw)
        h.same(go(h, 'clqt_par_fwdbwdpass', B, N, x0, S, v, K, d, dt, t0, *args(f, 'FLXUcHr'), forward=fw),
               h.spec('pick', 'order', ref, (1, 0)))
    ob('C08', M + 'clqt_par_fwdbwdpass', 'tf_par_fwdbwd ' + _n)(_f)


def elems(h, N):
    n = h.dim('n')
    h.symmetric('eC', 'eJ')
    return h.tseq([('eA', [n, n]), ('eb', [n]), ('eC', [n, n]), ('ee', [n]), ('eJ', [n, n])], N, lib='tf')


@ob('C08', M + 'clqt_par_backwardpass_extract')
def tf_bwd_extract(h):
    f, P, g = lqt(h)
    B, N = bs(h)
    dt, t0 = sc(h)
    M1 = h.dim('B', 1) + t.ONE
    e, J = tens(h, 'ee eJ', M1)
    ref = h.spec('clq', 'bwd_extract', P, elems(h, M1), N, dt, t0)
    h.same(go(h, 'clqt_par_backwardpass_extract', e, J, N, dt, t0, *args(f, 'FLXUcHr')),
           h.spec('pick', 'order', ref, (2, 3, 0, 1)))


for _z in (False, True):
    def _f(h, z=_z):
        f, P, g = lqt(h)
        n = h.dim('n')
        B, N = bs(h)
        dt, t0 = sc(h)
        M1 = h.dim('B', 1) + t.ONE
        K, d = tens(h, 'Kx d', blocks_total())
        K2, d2 = gains(h, blocks_total(), 'tf')
        A, c = tens(h, 'eF ec', M1)
        e2 = h.tseq([('eF', [n, n]), ('ec', [n])], M1, lib='tf')
        ref = h.spec('clq', 'fwd_extract', P, K2, d2, e2, N, dt, t0, z)
        h.same(go(h, 'clqt_par_forwardpass_extract', K, d, A, c, N, dt, t0, *args(f, 'FLc'), u_zoh=z),
               h.spec('pick', 'order', ref, (1, 0)))
    ob('C08', M + 'clqt_par_forwardpass_extract', 'tf_fwd_extract' + (' zoh' if _z else ''))(_f)


@ob('C08', M + 'clqt_par_fwdbwdpass_extract')
def tf_fb_extract(h):
    f, P, g = lqt(h)
    B, N = bs(h)
    dt, t0 = sc(h)
    M1 = h.dim('B', 1) + t.ONE
    K, d = tens(h, 'Kx d', blocks_total())
    S, v = tens(h, 'S v', blocks_total() + t.ONE)
    A, b, C = tens(h, 'eA eb eC', M1)
    K2, d2 = gains(h, blocks_total(), 'tf')
    S2, v2 = values(h, blocks_total() + t.ONE, 'tf')
    ref = h.spec('clq', 'fb_extract', P, K2, d2, S2, v2, elems(h, M1), N, dt, t0)
    h.same(go(h, 'clqt_par_fwdbwdpass_extract', A, b, C, S, v, K, d, N, dt, t0, *args(f, 'FLXUcHr')),
           h.spec('pick', 'order', ref, (1, 0)))
