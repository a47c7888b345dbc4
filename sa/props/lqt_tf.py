"""Obligations for parallel_control/lqt_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t

M = 'parallel_control/lqt_tf.py:'
CAN = ['F', 'c', 'L', 'H', 'HT', 'r', 'rT', 'X', 'XT', 'U']


def go(h, name, *a, **kw):
    return h.func('lqt_tf', name, *a, **kw)


def lqt(h, lib='tf', gen=False):
    T, n, m, p, q = h.dims('T n m p q')
    h.symmetric('X', 'U', 'XT')
    sh = dict(F=(T, n, n), L=(T, n, m), X=(T, p, p), U=(T, m, m), XT=(q, q), c=(T, n), H=(T, p, n), r=(T, p),
              HT=(q, n), rT=(q,), M=(T, p, m), s=(T, m))
    f = {k: h.arr(k, *sh[k], lib=lib) for k in sh if gen or k not in 'Ms'}
    g = dict(f)
    g['Z'] = make([T, m, m], lambda k, i, j: t.delta(i - j))
    if not gen:
        g['s'] = make([T, m], lambda k, i: t.ZERO)
        g['M'] = make([T, p, m], lambda k, i, j: t.ZERO)
    return f, h.obj('lqt_np', 'LQT', g)


def args(f, names):
    return [f[k] for k in names]


def order(h, r, *which):
    return h.spec('pick', 'order', r, tuple(which))


def columns(h, r, *which):
    return h.spec('pick', 'columns', r, tuple(which))


def tens(h, names, T):
    n, m = h.dims('n m')
    h.symmetric('S', 'C', 'eC', 'eJ')
    sh = {'Kx': (m, n), 'd': (m,), 'S': (n, n), 'v': (n,), 'x': (n,), 'u': (m,)}
    return [h.arr(x, T, *sh[x], lib='tf') for x in names.split()]


def gains(h):
    T = h.dim('T')
    return tens(h, 'Kx d', T) + tens(h, 'S v', T + t.ONE)


@ob('C02', M + 'lqt_seq_backwardpass')
def tf_seq_backward(h):
    f, q = lqt(h)
    h.same(go(h, 'lqt_seq_backwardpass', *args(f, CAN)), order(h, h.spec('lqt', 'backward', q), 2, 3, 0, 1))


@ob('C04', M + 'lqt_seq_forwardpass')
def tf_seq_forward(h):
    f, q = lqt(h)
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    K, d, S, v = gains(h)
    h.same(go(h, 'lqt_seq_forwardpass', x0, *args(f, 'FcL'), K, d),
           order(h, h.spec('lqt', 'forward', q, x0, K, d), 1, 0))


@ob('C03', M + 'lqt_par_comb_V')
def tf_comb_v(h):
    n, Bt = h.dims('n Bt')
    h.symmetric('C1', 'C2', 'J1', 'J2')
    a = [tuple(h.arr(x + w, Bt, *([n] if x in 'be' else [n, n]), lib='tf') for x in 'AbCeJ') for w in '12']
    ref = h.spec('pick', 'batch_combine', a[0], a[1])
    h.same(go(h, 'lqt_par_comb_V', *a), ref)
    h.same(go(h, 'lqt_par_comb_V_rev', a[1], a[0]), ref, 'reversed')


@ob('C04', M + 'lqt_par_comb_f')
def tf_comb_f(h):
    n, Bt = h.dims('n Bt')
    a = [(h.arr('F' + w, Bt, n, n, lib='tf'), h.arr('c' + w, Bt, n, lib='tf')) for w in '12']
    h.same(go(h, 'lqt_par_comb_f', *a), h.spec('pick', 'batch_combine_f', a[0], a[1]))


@ob('C03', M + 'lqt_par_backwardpass_init_most')
def tf_init_most(h):
    f, q = lqt(h)
    h.same(go(h, 'lqt_par_backwardpass_init_most', *args(f, 'FcLHrXU')),
           columns(h, h.spec('lqt', 'elements', q), 0, 1, 2, 3, 4))


@ob('C03', M + 'lqt_par_backwardpass_init_last')
def tf_init_last(h):
    f, q = lqt(h)
    h.same(go(h, 'lqt_par_backwardpass_init_last', *args(f, ['HT', 'rT', 'XT'])), h.spec('lqt', 'terminal', q))


@ob('C03', M + 'lqt_par_backwardpass')
def tf_par_backward(h):
    f, q = lqt(h)
    e = h.spec('lqt', 'bwd_scan', h.spec('lqt', 'bwd_elements', q))
    h.same(go(h, 'lqt_par_backwardpass', *args(f, CAN)), order(h, h.spec('lqt', 'extract', q, e), 2, 3, 0, 1))


@ob('C04', M + 'lqt_par_forwardpass')
def tf_par_forward(h):
    f, q = lqt(h)
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    K, d, S, v = gains(h)
    e = h.spec('lqt', 'fwd_scan', h.spec('lqt', 'fwd_elements', q, x0, K, d))
    h.same(go(h, 'lqt_par_forwardpass', x0, *args(f, 'FcL'), K, d),
           order(h, h.spec('lqt', 'fwd_extract', x0, K, d, e), 1, 0))


@ob('C04', M + 'lqt_par_fwdbwdpass_init_most')
def tf_fb_most(h):
    f, q = lqt(h)
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    h.same(go(h, 'lqt_par_fwdbwdpass_init_most', *args(f, 'FcLHrXU')),
           columns(h, h.spec('lqt', 'elements', q), 0, 1, 2, 3, 4))
    h.same(go(h, 'lqt_par_fwdbwdpass_init_first', x0), h.spec('lqt', 'initial', q, x0), 'first')


@ob('C04', M + 'lqt_par_fwdbwdpass')
def tf_fb(h):
    f, q = lqt(h)
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    K, d, S, v = gains(h)
    e = h.spec('lqt', 'fwdbwd_scan', h.spec('lqt', 'fwdbwd_elements', q, x0))
    h.same(go(h, 'lqt_par_fwdbwdpass', x0, *args(f, 'FcLHrXU'), S, v, K, d),
           order(h, h.spec('lqt', 'fb_extract', K, d, S, v, e), 1, 0))


@ob('C05', M + 'lqt_cost')
def tf_cost(h):
    f, q = lqt(h)
    T = h.dim('T')
    x, u = tens(h, 'x', T + t.ONE) + tens(h, 'u', T)
    h.same(go(h, 'lqt_cost', x, u, *args(f, ['H', 'HT', 'r', 'rT', 'X', 'XT', 'U'])), h.spec('lqt', 'cost', q, u, x))


@ob('C05', M + 'lqt_gen_to_canon')
def tf_gen_to_canon(h):
    f, q = lqt(h, gen=True)
    h.same(go(h, 'lqt_gen_to_canon', *args(f, 'FcLHrXUMs')), h.spec('lqt', 'transformed_problem', q))


@ob('C05', M + 'lqt_canon_to_gen')
def tf_canon_to_gen(h):
    f, q = lqt(h, gen=True)
    K, d, S, v = gains(h)
    h.same(go(h, 'lqt_canon_to_gen', K, d, *args(f, 'HrUMs')), h.spec('lqt', 'transformed_gains', q, K, d))


@ob('C05', M + 'lqt_seq_backwardpass', 'tf general cost: transform, solve, transform back')
def tf_gen_pipeline(h):
    f, q = lqt(h, gen=True)
    F2, c2, X2 = h.ip.unpack(go(h, 'lqt_gen_to_canon', *args(f, 'FcLHrXUMs')), 3, [False] * 3)
    S, v, K, d = h.ip.unpack(go(h, 'lqt_seq_backwardpass', F2, c2, *args(f, ['L', 'H', 'HT', 'r', 'rT']), X2,
                                *args(f, ['XT', 'U'])), 4, [False] * 4)
    K2, d2 = h.ip.unpack(go(h, 'lqt_canon_to_gen', K, d, *args(f, 'HrUMs')), 2, [False] * 2)
    h.same((K2, d2, S, v), h.spec('lqt', 'backward', q))


@ob('C06', M + 'lqt_np_to_tf')
def np_to_tf(h):
    f, q = lqt(h, 'np', gen=True)
    h.same(go(h, 'lqt_np_to_tf', q), tuple(args(f, CAN)))
    h.same(go(h, 'lqt_np_to_tf_gen', q), tuple(args(f, CAN + ['M', 's'])), 'gen')


@ob('C06', M + 'lqt_np_to_tf', 'packed problem solved')
def packed(h):
    from .lqt_np import lqt as problem
    q = problem(h)
    T, m, p = h.dims('T m p')
    g = dict(q.attrs)
    g['Z'] = make([T, m, m], lambda k, i, j: t.delta(i - j))
    g['s'] = make([T, m], lambda k, i: t.ZERO)
    g['M'] = make([T, p, m], lambda k, i, j: t.ZERO)
    ref = h.spec('lqt', 'backward', h.obj('lqt_np', 'LQT', g))
    a = h.ip.unpack(go(h, 'lqt_np_to_tf', q), 10, [False] * 10)
    h.same(go(h, 'lqt_seq_backwardpass', *a), order(h, ref, 2, 3, 0, 1))
    b = h.ip.unpack(go(h, 'lqt_np_to_tf_gen', q), 12, [False] * 12)
    f, _ = lqt(h, gen=True)
    h.same(go(h, 'lqt_gen_to_canon', *[b[k] for k in (0, 1, 2, 3, 5, 7, 9, 10, 11)]),
           go(h, 'lqt_gen_to_canon', *args(f, 'FcLHrXUMs')), 'gen')
