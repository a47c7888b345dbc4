"""Obligations for parallel_control/lqt_np.py."""
from ..obl import ob
from ..values import *
from .. import terms as t

M = 'parallel_control/lqt_np.py:'
A10 = ['A1', 'b1', 'C1', 'e1', 'J1', 'A2', 'b2', 'C2', 'e2', 'J2']


def dims(h):
    return h.dims('T n m p q')


def lqt(h, cls=True, const_out=False):
    T, n, m, p, q = dims(h)
    if const_out:
        q = p
    h.symmetric('X', 'U', 'XT')
    f = dict(F=h.seq('F', T, n, n), L=h.seq('L', T, n, m), X=h.seq('X', T, p, p), U=h.seq('U', T, m, m),
             XT=h.arr('XT', q, q), c=h.seq('c', T, n), H=h.seq('H', T, p, n), r=h.seq('r', T, p),
             HT=h.arr('HT', q, n), rT=h.arr('rT', q), Z=h.seq('Z', T, m, m), s=h.seq('s', T, m),
             M=h.seq('M', T, p, m))
    return h.obj('lqt_np', 'LQT', f)


def lqr(h):
    T, n, m, p, q = dims(h)
    h.symmetric('X', 'U', 'XT')
    return h.obj('lqt_np', 'LQR', dict(F=h.arr('F', n, n), L=h.arr('L', n, m), X=h.arr('X', n, n),
                                       U=h.arr('U', m, m), XT=h.arr('XT', n, n)))


def lqr_args(o, *names):
    return [o.attrs[k] for k in names]


def elems(h, length, lib='np'):
    T, n, m, p, q = dims(h)
    h.symmetric('eC', 'eJ')
    return h.tseq([('eA', [n, n]), ('eb', [n]), ('eC', [n, n]), ('ee', [n]), ('eJ', [n, n])], length, lib=lib)


def gains(h):
    T, n, m, p, q = dims(h)
    h.symmetric('S')
    return (h.seq('Kx', T, m, n), h.seq('d', T, m), h.seq('S', T + t.ONE, n, n), h.seq('v', T + t.ONE, n))


def pair(h, lib='np', batch=()):
    n = h.dim('n')
    h.symmetric('C1', 'C2', 'J1', 'J2')
    b = list(batch)
    return [h.arr(x, *(b + ([n] if x[0] in 'be' else [n, n])), lib=lib) for x in A10]


@ob('C03', M + 'combine_abcej')
def combine_abcej(h):
    a = pair(h)
    h.same(h.func('lqt_np', 'combine_abcej', *a), h.spec('lqt', 'combine_abcej', *a))


@ob('C04', M + 'combine_fc')
def combine_fc(h):
    n = h.dim('n')
    a = [h.arr('F1', n, n), h.arr('c1', n), h.arr('F2', n, n), h.arr('c2', n)]
    h.same(h.func('lqt_np', 'combine_fc', *a), h.spec('lqt', 'combine_fc', *a))


@ob('C03', M + 'par_backward_pass_scan')
def scan_bwd(h):
    e = elems(h, h.dim('N'))
    h.same(h.func('lqt_np', 'par_backward_pass_scan', e), h.spec('lqt', 'bwd_scan', e))


@ob('C04', M + 'par_fwdbwd_pass_scan')
def scan_fwdbwd(h):
    e = elems(h, h.dim('N'))
    h.same(h.func('lqt_np', 'par_fwdbwd_pass_scan', e), h.spec('lqt', 'fwdbwd_scan', e))


@ob('C04', M + 'par_forward_pass_scan')
def scan_fwd(h):
    n = h.dim('n')
    e = h.tseq([('eF', [n, n]), ('ec', [n])], h.dim('N'))
    h.same(h.func('lqt_np', 'par_forward_pass_scan', e), h.spec('lqt', 'fwd_scan', e))


# ---- LQR

@ob('C02', M + 'LQR.seqBackwardPass')
def lqr_seq_backward(h):
    o, T = lqr(h), h.dim('T')
    h.same(h.method(o, 'seqBackwardPass', h.int(T)),
           h.spec('lqt', 'lqr_backward', *lqr_args(o, 'F', 'L', 'X', 'U', 'XT'), h.int(T)))


@ob('C04', M + 'LQR.seqForwardPass')
def lqr_seq_forward(h):
    o, T = lqr(h), h.dim('T')
    x0, K = h.arr('x0', h.dim('n')), h.seq('K', T, h.dim('m'), h.dim('n'))
    h.same(h.method(o, 'seqForwardPass', x0, K), h.spec('lqt', 'lqr_forward', *lqr_args(o, 'F', 'L'), x0, K))


@ob('C03', M + 'LQR.parBackwardPass_init')
def lqr_par_init(h):
    o, T = lqr(h), h.dim('T')
    h.same(h.method(o, 'parBackwardPass_init', h.int(T)),
           h.spec('lqt', 'lqr_elements', *lqr_args(o, 'F', 'L', 'X', 'U', 'XT'), h.int(T)))


@ob('C03', M + 'LQR.parBackwardPass_extract')
def lqr_par_extract(h):
    o, T = lqr(h), h.dim('T')
    e = elems(h, T + t.ONE)
    h.same(h.method(o, 'parBackwardPass_extract', e), h.spec('lqt', 'lqr_extract', *lqr_args(o, 'F', 'L', 'U'), e))


@ob('C03', M + 'LQR.parBackwardPass')
def lqr_par_backward(h):
    o, T = lqr(h), h.dim('T')
    e = h.spec('lqt', 'bwd_scan', h.spec('lqt', 'lqr_elements', *lqr_args(o, 'F', 'L', 'X', 'U', 'XT'), h.int(T)))
    h.same(h.method(o, 'parBackwardPass', h.int(T)), h.spec('lqt', 'lqr_extract', *lqr_args(o, 'F', 'L', 'U'), e))


@ob('C04', M + 'LQR.parForwardPass_init')
def lqr_fwd_init(h):
    o, T = lqr(h), h.dim('T')
    x0, K = h.arr('x0', h.dim('n')), h.seq('K', T, h.dim('m'), h.dim('n'))
    h.same(h.method(o, 'parForwardPass_init', x0, K), h.spec('lqt', 'lqr_fwd_elements', *lqr_args(o, 'F', 'L'), x0, K))


@ob('C04', M + 'LQR.parForwardPass_extract')
def lqr_fwd_extract(h):
    o, T, n = lqr(h), h.dim('T'), h.dim('n')
    x0, K = h.arr('x0', n), h.seq('K', T, h.dim('m'), n)
    e = h.tseq([('eF', [n, n]), ('ec', [n])], T)
    h.same(h.method(o, 'parForwardPass_extract', x0, K, e), h.spec('lqt', 'lqr_fwd_extract', x0, K, e))


@ob('C04', M + 'LQR.parForwardPass')
def lqr_par_forward(h):
    o, T, n = lqr(h), h.dim('T'), h.dim('n')
    x0, K = h.arr('x0', n), h.seq('K', T, h.dim('m'), n)
    e = h.spec('lqt', 'fwd_scan', h.spec('lqt', 'lqr_fwd_elements', *lqr_args(o, 'F', 'L'), x0, K))
    h.same(h.method(o, 'parForwardPass', x0, K), h.spec('lqt', 'lqr_fwd_extract', x0, K, e))


@ob('C05', M + 'LQR.lqrIter')
def lqr_iter(h):
    o, N = lqr(h), h.dim('N')
    h.same(h.method(o, 'lqrIter', h.int(N)), h.spec('lqt', 'lqr_iter', *lqr_args(o, 'F', 'L', 'X', 'U'), h.int(N)))


@ob('C05', M + 'LQR.lqrDouble')
def lqr_double(h):
    o, N = lqr(h), h.dim('N')
    h.same(h.method(o, 'lqrDouble', h.int(N)), h.spec('lqt', 'lqr_double', *lqr_args(o, 'F', 'L', 'X', 'U'), h.int(N)))


@ob('C05', M + 'LQR.lqrDare')
def lqr_dare(h):
    o = lqr(h)
    K, S = h.ip.unpack(h.method(o, 'lqrDare'), 2, [False, False])
    h.same(K, h.spec('lqt', 'lqr_gain', S, *lqr_args(o, 'F', 'L', 'U')), 'K')
    h.same(S, h.spec('lqt', 'dare', *lqr_args(o, 'F', 'L', 'X', 'U')), 'S')


# ---- LQT

@ob('C02', M + 'LQT.seqBackwardPass')
def seq_backward(h):
    o = lqt(h)
    h.same(h.method(o, 'seqBackwardPass'), h.spec('lqt', 'backward', o))


@ob('C04', M + 'LQT.seqForwardPass')
def seq_forward(h):
    o = lqt(h)
    x0 = h.arr('x0', h.dim('n'))
    K, d, S, v = gains(h)
    h.same(h.method(o, 'seqForwardPass', x0, K, d), h.spec('lqt', 'forward', o, x0, K, d))


@ob('C04', M + 'LQT.seqSimulation')
def seq_simulation(h):
    o = lqt(h)
    x0, u = h.arr('x0', h.dim('n')), h.seq('u', h.dim('T'), h.dim('m'))
    h.same(h.method(o, 'seqSimulation', x0, u), h.spec('lqt', 'simulate', o, x0, u))


@ob('C03', M + 'LQT.parBackwardPass_init')
def par_init(h):
    o = lqt(h)
    h.same(h.method(o, 'parBackwardPass_init'), h.spec('lqt', 'bwd_elements', o))


@ob('C03', M + 'LQT.parBackwardPass_extract')
def par_extract(h):
    o = lqt(h)
    e = elems(h, h.dim('T') + t.ONE)
    h.same(h.method(o, 'parBackwardPass_extract', e), h.spec('lqt', 'extract', o, e))


def stub(h, o, modname, table):
    """Replace methods (already covered by their own obligations) by references."""


@ob('C03', M + 'LQT.parBackwardPass')
def par_backward(h):
    o = lqt(h)
    e = h.spec('lqt', 'bwd_scan', h.spec('lqt', 'bwd_elements', o))
    h.same(h.method(o, 'parBackwardPass'), h.spec('lqt', 'extract', o, e))


@ob('C04', M + 'LQT.parForwardPass_init')
def fwd_init(h):
    o = lqt(h)
    x0 = h.arr('x0', h.dim('n'))
    K, d, S, v = gains(h)
    h.same(h.method(o, 'parForwardPass_init', x0, K, d), h.spec('lqt', 'fwd_elements', o, x0, K, d))


@ob('C04', M + 'LQT.parForwardPass_extract')
def fwd_extract(h):
    o, n = lqt(h), h.dim('n')
    x0 = h.arr('x0', n)
    K, d, S, v = gains(h)
    e = h.tseq([('eF', [n, n]), ('ec', [n])], h.dim('T'))
    h.same(h.method(o, 'parForwardPass_extract', x0, K, d, e), h.spec('lqt', 'fwd_extract', x0, K, d, e))


@ob('C04', M + 'LQT.parForwardPass')
def par_forward(h):
    o, n = lqt(h), h.dim('n')
    x0 = h.arr('x0', n)
    K, d, S, v = gains(h)
    e = h.spec('lqt', 'fwd_scan', h.spec('lqt', 'fwd_elements', o, x0, K, d))
    h.same(h.method(o, 'parForwardPass', x0, K, d), h.spec('lqt', 'fwd_extract', x0, K, d, e))


@ob('C04', M + 'LQT.parFwdBwdPass_init')
def fb_init(h):
    o = lqt(h)
    x0 = h.arr('x0', h.dim('n'))
    h.same(h.method(o, 'parFwdBwdPass_init', x0), h.spec('lqt', 'fwdbwd_elements', o, x0))


@ob('C04', M + 'LQT.parFwdBwdPass_extract')
def fb_extract(h):
    o = lqt(h)
    K, d, S, v = gains(h)
    e = elems(h, h.dim('T') + t.ONE)
    h.same(h.method(o, 'parFwdBwdPass_extract', K, d, S, v, e), h.spec('lqt', 'fb_extract', K, d, S, v, e))


@ob('C04', M + 'LQT.parFwdBwdPass')
def fb(h):
    o = lqt(h)
    x0 = h.arr('x0', h.dim('n'))
    K, d, S, v = gains(h)
    e = h.spec('lqt', 'fwdbwd_scan', h.spec('lqt', 'fwdbwd_elements', o, x0))
    h.same(h.method(o, 'parFwdBwdPass', x0, K, d, S, v), h.spec('lqt', 'fb_extract', K, d, S, v, e))


@ob('C04', M + 'LQT.parFwdBwdPass2_init')
def fb2_init(h):
    o = lqt(h)
    h.same(h.method(o, 'parFwdBwdPass2_init'), h.spec('lqt', 'elements', o))


@ob('C04', M + 'LQT.parFwdBwdPass2_extract')
def fb2_extract(h):
    o = lqt(h)
    x0 = h.arr('x0', h.dim('n'))
    K, d, S, v = gains(h)
    e = elems(h, h.dim('T'))
    h.same(h.method(o, 'parFwdBwdPass2_extract', x0, K, d, S, v, e),
           h.spec('lqt', 'fb2_extract', x0, K, d, S, v, e))


@ob('C04', M + 'LQT.parFwdBwdPass2')
def fb2(h):
    o = lqt(h)
    x0 = h.arr('x0', h.dim('n'))
    K, d, S, v = gains(h)
    e = h.spec('lqt', 'fwdbwd_scan', h.spec('lqt', 'elements', o))
    h.same(h.method(o, 'parFwdBwdPass2', x0, K, d, S, v), h.spec('lqt', 'fb2_extract', x0, K, d, S, v, e))


@ob('C05', M + 'LQT.cost')
def cost(h):
    o, T = lqt(h), h.dim('T')
    u, x = h.seq('u', T, h.dim('m')), h.seq('x', T + t.ONE, h.dim('n'))
    h.same(h.method(o, 'cost', u, x), h.spec('lqt', 'cost', o, u, x))


@ob('C05', M + 'LQT.batchSolution')
def batch_solution(h):
    o = lqt(h, const_out=True)
    x0 = h.arr('x0', h.dim('n'))
    h.same(h.method(o, 'batchSolution', x0), h.spec('lqt', 'batch_solve', o, x0))


@ob('C05', M + 'LQT.seqTransformedBackwardPass')
def seq_transformed(h):
    T, n, m, p, q = dims(h)
    o = lqt(h)
    v = t.fresh(T)
    o.attrs['Z'] = PList(None, T, v, make([m, m], lambda i, j: t.delta(i - j)))
    h.same(h.method(o, 'seqTransformedBackwardPass'), h.spec('lqt', 'transformed_backward', o))
