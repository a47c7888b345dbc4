"""Obligations for parallel_control/clqt_np.py."""
from ..obl import ob
from ..values import *
from .. import terms as t

M = 'parallel_control/clqt_np.py:'


def lqr(h):
    n, m = h.dims('n m')
    h.symmetric('X', 'U', 'XT')
    f = dict(F=h.arr('F', n, n), L=h.arr('L', n, m), X=h.arr('X', n, n), U=h.arr('U', m, m),
             XT=h.arr('XT', n, n), T=h.scalar('Tf'))
    o = h.obj('clqt_np', 'CLQR', f)
    P = h.spec('clq', 'lqr', f['F'], f['L'], f['X'], f['U'])
    return o, P, f


def coeffs(h, lib='np'):
    n, m, p = h.dims('n m p')
    return dict(F=h.fn('F', [n, n], lib), L=h.fn('L', [n, m], lib), X=h.fn('X', [p, p], lib, sym=True),
                U=h.fn('U', [m, m], lib, sym=True), c=h.fn('c', [n], lib), H=h.fn('H', [p, n], lib),
                r=h.fn('r', [p], lib))


def terminal(h, lib='np'):
    n, q = h.dims('n q')
    h.symmetric('XT')
    return dict(XT=h.arr('XT', q, q, lib=lib), HT=h.arr('HT', q, n, lib=lib), rT=h.arr('rT', q, lib=lib),
                T=h.scalar('Tf', lib))


def lqt(h):
    f = coeffs(h)
    P = tuple(f[k] for k in 'FLXUcHr')
    f.update(terminal(h))
    return h.obj('clqt_np', 'CLQT', f), P, f


def div(h, a, b):
    return h.ip.binop('/', a, b)


def grid(h, f, n):
    """Explicit step and start time, or the defaults T/n and 0."""
    return {'explicit': (h.scalar('dt'), h.scalar('t0')), 'default': (h.spec('ar', 'div', f['T'], n), num(0.0))}


def gains(h, N, lib='np'):
    n, m = h.dims('n m')
    return h.seq('Kx', N, m, n, lib=lib), h.seq('d', N, m, lib=lib)


def values(h, N, lib='np'):
    n = h.dim('n')
    h.symmetric('S', 'C')
    return h.seq('S', N, n, n, lib=lib), h.seq('v', N, n, lib=lib)


def flows(h, N, lib='np'):
    n = h.dim('n')
    h.symmetric('S', 'C')
    return h.seq('A', N, n, n, lib=lib), h.seq('b', N, n, lib=lib), h.seq('C', N, n, n, lib=lib)


def elems(h, N, lib='np'):
    n = h.dim('n')
    h.symmetric('eC', 'eJ')
    return h.tseq([('eA', [n, n]), ('eb', [n]), ('eC', [n, n]), ('ee', [n]), ('eJ', [n, n])], N, lib=lib)


def steps(h):
    return h.int(h.dim('N', 1))


def bs(h):
    """Numbers of blocks and of steps in a block."""
    return h.int(h.dim('B', 1)), h.int(h.dim('N', 1))


def blocks_total():
    return t.dim('B') * t.dim('N')


# ---- CLQR, sequential

for _w in ('explicit', 'default'):
    def _f(h, w=_w):
        o, P, f = lqr(h)
        n = h.dim('n')
        N = steps(h)
        h.symmetric('S0')
        S = h.arr('S0', n, n) if w == 'explicit' else f['XT']
        dt = grid(h, f, N)[w][0]
        kw = dict(dt=dt, S=S) if w == 'explicit' else {}
        K, d, Ss, v = h.spec('clq', 'seq_backward', P, N, dt, num(0.0), S, h.spec('ar', 'zeros', h.int(n)))
        h.same(h.method(o, 'seqBackwardPass', N, **kw), (K, Ss))
    ob('C07', M + 'CLQR.seqBackwardPass', 'clqr_backward ' + _w)(_f)

    def _f(h, w=_w):
        o, P, f = lqr(h)
        n = h.dim('n')
        N = steps(h)
        h.symmetric('S0')
        S = h.arr('S0', n, n) if w == 'explicit' else f['XT']
        dt = grid(h, f, N)[w][0]
        kw = dict(dt=dt, S=S) if w == 'explicit' else {}
        h.same(h.method(o, 'seqBackwardPass', N, method='exact', **kw),
               h.spec('clq', 'exact_backward', f['F'], f['L'], f['X'], f['U'], S, N, dt))
    ob('C07', M + 'CLQR.seqBackwardPass', 'clqr_backward exact ' + _w)(_f)

    for _z in (False, True):
        def _f(h, w=_w, z=_z):
            o, P, f = lqr(h)
            N = h.dim('N', 1)
            K, d = gains(h, N)
            x0 = h.arr('x0', h.dim('n'))
            dt = grid(h, f, h.int(N))[w][0]
            kw = dict(dt=dt) if w == 'explicit' else {}
            got = h.method(o, 'seqForwardPass', x0, K, u_zoh=z, **kw)
            zero = h.spec('ar', 'zero_list', h.int(N), h.int(h.dim('m')))
            h.same(got, h.spec('clq', 'seq_forward', P, x0, K, zero, dt, num(0.0), z))
        ob('C07', M + 'CLQR.seqForwardPass', 'clqr_forward %s%s' % (_w, ' zoh' if _z else ''))(_f)

        def _f(h, w=_w, z=_z):
            o, P, f = lqr(h)
            N = h.dim('N', 1)
            K, d = gains(h, N)
            x0 = h.arr('x0', h.dim('n'))
            dt = grid(h, f, h.int(N))[w][0]
            kw = dict(dt=dt) if w == 'explicit' else {}
            got = h.method(o, 'seqForwardPass', x0, K, method='exact', u_zoh=z, **kw)
            h.same(got, h.spec('clq', 'exact_forward_hold' if z else 'exact_forward', f['F'], f['L'], x0, K, dt))
        ob('C07', M + 'CLQR.seqForwardPass', 'clqr_forward exact %s%s' % (_w, ' zoh' if _z else ''))(_f)

    def _f(h, w=_w):
        o, P, f = lqr(h)
        n = h.dim('n')
        N = steps(h)
        h.symmetric('C0')
        dt = grid(h, f, N)[w][0]
        x0 = h.arr('x0', n)
        Z = h.spec('ar', 'zeros2', h.int(n), h.int(n))
        if w == 'explicit':
            A, b, C = h.arr('A0', n, n), h.arr('b0', n), h.arr('C0', n, n)
            got = h.method(o, 'seqFwdBwdPass', None, N, dt=dt, A=A, b=b, C=C)
        else:
            A, b, C = Z, x0, Z
            got = h.method(o, 'seqFwdBwdPass', x0, N)
        h.same(got, h.spec('clq', 'seq_fwdbwd', P, A, b, C, N, dt, num(0.0)))
    ob('C07', M + 'CLQR.seqFwdBwdPass', 'clqr_fwdbwd ' + _w)(_f)


@ob('C07', M + 'CLQR.combineForwardBackward')
def clqr_combine(h):
    o, P, f = lqr(h)
    N = h.dim('N', 1)
    K, d = gains(h, N)
    S, v = values(h, N + t.ONE)
    A, b, C = flows(h, N + t.ONE)
    zn = h.spec('ar', 'zero_list', h.int(N + t.ONE), h.int(h.dim('n')))
    zm = h.spec('ar', 'zero_list', h.int(N), h.int(h.dim('m')))
    h.same(h.method(o, 'combineForwardBackward', K, S, A, b, C), h.spec('clq', 'combine', K, zm, S, zn, b, C))


# ---- CLQR, parallel

for _fw in (False, True):
    def _f(h, fw=_fw):
        o, P, f = lqr(h)
        B, N = bs(h)
        n = h.int(h.dim('n'))
        dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
        h.same(h.method(o, 'parBackwardPass_init', B, N, forward=fw),
               h.spec('clq', 'bwd_elements', P, n, B, N, dt, num(0.0), f['XT'], h.spec('ar', 'zeros', n), fw))
    ob('C08', M + 'CLQR.parBackwardPass_init', 'clqr_bwd_init %s' % ('end' if _fw else 'start'))(_f)

    def _f(h, fw=_fw):
        o, P, f = lqr(h)
        B, N = bs(h)
        K, d = gains(h, blocks_total())
        x0 = h.arr('x0', h.dim('n'))
        zero = h.spec('ar', 'zero_list', h.int(blocks_total()), h.int(h.dim('m')))
        dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
        h.same(h.method(o, 'parForwardPass_init', x0, K, B, N, forward=fw),
               h.spec('clq', 'fwd_elements', P, h.int(h.dim('n')), x0, K, zero, B, N, dt, num(0.0), fw))
    ob('C08', M + 'CLQR.parForwardPass_init', 'clqr_fwd_init %s' % ('end' if _fw else 'start'))(_f)

    def _f(h, fw=_fw):
        o, P, f = lqr(h)
        B, N = bs(h)
        x0 = h.arr('x0', h.dim('n'))
        dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
        h.same(h.method(o, 'parFwdBwdPass_init', x0, B, N, forward=fw),
               h.spec('clq', 'fb_elements', P, h.int(h.dim('n')), x0, B, N, dt, num(0.0), fw))
    ob('C08', M + 'CLQR.parFwdBwdPass_init', 'clqr_fb_init %s' % ('end' if _fw else 'start'))(_f)


@ob('C08', M + 'CLQR.parBackwardPass_extract')
def clqr_bwd_extract(h):
    o, P, f = lqr(h)
    B, N = bs(h)
    e = elems(h, t.dim('B') + t.ONE)
    dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
    K, d, S, v = h.spec('clq', 'bwd_extract', P, e, N, dt, num(0.0))
    h.same(h.method(o, 'parBackwardPass_extract', e, N), (K, S))


@ob('C08', M + 'CLQR.parBackwardPass')
def clqr_par_backward(h):
    if not h.thorough:
        h.opaque_steps()
    o, P, f = lqr(h)
    B, N = bs(h)
    n = h.int(h.dim('n'))
    dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
    K, d, S, v = h.spec('clq', 'par_backward', P, n, B, N, dt, num(0.0), f['XT'], h.spec('ar', 'zeros', n), False)
    h.same(h.method(o, 'parBackwardPass', B, N), (K, S))


for _z in (False, True):
    def _f(h, z=_z):
        o, P, f = lqr(h)
        B, N = bs(h)
        n = h.dim('n')
        K, d = gains(h, blocks_total())
        zero = h.spec('ar', 'zero_list', h.int(blocks_total()), h.int(h.dim('m')))
        e = h.tseq([('eF', [n, n]), ('ec', [n])], t.dim('B') + t.ONE)
        dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
        h.same(h.method(o, 'parForwardPass_extract', K, e, N, u_zoh=z),
               h.spec('clq', 'fwd_extract', P, K, zero, e, N, dt, num(0.0), z))
    ob('C08', M + 'CLQR.parForwardPass_extract', 'clqr_fwd_extract' + (' zoh' if _z else ''))(_f)

    def _f(h, z=_z):
        o, P, f = lqr(h)
        B, N = bs(h)
        n = h.dim('n')
        K, d = gains(h, blocks_total())
        zero = h.spec('ar', 'zero_list', h.int(blocks_total()), h.int(h.dim('m')))
        x0 = h.arr('x0', n)
        dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
        h.same(h.method(o, 'parForwardPass', x0, K, B, N, u_zoh=z),
               h.spec('clq', 'par_forward', P, h.int(n), x0, K, zero, B, N, dt, num(0.0), True, z))
    ob('C08', M + 'CLQR.parForwardPass', 'clqr_par_forward' + (' zoh' if _z else ''))(_f)


@ob('C08', M + 'CLQR.parFwdBwdPass_extract')
def clqr_fb_extract(h):
    o, P, f = lqr(h)
    B, N = bs(h)
    n = h.dim('n')
    K, d = gains(h, blocks_total())
    S, v = values(h, blocks_total() + t.ONE)
    zm = h.spec('ar', 'zero_list', h.int(blocks_total()), h.int(h.dim('m')))
    zn = h.spec('ar', 'zero_list', h.int(blocks_total() + t.ONE), h.int(n))
    e = elems(h, t.dim('B') + t.ONE)
    dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
    h.same(h.method(o, 'parFwdBwdPass_extract', K, S, e, N),
           h.spec('clq', 'fb_extract', P, K, zm, S, zn, e, N, dt, num(0.0)))


@ob('C08', M + 'CLQR.parFwdBwdPass')
def clqr_par_fwdbwd(h):
    h.opaque_steps()
    o, P, f = lqr(h)
    B, N = bs(h)
    n = h.dim('n')
    x0 = h.arr('x0', n)
    K, d = gains(h, blocks_total())
    S, v = values(h, blocks_total() + t.ONE)
    zm = h.spec('ar', 'zero_list', h.int(blocks_total()), h.int(h.dim('m')))
    zn = h.spec('ar', 'zero_list', h.int(blocks_total() + t.ONE), h.int(n))
    dt = h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N))
    h.same(h.method(o, 'parFwdBwdPass', x0, K, S, B, N),
           h.spec('clq', 'par_fwdbwd', P, h.int(n), x0, K, zm, S, zn, B, N, dt, num(0.0), True))


# ---- CLQT, sequential

for _w in ('explicit', 'default'):
    def _f(h, w=_w):
        o, P, f = lqt(h)
        n = h.dim('n')
        N = steps(h)
        h.symmetric('S0')
        if w == 'explicit':
            S, v = h.arr('S0', n, n), h.arr('v0', n)
        else:
            S, v = h.spec('clq', 'terminal', f['XT'], f['HT'], f['rT'])
        dt, t0 = grid(h, f, N)[w]
        kw = dict(dt=dt, t0=t0, S=S, v=v) if w == 'explicit' else {}
        h.same(h.method(o, 'seqBackwardPass', N, **kw), h.spec('clq', 'seq_backward', P, N, dt, t0, S, v))
    ob('C07', M + 'CLQT.seqBackwardPass', 'clqt_backward ' + _w)(_f)

    for _z in (False, True):
        def _f(h, w=_w, z=_z):
            o, P, f = lqt(h)
            N = h.dim('N', 1)
            K, d = gains(h, N)
            x0 = h.arr('x0', h.dim('n'))
            dt, t0 = grid(h, f, h.int(N))[w]
            kw = dict(dt=dt, t0=t0) if w == 'explicit' else {}
            h.same(h.method(o, 'seqForwardPass', x0, K, d, u_zoh=z, **kw),
                   h.spec('clq', 'seq_forward', P, x0, K, d, dt, t0, z))
        ob('C07', M + 'CLQT.seqForwardPass', 'clqt_forward %s%s' % (_w, ' zoh' if _z else ''))(_f)

    def _f(h, w=_w):
        o, P, f = lqt(h)
        n = h.dim('n')
        N = steps(h)
        h.symmetric('C0')
        dt, t0 = grid(h, f, N)[w]
        x0 = h.arr('x0', n)
        Z = h.spec('ar', 'zeros2', h.int(n), h.int(n))
        if w == 'explicit':
            A, b, C = h.arr('A0', n, n), h.arr('b0', n), h.arr('C0', n, n)
            got = h.method(o, 'seqFwdBwdPass', None, N, dt=dt, t0=t0, A=A, b=b, C=C)
        else:
            A, b, C = Z, x0, Z
            got = h.method(o, 'seqFwdBwdPass', x0, N)
        h.same(got, h.spec('clq', 'seq_fwdbwd', P, A, b, C, N, dt, t0))
    ob('C07', M + 'CLQT.seqFwdBwdPass', 'clqt_fwdbwd ' + _w)(_f)


@ob('C07', M + 'CLQT.combineForwardBackward')
def clqt_combine(h):
    o, P, f = lqt(h)
    N = h.dim('N', 1)
    K, d = gains(h, N)
    S, v = values(h, N + t.ONE)
    A, b, C = flows(h, N + t.ONE)
    h.same(h.method(o, 'combineForwardBackward', K, d, S, v, A, b, C), h.spec('clq', 'combine', K, d, S, v, b, C))


# ---- CLQT, parallel

def pgrid(h, f, w):
    B, N = bs(h)
    if w == 'explicit':
        dt, t0 = h.scalar('dt'), h.scalar('t0')
        return B, N, dt, t0, dict(dt=dt, t0=t0)
    return B, N, h.spec('ar', 'div', f['T'], h.spec('ar', 'mul', B, N)), num(0.0), {}


for _w in ('explicit', 'default'):
    for _fw in (False, True):
        def _f(h, w=_w, fw=_fw):
            o, P, f = lqt(h)
            B, N, dt, t0, kw = pgrid(h, f, w)
            S, v = h.spec('clq', 'terminal', f['XT'], f['HT'], f['rT'])
            h.same(h.method(o, 'parBackwardPass_init', B, N, forward=fw, **kw),
                   h.spec('clq', 'bwd_elements', P, h.int(h.dim('n')), B, N, dt, t0, S, v, fw))
        ob('C08', M + 'CLQT.parBackwardPass_init', 'clqt_bwd_init %s %s' % (_w, 'end' if _fw else 'start'))(_f)

        def _f(h, w=_w, fw=_fw):
            if not h.thorough:
                h.opaque_steps()
            o, P, f = lqt(h)
            B, N, dt, t0, kw = pgrid(h, f, w)
            S, v = h.spec('clq', 'terminal', f['XT'], f['HT'], f['rT'])
            h.same(h.method(o, 'parBackwardPass', B, N, forward=fw, **kw),
                   h.spec('clq', 'par_backward', P, h.int(h.dim('n')), B, N, dt, t0, S, v, fw))
        ob('C08', M + 'CLQT.parBackwardPass', 'clqt_par_backward %s %s' % (_w, 'end' if _fw else 'start'))(_f)

        def _f(h, w=_w, fw=_fw):
            o, P, f = lqt(h)
            B, N, dt, t0, kw = pgrid(h, f, w)
            K, d = gains(h, blocks_total())
            x0 = h.arr('x0', h.dim('n'))
            h.same(h.method(o, 'parForwardPass_init', x0, K, d, B, N, forward=fw, **kw),
                   h.spec('clq', 'fwd_elements', P, h.int(h.dim('n')), x0, K, d, B, N, dt, t0, fw))
        ob('C08', M + 'CLQT.parForwardPass_init', 'clqt_fwd_init %s %s' % (_w, 'end' if _fw else 'start'))(_f)

        def _f(h, w=_w, fw=_fw):
            o, P, f = lqt(h)
            B, N, dt, t0, kw = pgrid(h, f, w)
            K, d = gains(h, blocks_total())
            x0 = h.arr('x0', h.dim('n'))
            h.same(h.method(o, 'parForwardPass', x0, K, d, B, N, forward=fw, u_zoh=fw, **kw),
                   h.spec('clq', 'par_forward', P, h.int(h.dim('n')), x0, K, d, B, N, dt, t0, fw, fw))
        ob('C08', M + 'CLQT.parForwardPass', 'clqt_par_forward %s %s' % (_w, 'end' if _fw else 'start'))(_f)

        def _f(h, w=_w, fw=_fw):
            o, P, f = lqt(h)
            B, N, dt, t0, kw = pgrid(h, f, w)
            x0 = h.arr('x0', h.dim('n'))
            h.same(h.method(o, 'parFwdBwdPass_init', x0, B, N, forward=fw, **kw),
                   h.spec('clq', 'fb_elements', P, h.int(h.dim('n')), x0, B, N, dt, t0, fw))
        ob('C08', M + 'CLQT.parFwdBwdPass_init', 'clqt_fb_init %s %s' % (_w, 'end' if _fw else 'start'))(_f)

        def _f(h, w=_w, fw=_fw):
            h.opaque_steps()
            o, P, f = lqt(h)
            B, N, dt, t0, kw = pgrid(h, f, w)
            x0 = h.arr('x0', h.dim('n'))
            K, d = gains(h, blocks_total())
            S, v = values(h, blocks_total() + t.ONE)
            h.same(h.method(o, 'parFwdBwdPass', x0, K, d, S, v, B, N, forward=fw, **kw),
                   h.spec('clq', 'par_fwdbwd', P, h.int(h.dim('n')), x0, K, d, S, v, B, N, dt, t0, fw))
        ob('C08', M + 'CLQT.parFwdBwdPass', 'clqt_par_fwdbwd %s %s' % (_w, 'end' if _fw else 'start'))(_f)

    def _f(h, w=_w):
        o, P, f = lqt(h)
        B, N, dt, t0, kw = pgrid(h, f, w)
        e = elems(h, t.dim('B') + t.ONE)
        h.same(h.method(o, 'parBackwardPass_extract', e, N, **kw), h.spec('clq', 'bwd_extract', P, e, N, dt, t0))
    ob('C08', M + 'CLQT.parBackwardPass_extract', 'clqt_bwd_extract ' + _w)(_f)

    def _f(h, w=_w):
        o, P, f = lqt(h)
        B, N, dt, t0, kw = pgrid(h, f, w)
        K, d = gains(h, blocks_total())
        S, v = values(h, blocks_total() + t.ONE)
        e = elems(h, t.dim('B') + t.ONE)
        h.same(h.method(o, 'parFwdBwdPass_extract', K, d, S, v, e, N, **kw),
               h.spec('clq', 'fb_extract', P, K, d, S, v, e, N, dt, t0))
    ob('C08', M + 'CLQT.parFwdBwdPass_extract', 'clqt_fb_extract ' + _w)(_f)

    for _z in (False, True):
        def _f(h, w=_w, z=_z):
            o, P, f = lqt(h)
            n = h.dim('n')
            B, N, dt, t0, kw = pgrid(h, f, w)
            K, d = gains(h, blocks_total())
            e = h.tseq([('eF', [n, n]), ('ec', [n])], t.dim('B') + t.ONE)
            h.same(h.method(o, 'parForwardPass_extract', K, d, e, N, u_zoh=z, **kw),
                   h.spec('clq', 'fwd_extract', P, K, d, e, N, dt, t0, z))
        ob('C08', M + 'CLQT.parForwardPass_extract', 'clqt_fwd_extract %s%s' % (_w, ' zoh' if _z else ''))(_f)
