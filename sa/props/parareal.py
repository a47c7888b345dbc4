"""Obligations for parallel_control/parareal_clqt_np.py and parareal_clqt_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t
from . import clqt_np, clqt_tf
from .clqt_np import gains, blocks_total

MN = 'parallel_control/parareal_clqt_np.py:Parareal_CLQT_np.'
MT = 'parallel_control/parareal_clqt_tf.py:'
FULL = 'FLXUcHr'


def setup(h, lib):
    """(problem functions, spec problem, terminal data, caller)"""
    if lib == 'np':
        o, P, f = clqt_np.lqt(h)
        po = h.obj('parareal_clqt_np', 'Parareal_CLQT_np', dict(clqt=o))
        return f, P, f, lambda name, *a, **kw: h.method(po, name, *a, **kw)
    f, P, g = clqt_tf.lqt(h)
    return f, P, g, lambda name, *a, **kw: h.func('parareal_clqt_tf', name, *a, **kw)


def args(f, names=FULL):
    return [f[k] for k in names]


def bn(h):
    return h.int(h.dim('B', 1)), h.int(h.dim('N', 1))


SHAPE = {'S': 'mm', 'v': 'v', 'A': 'mm', 'b': 'v', 'C': 'mm', 'x': 'v'}


def bound(h, lib, names, sfx=''):
    """Values at the block boundaries: lists or stacked arrays."""
    n = h.dim('n')
    M = h.dim('B', 1) + t.ONE
    out = []
    for x in names:
        if x in 'SC':
            h.symmetric(x + sfx)
        ls = [n, n] if SHAPE[x] == 'mm' else [n]
        out.append(h.seq(x + sfx, M, *ls) if lib == 'np' else h.arr(x + sfx, M, *ls, lib='tf'))
    return out


def gain(h, lib):
    m, n = h.dims('m n')
    if lib == 'np':
        return gains(h, blocks_total())
    return [h.arr('Kx', blocks_total(), m, n, lib='tf'), h.arr('d', blocks_total(), m, lib='tf')]


def order(h, r, *w):
    return h.spec('pick', 'order', r, w)


def reg(prop, np_name, tf_name, label):
    def d(f):
        for lib, target in (('np', MN + np_name if np_name else None), ('tf', MT + tf_name if tf_name else None)):
            if target is None:
                continue

            def g(h, lib=lib):
                f(h, lib)
            ob(prop, target, '%s %s' % (label, lib))(g)
        return f
    return d


@reg('C09', 'initBackwardPass', 'pclqt_init_backwardpass', 'parareal backward start')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    B = h.int(h.dim('B', 1))
    S, v = h.spec('clq', 'terminal', g['XT'], g['HT'], g['rT'])
    ref = h.spec('parareal', 'init_backward', P, S, v, B, g['T'])
    if lib == 'np':
        h.same(go('initBackwardPass', B), ref)
    else:
        h.same(go('pclqt_init_backwardpass', B, g['XT'], g['HT'], g['rT'], g['T'], *args(f)), ref)


@reg('C09', 'denseBackwardPass', 'pclqt_dense_backwardpass', 'parareal backward fine sweep')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    B, N = bn(h)
    S, v = bound(h, lib, 'Sv')
    ref = h.spec('parareal', 'dense_backward', P, S, v, N, g['T'])
    if lib == 'np':
        h.same(go('denseBackwardPass', N, S, v), ref)
    else:
        h.same(go('pclqt_dense_backwardpass', N, g['T'], S, v, *args(f)), ref)


@reg('C09', 'coarseBackwardPass', 'pclqt_coarse_backwardpass', 'parareal backward coarse sweep')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    a = bound(h, lib, 'Sv', 'F') + bound(h, lib, 'Sv', 'G')
    ref = h.spec('parareal', 'coarse_backward', P, *a, g['T'])
    if lib == 'np':
        h.same(go('coarseBackwardPass', *a), ref)
    else:
        h.same(go('pclqt_coarse_backwardpass', g['T'], *a, *args(f)), ref)


@reg('C09', 'finalBackwardPass', 'pclqt_final_backwardpass', 'parareal backward extraction')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    B, N = bn(h)
    S, v = bound(h, lib, 'Sv')
    ref = h.spec('parareal', 'final_backward', P, S, v, N, g['T'])
    if lib == 'np':
        h.same(go('finalBackwardPass', N, S, v), ref)
    else:
        h.same(go('pclqt_final_backwardpass', N, g['T'], S, v, *args(f)), order(h, ref, 2, 3, 0, 1))


@reg('C09', 'backwardPass', 'pclqt_backwardpass', 'parareal backward')
def _(h, lib):
    h.opaque_steps()
    f, P, g, go = setup(h, lib)
    B, N = bn(h)
    I = h.int(h.dim('I', 1))
    S, v = h.spec('clq', 'terminal', g['XT'], g['HT'], g['rT'])
    ref = h.spec('parareal', 'backward', P, S, v, B, N, I, g['T'])
    if lib == 'np':
        h.same(go('backwardPass', B, N, niter=I), ref)
    else:
        h.same(go('pclqt_backwardpass', B, N, I, g['XT'], g['HT'], g['rT'], g['T'], *args(f)), order(h, ref, 2, 3, 0, 1))


for _z in (False, True):
    _s = ' zoh' if _z else ''

    @reg('C09', 'initForwardPass', 'pclqt_init_forwardpass', 'parareal forward start' + _s)
    def _(h, lib, z=_z):
        f, P, g, go = setup(h, lib)
        B, N = bn(h)
        x0 = h.arr('x0', h.dim('n'), lib=lib)
        K, d = gain(h, lib)
        ref = h.spec('parareal', 'init_forward', P, x0, K, d, B, N, g['T'], z)
        if lib == 'np':
            h.same(go('initForwardPass', B, x0, K, d, u_zoh=z), ref)
        else:
            h.same(go('pclqt_init_forwardpass', B, N, x0, g['T'], K, d, *args(f, 'FLc'), u_zoh=z), ref)

    @reg('C09', 'denseForwardPass', 'pclqt_dense_forwardpass', 'parareal forward fine sweep' + _s)
    def _(h, lib, z=_z):
        f, P, g, go = setup(h, lib)
        B, N = bn(h)
        x, = bound(h, lib, 'x')
        K, d = gain(h, lib)
        ref = h.spec('parareal', 'dense_forward', P, x, K, d, N, g['T'], z)
        if lib == 'np':
            h.same(go('denseForwardPass', N, x, K, d, u_zoh=z), ref)
        else:
            h.same(go('pclqt_dense_forwardpass', N, g['T'], x, K, d, *args(f, 'FLc'), u_zoh=z), ref)

    @reg('C09', 'coarseForwardPass', 'pclqt_coarse_forwardpass', 'parareal forward coarse sweep' + _s)
    def _(h, lib, z=_z):
        f, P, g, go = setup(h, lib)
        B, N = bn(h)
        a = bound(h, lib, 'x', 'F') + bound(h, lib, 'x', 'G')
        K, d = gain(h, lib)
        ref = h.spec('parareal', 'coarse_forward', P, *a, K, d, N, g['T'], z)
        if lib == 'np':
            h.same(go('coarseForwardPass', *a, K, d, u_zoh=z), ref)
        else:
            h.same(go('pclqt_coarse_forwardpass', N, g['T'], *a, K, d, *args(f, 'FLc'), u_zoh=z), ref)

    @reg('C09', 'finalForwardPass', 'pclqt_final_forwardpass', 'parareal forward extraction' + _s)
    def _(h, lib, z=_z):
        f, P, g, go = setup(h, lib)
        B, N = bn(h)
        x, = bound(h, lib, 'x')
        K, d = gain(h, lib)
        ref = h.spec('parareal', 'final_forward', P, x, K, d, N, g['T'], z)
        if lib == 'np':
            h.same(go('finalForwardPass', N, x, K, d, u_zoh=z), ref)
        else:
            h.same(go('pclqt_final_forwardpass', N, g['T'], x, K, d, *args(f, 'FLc'), u_zoh=z), order(h, ref, 1, 0))

    @reg('C09', 'forwardPass', 'pclqt_forwardpass', 'parareal forward' + _s)
    def _(h, lib, z=_z):
        h.opaque_steps()
        f, P, g, go = setup(h, lib)
        B, N = bn(h)
        I = h.int(h.dim('I', 1))
        x0 = h.arr('x0', h.dim('n'), lib=lib)
        K, d = gain(h, lib)
        ref = h.spec('parareal', 'forward', P, x0, K, d, B, N, I, g['T'], z)
        if lib == 'np':
            h.same(go('forwardPass', B, N, x0, K, d, u_zoh=z, niter=I), ref)
        else:
            h.same(go('pclqt_forwardpass', B, N, I, x0, g['T'], K, d, *args(f, 'FLc'), u_zoh=z), order(h, ref, 1, 0))


@reg('C09', 'initFwdBwdPass', 'pclqt_init_fwdbwdpass', 'parareal fwdbwd start')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    B = h.int(h.dim('B', 1))
    x0 = h.arr('x0', h.dim('n'), lib=lib)
    ref = h.spec('parareal', 'init_fwdbwd', P, x0, B, g['T'])
    if lib == 'np':
        h.same(go('initFwdBwdPass', B, x0), ref)
    else:
        h.same(go('pclqt_init_fwdbwdpass', B, x0, g['T'], *args(f)), ref)


@reg('C09', 'denseFwdBwdPass', 'pclqt_dense_fwdbwdpass', 'parareal fwdbwd fine sweep')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    B, N = bn(h)
    a = bound(h, lib, 'AbC')
    ref = h.spec('parareal', 'dense_fwdbwd', P, *a, N, g['T'])
    if lib == 'np':
        h.same(go('denseFwdBwdPass', N, *a), ref)
    else:
        h.same(go('pclqt_dense_fwdbwdpass', N, g['T'], *a, *args(f)), ref)


@reg('C09', 'coarseFwdBwdPass', 'pclqt_coarse_fwdbwdpass', 'parareal fwdbwd coarse sweep')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    a = bound(h, lib, 'AbC', 'F') + bound(h, lib, 'AbC', 'G')
    ref = h.spec('parareal', 'coarse_fwdbwd', P, *a, g['T'])
    if lib == 'np':
        h.same(go('coarseFwdBwdPass', *a), ref)
    else:
        h.same(go('pclqt_coarse_fwdbwdpass', g['T'], *a, *args(f)), ref)


@reg('C09', 'finalFwdBwdPass', 'pclqt_final_fwdbwdpass', 'parareal fwdbwd extraction')
def _(h, lib):
    f, P, g, go = setup(h, lib)
    B, N = bn(h)
    a = bound(h, lib, 'AbC')
    ref = h.spec('parareal', 'final_fwdbwd', P, *a, N, g['T'])
    if lib == 'np':
        h.same(go('finalFwdBwdPass', N, *a), ref)
    else:
        h.same(go('pclqt_final_fwdbwdpass', N, g['T'], *a, *args(f)), ref)


@reg('C09', 'fwdBwdPass', 'pclqt_fwdbwdpass', 'parareal fwdbwd')
def _(h, lib):
    h.opaque_steps()
    f, P, g, go = setup(h, lib)
    B, N = bn(h)
    I = h.int(h.dim('I', 1))
    x0 = h.arr('x0', h.dim('n'), lib=lib)
    ref = h.spec('parareal', 'fwdbwd', P, x0, B, N, I, g['T'])
    if lib == 'np':
        h.same(go('fwdBwdPass', B, N, x0, niter=I), ref)
    else:
        h.same(go('pclqt_fwdbwdpass', B, N, I, x0, g['T'], *args(f)), ref)


@ob('C09', MT + 'pclqt_backwardforwardpass', 'parareal backward then forward tf')
def _(h):
    h.opaque_steps()
    f, P, g, go = setup(h, 'tf')
    B, N = bn(h)
    I = h.int(h.dim('I', 1))
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    Ss, vs, K, d = go('pclqt_backwardpass', B, N, I, g['XT'], g['HT'], g['rT'], g['T'], *args(f))
    ref = go('pclqt_forwardpass', B, N, I, x0, g['T'], K, d, *args(f, 'FLc'))
    h.same(go('pclqt_backwardforwardpass', B, N, I, x0, g['XT'], g['HT'], g['rT'], g['T'], *args(f)), ref)


@ob('C09', MT + 'pclqt_backwardbwdfwdpass', 'parareal backward then value-function forward tf')
def _(h):
    h.opaque_steps()
    f, P, g, go = setup(h, 'tf')
    B, N = bn(h)
    I = h.int(h.dim('I', 1))
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    Ss, vs, K, d = go('pclqt_backwardpass', B, N, I, g['XT'], g['HT'], g['rT'], g['T'], *args(f))
    As, bs, Cs = go('pclqt_fwdbwdpass', B, N, I, x0, g['T'], *args(f))
    ref = h.func('clqt_tf', 'clqt_combine_fwdbwd', K, d, Ss, vs, As, bs, Cs)
    h.same(go('pclqt_backwardbwdfwdpass', B, N, I, x0, g['XT'], g['HT'], g['rT'], g['T'], *args(f)), ref)
