"""Obligations for the model builders and the discretisation."""
from ..obl import ob
from ..values import *
from .. import terms as t

D = 'parallel_control/disc.py:'
LM = 'parallel_control/linear_model_np.py:LinearModel.'
LT = 'parallel_control/linear_model_tf.py:'
MM = 'parallel_control/mass_model_np.py:MassModel'
NM = 'parallel_control/nonlinear_model_np.py:NonlinearModel.'
FM = 'parallel_control/finite_model_np.py:FiniteModel.'
CN = 'parallel_control/cnonlin_models_np.py:'
CT = 'parallel_control/cnonlin_models_tf.py:'
STEP = ('F', 'L', 'X', 'U', 'c', 'H', 'r', 'Z', 's', 'M')


def noise(h, q):
    n, m = h.dim('n'), t.ONE if q == 'scalar' else h.dim('m')
    a = [h.arr('F', n, n), h.arr('L', n, m)]
    if q == 'none':
        return a, None, h.spec('models', 'unit', h.int(m))
    if q == 'scalar':
        s = h.scalar('qc', 'py')
        return a, s, h.spec('models', 'scaled', s)
    s = h.arr('Qc', m, m)
    return a, s, s


for _q in ('none', 'scalar', 'matrix'):
    def _f(h, q=_q):
        a, arg, Qc = noise(h, q)
        dt = h.scalar('dt')
        A, Q = h.ip.unpack(h.func('disc', 'lti_disc', a[0], a[1], arg, dt), 2, [False, False])
        h.same(A, h.spec('models', 'discrete', a[0], dt), 'A')
        h.same(h.spec('models', 'lyapunov', a[0], Q), h.spec('models', 'noise_balance', a[0], a[1], Qc, dt), 'Q')
    ob('C16', D + 'lti_disc', 'lti_disc ' + _q)(_f)

for _g in (True, False):
    def _f(h, g=_g):
        a, arg, Qc = noise(h, 'matrix')
        n = h.dim('n')
        dt = h.scalar('dt')
        G = h.arr('G', n, h.dim('k')) if g else h.spec('models', 'unit', h.int(n))
        A, B, Q = h.ip.unpack(h.func('disc', 'lti_disc_u', a[0], a[1], G if g else None, arg, dt), 3, [False] * 3)
        h.same(A, h.spec('models', 'discrete', a[0], dt), 'A')
        h.same(B, h.spec('models', 'input_gain', a[0], G, dt), 'B')
        h.same(h.spec('models', 'lyapunov', a[0], Q), h.spec('models', 'noise_balance', a[0], a[1], Qc, dt), 'Q')
    ob('C16', D + 'lti_disc_u', 'lti_disc_u' + ('' if _g else ' default'))(_f)


def fields(q):
    return tuple(q.attrs[k] for k in STEP), q.attrs['XT'], q.attrs['HT'], q.attrs['rT']


for _s in (1, 2, 3, None):
    def _f(h, s=_s):
        k = h.int(s) if s else h.int(h.dim('S'))
        xy = h.arr('xy', t.const(2), h.dim('N'))
        o = h.call(h.cls('linear_model_np', 'LinearModel'))
        q, x0 = h.ip.unpack(h.method(o, 'getLQT', xy, k), 2, [False, False])
        h.same(fields(q) + (x0,), h.spec('models', 'linear_lqt', xy, k))
    ob('C16', LM + 'getLQT', 'linear_lqt %s' % (_s or 'any'))(_f)

    def _f(h, s=_s):
        k = h.int(s) if s else h.int(h.dim('S'))
        xyt = h.arr('xyt', t.const(3), h.dim('N'))
        o = h.call(h.cls('nonlinear_model_np', 'NonlinearModel'))
        q, x0 = h.ip.unpack(h.method(o, 'getLQT', xyt, k), 2, [False, False])
        h.same(fields(q) + (x0,), h.spec('models', 'car_lqt', xyt, k))
    ob('C16', NM + 'getLQT', 'car_lqt %s' % (_s or 'any'))(_f)

for _n in (1, 2, 3, 4):
    def _f(h, n=_n):
        o = h.call(h.cls('mass_model_np', 'MassModel'), h.int(n))
        A, B, x0 = h.ip.unpack(h.spec('models', 'chain', h.int(n)), 3, [False] * 3)
        h.same((o.attrs['Fc'], o.attrs['Lc'], o.attrs['x0']), (A, B, x0), 'model')
    ob('C16', MM + '.__init__', 'chain %d' % _n)(_f)

MASS_DT = {5: (1, 5), 3: (3, 10), 4: (3, 11)}

for _n, _T in ((1, 5), (2, 5), (1, 3), (2, 4)):
    def _f(h, n=_n, K=_T):
        o = h.call(h.cls('mass_model_np', 'MassModel'), h.int(n))
        A, B, x0 = h.ip.unpack(h.spec('models', 'chain', h.int(n)), 3, [False] * 3)
        T = h.int(K)
        dt, Tf = num(t.const(t.Fraction(*MASS_DT[K]))), num(t.const(1))
        q, y0 = h.ip.unpack(h.method(o, 'getLQT', dt, Tf), 2, [False, False])
        h.same(fields(q), h.spec('models', 'mass_lqt', A, B, h.int(n), dt, T), 'problem')
        h.same(y0, x0, 'initial state')
    ob('C16', MM + '.getLQT', 'mass_lqt %d/%d' % (_n, _T))(_f)


@ob('C16', FM + 'getFSC')
def game(h):
    tr = h.arr('track', h.dim('n'), h.dim('T'))
    o = h.call(h.cls('finite_model_np', 'FiniteModel'))
    q = h.method(o, 'getFSC', tr)
    h.same((q.attrs['f'], q.attrs['L'], q.attrs['LT']), h.spec('models', 'game', tr))


@ob('C16', NM + 'initialGuess')
def still(h):
    from .lqt_np import lqt
    q = lqt(h)
    o = h.call(h.cls('nonlinear_model_np', 'NonlinearModel'))
    x0 = h.arr('x0', h.dim('n'))
    h.same(h.method(o, 'initialGuess', q, x0), h.spec('models', 'still', x0, *[h.int(h.dim(k)) for k in ('n', 'm', 'T')]))


@ob('C16', NM + 'initialGuess')
def tracking(h):
    """With init_to_zero=False the guessed states carry the reference positions and heading."""
    from .lqt_np import lqt
    q = lqt(h)
    o = h.call(h.cls('nonlinear_model_np', 'NonlinearModel'))
    x0 = h.arr('x0', h.dim('n'))
    us, xs = h.ip.unpack(h.method(o, 'initialGuess', q, x0, False), 2, [False, False])
    h.same(h.spec('models', 'guess', us, xs, h.int(h.dim('T'))),
           h.spec('models', 'guess_reference', q.attrs['r'], x0, *[h.int(h.dim(k)) for k in ('m', 'T')]))


@ob('C16', LM + 'getCLQT')
def np_curve(h):
    o = h.call(h.cls('linear_model_np', 'LinearModel'))
    q, x0 = h.ip.unpack(h.method(o, 'getCLQT'), 2, [False, False])
    s = h.scalar('s')
    a = q.attrs
    h.same((h.spec('models', 'evaluate', tuple(a[k] for k in ('F', 'L', 'X', 'U', 'c', 'H')), s), a['XT'], a['HT'], x0, a['T']),
           h.spec('models', 'fourier_reference'), 'problem')
    h.same((h.spec('models', 'evaluate', (a['r'],), s)[0], a['rT']), h.spec('models', 'curve', s), 'reference')


@ob('C16', LT + 'get_clqt')
def tf_curve(h):
    q = h.ip.unpack(h.func('linear_model_tf', 'get_clqt'), 12, [False] * 12)
    x0, T, XT, HT, rT, F_, L, X, U, c, H_, r = q
    s = h.scalar('s', 'tf')
    h.same((h.spec('models', 'evaluate', (F_, L, X, U, c, H_), s), XT, HT, x0, T), h.spec('models', 'fourier_reference'), 'problem')
    h.same((h.spec('models', 'evaluate', (r,), s)[0], rT), h.spec('models', 'curve', s), 'reference')


for _l, _m, _p in (('np', 'cnonlin_models_np', CN), ('tf', 'cnonlin_models_tf', CT)):
    for _n, _s, _g in (('linear_model', 'lin1d', (-2, 2, -2, 2)), ('velocity_model', 'velocity1d', (-3, 3, -2, 2)),
                       ('upwind_model', 'upwind1d', (-1, 1, 0, 1))):
        def _f(h, l=_l, m=_m, n_=_n, s=_s, g=_g):
            nx, nu = h.int(h.dim('nx', 2)), h.int(h.dim('nu', 2))
            q = h.func(m, n_, nx, nu)
            x, u = h.scalar('x', l), h.scalar('u', l)
            h.same(h.spec('models', 'at', q, x, u), h.spec('models', s, x, u), 'model')
            h.same(h.spec('models', 'grids', q), (h.spec('models', 'grid', h.int(g[0]), h.int(g[1]), nx),
                                                 h.spec('models', 'grid', h.int(g[2]), h.int(g[3]), nu)), 'grids')
        ob('C16', _p + _n, '%s %s' % (_l, _n))(_f)

    def _f(h, l=_l, m=_m):
        a = h.scalar('inf', l), h.scalar('dt', l), h.arr('g', h.dim('nx', 1), lib=l)
        h.positive('dt')
        h.same(h.func(m, 'upwind_model_block_V', *a), h.spec('models', 'block_value', *a))
    ob('C16', _p + 'upwind_model_block_V', '%s block_V' % _l)(_f)

for _n, _s in ((2, 1), (5, 1), (5, 2), (6, 3)):
    def _f(h, n=_n, s=_s):
        o = h.call(h.cls('nonlinear_model_np', 'NonlinearModel'))
        h.same(h.method(o, 'genData', h.int(n), h.int(s)), h.spec('models', 'figure', h.int(n), h.int(s)))
    ob('C16', NM + 'genData', 'figure %d/%d' % (_n, _s))(_f)
