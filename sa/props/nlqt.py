"""Obligations for nlqt_np.py, nlqt_tf.py and the nonlinear models."""
from ..obl import ob
from ..values import *
from .. import terms as t
from .lqt_np import lqt as np_lqt
from .lqt_tf import lqt as tf_lqt, CAN

MN = 'parallel_control/nlqt_np.py:'
MT = 'parallel_control/nlqt_tf.py:'
ON = 'parallel_control/nonlinear_model_np.py:NonlinearModel.'
OT = 'parallel_control/nonlinear_model_tf.py:'


def np_model(h):
    n, m = h.dim('n'), h.dim('m')
    return h.fn('f', [n]), h.fn('fx', [n, n]), h.fn('fu', [n, m])


def row_fn(h, name, lens):
    """Uninterpreted function of batches, applied row by row (of single
    points in the reference)."""
    def g(ip, a, kw):
        for x in a:
            if isinstance(x, Unknown):
                return x
        xs = [ip.lib.arr(ip, y) for y in a]
        if all(x.rank == 1 for x in xs):
            return make(lens, lambda *ix: t.lift_args('f', name, tuple(lamof(x) for x in xs) + tuple(ix)), F, 'np')

        def row(y, i):
            v = t.fresh(y.lens[1])
            return t.mklam([v], [y.lens[1]], y.at([i, t.var(v)]))
        for x in xs:
            if x.rank != 2:
                raise ip.lib.ShapeError('model evaluated at arrays of rank %d at %s' % (x.rank, ip.where()))
        for x in xs[1:]:
            ip.lib.contract_len(ip, x.lens[0], xs[0].lens[0], 'batch sizes of the model arguments')
        return make([xs[0].lens[0]] + list(lens),
                    lambda i, *ix: t.lift_args('f', name, tuple(row(x, i) for x in xs) + tuple(ix)), F, 'tf')
    return PyFn(name, g)


def tf_model(h):
    n, m = h.dim('n'), h.dim('m')
    return row_fn(h, 'f', [n]), row_fn(h, 'fx', [n, n]), row_fn(h, 'fu', [n, m])


def plain(h, q):
    """Without control offset and cross terms (their solvers have
    obligations of their own); keeps the composition small."""
    T, n, m, p = h.dims('T n m p')

    def lst(lens, f):
        v = t.fresh(T)
        return PList(None, T, v, make(lens, f))
    q.attrs.update(Z=lst([m, m], lambda i, j: t.delta(i - j)), s=lst([m], lambda i: t.ZERO),
                   M=lst([p, m], lambda i, j: t.ZERO))
    return q


def tracker(h, gen=True):
    f = np_model(h)
    q = np_lqt(h)
    if not gen:
        plain(h, q)
    mod = h.obj('nonlinear_model_np', 'NonlinearModel', dict(zip(('f', 'Fx', 'Fu'), f)))
    return f, q, h.obj('nlqt_np', 'NLQT', dict(lqt=q, model=mod))


def nominal(h, lib='np'):
    T, n, m = h.dim('T'), h.dim('n'), h.dim('m')
    if lib == 'tf':
        return h.arr('u', T, m, lib='tf'), h.arr('x', T + t.ONE, n, lib='tf')
    return h.seq('u', T, m), h.seq('x', T + t.ONE, n)


def copy(h, q, F, c, L):
    a = dict(q.attrs)
    a.update(F=F, c=c, L=L)
    return h.obj('lqt_np', 'LQT', a)


def parts(q):
    return tuple(q.attrs[k] for k in ('F', 'c', 'L', 'X', 'U', 'XT', 'H', 'r', 'HT', 'rT', 'Z', 's', 'M'))


@ob('C15', MN + 'NLQT.linearize')
def np_linearize(h):
    f, q, o = tracker(h)
    u, x = nominal(h)
    T = h.int(h.dim('T'))
    w = copy(h, np_lqt(h), *h.spec('nlqt', 'linearize', *(list(f) + [u, x, T])))
    h.method(o, 'linearize', u, x)
    h.same(parts(q), parts(w), 'problem')


for _k in (0, 1, 2):
    def _f(h, k=_k):
        f, q, o = tracker(h, k == 2)
        u, x = nominal(h)
        T = h.int(h.dim('T'))
        w = copy(h, q, *h.spec('nlqt', 'linearize', *(list(f) + [u, x, T])))
        x0 = h.spec('nlqt', 'first', x)
        h.same(h.method(o, 'iterate', u, x, h.int(k)), h.spec('nlqt', 'iterate', w, x0, h.int(k)))
    ob('C15', MN + 'NLQT.iterate', 'np_iterate %d' % _k)(_f)


@ob('C15', MN + 'NLQT.simulate')
def np_simulate(h):
    f, q, o = tracker(h)
    u, x = nominal(h)
    x0 = h.arr('x0', h.dim('n'))
    h.same(h.method(o, 'simulate', x0, u), h.spec('nlqt', 'simulate', f[0], x0, u, h.int(h.dim('T'))))


@ob('C15', MN + 'NLQT.cost')
def np_cost(h):
    f, q, o = tracker(h)
    u, x = nominal(h)
    x0 = h.arr('x0', h.dim('n'))
    h.same(h.method(o, 'cost', x0, u), h.spec('nlqt', 'cost', q, f[0], x0, u, h.int(h.dim('T'))))


@ob('C15', MT + 'nlqt_linearize')
def tf_linearize(h):
    f = tf_model(h)
    T, n, m = h.dim('T'), h.dim('n'), h.dim('m')
    u, x = h.arr('u', T, m, lib='tf'), h.arr('x', T, n, lib='tf')
    h.same(h.func('nlqt_tf', 'nlqt_linearize', *([u, x] + list(f))),
           h.spec('nlqt', 'linearize_arrays', *(list(f) + [u, x, h.int(T)])))


@ob('C15', MT + 'nlqt_simulate')
def tf_simulate(h):
    f = tf_model(h)
    u, x = nominal(h, 'tf')
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    h.same(h.func('nlqt_tf', 'nlqt_simulate', x0, u, f[0]),
           h.spec('nlqt', 'arr', h.spec('nlqt', 'simulate', f[0], x0, u, h.int(h.dim('T')))))


@ob('C15', MT + 'nlqt_cost')
def tf_cost(h):
    f = tf_model(h)
    g, q = tf_lqt(h)
    u, x = nominal(h, 'tf')
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    h.same(h.func('nlqt_tf', 'nlqt_cost', x0, u, f[0], *[g[k] for k in CAN[3:]]),
           h.spec('nlqt', 'cost', q, f[0], x0, u, h.int(h.dim('T'))))


for _n, _k in (('nlqt_iterate_seq', 2), ('nlqt_iterate_par_1', 0), ('nlqt_iterate_par_2', 1)):
    def _f(h, n_=_n, k=_k):
        f = tf_model(h)
        g, q = tf_lqt(h)
        u, x = nominal(h, 'tf')
        T = h.int(h.dim('T'))
        w = copy(h, q, *h.spec('nlqt', 'linearize', *(list(f) + [u, x, T])))
        r = h.spec('nlqt', 'iterate', w, h.spec('nlqt', 'first', x), h.int(k))
        h.same(h.func('nlqt_tf', n_, *([u, x] + list(f) + [g[k] for k in CAN[3:]])), h.spec('nlqt', 'arrs', *r))
    ob('C15', MT + _n, 'tf_' + _n)(_f)

# ---- the car model


def car(h):
    o = h.obj('nonlinear_model_np', 'NonlinearModel', dict(dt=h.scalar('dt')))
    return o, h.arr('x', t.const(4)), h.arr('u', t.const(2))


@ob('C15', ON + 'f')
def np_car(h):
    o, x, u = car(h)
    h.same(h.method(o, 'f', x, u), h.spec('nlqt', 'car', x, u, h.scalar('dt')))


@ob('C15', ON + 'Fx')
def np_car_x(h):
    o, x, u = car(h)
    h.same(h.method(o, 'Fx', x, u), h.spec('nlqt', 'wrt_state', h.ip.getattr(o, 'f'), x, u))


@ob('C15', ON + 'Fu')
def np_car_u(h):
    o, x, u = car(h)
    h.same(h.method(o, 'Fu', x, u), h.spec('nlqt', 'wrt_control', h.ip.getattr(o, 'f'), x, u))


for _n, _s in (('nonlinear_model_f', 'cars'), ('nonlinear_model_Fx', 'batch_wrt_state'), ('nonlinear_model_Fu', 'batch_wrt_control')):
    def _f(h, n_=_n, s=_s):
        N = h.dim('N')
        a = h.arr('x', N, t.const(4), lib='tf'), h.arr('u', N, t.const(2), lib='tf'), h.scalar('dt', 'tf')
        h.same(h.func('nonlinear_model_tf', n_, *a), h.spec('nlqt', s, *a))
    ob('C15', OT + _n, 'tf_' + _n)(_f)
