"""Obligations for parallel_control/sqp_np.py and sqp_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t

MN = 'parallel_control/sqp_np.py:'
MT = 'parallel_control/sqp_tf.py:'


def sizes(h):
    return h.dim('n', 3), h.dim('m', 1)


def problem(h, lib='np'):
    n, m = sizes(h)
    return h.fn('fun', [], lib), h.fn('con', [m], lib), h.arr('x0', n, lib=lib)


def batch_fn(h, name, lens, lib='tf'):
    """Function of a batch of points and parameters, row by row; a single
    point with its parameters in the reference."""
    t.SMOOTH.add(name)

    def g(ip, a, kw):
        if any(isinstance(x, Unknown) for x in a):
            return [x for x in a if isinstance(x, Unknown)][0]
        x, p = [ip.lib.arr(ip, y) for y in a]
        if x.rank == 1:
            args = (V_lam(x), V_lam(p))
            return make(lens, lambda *ix: t.lift_args('f', name, args + tuple(ix)), F, lib)

        def row(y, i):
            v = t.fresh(y.lens[1])
            return t.mklam([v], [y.lens[1]], y.at([i, t.var(v)]))
        return make([x.lens[0]] + lens, lambda i, *ix: t.lift_args('f', name, (row(x, i), row(p, i)) + tuple(ix)), F, lib)
    return PyFn(name, g)


def V_lam(x):
    return lamof(x)


def quadratic(h, lib='np', lead=()):
    n, m = sizes(h)
    lead = list(lead)
    return (h.arr('G', *(lead + [n, n]), lib=lib), h.arr('c', *(lead + [n]), lib=lib),
            h.arr('A', *(lead + [m, n]), lib=lib), h.arr('b', *(lead + [m]), lib=lib))


@ob('C13', MN + 'lqe_solve')
def np_kkt(h):
    q = quadratic(h)
    h.same(h.func('sqp_np', 'lqe_solve', *q), h.spec('sqp', 'kkt', *q))


@ob('C13', MT + 'lqe_solve')
def tf_kkt(h):
    q = quadratic(h, 'tf')
    h.same(h.func('sqp_tf', 'lqe_solve', *q), h.spec('sqp', 'kkt', *q))


@ob('C13', MT + 'lqe_solve', 'tf_kkt batched')
def tf_kkt_batch(h):
    q = quadratic(h, 'tf', [h.dim('Bt', 1)])
    h.same(h.func('sqp_tf', 'lqe_solve', *q), h.spec('sqp', 'batch_kkt', *q))


for _q in (True, False):
    def _f(h, q=_q):
        fun, con, x0 = problem(h)
        k = h.int(h.dim('K', 1))
        h.same(h.func('sqp_np', 'local_eq_fast', fun, con, x0, k, quiet=q), h.spec('sqp', 'fixed', fun, con, x0, k))
    ob('C13', MN + 'local_eq_fast', 'np_fast' + ('' if _q else ' verbose'))(_f)

    def _f(h, q=_q):
        fun, con, x0 = problem(h)
        k, tol = h.int(h.dim('K', 1)), h.scalar('tol')
        h.same(h.func('sqp_np', 'local_eq', fun, con, x0, k, tol, q), h.spec('sqp', 'until', fun, con, x0, k, tol))
    ob('C13', MN + 'local_eq', 'np_until' + ('' if _q else ' verbose'))(_f)

for _n, _s in (('bfgs_basic_update', 'bfgs'), ('bfgs_damped_update', 'damped')):
    def _f(h, n_=_n, s=_s):
        n, m = sizes(h)
        a = h.arr('B', n, n), h.arr('s', n), h.arr('y', n)
        h.same(h.func('sqp_np', n_, *a), h.spec('sqp', s, *a))
    ob('C13', MN + _n, _n)(_f)

def opaque(h, names):
    """The named functions of sqp_np become uninterpreted."""
    n, m = sizes(h)
    out = {}
    for nm in names:
        if nm == 'lqe_solve':
            fs = h.fn('qp_x', [n]), h.fn('qp_l', [m])
        else:
            fs = (h.fn(nm, [n, n]),)

        def call(ip, a, kw, fs=fs):
            r = tuple(f.fn(ip, a, {}) for f in fs)
            for x in r:
                if isinstance(x, Unknown):
                    return x
            return r if len(r) > 1 else r[0]

        def intr(ip, f, args, kw, call=call, nm=nm):
            b = ip.bind(f, args, kw)
            return call(ip, [b[k] for k in (('G', 'c', 'A', 'b') if nm == 'lqe_solve' else ('B', 's', 'y'))], {})
        h.member('parallel_control.sqp_np', nm)
        h.ip.intrinsics['parallel_control.sqp_np.' + nm] = intr
        out[nm] = PyFn(nm, call)
    return out


for _d in (True, False):
    def _f(h, d=_d):
        fun, con, x0 = problem(h)
        k, nb, tol = h.int(h.dim('K', 1)), h.int(h.dim('J', 1)), h.scalar('tol')
        o = opaque(h, ('lqe_solve', 'bfgs_damped_update', 'bfgs_basic_update'))
        h.same(h.func('sqp_np', 'bfgs_eq_bt', fun, con, x0, k, tol, nb, d, True),
               h.spec('sqp', 'bfgs_eq', fun, con, x0, k, tol, nb, o['lqe_solve'],
                      o['bfgs_damped_update' if d else 'bfgs_basic_update']))
    ob('C13', MN + 'bfgs_eq_bt', 'np_bfgs' + (' damped' if _d else ' basic'))(_f)


# ---- TensorFlow

def tf_single(h):
    n, m = sizes(h)
    return h.fn('fun', [], 'tf'), h.fn('con', [m], 'tf'), h.arr('x0', n, lib='tf'), h.arr('par', h.dim('q'), lib='tf')


def tf_batch(h):
    n, m = sizes(h)
    b = h.dim('Bt', 1)
    return (batch_fn(h, 'fun', []), batch_fn(h, 'con', [m]), h.arr('x0', b, n, lib='tf'),
            h.arr('par', b, h.dim('q'), lib='tf'))


def at_par(h, f, par):
    return PyFn('at', lambda ip, a, kw: ip.call(f, [a[0], par], {}))


@ob('C13', MT + 'fun_value_grad')
def tf_value_grad(h):
    fun, con, x, par = tf_single(h)
    h.same(h.func('sqp_tf', 'fun_value_grad', fun, x, par), h.spec('sqp', 'value_grad', at_par(h, fun, par), x))


@ob('C13', MT + 'con_value_jac')
def tf_value_jac(h):
    fun, con, x, par = tf_single(h)
    h.same(h.func('sqp_tf', 'con_value_jac', con, x, par), h.spec('sqp', 'value_grad', at_par(h, con, par), x))


@ob('C13', MT + 'lag_value_grad_hess')
def tf_hess(h):
    fun, con, x, par = tf_single(h)
    lam = h.arr('lam', h.dim('m'), lib='tf')
    h.same(h.func('sqp_tf', 'lag_value_grad_hess', fun, con, x, lam, par),
           h.spec('sqp', 'value_grad_hess', at_par(h, fun, par), at_par(h, con, par), x, lam))


@ob('C13', MT + 'fun_value_grad', 'tf_value_grad batched')
def tf_value_grad_b(h):
    fun, con, x, par = tf_batch(h)
    h.same(h.func('sqp_tf', 'fun_value_grad', fun, x, par, batch=True), h.spec('sqp', 'batch_value_grad', fun, x, par))


@ob('C13', MT + 'con_value_jac', 'tf_value_jac batched')
def tf_value_jac_b(h):
    fun, con, x, par = tf_batch(h)
    h.same(h.func('sqp_tf', 'con_value_jac', con, x, par, batch=True), h.spec('sqp', 'batch_value_grad', con, x, par))


@ob('C13', MT + 'lag_value_grad_hess', 'tf_hess batched')
def tf_hess_b(h):
    fun, con, x, par = tf_batch(h)
    lam = h.arr('lam', h.dim('Bt'), h.dim('m'), lib='tf')
    h.same(h.func('sqp_tf', 'lag_value_grad_hess', fun, con, x, lam, par, batch=True),
           h.spec('sqp', 'batch_value_grad_hess', fun, con, x, lam, par))


@ob('C13', MT + 'local_eq_fast')
def tf_fast(h):
    fun, con, x, par = tf_single(h)
    k = h.int(h.dim('K', 1))
    h.same(h.func('sqp_tf', 'local_eq_fast', fun, con, x, par, k),
           h.spec('sqp', 'trajectory', at_par(h, fun, par), at_par(h, con, par), x, k))


@ob('C13', MT + 'local_eq_fast', 'tf_fast batched')
def tf_fast_b(h):
    fun, con, x, par = tf_batch(h)
    k = h.int(h.dim('K', 1))
    h.same(h.func('sqp_tf', 'local_eq_fast', fun, con, x, par, k, batch=True),
           h.spec('sqp', 'batch_trajectory', fun, con, x, par, k))
