"""Obligations for parallel_control/hjb_grid_1d_np.py and hjb_grid_1d_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t, lib as LB, loops, values as V

MN = 'parallel_control/hjb_grid_1d_np.py:'
MC = MN + 'HJB_Grid_1d.'
MT = 'parallel_control/hjb_grid_1d_tf.py:'


def pointwise(h, name, lib='np'):
    """Uninterpreted function of numbers, applied elementwise."""
    def g(ip, a, kw):
        xs = []
        for x in list(a) + [kw[k] for k in sorted(kw)]:
            if isinstance(x, Unknown):
                return x
            xs.append(ip.lib.arr(ip, x))
        lens = LB.bcast_lens(ip, xs)
        return make(lens, lambda *ix: t.lift_args('f', name, tuple(LB.bcast_at(x, list(ix)) for x in xs)), F, lib)
    return PyFn(name, g)


def model(h, lib='np'):
    f, L, LT = (pointwise(h, x, lib) for x in ('f', 'L', 'LT'))
    T = h.scalar('T', lib)
    x, u = h.dim('x', 3), h.dim('u', 1)
    xs, us = h.arr('xs', x, lib=lib), h.arr('us', u, lib=lib)
    B, N = h.int(h.dim('B', 1)), h.int(h.dim('N', 1))
    return f, L, LT, T, B, N, xs, us


def solver(h):
    f, L, LT, T, B, N, xs, us = model(h)
    o = h.obj('hjb_grid_1d_np', 'HJB_Grid_1d', dict(f=f, L=L, LT=LT, T=T, blocks=B, steps=N, fd_x_grid=xs))
    return o, (f, L, LT, T, B, N, xs, us)


def block(h, lib='np'):
    x = h.dim('x', 3)
    return h.arr('W', x, x, lib=lib)


@ob('C12', MC + '__init__')
def hjb_init(h):
    f, L, LT, T, B, N, xs, us = model(h)
    o = h.call(h.cls('hjb_grid_1d_np', 'HJB_Grid_1d'), f, L, LT, T, B, N, xs)
    for k, v in dict(f=f, L=L, LT=LT, T=T, blocks=B, steps=N, fd_x_grid=xs).items():
        w = h.ip.getattr(o, k)
        if isinstance(v, PyFn):
            h.check(w is v, 'field %s is not the argument %s' % (k, k))
        else:
            h.same(w, v, k)


for _n, _u in (('symfd', False), ('upwind', True)):
    def _f(h, n=_n, u=_u):
        o, a = solver(h)
        h.same(h.method(o, 'seqBackwardPass_' + n, a[-1]), h.spec('hjb', 'backward', *a, u))
    ob('C12', MC + 'seqBackwardPass_' + _n, 'np_' + _n)(_f)

    def _f(h, n=_n, u=_u):
        a = model(h, 'tf')
        h.same(h.func('hjb_grid_1d_tf', 'seq_bw_pass_' + n, *a), h.spec('hjb', 'backward', *a, u))
    ob('C12', MT + 'seq_bw_pass_' + _n, 'tf_' + _n)(_f)


@ob('C12', MC + 'seqBackwardPass_assoc')
def np_assoc(h):
    o, a = solver(h)
    W = block(h)
    h.same(h.method(o, 'seqBackwardPass_assoc', W), h.spec('hjb', 'block_backward', a[2], a[6], a[4], W))


@ob('C12', MC + 'parBackwardPass_init')
def np_elements(h):
    o, a = solver(h)
    W = block(h)
    h.same(h.method(o, 'parBackwardPass_init', W), h.spec('hjb', 'elements', a[2], a[6], a[4], W))


@ob('C12', MC + 'parBackwardPass_extract')
def np_extract(h):
    o, a = solver(h)
    x = h.dim('x', 3)
    E = h.seq('E', h.dim('B') + t.ONE, x, x)
    h.same(h.method(o, 'parBackwardPass_extract', E), h.spec('hjb', 'first_columns', E))


@ob('C12', MC + 'parBackwardPass')
def np_par(h):
    o, a = solver(h)
    W = block(h)
    h.same(h.method(o, 'parBackwardPass', W), h.spec('hjb', 'block_backward', a[2], a[6], a[4], W))


for _n, _s in (('par_backward_pass_scan', 'plain_suffixes'), ('par_backward_pass_scan_interp', 'suffixes')):
    def _f(h, n=_n, s=_s):
        x = h.dim('x', 3)
        E = h.seq('E', h.dim('N', 1), x, x)
        h.same(h.func('hjb_grid_1d_np', n, E), h.spec('hjb', s, E))
    ob('C12', MN + _n, _n)(_f)

for _n, _s in (('combine_V', 'fsc.combine'), ('combine_V2', 'fsc.combine'), ('combine_V_interp', 'hjb.combine_interp'),
               ('combine_V_interp2', 'hjb.combine_interp')):
    def _f(h, n=_n, s=_s):
        x = h.dim('x', 3)
        a, b = h.arr('A', x, x), h.arr('B', x, x)
        h.same(h.func('hjb_grid_1d_np', n, a, b), h.spec(*s.split('.'), a, b))
    ob('C12', MN + _n, 'np_' + _n)(_f)

for _n, _s in (('combine_V', 'fsc.batch_combine'), ('combine_V2', 'fsc.batch_combine'), ('combine_V_rev', 'fsc.batch_combine'),
               ('combine_V_interp', 'hjb.batch_interp'), ('combine_V_interp_rev', 'hjb.batch_interp')):
    def _f(h, n=_n, s=_s):
        x, n_ = h.dim('x', 3), h.dim('Bt', 1)
        a, b = h.arr('A', n_, x, x, lib='tf'), h.arr('B', n_, x, x, lib='tf')
        h.same(h.func('hjb_grid_1d_tf', n, *((b, a) if n.endswith('rev') else (a, b))), h.spec(*s.split('.'), a, b))
    ob('C12', MT + _n, 'tf_' + _n)(_f)

for _n in ('seq_bw_pass_assoc', 'par_bw_pass'):
    def _f(h, n=_n):
        f, L, LT, T, B, N, xs, us = model(h, 'tf')
        W = block(h, 'tf')
        h.same(h.func('hjb_grid_1d_tf', n, LT, B, xs, W), h.spec('hjb', 'block_backward', LT, xs, B, W))
    ob('C12', MT + _n, 'tf_' + _n)(_f)


# ---- direct shooting

@ob('C12', MN + 'fun_and_con_1')
def np_shoot_1(h):
    f, L, LT, T, B, N, xs, us = model(h)
    n = h.dim('N')
    a = (f, L, T, h.scalar('x0'), h.scalar('xf'), h.arr('a', n), h.arr('b', n))
    h.same(h.func('hjb_grid_1d_np', 'fun_and_con_1', *a), h.spec('hjb', 'zoh_plus_ramp', *a))


@ob('C12', MN + 'fun_and_con_2')
def np_shoot_2(h):
    f, L, LT, T, B, N, xs, us = model(h)
    n = h.dim('N')
    a = (f, L, T, h.scalar('x0'), h.scalar('xf'), h.arr('th', n + t.ONE))
    h.same(h.func('hjb_grid_1d_np', 'fun_and_con_2', *a), h.spec('hjb', 'continuous', *a))


@ob('C12', MT + 'fun_and_con_1')
def tf_shoot_1(h):
    f, L, LT, T, B, N, xs, us = model(h, 'tf')
    n, m = h.dim('N'), h.dim('Bt', 1)
    a = (f, L, T, h.arr('x0', m, lib='tf'), h.arr('xf', m, lib='tf'), h.arr('a', m, n, lib='tf'), h.arr('b', m, n, lib='tf'))
    h.same(h.func('hjb_grid_1d_tf', 'fun_and_con_1', *a), h.spec('hjb', 'batch_zoh', *a))


@ob('C12', MT + 'fun_and_con_2')
def tf_shoot_2(h):
    f, L, LT, T, B, N, xs, us = model(h, 'tf')
    n, m = h.dim('N'), h.dim('Bt', 1)
    a = (f, L, T, h.arr('x0', m, lib='tf'), h.arr('xf', m, lib='tf'), h.arr('th', m, n + t.ONE, lib='tf'))
    h.same(h.func('hjb_grid_1d_tf', 'fun_and_con_2', *a), h.spec('hjb', 'batch_continuous', *a))


# ---- value of a block: the quadratic-programming solver is uninterpreted and
# ---- identified by its objective, constraint, start and iteration count

TH = '@th'


def _lam(a):
    return lamof(a) if a.rank else a.body


def _single(h, n_iter):
    def f(ip, a, kw):
        fun, con, x0 = a[:3]
        x0 = ip.lib.arr(ip, x0)
        th = make(list(x0.lens), lambda *ix: t.sym(TH, *ix), F, 'im')
        o, c = ip.call(fun, [th], {}), ip.call(con, [th], {})
        for v in (o, c):
            if isinstance(v, Unknown):
                return v
        o, c = ip.lib.arr(ip, o), ip.lib.arr(ip, c)
        if o.rank != 0 or c.rank != 1:
            raise ShapeError('objective of rank %d and constraint of rank %d' % (o.rank, c.rank))
        return make(list(x0.lens), lambda i: t.lift_args('f', 'sqp', (o.body, lamof(c), lamof(x0), n_iter.body, i)), F, 'im')
    return f


def np_solver(h):
    def f(ip, fn, args, kw):
        b = ip.bind(fn, args, kw)
        r = _single(h, b['num_iter'])(ip, [b['fun'], b['con'], b['x0']], {})
        if isinstance(r, Unknown):
            return r
        return (r, b['num_iter'], Unknown('criterion of the solver'))
    h.ip.intrinsics['parallel_control.sqp_np.local_eq_fast'] = f


def tf_solver(h):
    def f(ip, fn, args, kw):
        b = ip.bind(fn, args, kw)
        if not ip.truth(b['batch']):
            raise t.Top('solver call without the batch flag')
        x0, m = ip.lib.arr(ip, b['x0']), b['num_iter']
        if x0.rank != 2:
            raise ShapeError('batched solver started from an array of rank %d' % x0.rank)
        # (the rows of the batch are independent: fun_and_con obligations)
        th = make(list(x0.lens), lambda i, j: t.sym(TH, j), F, 'tf')
        o, c = ip.call(b['fun'], [th, b['par']], {}), ip.call(b['con'], [th, b['par']], {})
        for v in (o, c):
            if isinstance(v, Unknown):
                return v
        o, c = ip.lib.arr(ip, o), ip.lib.arr(ip, c)
        if o.rank != 1 or c.rank != 2:
            raise ShapeError('batched objective of rank %d and constraint of rank %d' % (o.rank, c.rank))

        bv = t.fresh(x0.lens[0])
        b0 = t.var(bv)
        ob_ = o.at([b0])
        kv, jv = t.fresh(c.lens[1]), t.fresh(x0.lens[1])
        lc = t.mklam([kv], [c.lens[1]], c.at([b0, t.var(kv)]))
        lx = t.mklam([jv], [x0.lens[1]], x0.at([b0, t.var(jv)]))

        def theta(it, i, j):
            mp = {bv: i}
            r = t.lift_args('f', 'sqp', (t.subst(ob_, mp), t.subst_lam(lc, mp), t.subst_lam(lx, mp), m.body, j))
            q = t.lift_args('f', 'sqp_at', (it, t.subst(ob_, mp), j))
            return t.ite('eq', it - m.body + t.ONE, r, q)
        xs = make([m.body] + list(x0.lens), theta, F, 'tf')
        u = Unknown('multipliers of the solver')
        return (xs, u, u)
    h.ip.intrinsics['parallel_control.sqp_tf.local_eq_fast'] = f


def _call_solver(h, it):
    return PyFn('solve', _single(h, it))


for _l in ('np', 'tf'):
    for _m in (1, 2):
        def _f(h, m=_m, l=_l):
            f, L, LT, T, B, N, xs, us = model(h, l)
            (np_solver if l == 'np' else tf_solver)(h)
            zs = h.arr('zs', h.dim('z', 1), lib=l)
            it = h.int(h.dim('I', 1))
            h.same(h.func('hjb_grid_1d_' + l, 'V_eval_%d' % m, f, L, T, N, xs, zs, it),
                   h.spec('hjb', 'block_cost', _call_solver(h, it), m, f, L, T, N, xs, zs))
        ob('C12', (MN if _l == 'np' else MT) + 'V_eval_%d' % _m, '%s_V_eval_%d' % (_l, _m))(_f)


for _m in (1, 2, 3):
    def _f(h, m=_m):
        o, (f, L, LT, T, B, N, xs, us) = solver(h)
        np_solver(h)
        it = h.int(h.dim('I', 1))
        h.same(h.method(o, 'directShootingValueFunction', h.int(m), it),
               h.spec('hjb', 'block_cost', _call_solver(h, it), 2 if m == 2 else 1, f, L, h.spec('hjb', 'quotient', T, B), N, xs, xs))
    ob('C12', MC + 'directShootingValueFunction', 'np_block_value_%d' % _m)(_f)


@ob('C12', MC + 'directShootingValueFunction', 'np_block_value default')
def np_block_value_default(h):
    o, (f, L, LT, T, B, N, xs, us) = solver(h)
    np_solver(h)
    h.same(h.method(o, 'directShootingValueFunction'),
           h.spec('hjb', 'block_cost', _call_solver(h, h.int(10)), 2, f, L, h.spec('hjb', 'quotient', T, B), N, xs, xs))


@ob('C12', MT + 'direct_shooting_block_V')
def tf_block_value(h):
    f, L, LT, T, B, N, xs, us = model(h, 'tf')
    tf_solver(h)
    it = h.int(h.dim('I', 1))
    h.same(h.func('hjb_grid_1d_tf', 'direct_shooting_block_V', f, L, T, N, xs, it),
           h.spec('hjb', 'block_cost', _call_solver(h, it), 2, f, L, T, N, xs, xs))
