"""Obligations for parallel_control/condensing_np.py and condensing_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t

MN = 'parallel_control/condensing_np.py:'
MT = 'parallel_control/condensing_tf.py:'

# block length and number of missing steps in the last block
SHAPES = [(1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (3, 2), (4, 3)]


def horizon(h, Nc, R):
    q = h.dim('B', 1)
    return q, q * t.const(Nc) - t.const(R)


def problem(h, T, lib='np'):
    n, m, p = h.dim('n'), h.dim('m'), h.dim('p')
    h.symmetric('X', 'U')
    sh = (('F', n, n), ('c', n), ('L', n, m), ('H', p, n), ('r', p), ('X', p, p), ('U', m, m))
    if lib == 'tf':
        return [h.arr(s[0], T, *s[1:], lib='tf') for s in sh]
    return [h.seq(s[0], T, *s[1:]) for s in sh]


for _c, _r in SHAPES:
    def _f(h, Nc=_c, R=_r):
        B, T = horizon(h, Nc, R)
        pr = problem(h, T)
        q = h.dim('q')
        XT, HT, rT = h.arr('XT', q, q), h.arr('HT', q, h.dim('n')), h.arr('rT', q)
        lqt = h.obj('lqt_np', 'LQT', dict(zip(('F', 'c', 'L', 'H', 'r', 'X', 'U'), pr), XT=XT, HT=HT, rT=rT))
        cond = h.call(h.cls('condensing_np', 'LQTCondenser'))
        c = h.method(cond, 'condense', lqt, h.int(Nc))
        w = h.spec('condensing', 'lists', h.int(T), h.int(R), h.int(Nc), h.int(B), *pr)
        a = c.attrs
        h.same(tuple(a[k] for k in ('F', 'c', 'L', 'X', 'M', 'U')), w[:6], 'condensed problem')
        h.same((a['HT'], a['rT'], a['XT']), (HT, rT, XT), 'terminal cost')
        h.same(h.spec('condensing', 'gradients', a['X'], a['M'], a['U'], a['r'], a['s']), w[6], 'condensed reference')
        h.same((a['H'], a['Z']), h.spec('condensing', 'units', c), 'output matrices')
        h.same(tuple(cond.attrs[k] for k in ('Lambda_list', 'cbar_list', 'Lbar_list')), w[7:], 'recovery matrices')
    ob('C14', MN + 'LQTCondenser.condense', 'np_condense %d-%d' % (_c, _r))(_f)

    def _f(h, Nc=_c, R=_r):
        B, T = horizon(h, Nc, R)
        pr = problem(h, T, 'tf')
        o = h.func('condensing_tf', 'condense', *(pr + [h.int(Nc)]))
        Fs, cs, Ls, Hs, rs, Xs, Us, Ms, ss, La, cb, Lb = o
        w = h.spec('condensing', 'arrays', h.int(T), h.int(R), h.int(Nc), h.int(B), *pr)
        h.same((Fs, cs, Ls, Xs, Ms, Us), w[:6], 'condensed problem')
        h.same(h.spec('condensing', 'array_gradients', Xs, Ms, Us, rs, ss), w[6], 'condensed reference')
        h.same(Hs, h.spec('condensing', 'array_units', Xs), 'output matrices')
        h.same((La, cb, Lb), w[7:], 'recovery matrices')
    ob('C14', MT + 'condense', 'tf_condense %d-%d' % (_c, _r))(_f)

    def _f(h, Nc=_c, R=_r):
        B, T = horizon(h, Nc, R)
        n, m = h.dim('n'), h.dim('m')
        w = t.const(Nc)
        us, xs = h.seq('cu', B, w * m), h.seq('cx', B + t.ONE, n)
        La, cb, Lb = h.seq('La', B, w * n, n), h.seq('cb', B, w * n), h.seq('Lb', B, w * n, w * m)
        o = h.obj('condensing_np', 'LQTCondenser', dict(
            xdim=h.int(n), udim=h.int(m), Nc=h.int(Nc), T=h.int(T), Lambda_list=La, cbar_list=cb, Lbar_list=Lb))
        h.same(h.method(o, 'convertUX', us, xs), h.spec('condensing', 'recover', us, xs, La, cb, Lb, h.int(Nc), h.int(T)))
    ob('C14', MN + 'LQTCondenser.convertUX', 'np_recover %d-%d' % (_c, _r))(_f)

    def _f(h, Nc=_c, R=_r):
        B, T = horizon(h, Nc, R)
        n, m = h.dim('n'), h.dim('m')
        w = t.const(Nc)
        us, xs = h.arr('cu', B, w * m, lib='tf'), h.arr('cx', B + t.ONE, n, lib='tf')
        La, cb, Lb = [h.arr(s, B, *l, lib='tf') for s, l in (('La', [w * n, n]), ('cb', [w * n]), ('Lb', [w * n, w * m]))]
        u, x = h.spec('condensing', 'recover', us, xs, La, cb, Lb, h.int(Nc), h.int(T))
        h.same(h.func('condensing_tf', 'convertUX', us, xs, La, cb, Lb, h.int(T)),
               h.spec('condensing', 'stacked', u, x))
    ob('C14', MT + 'convertUX', 'tf_recover %d-%d' % (_c, _r))(_f)

for _c in (1, 2, 3):
    def _f(h, Nc=_c):
        N, k, l = h.dims('N k l')
        b = h.arr('b', N, t.const(Nc), k, l, lib='tf')
        h.same(h.func('condensing_tf', 'create_blkdiag', b), h.spec('condensing', 'blkdiag', b, h.int(Nc)))
    ob('C14', MT + 'create_blkdiag', 'tf_blkdiag %d' % _c)(_f)
