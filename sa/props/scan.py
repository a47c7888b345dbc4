"""C01 (associative scan) and C17 (Runge-Kutta integrator)."""
import os
from ..obl import ob
from ..values import *
from .. import values as V, terms as t, interp as IN

S = 'parallel_control/my_assoc_scan.py:my_assoc_scan'


def scan_words(h, n, reverse):
    """Scan in the free monoid: every operand is the word of positions it covers."""
    h.ip.intrinsics.pop('parallel_control.my_assoc_scan.my_assoc_scan', None)
    h.ip.MAX_UNROLL = 5000

    def cat(ip, a, kw):
        x, y = a
        if isinstance(x, str) and isinstance(y, str):
            return x + y
        raise t.Top('operands of the scan operator')
    items = ['<%d>' % k for k in range(n)]
    arg = PList(list(items))
    f = h.member('parallel_control.my_assoc_scan', 'my_assoc_scan')
    out = h.ip.call(f, [PyFn('op', cat), arg], {'reverse': True} if reverse else {})
    where = 'length %d%s' % (n, ', reverse' if reverse else '')
    if isinstance(out, Unknown):
        h.undecided(out.reason, where)
        return
    got = out.items if isinstance(out, PList) else list(out) if isinstance(out, tuple) else None
    if got is None or any(not isinstance(x, (str, type(None))) for x in got):
        h.undecided('result of the scan is not an explicit list', where)
        return
    for k in range(n):
        want = ''.join(items[k:] if reverse else items[:k + 1])
        g = got[k] if k < len(got) else 'missing'
        h.check(g == want, 'position %d combines %s, expected %s' % (k, clip(g), clip(want)), where)
        if g != want:
            break
    h.check(len(got) == n, '%d results' % len(got), where)
    h.check(arg.items == items, 'the input list is changed', where)


def clip(s):
    s = str(s)
    return s if len(s) < 120 else s[:60] + '...' + s[-40:]


def lengths():
    if os.environ.get('VERIF_TIER') == 'thorough':
        return [range(a, a + 32) for a in range(1, 513, 32)] + [[767, 768, 769], [1000, 1023], [1024, 1025]]
    return [range(1, 33), range(33, 65), range(65, 97), range(97, 130), [255, 256, 257], [511, 512, 513]]


for _i, _r in enumerate(lengths()):
    for _rev in (False, True):
        def _f(h, r=_r, rev=_rev):
            for n in r:
                scan_words(h, n, rev)
        ob(['C01', 'C19'] if 1 in _r else 'C01', S, 'words %d..%d%s' % (min(_r), max(_r), ' reverse' if _rev else ''))(_f)


def rhs(h, lib, n):
    """Uninterpreted right-hand side of any number of arguments."""
    def g(ip, a, kw):
        xs = [ip.lib.arr(ip, x) for x in a]
        if kw:
            raise t.Top('keyword arguments of the right-hand side')
        return make([n], lambda i: t.lift_args('f', 'rhs%d' % len(xs), tuple(V.lamof(x) for x in xs) + (i,)), F, lib)
    return PyFn('rhs', g)


def rk(h, mod, lib, kw, ref):
    h.ip.intrinsics.clear()
    n = h.dim('n')
    x, dt = h.arr('x', n, lib=lib), h.scalar('dt', lib)
    f = rhs(h, lib, n)
    a = {'t': h.scalar('t0', lib), 'param': h.arr('par', h.dim('q'), lib=lib)}
    k = {q: a[q] for q in kw}
    fn = h.member('parallel_control.' + mod, 'rk4')
    got = h.ip.call(fn, [f, dt, x], dict(k))
    want = h.spec('rk', ref, f, dt, x, *[a[q] for q in kw])
    h.same(got, want)


for _kw, _ref in (((), 'x_only'), (('t',), 'with_time'), (('param',), 'with_param'), (('t', 'param'), 'with_both')):
    def _f(h, kw=_kw, ref=_ref):
        rk(h, 'diffeq_np', 'np', kw, ref)
    ob('C17', 'parallel_control/diffeq_np.py:rk4', 'rk4 ' + _ref)(_f)


@ob('C17', 'parallel_control/diffeq_tf.py:rk4')
def rk4_tf(h):
    rk(h, 'diffeq_tf', 'tf', ('t', 'param'), 'with_both')


@ob('C17', 'parallel_control/diffeq_tf.py:rk4')
def rk4_tf_default(h):
    h.ip.intrinsics.clear()
    n = h.dim('n')
    x, dt = h.arr('x', n, lib='tf'), h.scalar('dt', 'tf')
    f = rhs(h, 'tf', n)
    fn = h.member('parallel_control.diffeq_tf', 'rk4')
    h.same(h.ip.call(fn, [f, dt, x], {}), h.spec('rk', 'with_both', f, dt, x, num(0.0), num(0.0)))
