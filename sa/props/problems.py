"""Obligations for the problem containers."""
from ..obl import ob
from ..values import *
from .. import terms as t

Q = 'parallel_control/lqt_np.py:'
P = 'parallel_control/fsc_np.py:'
C = 'parallel_control/clqt_np.py:'
STEP = ('F', 'L', 'X', 'U', 'c', 'H', 'r', 'Z', 's', 'M')
FREE = ('XT', 'c', 'H', 'r', 'HT', 'rT', 'Z', 's', 'M')
ALL = ('F', 'L', 'X', 'U', 'XT', 'c', 'H', 'r', 'HT', 'rT', 'Z', 's', 'M')


def shapes(h, q='q'):
    n, m, p, q = h.dims('n m p ' + q)
    return dict(F=(n, n), L=(n, m), X=(p, p), U=(m, m), XT=(q, q), c=(n,), H=(p, n), r=(p,), HT=(q, n), rT=(q,),
                Z=(m, m), s=(m,), M=(p, m))


def build(h, listed, omitted=(), T=None, q='q', length=None):
    """Arguments of checkAndExpand; parameters in `listed` are lists."""
    sh = shapes(h, q)
    T = T or h.dim('T')
    a = {}
    for k in ALL:
        if k in omitted:
            continue
        if k in STEP and k in listed:
            a[k] = h.seq(k, (length or {}).get(k, T), *sh[k])
        else:
            a[k] = h.arr(k, *sh[k])
    return a


def create(h, a, T=None):
    kw = dict(a)
    pos = [kw.pop(k) for k in ('F', 'L', 'X', 'U')]
    if T is not None:
        kw['T'] = T
    return h.method(h.cls('lqt_np', 'LQT'), 'checkAndExpand', *pos, **kw)


def expect(h, a, T):
    return h.spec('problem', 'expand', tuple(a.get(k) for k in ALL), h.int(T))


def accept(h, a, given=True):
    T = h.dim('T')
    o = create(h, a, h.int(T) if given else None)
    if h.check(isinstance(o, ObjV), 'no problem object is returned'):
        return
    h.same(tuple(o.attrs[k] for k in ALL), expect(h, a, T))


def plan(name, listed, omitted=(), given=True, q='q'):
    def f(h):
        accept(h, build(h, listed, omitted, q=q), given)
    ob('C06', Q + 'LQT.checkAndExpand', name)(f)


plan('constant parameters', ())
plan('listed parameters', STEP, given=False)
plan('only the mandatory parameters', (), FREE)
plan('only the mandatory parameters, listed', STEP[:4], FREE, given=False)
for _k in STEP:
    plan('%s listed' % _k, (_k,), given=_k not in 'FLXU')
    plan('%s constant' % _k, tuple(x for x in STEP if x != _k), given=False)
    plan('%s listed, rest default' % _k, (_k,), tuple(x for x in FREE if x != _k), given=_k not in 'FLXU')
for _k in FREE:
    plan('%s omitted' % _k, STEP, (_k,), given=False, q='p')
    plan('%s omitted, constant' % _k, (), (_k,), q='p')


for _k in STEP:
    def _f(h, k=_k):
        T = h.dim('T', 2)
        for d in (1, -1):
            for anchor in 'FLXU':
                if anchor == k:
                    continue
                a = build(h, (anchor, k), length={k: T + t.const(d)})
                h.rejected(lambda: create(h, a), '%s of length T%+d, %s of length T' % (k, d, anchor))
            a = build(h, STEP, length={k: T + t.const(d)})
            h.rejected(lambda: create(h, a), '%s of length T%+d, the others of length T' % (k, d))
            if k not in 'FLXU':
                a = build(h, (k,), length={k: T + t.const(d)})
                h.rejected(lambda: create(h, a, h.int(T)), '%s of length T%+d, T given' % (k, d))
    ob('C06', Q + 'LQT.checkAndExpand', '%s of wrong length' % _k)(_f)


@ob('C06', Q + 'LQT.checkAndExpand', 'no horizon')
def no_horizon(h):
    a = build(h, ())
    h.rejected(lambda: create(h, a), 'constant F, L, X, U without T')


def wrong(sh, k, axis):
    s = list(sh[k])
    s[axis] = s[axis] + t.ONE
    return s


def steps(h, k, s, bad=None, ws=None, K=3):
    return PList([h.arr('%s_%d' % (k, i), *(ws if i == bad else s)) for i in range(K)])


for _k in ALL:
    def _f(h, k=_k):
        sh = shapes(h)
        for axis in range(len(sh[k])):
            if k not in STEP:
                a = build(h, ())
                a[k] = h.arr(k, *wrong(sh, k, axis))
                h.rejected(lambda: create(h, a, h.int(h.dim('T'))), '%s with a wrong axis %d' % (k, axis))
                continue
            for bad in range(3):
                a = build(h, ())
                for x in STEP:
                    a[x] = steps(h, x, sh[x], bad if x == k else None, wrong(sh, k, axis))
                h.rejected(lambda: create(h, a), '%s with a wrong axis %d at step %d' % (k, axis, bad))
    ob('C06', Q + 'LQT.checkAndExpand', '%s of wrong shape' % _k)(_f)


@ob('C06', Q + 'LQT.checkAndExpand', 'output dimension per step')
def varying(h):
    sh = shapes(h)
    a = build(h, ())
    n, m = h.dims('n m')
    for x in STEP:
        a[x] = steps(h, x, sh[x])
    for i in range(3):
        p = h.dim('p%d' % i)
        for k, s in (('X', (p, p)), ('H', (p, n)), ('r', (p,)), ('M', (p, m))):
            a[k].items[i] = h.arr('%s_%d' % (k, i), *s)
    o = create(h, a)
    h.same(tuple(o.attrs[k] for k in ALL), tuple(a[k] for k in ALL))


# ---- finite-state control

def tables(h, listed, T, other=None, LT=True):
    D, m = h.dims('D m')
    n = {'f': T, 'L': T}
    n.update(other or {})
    h.index('f', D)
    a = {}
    for k in 'fL':
        kw = {'nat': True} if k == 'f' else {}
        a[k] = h.seq(k, n[k], D, m, **({'int': True} if k == 'f' else {})) if k in listed else h.arr(k, D, m, **kw)
    return a['f'], a['L'], h.arr('LT', D) if LT else None


def make_fsc(h, *a, **kw):
    return h.method(h.cls('fsc_np', 'FSC'), 'checkAndExpand', *a, **kw)


for _l, _g in (('', True), ('f', False), ('L', False), ('fL', False)):
    for _t in (True, False):
        def _f(h, l=_l, g=_g, lt=_t):
            T = h.dim('T')
            a = tables(h, l, T, LT=lt)
            kw = {'T': h.int(T)} if g else {}
            o = make_fsc(h, *a, **kw) if lt else make_fsc(h, a[0], a[1], **kw)
            h.same((o.attrs['f'], o.attrs['L'], o.attrs['LT']), h.spec('problem', 'expand_fsc', a[0], a[1], a[2], h.int(T)))
        ob('C06', P + 'FSC.checkAndExpand', 'tables %s listed, LT %s' % (_l or 'not', 'given' if _t else 'default'))(_f)


@ob('C06', P + 'FSC.checkAndExpand', 'inconsistent tables')
def bad_tables(h):
    T = h.dim('T', 2)
    D, m = h.dims('D m')
    for d in (1, -1):
        a = tables(h, 'fL', T, {'L': T + t.const(d)})
        h.rejected(lambda: make_fsc(h, *a), 'L of length T%+d' % d)
    a = tables(h, '', T)
    h.rejected(lambda: make_fsc(h, *a), 'no horizon')
    h.rejected(lambda: make_fsc(h, a[0], a[1], h.arr('LT', D + t.ONE), h.int(T)), 'LT too long')
    for axis in range(2):
        s = [D, m]
        s[axis] = s[axis] + t.ONE
        for k in 'fL':
            for bad in range(3):
                f = steps(h, 'f', [D, m], bad if k == 'f' else None, s)
                L = steps(h, 'L', [D, m], bad if k == 'L' else None, s)
                h.rejected(lambda: make_fsc(h, f, L, a[2]), '%s with a wrong axis %d at step %d' % (k, axis, bad))


# ---- constructors keep their arguments

def keeps(name, target, mod, cls, names, arrays):
    def f(h):
        vals = []
        for k in names:
            vals.append(h.arr(k, h.dim('n'), h.dim('n')) if k in arrays else h.fn(k + '_', [h.dim('n')]) if k != 'T' else h.scalar('T'))
        o = h.call(h.cls(mod, cls), *vals)
        s = h.scalar('s')
        for k, v in zip(names, vals):
            h.check(k in o.attrs, 'field %s is missing' % k)
            if k not in o.attrs:
                continue
            w = o.attrs[k]
            if isinstance(v, PyFn):
                w, v = h.call(w, s), h.call(v, s)
            h.same(w, v, k)
    ob('C06', target + cls + '.__init__', name)(f)


keeps('lqr fields', Q, 'lqt_np', 'LQR', ('F', 'L', 'X', 'U', 'XT'), ('F', 'L', 'X', 'U', 'XT'))
keeps('lqt fields', Q, 'lqt_np', 'LQT', ALL, ALL)
keeps('clqr fields', C, 'clqt_np', 'CLQR', ('F', 'L', 'X', 'U', 'XT', 'T'), ('F', 'L', 'X', 'U', 'XT'))
keeps('clqt fields', C, 'clqt_np', 'CLQT', ('F', 'L', 'X', 'U', 'XT', 'c', 'H', 'r', 'HT', 'rT', 'T'), ('XT', 'HT', 'rT'))
keeps('fsc fields', P, 'fsc_np', 'FSC', ('f', 'L', 'LT'), ('f', 'L', 'LT'))
