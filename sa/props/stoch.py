"""Obligations for the stochastic model generators."""
from ..obl import ob
from ..values import *
from .. import terms as t, lib as L

G = 'parallel_control/ge_model_np.py:'
FM = 'parallel_control/finite_model_np.py:FiniteModel.'
LM = 'parallel_control/linear_model_np.py:LinearModel.'
TM = 'parallel_control/text_model.py:TextModel.'


def seed(h):
    return h.scalar('seed')


@ob('C18', G + 'GEModel.__init__')
def burst_channel(h):
    o = h.call(h.cls('ge_model_np', 'GEModel'))
    Pi, Po, pr = [o.attrs[k] for k in ('Pi', 'Po', 'prior')]
    h.same((Pi, Po, pr), h.spec('stoch', 'burst_channel'), 'model')
    h.same(h.spec('stoch', 'row_sums', Pi), h.spec('stoch', 'ones', h.int(4)), 'rows of Pi')
    h.same(h.spec('stoch', 'row_sums', Po), h.spec('stoch', 'ones', h.int(4)), 'rows of Po')
    h.same(h.spec('stoch', 'sum_of', pr), num(1), 'prior')


@ob('C18', G + 'GEModel.genData')
def hmm_path(h):
    n, m, T = h.dims('n m T')
    a = h.arr('pr', n), h.arr('Pi', n, n), h.arr('Po', n, m)
    h.positive('pr', 'Pi', 'Po')
    o = h.obj('ge_model_np', 'GEModel', dict(prior=a[0], Pi=a[1], Po=a[2], seed=seed(h)))
    h.same(h.method(o, 'genData', h.int(T)), h.spec('stoch', 'hmm_path', *a, seed(h), h.int(T)))
    h.same(h.method(o, 'genData', h.int(T)), h.spec('stoch', 'hmm_path', *a, seed(h), h.int(T)), 'second call')


@ob('C18', G + 'GEModel.genData', 'own path')
def own_path(h):
    o = h.call(h.cls('ge_model_np', 'GEModel'), seed(h))
    T = h.int(h.dim('T'))
    a = [o.attrs[k] for k in ('prior', 'Pi', 'Po')]
    h.same(h.method(o, 'genData', T), h.spec('stoch', 'hmm_path', *a, seed(h), T))


@ob('C18', G + 'get_b_list')
def bits(h):
    h.index('xs', t.const(4))
    x = h.arr('xs', h.dim('T'), nat=True)
    h.same(h.func('ge_model_np', 'get_b_list', x), h.spec('stoch', 'bits', x))


for _T, _n in ((1, 3), (1, 6), (2, 3)):
    def _f(h, T=_T, n=_n):
        o = h.call(h.cls('finite_model_np', 'FiniteModel'), seed(h))
        ref = h.spec('stoch', 'scene', seed(h), h.int(T), h.int(n))
        h.same(h.method(o, 'genData', h.int(T), h.int(n)), ref)
        h.same(h.method(o, 'genData', h.int(T), h.int(n)), ref, 'second call')
    ob('C18', FM + 'genData', 'scene %d/%d' % (_T, _n))(_f)


for _N in (1, 2, 3, 4):
    def _f(h, N=_N):
        o = h.call(h.cls('linear_model_np', 'LinearModel'), seed(h))
        ref = h.spec('stoch', 'wander', seed(h), h.int(N))
        h.same(h.method(o, 'genData', h.int(N)), ref)
        h.same(h.method(o, 'genData', h.int(N)), ref, 'second call')
    ob('C18', LM + 'genData', 'wander %d' % _N)(_f)


# ---- text

def letters(h, n, order=1):
    """Model over the alphabet 0..n-1; words are tuples of letters."""
    h.ip.words = True
    c = t.const_val(n)

    def index(ip, w):
        s = t.ZERO
        for x in (w if isinstance(w, tuple) else (w,)):
            s = t.pmul(s, n) + L.to_int(ip, x)
        return num(s, I)
    h.index('word', t.const(int(c) ** order) if c is not None else n)

    def look(ip, w):
        return make([], lambda: t.sym('word', *[L.to_int(ip, x) for x in w]), I, 'np')
    f = dict(char_dict=L.Table(index), cond_dict=L.Table(look), errp=h.scalar('errp'), order=h.int(order))
    if c is None:
        v = t.fresh(n)
        f['chars'] = PList(None, n, v, num(t.var(v), I))
    else:
        c = int(c)
        f['chars'] = PList([num(i, I) for i in range(c)])
        f['cond_chars'] = PList([tuple(num(i // c ** (order - 1 - q) % c, I) for q in range(order)) for i in range(c ** order)])
    h.positive('errp')
    return h.obj('text_model', 'TextModel', f)


def text(h, n, length):
    h.index('w', n)
    k = t.const_val(length)
    if k is None:
        return h.seq('w', length, nat=True, dt=I)
    t.INT_SYMS.add('w')
    t.NAT_SYMS.add('w')
    return tuple(make([], lambda: t.sym('w', t.const(i)), I, 'np') for i in range(int(k)))


@ob('C18', TM + 'get1stOrderPo')
def letter_noise(h):
    n = h.dim('n')
    o = letters(h, n)
    P = h.method(o, 'get1stOrderPo')
    h.same(P, h.spec('stoch', 'letter_noise', h.int(n), o.attrs['errp']))
    h.same(h.spec('stoch', 'row_sums', P), h.spec('stoch', 'ones', h.int(n)), 'rows')


def normalised(h, P, n):
    h.same(h.spec('stoch', 'row_sums', P), h.spec('stoch', 'ones', h.int(n)), 'rows')


for _k in (None, 1, 2):
    _l = 'any length' if _k is None else 'length %d' % _k

    def _f(h, k=_k):
        n = h.dim('n')
        K = t.const(k) if k else h.dim('K', 2)
        o, w = letters(h, n), text(h, n, K)
        p = h.method(o, 'get1stOrderPrior', w)
        h.same(p, h.spec('stoch', 'letter_counts', h.int(n), w))
        h.same(h.spec('stoch', 'sum_of', p), num(1), 'sum')
    ob('C18', TM + 'get1stOrderPrior', 'letter prior, ' + _l)(_f)

    def _f(h, k=_k):
        n = h.dim('n')
        K = t.const(k) if k else h.dim('K', 2)
        o, w = letters(h, n), text(h, n, K)
        P = h.method(o, 'get1stOrderPi', w)
        h.same(P, h.spec('stoch', 'pair_counts', h.int(n), w))
        normalised(h, P, n)
    ob('C18', TM + 'get1stOrderPi', 'letter transitions, ' + _l)(_f)


for _n, _o in ((2, 1), (2, 2), (3, 2), (2, 3)):
    def _f(h, n=_n, o=_o):
        m = letters(h, t.const(n), o)
        P = h.method(m, 'getNthOrderPo')
        h.same(P, h.spec('stoch', 'word_noise', h.int(n), h.int(o), m.attrs['errp']))
        normalised(h, P, t.const(n ** o))
    ob('C18', TM + 'getNthOrderPo', 'word emissions %d/%d' % (_n, _o))(_f)

    for _k in (None, _o + 1) if _n ** _o <= 4 else ():
        def _f(h, n=_n, o=_o, k=_k):
            m, w = letters(h, t.const(n), o), text(h, t.const(n), t.const(k) if k else h.dim('K', o + 1))
            p = h.method(m, 'getNthOrderPrior', w)
            h.same(p, h.spec('stoch', 'word_counts', h.int(n ** o), h.int(o), m.attrs['cond_dict'], w))
            h.same(h.spec('stoch', 'sum_of', p), num(1), 'sum')
        ob('C18', TM + 'getNthOrderPrior', 'word prior %d/%d/%s' % (_n, _o, _k or 'any'))(_f)

        def _f(h, n=_n, o=_o, k=_k):
            m, w = letters(h, t.const(n), o), text(h, t.const(n), t.const(k) if k else h.dim('K', o + 1))
            P = h.method(m, 'getNthOrderPi', w)
            h.same(P, h.spec('stoch', 'word_pairs', h.int(n), h.int(o), m.attrs['cond_dict'], w))
            normalised(h, P, t.const(n ** o))
        ob('C18', TM + 'getNthOrderPi', 'word transitions %d/%d/%s' % (_n, _o, _k or 'any'))(_f)

    def _f(h, n=_n, o=_o):
        c = 'abc'[:n]
        m = h.call(h.cls('text_model', 'TextModel'), c, num(t.const(t.Fraction(1, 10))), h.int(o))
        words = ['']
        for _ in range(o):
            words = [x + y for x in words for y in c]
        h.same(m.attrs['cond_chars'], PList(list(words)), 'words')
        h.same(m.attrs['order'], h.int(o), 'order')
        for i, x in enumerate(words):
            h.same(h.ip.getitem(m.attrs['cond_dict'], x), h.int(i), 'index of ' + x)
        for i, x in enumerate(c):
            h.same(h.ip.getitem(m.attrs['char_dict'], x), h.int(i), 'index of ' + x)
    ob('C18', TM + '__init__', 'word index %d/%d' % (_n, _o))(_f)


@ob('C18', TM + 'textToIndex')
def text_to_index(h):
    n = h.dim('n')
    o, w = letters(h, n), text(h, n, h.dim('K'))
    h.same(h.method(o, 'textToIndex', w), h.spec('stoch', 'codes', h.int(n), w))


@ob('C18', TM + 'indexToText')
def index_to_text(h):
    n = h.dim('n')
    o = letters(h, n)
    h.index('ys', h.dim('n'))
    for K in (1, 3):
        y = h.arr('ys', t.const(K), nat=True)
        h.same(PList(list(h.method(o, 'indexToText', y))), h.spec('stoch', 'chars', h.int(n), y), 'length %d' % K)


@ob('C18', TM + 'makeNoisyText')
def noisy_text(h):
    n = h.dim('n')
    o = letters(h, n)
    for K in (1, 3):
        w = text(h, n, t.const(K))
        h.ip.ambient_rng = None
        a = h.method(o, 'makeNoisyText', w)
        h.ip.ambient_rng = None
        h.same(PList(list(a)), h.spec('stoch', 'garble', h.int(n), o.attrs['errp'], w), 'length %d' % K)
