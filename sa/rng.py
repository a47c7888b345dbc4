"""Model of NumPy random streams.

A stream is (seed, position): the k-th uniform (normal) number of a stream is
an uninterpreted function of both, so generated data are a term over the seed
exactly when the source re-creates the stream from it."""

from . import terms as t, lib as L
from .libfns import reg, LIB
from .values import *

SRC = '''
class Stream:
    def __init__(self, seed, kind):
        self.seed = seed
        self.kind = kind
        self.pos = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        u, n = _draw('u', self.seed, self.kind, self.pos, size)
        self.pos = self.pos + n
        return low + (high - low) * u

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def random_sample(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        u, n = _draw('n', self.seed, self.kind, self.pos, size)
        self.pos = self.pos + n
        return loc + scale * u

    def standard_normal(self, size=None):
        return self.normal(0.0, 1.0, size)

    def rand(self, *shape):
        return self.uniform(0.0, 1.0, shape)

    def randn(self, *shape):
        return self.normal(0.0, 1.0, shape)

    def choice(self, a, size=None, replace=True, p=None):
        u, n = _draw('u', self.seed, self.kind, self.pos, size)
        self.pos = self.pos + n
        return _select(a, p, u)

    def restart(self, seed=None):
        self.seed = seed
        self.pos = 0
'''


def draw(ip, a, k):
    what, seed, kind, pos, size = a
    if seed is None:
        seed = make([], lambda: t.sym('entropy'), I, 'np')
    s, k0, p = L.arr(ip, seed).body, L.arr(ip, kind).body, L.to_int(ip, pos)
    head = 'rng_' + what
    if size is None:
        return make([], lambda: t.app(head, k0, s, p), F, 'np'), num(t.ONE, I)
    if isinstance(size, PList):
        if size.items is None:
            raise t.Top('shape of random numbers')
        size = tuple(size.items)
    lens = [L.to_int(ip, x) for x in (size if isinstance(size, tuple) else (size,))]
    n = t.ONE
    for x in lens:
        n = t.pmul(n, x)

    def at(*ix):
        q = t.ZERO
        for i, l in zip(ix, lens):
            q = t.pmul(q, l) + i
        return t.app(head, k0, s, p + q)
    return make(lens, at, F, 'np'), num(n, I)


def select(ip, a, k):
    items, p, u = a
    vals = None
    if isinstance(items, (PList, tuple)) or isinstance(items, Arr) and items.rank:
        vals = L.arr(ip, items)
        n = vals.lens[0]
    else:
        n = L.to_int(ip, items)
    if p is None:
        pl = make([n], lambda i: t.precip(n), F, 'np')
    else:
        pl = L.arr(ip, p)
        if pl.rank != 1 or L.same_len(pl.lens[0], n) is False:
            raise ShapeError('choice: a and p must have same size at %s' % ip.where())
    lam = lamof(pl)
    u = L.arr(ip, u)
    r = make(u.lens, lambda *ix: t.lift_args('f', 'choice', (lam, u.at(ix))), I, 'np')
    return r if vals is None else L.getitem(ip, vals, r)


def stream_class(ip):
    c = getattr(ip, 'stream_cls', None)
    if c is None:
        import ast
        m = ModuleV('specs.rng', '<rng>', ast.parse(SRC))
        from .interp import Env
        m.env = Env(None, m)
        m.env.d['_draw'] = PyFn('draw', draw)
        m.env.d['_select'] = PyFn('select', select)
        ip.exec_module(m)
        c = ip.stream_cls = m.env.d['Stream']
    return c


def new(ip, seed, kind):
    o = ip.construct(stream_class(ip), [seed, num(t.const(kind), I)], {})
    return o


def ambient(ip):
    o = getattr(ip, 'ambient_rng', None)
    if o is None:
        o = ip.ambient_rng = new(ip, None, 0)
        o.birth = -1
    return o


@reg('np.random.default_rng')
def default_rng(ip, a, k):
    s = a[0] if a else k.get('seed')
    if isinstance(s, ObjV):
        return s
    return new(ip, s, 1)


@reg('np.random.RandomState')
def random_state(ip, a, k):
    return new(ip, a[0] if a else k.get('seed'), 0)


def _method(name, meth):
    def f(ip, a, k):
        return ip.call(ip.getattr(ambient(ip), meth), list(a), {x: k[x] for x in list(k)})
    LIB['np.random.' + name] = f


for _n in ('uniform', 'random', 'random_sample', 'normal', 'standard_normal', 'rand', 'randn', 'choice'):
    _method(_n, _n)
_method('seed', 'restart')
