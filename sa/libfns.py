"""Library function table (numpy, scipy, jax, TensorFlow, tfp, math)."""

from . import terms as t
from .terms import Top
from .values import *
from . import values as V
from . import loops
from . import lib as L

LIB = {}
OPAQUE = {}


def reg(*names):
    def d(f):
        for n in names:
            LIB[n] = f
        return f
    return d


def pick(a, k, pos, name, default=None):
    if name in k:
        return k[name]
    if len(a) > pos:
        return a[pos]
    return default


class Args(object):
    """Positional/keyword argument access for library models."""
    def __init__(self, ip, a, k):
        self.ip, self.a, self.k = ip, a, k

    def arr(self, pos, name, default=None):
        v = pick(self.a, self.k, pos, name, default)
        if v is None:
            raise Top('argument %s' % name)
        return L.arr(self.ip, v)

    def get(self, pos, name, default=None):
        return pick(self.a, self.k, pos, name, default)

    def int(self, pos, name, default=None):
        v = pick(self.a, self.k, pos, name)
        if v is None:
            return default
        return L.static_int(self.ip, v)

    def flag(self, pos, name, default=False):
        v = pick(self.a, self.k, pos, name)
        if v is None:
            return default
        c = t.const_val(L.arr(self.ip, v).body)
        if c is None:
            raise Top('symbolic flag %s' % name)
        return c != 0


def setlib(v, lib):
    if isinstance(v, Arr):
        if v.lib != lib and not (v.lib == 'py' and lib == 'np' and v.rank == 0):
            return Arr(v.vars, v.lens, v.body, v.dt, lib)
        return v
    if isinstance(v, tuple):
        return tuple(setlib(x, lib) for x in v)
    if isinstance(v, PList):
        if v.items is not None:
            return PList([setlib(x, lib) for x in v.items])
        r = PList(None, v.length, v.var, setlib(v.elem, lib))
        r.tail = [setlib(x, lib) for x in v.tail]
        return r
    return v


NOCOPY = ('np.asarray', 'np.atleast_1d', 'np.random')


# arguments that do not change the value
NEUTRAL = set('name validate_args parallel_iterations back_prop swap_memory infer_shape copy overwrite_a overwrite_b '
              'overwrite_ab check_finite fallback_to_while_loop subok out_type order optimize flush file end '
              'end sep autograph jit_compile experimental_relax_shapes reduce_retracing'.split())


class ReadDict(dict):
    """Keyword arguments, with a record of the ones read."""
    def __init__(self, *a):
        dict.__init__(self, *a)
        self.seen = set()

    def __contains__(self, n):
        self.seen.add(n)
        return dict.__contains__(self, n)

    def __getitem__(self, n):
        self.seen.add(n)
        return dict.__getitem__(self, n)

    def get(self, n, d=None):
        self.seen.add(n)
        return dict.get(self, n, d)

    def pop(self, n, *d):
        self.seen.add(n)
        return dict.pop(self, n, *d)

    def items(self):
        self.seen.update(self.keys())
        return dict.items(self)

    def unread(self):
        return [n for n in dict.keys(self) if n not in self.seen]


class ReadList(list):
    """Positional arguments, with a record of the ones read."""
    def __init__(self, *a):
        list.__init__(self, *a)
        self.seen = set()

    def __getitem__(self, i):
        if isinstance(i, slice):
            self.seen.update(range(len(self))[i])
        else:
            self.seen.add(i if i >= 0 else i + len(self))
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen.update(range(len(self)))
        return list.__iter__(self)

    def unread(self):
        return [i for i in range(len(self)) if i not in self.seen]


def call(ip, path, a, k):
    for x in list(a) + list(k.values()):
        if isinstance(x, Unknown):
            return x
    p = path
    imm = False
    if p.startswith('jnp.'):
        imm = True
        if p not in LIB:
            p = 'np.' + p[4:]
    elif p.startswith('jax.scipy.linalg.'):
        imm = True
        p = 'np.linalg.' + p[len('jax.scipy.linalg.'):]
    elif p.startswith('tf.'):
        imm = True
        if p not in LIB and p.startswith('tf.math.'):
            p = 'tf.' + p[8:]
        if p not in LIB and p.startswith('tf.experimental.numpy.'):
            p = 'np.' + p[len('tf.experimental.numpy.'):]
    f = LIB.get(p)
    if f is None:
        raise Top('library function %s' % path)
    ra, rk = ReadList(a), ReadDict(k)
    r = f(ip, ra, rk)
    for n in rk.unread():
        if n not in NEUTRAL:
            raise Top('argument %s of %s is not modelled' % (n, path))
    if ra.unread():
        raise Top('argument %d of %s is not modelled' % (ra.unread()[0], path))
    if imm:
        return setlib(r, 'im')
    return r


# --------------------------------------------------------------------------
# elementwise

def ew(name, fn, dt=None):
    def f(ip, a, k):
        return L.elementwise(ip, fn, [a[0] if a else k['x']], dt)
    for n in name.split():
        LIB[n] = f


def app1(h):
    return lambda x: t.app(h, x)


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arccos'):
    ew('np.%s tf.%s math.%s' % (_n, _n, _n), app1(_n), F)
ew('math.atan tf.atan', app1('arctan'), F)
ew('np.abs np.absolute tf.abs math.fabs np.fabs', app1('abs'))
ew('np.sign tf.sign', app1('sign'))
ew('np.log2 math.log2', lambda x: t.pmul(t.app('log', x), t.precip(t.app('log', t.const(2)))), F)
ew('np.log10 math.log10', lambda x: t.pmul(t.app('log', x), t.precip(t.app('log', t.const(10)))), F)
ew('math.ceil', app1('ceil'), I)
ew('math.floor', app1('floor'), I)
ew('np.ceil tf.ceil', app1('ceil'))
ew('np.floor tf.floor', app1('floor'))
ew('np.round tf.round', app1('round'))
ew('np.square tf.square', lambda x: t.pmul(x, x))
ew('tf.negative np.negative', lambda x: -x)
ew('np.isnan tf.is_nan', lambda x: t.app('isnan', x), B)
ew('np.isfinite tf.is_finite', lambda x: t.app('isfinite', x), B)
ew('np.isinf tf.is_inf', lambda x: t.app('isinf', x), B)
ew('np.unwrap', app1('unwrap'))
ew('np.logical_not tf.logical_not', lambda x: t.ONE - x, B)
ew('np.real tf.real', lambda x: x)


def mlog(ip, a, k):
    r = L.elementwise(ip, app1('log'), [a[0]], F)
    if len(a) > 1:
        return L.binop(ip, 'Div', r, L.elementwise(ip, app1('log'), [a[1]], F))
    return r


LIB['math.log'] = mlog


def ew2(names, fn, dt=None):
    def f(ip, a, k):
        x = a[0] if a else k.get('x', k.get('x1'))
        y = a[1] if len(a) > 1 else k.get('y', k.get('x2'))
        return L.elementwise(ip, fn, [x, y], dt)
    for n in names.split():
        LIB[n] = f


def bop(names, op):
    def f(ip, a, k):
        x = a[0] if a else k.get('x')
        y = a[1] if len(a) > 1 else k.get('y')
        r = L.binop(ip, op, L.arr(ip, x), L.arr(ip, y))
        return r
    for n in names.split():
        LIB[n] = f


bop('np.add tf.add', 'Add')
bop('np.subtract tf.subtract', 'Sub')
bop('np.multiply tf.multiply', 'Mult')
bop('np.divide tf.divide np.true_divide tf.truediv', 'Div')
bop('np.power tf.pow np.float_power', 'Pow')
bop('np.floor_divide tf.floordiv', 'FloorDiv')
bop('np.mod tf.math.mod np.remainder tf.floormod', 'Mod')
ew2('np.maximum tf.maximum', L.p_max)
ew2('np.minimum tf.minimum', L.p_min)
ew2('np.logical_and tf.logical_and', t.pmul, B)
ew2('np.logical_or tf.logical_or', lambda x, y: x + y - t.pmul(x, y), B)
ew2('np.logical_xor tf.logical_xor', lambda x, y: x + y - t.pscale(t.pmul(x, y), 2), B)
for _n, _o in (('less_equal', 'LtE'), ('greater_equal', 'GtE'), ('less', 'Lt'), ('greater', 'Gt'),
               ('equal', 'Eq'), ('not_equal', 'NotEq')):
    ew2('np.%s tf.%s' % (_n, _n), (lambda o: lambda x, y: L.p_cmp(o, x, y))(_o), B)
ew2('math.pow', L.p_pow, F)
ew2('np.arctan2 math.atan2 tf.atan2', lambda x, y: t.app('arctan2', x, y), F)


@reg('tf.add_n')
def add_n(ip, a, k):
    xs = ip.iterate(a[0])
    r = xs[0]
    for x in xs[1:]:
        r = L.binop(ip, 'Add', r, x)
    return r


@reg('np.where', 'tf.where')
def where(ip, a, k):
    A = Args(ip, a, k)
    if A.get(1, 'x') is None:
        raise Top('one-argument where')
    c, x, y = A.arr(0, 'condition'), A.arr(1, 'x'), A.arr(2, 'y')
    return L.elementwise(ip, lambda p, q, r: t.ite('b', p, q, r) if as_bool(p) is None else
                         as_bool(p)(q, r), [c, x, y], promote(x.dt, y.dt))


def as_bool(p):
    """Selection by a 0/1 term whose structure is a plain conditional."""
    it = t.as_ite(p)
    if it is not None:
        a, b = t.const_val(it.args[1]), t.const_val(it.args[2])
        if (a, b) == (1, 0):
            return lambda q, r: t.ite(it.head, it.args[0], q, r)
        if (a, b) == (0, 1):
            return lambda q, r: t.ite(it.head, it.args[0], r, q)
        f1, f2 = as_bool(it.args[1]), as_bool(it.args[2])
        if f1 is not None and f2 is not None:
            return lambda q, r: t.ite(it.head, it.args[0], f1(q, r), f2(q, r))
    c = t.const_val(p)
    if c is not None:
        return (lambda q, r: q) if c != 0 else (lambda q, r: r)
    return None


@reg('tf.cond')
def tf_cond(ip, a, k):
    A = Args(ip, a, k)
    c = ip.truth(A.get(0, 'pred'))
    f, g = A.get(1, 'true_fn'), A.get(2, 'false_fn')
    if c is True:
        return ip.call(f, [], {})
    if c is False:
        return ip.call(g, [], {})
    return ip.merge(c, ip.call(f, [], {}), ip.call(g, [], {}))


@reg('np.clip', 'tf.clip_by_value')
def clip(ip, a, k):
    r = L.elementwise(ip, L.p_max, [a[0], a[1]])
    return L.elementwise(ip, L.p_min, [r, a[2]])


# --------------------------------------------------------------------------
# creation

def dtype_kw(k, a=(), pos=None, default=F):
    d = k.get('dtype')
    if d is None and pos is not None and len(a) > pos:
        d = a[pos]
    r = L.dtype_of(d)
    return r.dt if r is not None else default


def filler(val, pos):
    def f(ip, a, k):
        sh = pick(a, k, 0, 'shape')
        return make(L.shape_arg(ip, [sh]), lambda *ix: val, dtype_kw(k, a, pos), 'np')
    return f


LIB['np.zeros'] = LIB['tf.zeros'] = LIB['np.empty'] = filler(t.ZERO, 1)
LIB['np.ones'] = LIB['tf.ones'] = filler(t.ONE, 1)


def filler_like(val):
    def f(ip, a, k):
        x = L.arr(ip, pick(a, k, 0, 'a') if a or 'a' in k else k.get('input'))
        return make(x.lens, lambda *ix: val, dtype_kw(k, a, 1, x.dt), 'np' if x.rank else 'py')
    return f


LIB['np.zeros_like'] = LIB['tf.zeros_like'] = LIB['np.empty_like'] = filler_like(t.ZERO)
LIB['np.ones_like'] = LIB['tf.ones_like'] = filler_like(t.ONE)


@reg('np.full', 'tf.fill')
def full(ip, a, k):
    A = Args(ip, a, k)
    v = L.arr(ip, pick(a, k, 1, 'fill_value', k.get('value')))
    lens = L.shape_arg(ip, [pick(a, k, 0, 'shape', k.get('dims'))])
    return make(lens, lambda *ix: L.bcast_at(v, ix), dtype_kw(k, a, 2, v.dt), 'np')


@reg('np.full_like')
def full_like(ip, a, k):
    x, v = L.arr(ip, a[0]), L.arr(ip, pick(a, k, 1, 'fill_value'))
    return make(x.lens, lambda *ix: L.bcast_at(v, ix), dtype_kw(k, a, 2, x.dt), 'np')


@reg('np.eye', 'tf.eye', 'np.identity')
def eye(ip, a, k):
    n = L.to_int(ip, pick(a, k, 0, 'N', k.get('num_rows', k.get('n'))))
    m = pick(a, k, 1, 'M', k.get('num_columns'))
    m = n if m is None else L.to_int(ip, m)
    if k.get('k') is not None or len(a) > 2:
        raise Top('eye with offset')
    bs = k.get('batch_shape')
    bl = L.shape_arg(ip, [bs]) if bs is not None else []
    return make(bl + [n, m], lambda *ix: t.delta(ix[-2] - ix[-1]), dtype_kw(k), 'np')


@reg('np.array')
def np_array(ip, a, k):
    v = L.arr(ip, pick(a, k, 0, 'object'))
    d = L.dtype_of(k.get('dtype') if 'dtype' in k else (a[1] if len(a) > 1 else None))
    v = L.cast(ip, v, d)
    return Arr(v.vars, v.lens, v.body, v.dt, 'np')


@reg('np.asarray', 'np.ascontiguousarray')
def np_asarray(ip, a, k):
    v = L.arr(ip, a[0])
    d = L.dtype_of(k.get('dtype') if 'dtype' in k else (a[1] if len(a) > 1 else None))
    if v.lib == 'np' and (d is None or d.dt == v.dt):
        return v
    v = L.cast(ip, v, d)
    return Arr(v.vars, v.lens, v.body, v.dt, 'np')


@reg('np.copy')
def np_copy(ip, a, k):
    return L.m_copy(ip, L.arr(ip, a[0]))


@reg('tf.convert_to_tensor', 'tf.constant', 'tf.identity', 'tf.Variable', 'tf.stop_gradient')
def tf_convert(ip, a, k):
    v = pick(a, k, 0, 'value', k.get('input'))
    d = L.dtype_of(k.get('dtype') if 'dtype' in k else (a[1] if len(a) > 1 else None))
    if isinstance(v, tuple) and any(isinstance(x, (tuple, PList)) for x in v):
        pass
    v = L.cast(ip, L.arr(ip, v), d)
    r = Arr(v.vars, v.lens, v.body, v.dt, 'im')
    sh = k.get('shape')
    if sh is not None:
        lens = L.shape_arg(ip, [sh])
        if v.rank == 0:
            return make(lens, lambda *ix: v.body, r.dt, 'im')
        return L.reshape(ip, r, lens)
    return r


@reg('tf.cast')
def tf_cast(ip, a, k):
    return L.cast(ip, a[0], pick(a, k, 1, 'dtype'))


@reg('np.arange', 'tf.range')
def arange(ip, a, k):
    a = [x for x in a if not isinstance(x, DType)]
    xs = [L.arr(ip, x) for x in a]
    for nm in ('start', 'stop', 'limit', 'step', 'delta'):
        if nm in k:
            xs.append(L.arr(ip, k[nm]))
    dt = promote(*[x.dt for x in xs])
    if 'dtype' in k:
        dt = dtype_kw(k)
    ints = all(t.is_int_term(x.body) for x in xs)
    if not ints:
        # float range: length ceil((hi-lo)/step)
        lo, hi, st = (xs + [num(1)])[:3] if len(xs) > 1 else (num(0), xs[0], num(1))
        n = t.app('ceil', t.pmul(hi.body - lo.body, t.precip(st.body)))
        ip.event('float_range', (lo.body, hi.body, st.body))
        return make([n], lambda i: lo.body + t.pmul(st.body, i), F, 'np')
    it = L.make_range(ip, xs)
    e = it.elem
    return make([it.length], lambda i: t.subst(e.body, {it.var: i}), dt, 'np')


@reg('np.linspace', 'tf.linspace')
def linspace(ip, a, k):
    lo, hi = L.arr(ip, pick(a, k, 0, 'start')), L.arr(ip, pick(a, k, 1, 'stop'))
    nv = pick(a, k, 2, 'num')
    n = L.to_int(ip, nv) if nv is not None else t.const(50)
    if not Args(ip, a, k).flag(3, 'endpoint', True):
        den = n
    else:
        den = n - t.ONE
    if lo.rank or hi.rank:
        raise Top('linspace of arrays')
    d = t.precip(den) if t.const_val(den) != 0 else t.ZERO
    r = make([n], lambda i: lo.body + t.pmul(t.pmul(hi.body - lo.body, i), d), F, 'np')
    dt = pick(a, k, 5, 'dtype')
    if dt is not None:
        r = L.cast(ip, r, dt)
    return r


SIZES = [None]


@reg('np.logspace')
def logspace(ip, a, k):
    if SIZES[0] is not None:
        return SIZES[0](ip, list(a), dict(k.items()))
    r = linspace(ip, a[:3], {x: k[x] for x in k if x != 'base'})
    b = k.get('base')
    b = L.arr(ip, b).body if b is not None else t.const(10)
    return L.elementwise(ip, lambda x: L.p_pow(b, x), [r], F)


# --------------------------------------------------------------------------
# shape manipulation

@reg('tf.shape', 'np.shape', 'tf.shape_n')
def tf_shape(ip, a, k):
    x = L.arr(ip, pick(a, k, 0, 'input'))
    return PList([num(l, I) for l in x.lens])


@reg('np.ndim', 'tf.rank')
def ndim(ip, a, k):
    return num(L.arr(ip, a[0]).rank)


@reg('np.size', 'tf.size')
def size(ip, a, k):
    return num(L.prod(L.arr(ip, a[0]).lens), I)


@reg('np.expand_dims', 'tf.expand_dims')
def expand_dims(ip, a, k):
    A = Args(ip, a, k)
    x = L.arr(ip, pick(a, k, 0, 'a', k.get('input')))
    ax = A.get(1, 'axis')
    ax = L.static_int(ip, ax)
    if ax < 0:
        ax += x.rank + 1
    if not 0 <= ax <= x.rank:
        raise ShapeError('expand_dims axis out of range at %s' % ip.where())
    lens = list(x.lens)
    lens.insert(ax, t.ONE)
    return make(lens, lambda *ix: x.at(ix[:ax] + ix[ax + 1:]), x.dt, x.lib if x.lib != 'py' else 'np')


@reg('np.squeeze', 'tf.squeeze')
def squeeze(ip, a, k):
    return L.squeeze(ip, L.arr(ip, a[0]), pick(a, k, 1, 'axis'))


@reg('np.reshape', 'tf.reshape')
def reshape(ip, a, k):
    x = L.arr(ip, pick(a, k, 0, 'a', k.get('tensor')))
    sh = pick(a, k, 1, 'shape', k.get('newshape'))
    return L.reshape(ip, x, L.shape_arg(ip, [sh]))


@reg('np.ravel')
def ravel(ip, a, k):
    return L.m_flatten(ip, L.arr(ip, a[0]))


@reg('np.transpose', 'tf.transpose')
def transpose(ip, a, k):
    x = L.arr(ip, pick(a, k, 0, 'a'))
    p = pick(a, k, 1, 'axes', k.get('perm'))
    if p is not None:
        p = [L.static_int(ip, y) for y in ip.iterate(p)]
    return L.transpose(ip, x, p)


@reg('tf.linalg.matrix_transpose', 'tf.linalg.adjoint')
def matrix_transpose(ip, a, k):
    x = L.arr(ip, a[0])
    if x.rank < 2:
        raise ShapeError('matrix_transpose of rank %d at %s' % (x.rank, ip.where()))
    return L.swap_last(x)


@reg('np.swapaxes')
def swapaxes(ip, a, k):
    x = L.arr(ip, a[0])
    p = list(range(x.rank))
    i, j = L.static_int(ip, a[1]), L.static_int(ip, a[2])
    p[i], p[j] = p[j], p[i]
    return L.transpose(ip, x, p)


@reg('np.moveaxis')
def moveaxis(ip, a, k):
    x = L.arr(ip, a[0])
    i, j = L.static_int(ip, a[1]) % x.rank, L.static_int(ip, a[2]) % x.rank
    p = [q for q in range(x.rank) if q != i]
    p.insert(j, i)
    return L.transpose(ip, x, p)


def concat_arrays(ip, xs, axis):
    r = xs[0].rank
    if any(x.rank != r for x in xs):
        raise ShapeError('concatenation of arrays of ranks %s at %s' % ([x.rank for x in xs], ip.where()))
    if r == 0:
        raise ShapeError('concatenation of scalars at %s' % ip.where())
    if axis < 0:
        axis += r
    if not 0 <= axis < r:
        raise ShapeError('concatenation axis out of range at %s' % ip.where())
    for x in xs[1:]:
        for q in range(r):
            if q != axis and same_len(x.lens[q], xs[0].lens[q]) is False:
                raise ShapeError('concatenating shapes %s and %s along axis %d at %s' %
                                 (L.shp(xs[0]), L.shp(x), axis, ip.where()))
    offs = [t.ZERO]
    for x in xs:
        offs.append(offs[-1] + x.lens[axis])
    lens = list(xs[0].lens)
    lens[axis] = offs[-1]

    def f(*ix):
        i = ix[axis]
        e = xs[0].at(ix)
        for q in range(1, len(xs)):
            if t.int_val(xs[q].lens[axis]) == 0:
                continue
            e2 = xs[q].at(ix[:axis] + (i - offs[q],) + ix[axis + 1:])
            e = t.ite('ge', i - offs[q], e2, e)
        return e
    return make(lens, f, promote(*[x.dt for x in xs]), L.liboff(*xs))


@reg('np.concatenate', 'tf.concat')
def concat(ip, a, k):
    seq = pick(a, k, 0, 'values', k.get('arrays'))
    ax = pick(a, k, 1, 'axis')
    ax = L.static_int(ip, ax) if ax is not None else 0
    if isinstance(seq, PList) and seq.items is None:
        return concat_sym(ip, seq, ax)
    xs = [L.arr(ip, x) for x in ip.iterate(seq)]
    return concat_arrays(ip, xs, ax)


def concat_sym(ip, seq, ax):
    s = untail(seq)
    e = L.arr(ip, s.elem)
    if any(s.var in l.fv for l in e.lens):
        raise Top('ragged concatenation')
    if ax < 0:
        ax += e.rank
    m = e.lens[ax]
    st = L.from_list(ip, s)
    lens = list(e.lens)
    lens[ax] = t.pmul(s.length, m)

    def f(*ix):
        i = ix[ax]
        q = L.p_floordiv(i, m)
        r = L.p_mod(i, m)
        return st.at((q,) + ix[:ax] + (r,) + ix[ax + 1:])
    return make(lens, f, e.dt, e.lib)


@reg('np.stack', 'tf.stack')
def stack(ip, a, k):
    seq = pick(a, k, 0, 'values', k.get('arrays'))
    ax = pick(a, k, 1, 'axis')
    ax = L.static_int(ip, ax) if ax is not None else 0
    if isinstance(seq, PList) and seq.items is None:
        r = L.from_list(ip, seq)
        if ax < 0:
            ax += r.rank
        if ax:
            p = list(range(1, r.rank))
            p.insert(ax, 0)
            return L.transpose(ip, r, p)
        return r
    xs = [L.arr(ip, x) for x in ip.iterate(seq)]
    return L.stack(ip, xs, ax, L.liboff(*xs) if xs and xs[0].rank else 'np')


@reg('tf.unstack')
def unstack(ip, a, k):
    A = Args(ip, a, k)
    x = A.arr(0, 'value')
    ax = A.int(2, 'axis', 0)
    if ax < 0:
        ax += x.rank
    jv = t.fresh(x.lens[ax])
    lens = [l for q, l in enumerate(x.lens) if q != ax]
    e = make(lens, lambda *ix: x.at(ix[:ax] + (t.var(jv),) + ix[ax:]), x.dt, x.lib)
    n = t.int_val(x.lens[ax])
    if n is not None:
        return PList([vsubst(e, {jv: t.const(i)}) for i in range(n)])
    return PList(None, x.lens[ax], jv, e)


@reg('np.vstack')
def vstack(ip, a, k):
    xs = [atleast(ip, x, 2) for x in ip.iterate(a[0])]
    return concat_arrays(ip, xs, 0)


@reg('np.hstack')
def hstack(ip, a, k):
    xs = [L.arr(ip, x) for x in ip.iterate(a[0])]
    return concat_arrays(ip, xs, 0 if xs[0].rank == 1 else 1)


@reg('np.column_stack')
def column_stack(ip, a, k):
    xs = [L.arr(ip, x) for x in ip.iterate(a[0])]
    xs = [make(list(x.lens) + [t.ONE], lambda *ix, x=x: x.at(ix[:1]), x.dt, x.lib) if x.rank == 1 else x
          for x in xs]
    return concat_arrays(ip, xs, 1)


@reg('np.append')
def np_append(ip, a, k):
    ax = k.get('axis', a[2] if len(a) > 2 else None)
    xs = [L.arr(ip, a[0]), L.arr(ip, a[1])]
    if ax is None:
        xs = [L.m_flatten(ip, x) if x.rank != 1 else x for x in xs]
        return concat_arrays(ip, xs, 0)
    return concat_arrays(ip, xs, L.static_int(ip, ax))


def atleast(ip, x, r):
    x = L.arr(ip, x)
    while x.rank < r:
        x = make([t.ONE] + list(x.lens), lambda *ix, x=x: x.at(ix[1:]), x.dt, x.lib)
    return x


@reg('np.atleast_1d')
def atleast_1d(ip, a, k):
    return atleast(ip, a[0], 1)


@reg('np.atleast_2d')
def atleast_2d(ip, a, k):
    return atleast(ip, a[0], 2)


@reg('np.block')
def block(ip, a, k):
    def go(v, depth):
        if isinstance(v, PList):
            if v.items is None:
                raise Top('symbolic block')
            xs = [go(x, depth + 1) for x in v.items]
            d = xs[0][1]
            ax = -1 - (d - depth - 1)
            ys = [atleast(ip, x[0], max(d, 1)) for x in xs]
            return concat_arrays(ip, ys, ax), d
        return L.arr(ip, v), depth
    return go(a[0], 0)[0]


@reg('np.tile', 'tf.tile')
def tile(ip, a, k):
    x = L.arr(ip, pick(a, k, 0, 'A', k.get('input')))
    reps = pick(a, k, 1, 'reps', k.get('multiples'))
    rs = [L.to_int(ip, r) for r in ip.iterate(reps)] if not (isinstance(reps, Arr) and reps.rank == 0) \
        else [L.to_int(ip, reps)]
    while len(rs) < x.rank:
        rs.insert(0, t.ONE)
    x = atleast(ip, x, len(rs))
    lens = [t.pmul(l, r) for l, r in zip(x.lens, rs)]

    def f(*ix):
        idx = []
        for i, l, r in zip(ix, x.lens, rs):
            if t.int_val(r) == 1:
                idx.append(i)
            elif t.int_val(l) == 1:
                idx.append(t.ZERO)
            else:
                idx.append(L.p_mod(i, l))
        return x.at(idx)
    return make(lens, f, x.dt, x.lib)


@reg('np.repeat', 'tf.repeat')
def repeat(ip, a, k):
    x = L.arr(ip, pick(a, k, 0, 'a', k.get('input')))
    r = L.to_int(ip, pick(a, k, 1, 'repeats'))
    ax = pick(a, k, 2, 'axis')
    if ax is None:
        x = L.m_flatten(ip, x) if x.rank != 1 else x
        ax = 0
    else:
        ax = L.static_int(ip, ax)
        if ax < 0:
            ax += x.rank
    lens = list(x.lens)
    l0 = lens[ax]
    lens[ax] = t.pmul(l0, r)

    def f(*ix):
        i = t.ZERO if t.int_val(l0) == 1 else L.p_floordiv(ix[ax], r)
        return x.at(ix[:ax] + (i,) + ix[ax + 1:])
    return make(lens, f, x.dt, x.lib)


@reg('np.broadcast_to', 'tf.broadcast_to')
def broadcast_to(ip, a, k):
    x = L.arr(ip, a[0])
    lens = L.shape_arg(ip, [pick(a, k, 1, 'shape')])
    L.bcast_lens(ip, [x, make(lens, lambda *ix: t.ZERO)])
    return make(lens, lambda *ix: L.bcast_at(x, ix), x.dt, x.lib)


@reg('tf.pad', 'np.pad')
def pad(ip, a, k):
    x = L.arr(ip, a[0])
    ps = pick(a, k, 1, 'paddings', k.get('pad_width'))
    ps = [[L.to_int(ip, y) for y in ip.iterate(p)] for p in ip.iterate(ps)]
    mode = pick(a, k, 2, 'mode', 'CONSTANT')
    if not isinstance(mode, str) or mode.upper() != 'CONSTANT':
        raise Top('pad mode')
    cv = k.get('constant_values')
    cv = L.arr(ip, cv).body if cv is not None else t.ZERO
    lens = [p[0] + l + p[1] for p, l in zip(ps, x.lens)]

    def f(*ix):
        idx = []
        e = None
        for i, p in zip(ix, ps):
            idx.append(i - p[0])
        e = x.at(idx)
        for i, p, l in zip(ix, ps, x.lens):
            if t.int_val(p[1]) != 0:
                e = t.ite('ge', i - p[0] - l, cv, e)
            if t.int_val(p[0]) != 0:
                e = t.ite('ge', i - p[0], e, cv)
        return e
    return make(lens, f, x.dt, x.lib)


@reg('tf.reverse', 'np.flip')
def reverse(ip, a, k):
    x = L.arr(ip, pick(a, k, 0, 'tensor', k.get('m')))
    ax = pick(a, k, 1, 'axis')
    if ax is None:
        axs = list(range(x.rank))
    elif isinstance(ax, (PList, tuple)):
        axs = [L.static_int(ip, y) for y in ip.iterate(ax)]
    else:
        axs = [L.static_int(ip, ax)]
    axs = [y + x.rank if y < 0 else y for y in axs]

    def f(*ix):
        idx = list(ix)
        for y in axs:
            idx[y] = x.lens[y] - t.ONE - ix[y]
        return x.at(idx)
    return make(x.lens, f, x.dt, x.lib)


@reg('np.flipud')
def flipud(ip, a, k):
    return reverse(ip, [a[0], num(0)], {})


@reg('np.roll', 'tf.roll')
def roll(ip, a, k):
    x = L.arr(ip, a[0])
    s = L.to_int(ip, pick(a, k, 1, 'shift'))
    ax = L.static_int(ip, pick(a, k, 2, 'axis', num(0)))
    n = x.lens[ax]

    def f(*ix):
        return x.at(ix[:ax] + (L.p_mod(ix[ax] - s, n),) + ix[ax + 1:])
    return make(x.lens, f, x.dt, x.lib)


@reg('np.meshgrid', 'tf.meshgrid')
def meshgrid(ip, a, k):
    ind = k.get('indexing', 'xy')
    xs = [L.arr(ip, x) for x in a]
    n = len(xs)
    if n != 2:
        raise Top('meshgrid of %d arrays' % n)
    for x in xs:
        if x.rank != 1:
            raise Top('meshgrid of rank %d' % x.rank)
    if ind == 'xy':
        lens = [xs[1].lens[0], xs[0].lens[0]]
        return PList([make(lens, lambda i, j: xs[0].at([j]), xs[0].dt, xs[0].lib),
                      make(lens, lambda i, j: xs[1].at([i]), xs[1].dt, xs[1].lib)])
    lens = [xs[0].lens[0], xs[1].lens[0]]
    return PList([make(lens, lambda i, j: xs[0].at([i]), xs[0].dt, xs[0].lib),
                  make(lens, lambda i, j: xs[1].at([j]), xs[1].dt, xs[1].lib)])


@reg('tf.split', 'np.split')
def split(ip, a, k):
    x = L.arr(ip, a[0])
    n = pick(a, k, 1, 'num_or_size_splits')
    ax = L.static_int(ip, pick(a, k, 2, 'axis', num(0)))
    if ax < 0:
        ax += x.rank
    sl = [SliceV(None, None, None)] * x.rank
    if isinstance(n, Arr) and n.rank == 0:
        m = L.static_int(ip, n)
        w = L.poly_quot(x.lens[ax], t.const(m))
        if w is None:
            raise Top('split')
        sizes = [w] * m
    else:
        sizes = [L.to_int(ip, y) for y in ip.iterate(n)]
    out = []
    pos = t.ZERO
    for s in sizes:
        ix = list(sl)
        ix[ax] = SliceV(num(pos, I), num(pos + s, I), None)
        out.append(L.getitem(ip, x, tuple(ix)))
        pos = pos + s
    return PList(out)


@reg('tf.slice')
def tf_slice(ip, a, k):
    x = L.arr(ip, a[0])
    b = [L.to_int(ip, y) for y in ip.iterate(a[1])]
    s = [L.to_int(ip, y) for y in ip.iterate(a[2])]
    ix = tuple(SliceV(num(p, I), None if t.int_val(q) == -1 else num(p + q, I), None) for p, q in zip(b, s))
    return L.getitem(ip, x, ix)


# --------------------------------------------------------------------------
# gathering

@reg('tf.gather')
def gather(ip, a, k):
    A = Args(ip, a, k)
    x, ix = A.arr(0, 'params'), A.arr(1, 'indices')
    ax = A.int(3, 'axis')
    bd = A.int(4, 'batch_dims', 0)
    if ax is None:
        ax = bd
    if ax < 0:
        ax += x.rank
    if bd < 0:
        bd += ix.rank
    ni = ix.rank - bd
    lens = list(x.lens[:ax]) + list(ix.lens[bd:]) + list(x.lens[ax + 1:])

    def f(*r):
        pre, mid, post = r[:ax], r[ax:ax + ni], r[ax + ni:]
        i = ix.at(list(pre[:bd]) + list(mid))
        return x.at(list(pre) + [i] + list(post))
    return make(lens, f, x.dt, x.lib)


@reg('tf.gather_nd')
def gather_nd(ip, a, k):
    A = Args(ip, a, k)
    x, ix = A.arr(0, 'params'), A.arr(1, 'indices')
    bd = A.int(2, 'batch_dims', 0)
    n = t.int_val(ix.lens[-1])
    if n is None:
        raise Top('gather_nd of symbolic depth')
    if n + bd > x.rank:
        raise ShapeError('gather_nd with index depth %d of rank %d at %s' % (n, x.rank, ip.where()))
    lens = list(ix.lens[:-1]) + list(x.lens[bd + n:])

    def f(*r):
        q = ix.rank - 1
        pre, post = r[:q], r[q:]
        idx = [ix.at(list(pre) + [t.const(j)]) for j in range(n)]
        return x.at(list(pre[:bd]) + idx + list(post))
    return make(lens, f, x.dt, x.lib)


@reg('np.take_along_axis', 'tf.experimental.numpy.take_along_axis')
def take_along_axis(ip, a, k):
    A = Args(ip, a, k)
    x, ix = A.arr(0, 'arr'), A.arr(1, 'indices')
    ax = A.int(2, 'axis')
    if ax < 0:
        ax += x.rank
    lens = [ix.lens[q] if q == ax or t.int_val(x.lens[q]) == 1 else x.lens[q] for q in range(x.rank)]

    def f(*r):
        ii = [t.ZERO if t.int_val(ix.lens[q]) == 1 else r[q] for q in range(ix.rank)]
        idx = [t.ZERO if t.int_val(x.lens[q]) == 1 else r[q] for q in range(x.rank)]
        idx[ax] = ix.at(ii)
        return x.at(idx)
    return make(lens, f, x.dt, x.lib)


@reg('np.take')
def np_take(ip, a, k):
    k = dict(k)
    return gather(ip, [a[0], a[1]], {'axis': pick(a, k, 2, 'axis', num(0))})


@reg('tf.tensor_scatter_nd_update')
def scatter_update(ip, a, k):
    A = Args(ip, a, k)
    x, ix, up = A.arr(0, 'tensor'), A.arr(1, 'indices'), A.arr(2, 'updates')
    n = t.int_val(ix.lens[-1])
    if n is None:
        raise Top('scatter of symbolic depth')
    ent = []
    for j in range(n):
        ent.append(make(ix.lens[:-1], lambda *r, j=j: ix.at(list(r) + [t.const(j)]), I, 'im'))
    ent += [SliceV(None, None, None)] * (x.rank - n)
    c = Arr(x.vars, x.lens, x.body, x.dt, 'im')
    if ix.rank == 2 and t.int_val(ix.lens[0]) == 1:
        ent = [num(e.at([t.ZERO]), I) if isinstance(e, Arr) else e for e in ent]
        up = make(up.lens[1:], lambda *r: up.at((t.ZERO,) + r), up.dt, 'im')
    c.body = L.stored(ip, c, tuple(ent), up)
    return c


@reg('tf.one_hot')
def one_hot(ip, a, k):
    ix = L.arr(ip, a[0])
    n = L.to_int(ip, pick(a, k, 1, 'depth'))
    return make(list(ix.lens) + [n], lambda *r: t.delta(ix.at(r[:-1]) - r[-1]), dtype_kw(k), 'im')


# --------------------------------------------------------------------------
# reductions

def redfn(op, names, dt=None):
    def f(ip, a, k):
        x = L.arr(ip, pick(a, k, 0, 'input_tensor', k.get('a')))
        r = L.reduce_axis(ip, x, pick(a, k, 1, 'axis'), op, L._b(k, 'keepdims'))
        if dt is not None:
            r.dt = dt
        if r.lib == 'im' and x.lib != 'im':
            r.lib = x.lib
        return r
    for n in names.split():
        LIB[n] = f


redfn(L.op_sum, 'np.sum tf.reduce_sum')
redfn(L.op_red('min'), 'np.min np.amin tf.reduce_min')
redfn(L.op_red('max'), 'np.max np.amax tf.reduce_max')


def argfn(name, flat):
    def f(ip, a, k):
        x = L.arr(ip, pick(a, k, 0, 'a', k.get('input')))
        ax = pick(a, k, 1, 'axis')
        k.get('output_type')
        if ax is None:
            if flat:
                if x.rank != 1:
                    x = L.m_flatten(ip, x)
                ax = num(0)
            else:
                ax = num(0)
        r = L.reduce_axis(ip, x, ax, L.op_red(name), L._b(k, 'keepdims'))
        r.dt = I
        return r
    return f


for _n in ('argmin', 'argmax'):
    LIB['np.' + _n] = argfn(_n, True)
    LIB['tf.' + _n] = argfn(_n, False)


@reg('np.mean', 'tf.reduce_mean')
def mean(ip, a, k):
    return L.np_mean(ip, L.arr(ip, a[0]), pick(a, k, 1, 'axis'))


@reg('np.any', 'tf.reduce_any')
def np_any(ip, a, k):
    return num(t.app('any', lamof(L.arr(ip, a[0]))), B)


@reg('np.all', 'tf.reduce_all')
def np_all(ip, a, k):
    return num(t.app('all', lamof(L.arr(ip, a[0]))), B)


@reg('np.cumsum', 'tf.cumsum')
def cumsum(ip, a, k):
    x = L.arr(ip, a[0])
    if x.rank != 1:
        raise Top('cumsum of rank %d' % x.rank)
    if 'exclusive' in k or 'reverse' in k:
        raise Top('cumsum flags')

    def f(i):
        v = t.fresh(i + t.ONE)
        return t.psum(v, i + t.ONE, x.at([t.var(v)]))
    return make(x.lens, f, x.dt, x.lib)


@reg('np.prod', 'tf.reduce_prod')
def np_prod(ip, a, k):
    x = L.arr(ip, a[0])
    n = t.int_val(x.lens[0]) if x.rank == 1 else None
    if n is None:
        raise Top('product over a symbolic axis')
    return num(L.prod([x.at([t.const(i)]) for i in range(n)]), x.dt)


@reg('np.isscalar')
def isscalar(ip, a, k):
    v = a[0]
    return num(isinstance(v, Arr) and v.rank == 0 and v.lib == 'py')


@reg('np.result_type')
def result_type(ip, a, k):
    dts = []
    for x in a:
        if isinstance(x, (PList, tuple)) and not isinstance(x, tuple):
            dts.append(L.arr(ip, x).dt)
        elif isinstance(x, DType):
            dts.append(x.dt)
        else:
            d = L.dtype_of(x) if not isinstance(x, (Arr, PList, tuple)) else None
            dts.append(d.dt if d is not None else L.arr(ip, x).dt)
    return DType(promote(*dts))


@reg('np.issubdtype')
def issubdtype(ip, a, k):
    d, c = L.dtype_of(a[0]), a[1]
    c = L.dtype_of(c)
    if len(d.dt) != 1:
        raise Top('issubdtype')
    return num(d.dt <= c.dt)


@reg('np.iscomplexobj')
def iscomplexobj(ip, a, k):
    return num(False)


@reg('np.allclose', 'np.array_equal')
def allclose(ip, a, k):
    x, y = L.arr(ip, a[0]), L.arr(ip, a[1])
    return num(t.app('allclose', lamof(x), lamof(y)), B)


# --------------------------------------------------------------------------
# linear algebra

def np_dot(ip, a, b):
    if a.rank == 0 or b.rank == 0:
        return L.binop(ip, 'Mult', a, b)
    if a.rank <= 2 and b.rank <= 2 or b.rank == 1:
        return L.matmul(ip, a, b)
    # sum over the last axis of a and the second-to-last of b
    L.contract_len(ip, a.lens[-1], b.lens[-2], 'dot')
    na, nb = a.rank - 1, b.rank - 1

    def f(*ix):
        kv = t.fresh(a.lens[-1])
        K = t.var(kv)
        ia, ib = ix[:na], ix[na:]
        return t.psum(kv, a.lens[-1], t.pmul(a.at(tuple(ia) + (K,)), b.at(tuple(ib[:-1]) + (K, ib[-1]))))
    lens = list(a.lens[:-1]) + list(b.lens[:-2]) + [b.lens[-1]]
    return make(lens, f, promote(a.dt, b.dt), L.liboff(a, b))


@reg('np.dot')
def dot(ip, a, k):
    return np_dot(ip, L.arr(ip, a[0]), L.arr(ip, a[1]))


@reg('np.matmul', 'tf.linalg.matmul', 'tf.matmul')
def matmul(ip, a, k):
    x, y = L.arr(ip, pick(a, k, 0, 'a')), L.arr(ip, pick(a, k, 1, 'b'))
    A = Args(ip, a, k)
    if A.flag(2, 'transpose_a') or A.flag(4, 'adjoint_a'):
        x = L.swap_last(x)
    if A.flag(3, 'transpose_b') or A.flag(5, 'adjoint_b'):
        y = L.swap_last(y)
    return L.matmul(ip, x, y)


@reg('tf.linalg.matvec')
def matvec(ip, a, k):
    x, y = L.arr(ip, pick(a, k, 0, 'a')), L.arr(ip, pick(a, k, 1, 'b'))
    A = Args(ip, a, k)
    if A.flag(2, 'transpose_a') or A.flag(3, 'adjoint_a'):
        x = L.swap_last(x)
    return L.mv2(ip, x, y)


@reg('np.outer')
def outer(ip, a, k):
    x, y = L.arr(ip, a[0]), L.arr(ip, a[1])
    if x.rank != 1:
        x = L.m_flatten(ip, x)
    if y.rank != 1:
        y = L.m_flatten(ip, y)
    return make([x.lens[0], y.lens[0]], lambda i, j: t.pmul(x.at([i]), y.at([j])), promote(x.dt, y.dt),
                L.liboff(x, y))


@reg('np.inner', 'np.vdot')
def inner(ip, a, k):
    return L.matmul(ip, L.arr(ip, a[0]), L.arr(ip, a[1]))


@reg('np.diag', 'tf.linalg.diag')
def diag(ip, a, k):
    x = L.arr(ip, pick(a, k, 0, 'v', k.get('diagonal')))
    if x.rank == 1:
        n = x.lens[0]
        return make([n, n], lambda i, j: t.pmul(t.delta(i - j), x.at([i])), x.dt, x.lib)
    if x.rank == 2:
        return make([x.lens[0]], lambda i: x.at([i, i]), x.dt, x.lib)
    raise Top('diag of rank %d' % x.rank)


@reg('np.trace', 'tf.linalg.trace')
def trace(ip, a, k):
    x = L.arr(ip, a[0])
    v = t.fresh(x.lens[0])
    return num(t.psum(v, x.lens[0], x.at([t.var(v), t.var(v)])), x.dt)


@reg('np.kron')
def kron(ip, a, k):
    x, y = L.arr(ip, a[0]), L.arr(ip, a[1])
    if x.rank != 2 or y.rank != 2:
        raise Top('kron')
    lens = [t.pmul(x.lens[q], y.lens[q]) for q in range(2)]
    return make(lens, lambda i, j: t.pmul(
        x.at([L.p_floordiv(i, y.lens[0]), L.p_floordiv(j, y.lens[1])]),
        y.at([L.p_mod(i, y.lens[0]), L.p_mod(j, y.lens[1])])), promote(x.dt, y.dt), L.liboff(x, y))


@reg('np.linalg.solve')
def np_solve(ip, a, k):
    x, y = L.arr(ip, pick(a, k, 0, 'a')), L.arr(ip, pick(a, k, 1, 'b'))
    if x.rank != 2 and y.rank == x.rank - 1:
        raise Top('batched solve with vectors')
    if k.get('assume_a', 'gen') not in ('gen', 'pos', 'sym', 'her', None):
        raise Top('matrix structure %s' % (k['assume_a'],))
    k.get('lower'), k.get('sym_pos')
    if Args(ip, a, k).flag(99, 'transposed'):
        x = L.swap_last(x)
    check_solve(ip, x, y)
    return L.solve(ip, x, y)


def check_solve(ip, x, y):
    if x.rank < 2:
        raise ShapeError('solve with a matrix of rank %d at %s' % (x.rank, ip.where()))
    rows = y.lens[-1] if y.rank == x.rank - 1 else y.lens[-2]
    L.contract_len(ip, x.lens[-1], x.lens[-2], 'solve')
    L.contract_len(ip, x.lens[-1], rows, 'solve')


@reg('tf.linalg.solve')
def tf_solve(ip, a, k):
    x, y = L.arr(ip, pick(a, k, 0, 'matrix')), L.arr(ip, pick(a, k, 1, 'rhs'))
    if x.rank < 2 or y.rank < 2:
        raise ShapeError('tf.linalg.solve with operands of rank %d and %d at %s' % (x.rank, y.rank, ip.where()))
    if Args(ip, a, k).flag(2, 'adjoint'):
        x = L.swap_last(x)
    check_solve(ip, x, y)
    return L.mm2(ip, L.inverse(ip, x), y)


@reg('np.linalg.lstsq')
def np_lstsq(ip, a, k):
    x, y = L.arr(ip, pick(a, k, 0, 'a')), L.arr(ip, pick(a, k, 1, 'b'))
    for nm in list(k):
        k.get(nm)
    if x.rank != 2 or y.rank not in (1, 2):
        raise ShapeError('least squares with operands of rank %d and %d at %s' % (x.rank, y.rank, ip.where()))
    L.contract_len(ip, x.lens[0], y.lens[0], 'least squares')
    r = L.pinv(ip, x)
    z = L.mv2(ip, r, y) if y.rank == 1 else L.matmul(ip, r, y)
    return (z,) + tuple(Unknown('least squares diagnostics') for _ in range(3))


@reg('tf.linalg.lstsq')
def tf_lstsq(ip, a, k):
    x, y = L.arr(ip, pick(a, k, 0, 'matrix')), L.arr(ip, pick(a, k, 1, 'rhs'))
    reg = pick(a, k, 2, 'l2_regularizer')
    if reg is not None and t.const_val(L.arr(ip, reg).body) != 0:
        raise Top('regularised least squares')
    if x.rank < 2 or y.rank < 2:
        raise ShapeError('tf.linalg.lstsq with operands of rank %d and %d at %s' % (x.rank, y.rank, ip.where()))
    L.contract_len(ip, x.lens[-2], y.lens[-2], 'least squares')
    if Args(ip, a, k).flag(3, 'fast', True):
        # normal equations by Cholesky: full column rank only
        xt = L.swap_last(x)
        return L.mm2(ip, L.mm2(ip, L.inverse(ip, L.mm2(ip, xt, x)), xt), y)
    return L.mm2(ip, L.pinv(ip, x), y)


@reg('np.linalg.pinv', 'tf.linalg.pinv')
def pinv(ip, a, k):
    return L.pinv(ip, L.arr(ip, a[0]))


@reg('np.linalg.inv', 'tf.linalg.inv')
def inv(ip, a, k):
    return L.inverse(ip, L.arr(ip, a[0]))


def fac(x, h):
    def elem(ix):
        i, j = t.fresh(x.lens[-2]), t.fresh(x.lens[-1])
        b = x.at(tuple(ix[:-2]) + (t.var(i), t.var(j)))
        return t.app(h, t.mklam([i, j], [x.lens[-2], x.lens[-1]], b), ix[-2], ix[-1])
    return make(x.lens, lambda *ix: elem(ix), F, x.lib)


def pivots(x):
    def elem(ix):
        i, j = t.fresh(x.lens[-2]), t.fresh(x.lens[-1])
        b = x.at(tuple(ix[:-1]) + (t.var(i), t.var(j)))
        return t.app('piv', t.mklam([i, j], [x.lens[-2], x.lens[-1]], b), ix[-1])
    return make(x.lens[:-1], lambda *ix: elem(ix), I, x.lib)


def check_pivots(ip, f, p):
    """The pivots must come from the same factorisation."""
    p = L.arr(ip, p)
    if p.rank != f.rank - 1:
        raise ShapeError('pivots of rank %d for a factor of rank %d at %s' % (p.rank, f.rank, ip.where()))
    def names(q):
        # the two terms may have been simplified differently: input symbols read
        return set(a.head for a in t.atoms_in(q, lambda a: a.kind == 's').values())
    if names(p.body) != names(f.body):
        raise Top('pivots of another factorisation')


def factor(h, pair):
    def f(ip, a, k):
        x = L.arr(ip, pick(a, k, 0, 'a', k.get('input')))
        if x.rank < 2:
            raise ShapeError('factorisation of rank %d at %s' % (x.rank, ip.where()))
        L.contract_len(ip, x.lens[-1], x.lens[-2], 'factorisation')
        r = fac(x, h)
        if pair:
            return (r, pivots(x) if h == 'fac_lu' else num(False))
        return r
    return f


LIB['np.linalg.lu_factor'] = LIB['tf.linalg.lu'] = factor('fac_lu', True)
LIB['np.linalg.cho_factor'] = factor('fac_cho', True)
LIB['tf.linalg.cholesky'] = LIB['np.linalg.cholesky'] = factor('fac_cho', False)


def fsolve(ip, f, y, h, tr=False):
    m = unfactor(L.arr(ip, f), h)
    if tr:
        m = L.swap_last(m)
    if y.rank != m.rank and not (y.rank == m.rank - 1 and m.rank == 2):
        raise ShapeError('solve with a right-hand side of rank %d at %s' % (y.rank, ip.where()))
    check_solve(ip, m, y)
    return L.solve(ip, m, y)


def unfactor(x, h):
    """Matrix whose factorisation the array holds (elementwise pattern)."""
    def conv(p):
        it = t.as_ite(p)
        if it is not None:
            return t.ite(it.head, it.args[0], conv(it.args[1]), conv(it.args[2]))
        a = t.single_atom(p)
        if a is None or a.kind != 'f' or a.head != h:
            raise Top('solve with an unrecognised factor')
        lm, i, j = a.args
        return t.openlam(lm, [i, j])[1]
    return Arr(x.vars, x.lens, conv(x.body), F, x.lib)


@reg('np.linalg.lu_solve')
def lu_solve(ip, a, k):
    tr = pick(a, k, 2, 'trans')
    return fsolve(ip, a[0][0], L.arr(ip, a[1]), 'fac_lu', tr is not None and L.static_int(ip, tr) != 0)


@reg('np.linalg.cho_solve')
def cho_solve(ip, a, k):
    return fsolve(ip, a[0][0], L.arr(ip, a[1]), 'fac_cho')


@reg('tf.linalg.lu_solve')
def tf_lu_solve(ip, a, k):
    y = L.arr(ip, pick(a, k, 2, 'rhs'))
    if y.rank < 2:
        raise ShapeError('lu_solve with a right-hand side of rank %d at %s' % (y.rank, ip.where()))
    f = L.arr(ip, pick(a, k, 0, 'lower_upper'))
    check_pivots(ip, f, pick(a, k, 1, 'perm'))
    return fsolve(ip, f, y, 'fac_lu')


@reg('tf.linalg.cholesky_solve')
def tf_chol_solve(ip, a, k):
    y = L.arr(ip, pick(a, k, 1, 'rhs'))
    if y.rank < 2:
        raise ShapeError('cholesky_solve with a right-hand side of rank %d at %s' % (y.rank, ip.where()))
    return fsolve(ip, pick(a, k, 0, 'chol'), y, 'fac_cho')


@reg('tf.linalg.LinearOperatorFullMatrix')
def lin_op(ip, a, k):
    k.get('is_square'), k.get('name')
    return L.arr(ip, a[0])


@reg('tf.linalg.LinearOperatorBlockDiag')
def block_diag_op(ip, a, k):
    k.get('is_square'), k.get('name')
    xs = ip.iterate(a[0])
    if not isinstance(xs, list):
        s = untail(a[0])
        e = L.arr(ip, s.elem)
        return DenseOp(block_diag_sym(ip, s, e))
    return DenseOp(block_diag(ip, [L.arr(ip, x) for x in xs]))


class DenseOp(object):
    def __init__(self, a):
        self.a = a


def block_diag(ip, xs):
    ro, co = [t.ZERO], [t.ZERO]
    for x in xs:
        ro.append(ro[-1] + x.lens[0])
        co.append(co[-1] + x.lens[1])

    def f(i, j):
        e = t.ZERO
        for q, x in enumerate(xs):
            v = x.at([i - ro[q], j - co[q]])
            for c in (i - ro[q], ro[q + 1] - t.ONE - i, j - co[q], co[q + 1] - t.ONE - j):
                v = t.ite('ge', c, v, t.ZERO)
            e = e + v
        return e
    return make([ro[-1], co[-1]], f, promote(*[x.dt for x in xs]), 'np')


def block_diag_sym(ip, s, e):
    m, n = e.lens

    def f(i, j):
        qi, ri = L.p_floordiv(i, m), L.p_mod(i, m)
        qj, rj = L.p_floordiv(j, n), L.p_mod(j, n)
        v = vsubst(e, {s.var: qi}).at([ri, rj])
        return t.ite('eq', qi - qj, v, t.ZERO)
    return make([t.pmul(s.length, m), t.pmul(s.length, n)], f, e.dt, 'im')


@reg('np.linalg.block_diag')
def np_block_diag(ip, a, k):
    return block_diag(ip, [atleast(ip, x, 2) for x in a])


@reg('np.linalg.norm', 'tf.linalg.norm', 'tf.norm')
def norm(ip, a, k):
    x = L.arr(ip, a[0])
    o = pick(a, k, 1, 'ord')
    ax = pick(a, k, 2, 'axis')
    if o is not None:
        raise Top('norm order')
    s = L.reduce_axis(ip, L.elementwise(ip, lambda p: t.pmul(p, p), [x]), ax, L.op_sum, L._b(k, 'keepdims'))
    return L.elementwise(ip, app1('sqrt'), [s], F)


def opaque_matrix(h, out):
    """Matrix function kept uninterpreted."""
    def f(ip, a, k):
        xs = [L.arr(ip, x) for x in a]
        lens = out(xs)

        def g(*ix):
            args = []
            for x in xs:
                vs = [t.fresh(l) for l in x.lens]
                args.append(t.mklam(vs, x.lens, x.at([t.var(v) for v in vs])))
            return t.lift_args('f', h, tuple(args) + tuple(ix))
        return make(lens, g, F, 'np')
    return f


LIB['np.linalg.expm'] = LIB['tf.linalg.expm'] = opaque_matrix('expm', lambda xs: xs[0].lens)
LIB['np.linalg.solve_discrete_are'] = opaque_matrix('dare', lambda xs: xs[0].lens)
LIB['np.linalg.solve_continuous_are'] = opaque_matrix('care', lambda xs: xs[0].lens)


# --------------------------------------------------------------------------
# control flow and function transforms

def at0(ip, v, pos):
    """Slice of every array of the structure along its leading axis."""
    def f(ctx, x, path):
        if x.rank == 0:
            raise ShapeError('scan over a scalar at %s' % ip.where())
        i = t.ZERO if t.int_val(x.lens[0]) == 1 else pos
        return make(x.lens[1:], lambda *ix: x.at((i,) + ix), x.dt, x.lib)
    return skeleton_map(norm_struct(ip, v), f)


def norm_struct(ip, v):
    if isinstance(v, PList) and v.items is not None:
        return PList([norm_struct(ip, x) for x in v.items])
    if isinstance(v, tuple):
        return tuple(norm_struct(ip, x) for x in v)
    if v is None:
        return v
    return L.arr(ip, v) if not isinstance(v, Arr) else v


def lead_len(ip, v, strict=True):
    n = None
    for lf in leaves(v):
        x = lf.arr
        if x.rank == 0:
            raise ShapeError('scan or map over a scalar at %s' % ip.where())
        if n is None or (t.int_val(n) == 1 and not strict):
            n = x.lens[0]
        elif t.int_val(x.lens[0]) == 1 and not strict:
            continue
        else:
            s = same_len(n, x.lens[0])
            if s is False:
                raise ShapeError('leading axes %s and %s differ at %s' %
                                 (t.show(n), t.show(x.lens[0]), ip.where()))
    if n is None:
        raise Top('no arrays to map over')
    return n


def stack_fn(f, n):
    """Structure stacked along a new leading axis: f(position) -> structure."""
    jv = t.fresh(n)
    v = f(t.var(jv))

    def g(ctx, x, path):
        if ctx:
            raise Top('stacking lists')
        if any(jv in l.fv for l in x.lens):
            raise Top('ragged stack')
        return make((n,) + x.lens, lambda i, *ix: t.subst(x.at(ix), {jv: i}), x.dt, 'im')
    return skeleton_map(v, g)


@reg('tf.scan')
def tf_scan(ip, a, k):
    A = Args(ip, a, k)
    fn, elems = A.get(0, 'fn'), norm_struct(ip, A.get(1, 'elems'))
    init = A.get(2, 'initializer')
    rev = A.flag(6, 'reverse')
    n = lead_len(ip, elems)
    if init is None:
        if rev:
            raise Top('scan without initializer in reverse')
        init = at0(ip, elems, t.ZERO)
        carry_at, _ = loops.scan(ip, lambda c, e: ip.call(fn, [c, e], {}), n - t.ONE,
                                 lambda p: at0(ip, elems, p + t.ONE), init)
        return stack_fn(lambda i: carry_at(i), n)
    init = norm_struct(ip, init)
    carry_at, _ = loops.scan(ip, lambda c, e: ip.call(fn, [c, e], {}), n,
                             lambda p: at0(ip, elems, p), init, reverse=rev)
    if rev:
        return stack_fn(lambda i: carry_at(n - i), n)
    return stack_fn(lambda i: carry_at(i + t.ONE), n)


@reg('jax.lax.scan')
def lax_scan(ip, a, k):
    A = Args(ip, a, k)
    fn, init, xs = A.get(0, 'f'), norm_struct(ip, A.get(1, 'init')), A.get(2, 'xs')
    rev = A.flag(4, 'reverse')
    if xs is None:
        n = L.to_int(ip, A.get(3, 'length'))
        el = lambda p: None
    else:
        xs = norm_struct(ip, xs)
        n = lead_len(ip, xs)
        el = lambda p: at0(ip, xs, p)
    carry_at, out_at = loops.scan(ip, lambda c, e: ip.call(fn, [c, e], {}), n, el, init, reverse=rev,
                                  has_out=True)
    if rev:
        outs = stack_fn(lambda i: out_at(n - t.ONE - i), n)
    else:
        outs = stack_fn(lambda i: out_at(i), n)
    return (setlib(carry_at(n), 'im'), outs)


@reg('tfp.math.scan_associative')
def scan_assoc(ip, a, k):
    A = Args(ip, a, k)
    fn, elems = A.get(0, 'fn'), norm_struct(ip, A.get(1, 'elems'))
    if A.int(4, 'axis', 0) != 0:
        raise Top('associative scan along another axis')
    n = lead_len(ip, elems)
    lv = A.get(2, 'max_num_levels')
    ip.event('scan_levels', (n, L.arr(ip, lv).body if lv is not None else t.const(48)))
    m = n - t.ONE
    st = {}

    def el(p):
        st['j'] = p
        return at0(ip, elems, p + t.ONE)

    def batched(v, jv):
        def f(ctx, x, path):
            return make((m,) + x.lens, lambda i, *ix: t.subst(x.at(ix), {jv: i}), x.dt, 'im')
        return skeleton_map(v, f)

    def step(c, e):
        jv = t.single_atom(st['j']).head
        r = ip.call(fn, [batched(c, jv), batched(e, jv)], {})
        if isinstance(r, Unknown):
            return r
        if isinstance(r, PList) and r.items is not None and isinstance(c, tuple):
            r = tuple(r.items)
        if isinstance(r, tuple) and isinstance(c, PList):
            r = PList(list(r))
        r = norm_struct(ip, r)
        for lf in leaves(r):
            if lf.arr.rank == 0:
                raise ShapeError('associative operator drops the batch axis at %s' % ip.where())
        return at0(ip, r, st['j'])
    carry_at, _ = loops.scan(ip, step, m, el, at0(ip, elems, t.ZERO))
    return stack_fn(lambda i: carry_at(i), n)


@reg('tf.vectorized_map', 'tf.map_fn')
def vectorized_map(ip, a, k):
    A = Args(ip, a, k)
    fn, elems = A.get(0, 'fn'), norm_struct(ip, A.get(1, 'elems'))
    n = lead_len(ip, elems, strict=False)
    jv = t.fresh(n)
    r = ip.call(fn, [at0(ip, elems, t.var(jv))], {})
    if isinstance(r, Unknown):
        return r
    r = norm_struct(ip, r)
    return stack_fn(lambda i: vsubst(r, {jv: i}), n)


@reg('jax.vmap')
def vmap(ip, a, k):
    fn = a[0]
    axes = pick(a, k, 1, 'in_axes')

    def call_(ip_, b, kw):
        if kw:
            raise Top('vmap keyword arguments')
        if axes is None:
            ax = [0] * len(b)
        elif isinstance(axes, Arr):
            ax = [L.static_int(ip_, axes)] * len(b)
        else:
            ax = [None if x is None else L.static_int(ip_, x) for x in ip_.iterate(axes)]
        if any(x not in (0, None) for x in ax):
            raise Top('vmap axes')
        b = [norm_struct(ip_, x) for x in b]
        n = lead_len(ip_, tuple(x for x, q in zip(b, ax) if q == 0))
        jv = t.fresh(n)
        r = ip_.call(fn, [at0(ip_, x, t.var(jv)) if q == 0 else x for x, q in zip(b, ax)], {})
        if isinstance(r, Unknown):
            return r
        r = norm_struct(ip_, r)
        return stack_fn(lambda i: vsubst(r, {jv: i}), n)
    return PyFn('vmap', call_)


@reg('jax.jit', 'tf.function', 'np.vectorize')
def jit(ip, a, k):
    if not a:
        return PyFn('decorator', lambda ip_, b, kw: b[0])
    return a[0]


@reg('functools.partial')
def partial(ip, a, k):
    f, pre = a[0], list(a[1:])

    def call_(ip_, b, kw):
        d = dict(k)
        d.update(kw)
        return ip_.call(f, pre + list(b), d)
    return PyFn('partial', call_)


def derivative(kind):
    def jac(ip, a, k):
        fn = a[0]
        an = pick(a, k, 1, 'argnums')
        an = L.static_int(ip, an) if an is not None else 0

        def call_(ip_, b, kw):
            b = [norm_struct(ip_, x) for x in b]
            x = b[an]
            # evaluate the function at a symbolic point, then close over it
            nm = '@x%d_%d' % (x.rank, _dsym[0])
            sx = inp(nm, x.lens, 'im')
            args = list(b)
            args[an] = sx
            _dsym[0] += 1
            try:
                y = ip_.call(fn, args, kw)
            finally:
                _dsym[0] -= 1
            if isinstance(y, Unknown):
                return y
            y = L.arr(ip_, y)
            if kind == 'grad' and y.rank:
                raise ShapeError('gradient of an array-valued function at %s' % ip_.where())
            lens = list(y.lens) + list(x.lens)

            def f(*ix):
                yi, xi = ix[:y.rank], ix[y.rank:]
                e = y.at(yi)
                d = diff(e, nm, xi)
                if d is not None:
                    return sub_sym(d, nm, x)
                vs = [t.fresh(l) for l in x.lens]
                lx = t.mklam(vs, x.lens, x.at([t.var(v) for v in vs])) if vs else x.body
                vy = [t.fresh(l) for l in y.lens]
                ly = t.mklam(vy, y.lens, y.at([t.var(v) for v in vy])) if vy else y.body
                return t.lift_args('f', 'jac', (ly, lx) + tuple(ix))
            return make(lens, f, F, 'im')
        return PyFn('jac', call_)
    return jac


_dsym = [0]
LIB['jax.jacfwd'] = LIB['jax.jacrev'] = LIB['jax.jacobian'] = derivative('jac')
LIB['jax.grad'] = derivative('grad')


def sub_sym(p, nm, x):
    def f(a, args):
        if a.kind == 's' and a.head == nm:
            return x.at(list(args))
        return None
    if not t.atoms_in(p, lambda a: a.kind == 's' and a.head == nm):
        return p
    return t.transform(p, f)


DIFF1 = {
    'sin': lambda u: t.app('cos', u),
    'cos': lambda u: -t.app('sin', u),
    'exp': lambda u: t.app('exp', u),
    'log': lambda u: t.precip(u),
    'tanh': lambda u: t.ONE - t.pmul(t.app('tanh', u), t.app('tanh', u)),
    'arctan': lambda u: t.precip(t.ONE + t.pmul(u, u)),
    'sqrt': lambda u: t.pscale(t.precip(t.app('sqrt', u)), t.Fraction(1, 2)),
}


def diff(p, nm, xi):
    """Derivative of a term by the array element nm[xi], or None."""
    hit = t.atoms_in(p, lambda a: a.kind == 's' and a.head == nm)
    if not hit:
        return t.ZERO
    it = t.as_ite(p)
    if it is not None:
        if t.atoms_in(it.args[0], lambda a: a.kind == 's' and a.head == nm):
            return None
        u, v = diff(it.args[1], nm, xi), diff(it.args[2], nm, xi)
        if u is None or v is None:
            return None
        return t.ite(it.head, it.args[0], u, v)
    acc = t.ZERO
    for (fs, bd), c in p.m.items():
        if bd:
            try:
                g, nb = t._rename_bound(fs, bd)
            except t.Reshaped as e:
                d = diff(e.poly(), nm, xi)
                if d is None:
                    return None
                acc = acc + t.pscale(d, c)
                continue
        else:
            g, nb = list(fs), []
        for q, (a, e) in enumerate(g):
            d = diff_atom(a, nm, xi)
            if d is None:
                return None
            if not d.m:
                continue
            r = t.const(c * e)
            for z, (b, eb) in enumerate(g):
                ex = eb - 1 if z == q else eb
                if ex:
                    r = t.pmul(r, t.ppow(t.atom_poly(b), ex) if ex > 0 else t.ppow(t.atom_poly(b), ex))
            r = t.pmul(r, d)
            for n, l in nb:
                r = t.psum(n, l, r)
            acc = acc + r
    return acc


def diff_atom(a, nm, xi):
    if a.kind == 's' and a.head == nm:
        r = t.ONE
        for i, j in zip(a.args, xi):
            r = t.pmul(r, t.delta(i - j))
        return r
    if not t.atoms_in(t.atom_poly(a), lambda b: b.kind == 's' and b.head == nm):
        return t.ZERO
    if a.kind == 'P':
        return diff(a.args[0], nm, xi)
    if a.kind == 'f' and a.head in DIFF1 and len(a.args) == 1:
        d = diff(a.args[0], nm, xi)
        if d is None:
            return None
        return t.pmul(DIFF1[a.head](a.args[0]), d)
    if a.kind == 'f' and (a.head in t.SMOOTH or a.head[:2] == 'D|'):
        return diff_smooth(a, nm, xi)
    return None


def diff_smooth(a, nm, xi):
    """Chain rule for an uninterpreted function: D|name|p.r,.. holds the
    arguments of name followed by r indices per differentiation in argument p."""
    if a.head[:2] == 'D|':
        _, name, ds = a.head.split('|')
        ds = ds.split(',')
    else:
        name, ds = a.head, []
    extra = sum(int(d.split('.')[1]) for d in ds)
    n0 = len(a.args) - extra
    acc = t.ZERO
    for p, x in enumerate(a.args[:n0]):
        body = x.body if isinstance(x, t.Lam) else x
        if not t.atoms_in(body, lambda b: b.kind == 's' and b.head == nm):
            continue
        if isinstance(x, t.Lam):
            vs, body = t.openlam(x)
            lens = list(x.lens)
        else:
            vs, lens = [], []
        d = diff(body, nm, xi)
        if d is None:
            return None
        if not d.m:
            continue
        js = tuple(t.var(v) for v in vs)
        # derivatives commute: keep them sorted
        parts, q = [], n0
        for e in ds:
            r = int(e.split('.')[1])
            parts.append((e, a.args[q:q + r]))
            q += r
        parts.append(('%d.%d' % (p, len(js)), js))
        parts.sort(key=lambda z: z[0])
        args = tuple(a.args[:n0])
        for e, js_ in parts:
            args += tuple(js_)
        r = t.pmul(t.lift_args('f', 'D|%s|%s' % (name, ','.join(e for e, j in parts)), args), d)
        for v, l in zip(vs, lens):
            r = t.psum(v, l, r)
        acc = acc + r
    return acc


class Tape(object):
    """Gradient tape: watched arrays become symbols until the block ends."""
    count = 0

    def __init__(self):
        self.watched = []     # (array, symbol, its own body)
        self.live = False
        self.shadow = {}      # id -> (array, body while watched)


def tape_enter(ip, tp):
    tp.live = True


def tape_exit(ip, tp, env, out):
    """Restore the watched arrays; remember the bodies they led to."""
    tp.live = False
    if not tp.watched:
        return out
    names = dict((nm, old) for x, nm, old in tp.watched)
    for x, nm, old in tp.watched:
        tp.shadow[id(x)] = (x, x.body)
    for x, nm, old in tp.watched:
        x.body = old
    done = set()

    def walk(v):
        if id(v) in done:
            return
        done.add(id(v))
        if isinstance(v, Arr):
            if id(v) in tp.shadow:
                return
            if t.atoms_in(v.body, lambda a: a.kind == 's' and a.head in names):
                tp.shadow[id(v)] = (v, v.body)
                v.body = untape(v.body, tp)
        elif isinstance(v, tuple):
            for y in v:
                walk(y)
        elif isinstance(v, PList):
            if v.items is not None:
                for y in v.items:
                    walk(y)
            elif v.elem is not None:
                walk(v.elem)
    for v in list(env.d.values()):
        walk(v)
    if out[0] == 'ret':
        walk(out[1])
    return out


def untape(p, tp):
    for x, nm, old in tp.watched:
        src = Arr(x.vars, x.lens, old, x.dt, x.lib)
        p = sub_sym(p, nm, src)
    return p


def tape_watch(ip, tp, x):
    if isinstance(x, (tuple, PList)):
        for y in ip.iterate(x):
            tape_watch(ip, tp, y)
        return
    if not isinstance(x, Arr):
        raise Top('watch of %s' % type(x).__name__)
    if not tp.live:
        raise Top('watch outside of the tape')
    nm = '@t%d_%d' % (x.rank, len(ip.tapes))
    tp.watched.append((x, nm, x.body))
    x.body = t.sym(nm, *[t.var(v) for v in x.vars])


def tape_jacobian(ip, tp, y, x, batch, kind='jacobian'):
    for v in (y, x):
        if isinstance(v, Unknown):
            return v
        if not isinstance(v, Arr):
            raise Top('%s of %s' % (kind, type(v).__name__))
    nm = [(n, old) for z, n, old in tp.watched if z is x]
    if not nm:
        raise Top('derivative by an array that is not watched')
    nm, old = nm[0]
    if tp.live:
        raise Top('derivative inside the tape')
    sh = tp.shadow.get(id(y))
    body = sh[1] if sh is not None else y.body
    yl = list(y.lens)
    ya = Arr(y.vars, y.lens, body, y.dt, y.lib)
    if kind == 'gradient' and y.rank:
        vs = [t.fresh(l) for l in y.lens]
        b = ya.at([t.var(v) for v in vs])
        for v, l in zip(vs, y.lens):
            b = t.psum(v, l, b)
        ya, yl = Arr([], [], b, y.dt, y.lib), []
    r = len(yl)
    if batch:
        if r < 1 or x.rank < 1:
            raise ShapeError('batch jacobian of rank %d by rank %d at %s' % (r, x.rank, ip.where()))
        lens = yl + list(x.lens[1:])
    else:
        lens = yl + list(x.lens)

    def f(*ix):
        yi = list(ix[:r])
        xi = ([yi[0]] if batch else []) + list(ix[r:])
        d = diff(ya.at(yi), nm, xi)
        if d is None:
            raise Top('derivative of %s' % t.show(ya.at(yi))[:80])
        return untape(d, tp)
    return make(lens, f, F, 'tf')


def op_method(ip, o, nm, a, k):
    if isinstance(o, DenseOp):
        if nm == 'to_dense':
            return o.a
        raise Top('operator method %s' % nm)
    if nm == 'watch':
        return tape_watch(ip, o, a[0])
    if nm in ('jacobian', 'batch_jacobian', 'gradient'):
        A = Args(ip, a, k)
        return tape_jacobian(ip, o, A.get(0, 'target'), A.get(1, 'source' if nm != 'gradient' else 'sources'),
                             nm == 'batch_jacobian', nm)
    raise Top('gradient tape method %s' % nm)


@reg('tf.GradientTape')
def gradient_tape(ip, a, k):
    k.get('watch_accessed_variables')
    k.get('persistent')
    return Tape()


# --------------------------------------------------------------------------
# environment calls without numeric effect

def noop(*names):
    for n in names:
        LIB[n] = lambda ip, a, k: (list(a), k.items()) and None


noop('tf.device', 'tf.config.threading.set_intra_op_parallelism_threads',
     'tf.config.threading.set_inter_op_parallelism_threads', 'tf.config.experimental.set_memory_growth',
     'tf.config.set_visible_devices', 'tf.debugging.set_log_device_placement', 'jax.config.update',
     'tf.config.run_functions_eagerly', 'np.set_printoptions')


@reg('tf.config.list_physical_devices')
def devices(ip, a, k):
    return PList([])


CLOCK = [None]


@reg('time.time', 'time.perf_counter', 'time.monotonic', 'time.process_time')
def now(ip, a, k):
    if CLOCK[0] is not None:
        return CLOCK[0](ip)
    return num(t.app('now'), F)


@reg('tf.TensorShape')
def tensor_shape(ip, a, k):
    return a[0]


def _closed_int(h):
    """ceil/floor/int/round of a constant expression."""
    def f(args):
        p = args[0]
        if p.fv or p.flags or t.const_val(p) is not None:
            c = t.const_val(p)
            if c is None:
                return None
        ok = True
        for a in t.atoms_in(p, lambda a: True).values():
            if a.kind not in ('f', 'P') or a.kind == 'f' and a.head not in ('log', 'sqrt', 'exp', 'pow', 'powint', 'pi'):
                ok = False
        if not ok:
            return None
        from . import valnum
        from decimal import getcontext
        getcontext().prec = valnum.PREC
        try:
            v = valnum.Sample(0, {}).poly(p, {})
        except Exception:
            return None
        return t.const(valnum.FUN[h](v))
    return f


for _n in ('ceil', 'floor', 'int', 'round'):
    if _n not in t.SIMPLIFY:
        t.SIMPLIFY[_n] = _closed_int(_n)
    else:
        def _both(args, g=t.SIMPLIFY[_n], h=_closed_int(_n)):
            r = g(args)
            return h(args) if r is None else r
        t.SIMPLIFY[_n] = _both


def _viewing(f):
    def g(ip, a, k):
        r = f(ip, a, k)
        return L.alias(r, a[0]) if a else r
    return g


for _n in ('np.reshape', 'np.ravel', 'np.transpose', 'np.swapaxes', 'np.moveaxis', 'np.squeeze', 'np.expand_dims',
           'np.atleast_1d', 'np.atleast_2d', 'np.flip', 'np.flipud', 'np.fliplr', 'np.diagonal', 'np.broadcast_to', 'np.rollaxis',
           'np.real', 'np.split'):
    if _n in LIB:
        LIB[_n] = _viewing(LIB[_n])


# ---- library functions defined in specs/prelude.py

def prelude(name, *paths):
    @reg(*paths)
    def f(ip, a, k):
        fn = ip.load('specs.prelude').env.d[name]
        return ip.call(fn, list(a), dict(k.items()))


for _n, _ps in (('reduce', ('functools.reduce',)), ('accumulate', ('itertools.accumulate',)),
                ('chain', ('itertools.chain',)), ('fori_loop', ('jax.lax.fori_loop',)),
                ('while_loop', ('jax.lax.while_loop',)), ('tf_while', ('tf.while_loop',)),
                ('lax_cond', ('jax.lax.cond',)), ('foldl', ('tf.foldl',)), ('foldr', ('tf.foldr',)),
                ('multi_dot', ('np.linalg.multi_dot',)), ('diff', ('np.diff',)), ('isclose', ('np.isclose',)),
                ('matmul', ('operator.matmul',)), ('add', ('operator.add',)), ('sub', ('operator.sub',)),
                ('mul', ('operator.mul',))):
    prelude(_n, *_ps)


@reg('np.einsum', 'tf.einsum')
def einsum(ip, a, k):
    eq = a[0]
    if not isinstance(eq, str):
        raise Top('einsum without subscripts')
    xs = [L.arr(ip, x) for x in a[1:]]
    eq = eq.replace(' ', '')
    ins, arrow, out = eq.partition('->')
    ins = ins.split(',')
    if len(ins) != len(xs):
        raise L.ShapeError('einsum %s with %d operands at %s' % (eq, len(xs), ip.where()))
    # an ellipsis stands for leading axes named '0', '1' ... from the right
    deep = 0
    for s, x in zip(ins, xs):
        if '...' in s:
            deep = max(deep, x.rank - len(s.replace('...', '')))

    def expand(s, rank):
        if '...' not in s:
            return list(s)
        n = deep if rank is None else rank - len(s.replace('...', ''))
        i = s.index('...')
        return list(s[:i]) + ['#%d' % j for j in range(n - 1, -1, -1)] + list(s[i + 3:])
    ins = [expand(s, x.rank) for s, x in zip(ins, xs)]
    if arrow:
        out = expand(out, None)
    else:
        flat = [c for s in ins for c in s]
        out = sorted(set(c for c in flat if c[0] == '#'), reverse=True) + sorted(c for c in set(flat) if flat.count(c) == 1 and c[0] != '#')
    size = {}
    for s, x in zip(ins, xs):
        if len(s) != x.rank:
            raise L.ShapeError('einsum %s: operand of rank %d at %s' % (eq, x.rank, ip.where()))
        for c, l in zip(s, x.lens):
            if c in size and c[0] == '#' and t.int_val(size[c]) == 1:
                size[c] = l
            elif c in size and not (c[0] == '#' and t.int_val(l) == 1):
                L.contract_len(ip, size[c], l, 'einsum')
            elif c not in size:
                size[c] = l
    xs = [L.named(x) for x in xs]
    rest = [c for c in dict.fromkeys(c for s in ins for c in s) if c not in out]
    dt = xs[0].dt
    for x in xs[1:]:
        dt = promote(dt, x.dt)

    def f(*ix):
        e = dict(zip(out, ix))
        bound = [(c, t.fresh(size[c])) for c in rest]
        for c, nm in bound:
            e[c] = t.var(nm)
        p = t.ONE
        for s, x in zip(ins, xs):
            p = t.pmul(p, x.at([t.ZERO if c[0] == '#' and t.int_val(l) == 1 else e[c] for c, l in zip(s, x.lens)]))
        for c, nm in reversed(bound):
            p = t.psum(nm, size[c], p)
        return p
    return make([size[c] for c in out], f, dt, L.liboff(*xs))
