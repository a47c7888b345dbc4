"""Models of the library functions used by the analysed code.

Arrays are terms in index notation; every model states the element of the
result as a term in the result's indices.
"""

from . import terms as t
from .terms import Top
from .values import *
from . import values as V
from . import loops

ALIASES = {
    'numpy': 'np', 'jax.numpy': 'np', 'jnp': 'np', 'tensorflow': 'tf', 'scipy.linalg': 'np.linalg',
    'tensorflow_probability': 'tfp', 'scipy': 'scipy',
}


def canon(path):
    for k in sorted(ALIASES, key=lambda x: -len(x)):
        if path == k or path.startswith(k + '.'):
            path = ALIASES[k] + path[len(k):]
            break
    if path == 'jax.numpy' or path.startswith('jax.numpy.'):
        path = 'jnp' + path[len('jax.numpy'):]
    return path


# jax arrays are immutable: keep a separate name so that results are tagged
ALIASES['jax.numpy'] = 'jnp'
del ALIASES['jnp']

S = frozenset('s')
DTYPES = {'float64': F, 'float32': S, 'float16': S, 'half': S, 'single': S, 'bfloat16': S, 'float_': F, 'double': F, 'int32': I, 'int64': I,
          'uint8': I, 'int8': I, 'int16': I, 'bool': B, 'bool_': B, 'int_': I, 'intp': I, 'floating': F,
          'integer': I}


def lib_attr(path):
    path = canon(path)
    last = path.rsplit('.', 1)[-1]
    root = path.split('.')[0]
    if last in DTYPES and root in ('np', 'jnp', 'tf'):
        return DType(DTYPES[last])
    if path in ('np.pi', 'jnp.pi', 'math.pi'):
        return num(t.app('pi'), F)
    if path in ('np.inf', 'jnp.inf', 'math.inf'):
        return num(t.app('inf'), F)
    if path in ('np.newaxis', 'jnp.newaxis', 'tf.newaxis'):
        return None
    if path in ('np.e', 'math.e'):
        return num(t.app('exp', t.ONE), F)
    return LibFn(path)


# --------------------------------------------------------------------------
# helpers

def arr(ip, v, lib='np'):
    """Numeric value as Arr (lists become arrays)."""
    if isinstance(v, Arr):
        return v
    if isinstance(v, (PList, tuple)):
        return from_list(ip, v, lib)
    if isinstance(v, bool):
        return num(v)
    if isinstance(v, Unknown):
        raise Top(v.reason)
    if isinstance(v, Iter):
        return from_list(ip, PList(None, v.length, v.var, v.elem), lib)
    raise Top('%s where an array is expected' % type(v).__name__)


def from_list(ip, v, lib='np'):
    if isinstance(v, tuple):
        v = PList(list(v))
    if v.items is not None:
        if not v.items:
            return Arr([t.fresh(t.ZERO)], [t.ZERO], t.ZERO, F, lib)
        xs = [arr(ip, x, lib) for x in v.items]
        return stack(ip, xs, 0, lib)
    v = untail(v)
    e = arr(ip, v.elem, lib)
    iv = t.fresh(v.length)
    e = vsubst(e, {v.var: t.var(iv)})
    lens = (v.length,) + e.lens
    for l in e.lens:
        if iv in l.fv:
            raise Top('ragged array')
    return Arr((iv,) + e.vars, lens, e.body, e.dt, lib)


def stack(ip, xs, axis, lib):
    r = xs[0].rank
    for x in xs[1:]:
        if x.rank != r:
            raise Top('stack of different ranks')
        for a, b in zip(x.lens, xs[0].lens):
            if same_len(a, b) is False:
                raise ShapeError('stacking arrays of shapes %s and %s at %s' % (shp(x), shp(xs[0]), ip.where()))
    if axis < 0:
        axis += r + 1
    n = t.const(len(xs))
    lens = list(xs[0].lens)
    lens.insert(axis, n)

    def f(*ix):
        k = ix[axis]
        rest = ix[:axis] + ix[axis + 1:]
        e = xs[0].at(rest)
        for i in range(1, len(xs)):
            e = t.ite('ge', k - t.const(i), xs[i].at(rest), e)
        return e
    return make(lens, f, promote(*[x.dt for x in xs]), lib)


def shp(a):
    return '(%s)' % ','.join(t.show(l, 2) for l in a.lens)


def liboff(*xs):
    r = 'py'
    for x in xs:
        if isinstance(x, Arr):
            if x.lib == 'im':
                return 'im'
            if x.lib == 'np':
                r = 'np'
    return r


def bcast_lens(ip, arrs):
    rank = max(a.rank for a in arrs)
    out = []
    for k in range(rank):
        cand = None
        one = False
        for a in arrs:
            p = k - (rank - a.rank)
            if p < 0:
                continue
            l = a.lens[p]
            if t.int_val(l) == 1:
                one = True
                continue
            if cand is None:
                cand = l
            else:
                s = same_len(cand, l)
                if s is False:
                    raise ShapeError('shapes %s do not broadcast at %s' %
                                     (' and '.join(shp(x) for x in arrs), ip.where()))
        out.append(cand if cand is not None else t.ONE)
    return out


def bcast_at(a, ix):
    """Element of a at broadcast index ix (trailing alignment)."""
    n = len(ix)
    idx = []
    for p in range(a.rank):
        i = ix[n - a.rank + p]
        idx.append(t.ZERO if t.int_val(a.lens[p]) == 1 else i)
    return a.at(idx)


def elementwise(ip, f, args, dt=None, lib=None):
    args = [arr(ip, a) for a in args]
    lens = bcast_lens(ip, args)
    if dt is None:
        dt = promote(*[a.dt for a in args])
    lib = lib or liboff(*args)
    if not lens:
        return Arr((), (), f(*[a.body for a in args]), dt, lib)
    return make(lens, lambda *ix: f(*[bcast_at(a, ix) for a in args]), dt, lib)


def to_int(ip, v):
    """Integer term of an index value."""
    if isinstance(v, Arr):
        if v.rank == 0:
            return v.body
        if all(t.int_val(l) == 1 for l in v.lens):
            return v.at([t.ZERO] * v.rank)
    if isinstance(v, Unknown):
        raise Top(v.reason)
    raise Top('integer expected, got %s' % type(v).__name__)


def static_int(ip, v):
    k = t.int_val(to_int(ip, v))
    if k is None:
        raise Top('constant integer expected')
    return k


# --------------------------------------------------------------------------
# operators

def binop(ip, op, a, b):
    if isinstance(a, Unknown):
        return a
    if isinstance(b, Unknown):
        return b
    if op == 'Add':
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if getattr(ip, 'words', False):
            # strings are tuples of letters and letters are integers
            wa, wb = [() if x == '' else (x,) if isinstance(x, Arr) and not x.rank else x for x in (a, b)] \
                if not (isinstance(a, Arr) and isinstance(b, Arr)) else (a, b)
            if isinstance(wa, tuple) and isinstance(wb, tuple):
                return wa + wb
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, PList) and isinstance(b, PList):
            return list_concat(ip, a, b)
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if isinstance(y, PList) and isinstance(x, Arr) and x.rank == 0:
                return list_repeat(ip, x.body, y)
            if isinstance(y, tuple) and isinstance(x, Arr) and x.rank == 0:
                return y * static_int(ip, x)
            if isinstance(y, str) and isinstance(x, Arr):
                return y * static_int(ip, x)
    if op == 'Mod' and isinstance(a, str):
        return a
    if op == 'MatMult':
        return matmul(ip, arr(ip, a), arr(ip, b))
    if op in ('BitAnd', 'BitOr', 'BitXor') and isinstance(a, Arr) and isinstance(b, Arr):
        if a.dt == B and b.dt == B:
            if op == 'BitAnd':
                return elementwise(ip, t.pmul, [a, b], B)
            if op == 'BitOr':
                return elementwise(ip, lambda x, y: x + y - t.pmul(x, y), [a, b], B)
        return elementwise(ip, lambda x, y: bitop(op, x, y), [a, b])
    if op in ('LShift', 'RShift'):
        return elementwise(ip, lambda x, y: bitop(op, x, y), [a, b])
    f = OPS.get(op)
    if f is None:
        raise Top('operator %s' % op)
    a, b = arr(ip, a), arr(ip, b)
    dt = None
    if op == 'Div':
        dt = F
    elif op in ('FloorDiv', 'Mod', 'Pow', 'Add', 'Sub', 'Mult'):
        dt = promote(a.dt, b.dt)
        if op != 'Mod' and dt == B:
            dt = I
    return elementwise(ip, f, [a, b], dt)


def bitop(op, x, y):
    a, b = t.int_val(x), t.int_val(y)
    if a is not None and b is not None:
        return t.const({'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b,
                        'LShift': a << b if b >= 0 else 0, 'RShift': a >> b if b >= 0 else 0}[op])
    if op == 'LShift' and a is not None:
        return t.pscale(t.app('powint', t.const(2), y), a)
    return t.app(op, x, y)


def p_div(x, y):
    return t.pmul(x, t.precip(y))


def p_pow(x, y):
    k = t.int_val(y)
    if k is not None and abs(k) <= 6:
        return t.ppow(x, k)
    c = t.const_val(y)
    if c == t.Fraction(1, 2):
        return t.app('sqrt', x)
    xc = t.int_val(x)
    if xc is not None and k is not None and k >= 0:
        return t.const(xc ** k)
    if t.is_int_term(x) and t.is_int_term(y):
        return t.app('powint', x, y)
    return t.app('pow', x, y)


def split_div(p, n):
    """(q, r) with p == q*n + r and 0 <= r < n provable, or None."""
    c = t.int_val(n)
    natom = t.single_atom(n)
    q, r = {}, {}
    for (fs, bd), co in p.m.items():
        if c is not None:
            if co.denominator == 1 and co % c == 0 and c != 0 and (fs or bd):
                q[(fs, bd)] = co / c
            else:
                r[(fs, bd)] = co
        elif natom is not None and not bd and any(a is natom and e >= 1 for a, e in fs):
            fs2 = tuple((a, e - (1 if a is natom else 0)) for a, e in fs)
            fs2 = tuple(x for x in fs2 if x[1])
            q[(fs2, bd)] = co
        else:
            r[(fs, bd)] = co
    Q, R = t.Poly(q), t.Poly(r)
    if natom is None and c is None:
        # composite divisor: try a leading-monomial division
        if len(n.m) == 1:
            (nf, nb), nc = next(iter(n.m.items()))
            q, r = {}, {}
            for (fs, bd), co in p.m.items():
                d = dict(fs)
                if not bd and not nb and (co / nc).denominator == 1 and all(d.get(a, 0) >= e for a, e in nf):
                    for a, e in nf:
                        d[a] -= e
                    q[(tuple((a, d[a]) for a, e in fs if d[a]), bd)] = co / nc
                else:
                    r[(fs, bd)] = co
            Q, R = t.Poly(q), t.Poly(r)
        else:
            return None
    if c is not None and c > 0:
        k = t.const_val(R)
        if k is not None and k.denominator == 1:
            d = int(k) // c
            return Q + t.const(d), t.const(int(k) - d * c)
    for shift in (t.ZERO, t.ONE, -t.ONE):
        R2 = R + shift * n
        if t.decide_ge(R2) and t.decide_ge(n - t.ONE - R2):
            return Q - shift, R2
    if natom is None and c is None and nc.denominator == 1 and nc > 1 and not nb:
        # (a m + b) / (c m) with 0 <= b < m
        m = t.Poly({(nf, nb): t.Fraction(1)})
        s = split_div(p, m)
        if s is not None:
            a, b = s
            return p_floordiv(a, t.const(nc)), t.pmul(p_mod(a, t.const(nc)), m) + b
    return None


def p_floordiv(x, y):
    if t.int_val(y) == 1:
        return x
    a, b = t.int_val(x), t.int_val(y)
    if a is not None and b:
        return t.const(a // b)
    s = split_div(x, y)
    if s is not None:
        return s[0]
    return t.lift_args('f', 'floordiv', (x, y))


def p_mod(x, y):
    a, b = t.int_val(x), t.int_val(y)
    if b == 1 and t.is_int_term(x):
        return t.ZERO
    if a is not None and b:
        return t.const(a % b)
    s = split_div(x, y)
    if s is not None:
        return s[1]
    return t.lift_args('f', 'mod', (x, y))


def _simp_floordiv(args):
    x, y = args
    if t.int_val(y) == 1:
        return x
    s = split_div(x, y)
    return s[0] if s is not None else None


def _simp_mod(args):
    x, y = args
    s = split_div(x, y)
    return s[1] if s is not None else None


t.SIMPLIFY['floordiv'] = _simp_floordiv
t.SIMPLIFY['mod'] = _simp_mod


def _simp_powint(args):
    x, y = args
    a, b = t.int_val(x), t.int_val(y)
    if a is not None and b is not None and 0 <= b < 64:
        return t.const(a ** b)
    return None


t.SIMPLIFY['powint'] = _simp_powint


def _odd(name):
    def f(args):
        p = args[0]
        if not p.m:
            return t.ZERO
        if t.const_val(p) is None and t.lead_sign(p) < 0 or (t.const_val(p) or 0) < 0:
            return -t.app(name, -p)
        return None
    return f


def _even(name, at0):
    def f(args):
        p = args[0]
        if not p.m:
            return at0
        if t.const_val(p) is None and t.lead_sign(p) < 0 or (t.const_val(p) or 0) < 0:
            return t.app(name, -p)
        return None
    return f


t.SIMPLIFY['sin'] = _odd('sin')
t.SIMPLIFY['tanh'] = _odd('tanh')
t.SIMPLIFY['sign'] = _odd('sign')
t.SIMPLIFY['cos'] = _even('cos', t.ONE)


def _simp_abs(args):
    p = args[0]
    c = t.const_val(p)
    if c is not None:
        return t.const(abs(c))
    if t.lead_sign(p) < 0:
        return t.app('abs', -p)
    return None


t.SIMPLIFY['abs'] = _simp_abs


def _simp_exp(args):
    if not args[0].m:
        return t.ONE
    return None


t.SIMPLIFY['exp'] = _simp_exp


def _simp_log(args):
    if args[0] == t.ONE:
        return t.ZERO
    return None


t.SIMPLIFY['log'] = _simp_log


def _simp_sqrt(args):
    c = t.const_val(args[0])
    if c is not None and c >= 0:
        import math
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return t.const(t.Fraction(a, b))
    # sqrt(n*n) for a dimension
    p = args[0]
    if len(p.m) == 1:
        (fs, bd), co = next(iter(p.m.items()))
        if co == 1 and not bd and all(a.kind == 'd' and e % 2 == 0 for a, e in fs):
            return t.Poly({(tuple((a, e // 2) for a, e in fs), ()): t.Fraction(1)})
    return None


t.SIMPLIFY['sqrt'] = _simp_sqrt


def _simp_int(args):
    if t.is_int_term(args[0]):
        return args[0]
    c = t.const_val(args[0])
    if c is not None:
        return t.const(int(c))
    return None


def _simp_ceil(args):
    if t.is_int_term(args[0]):
        return args[0]
    c = t.const_val(args[0])
    if c is not None:
        return t.const(-((-c.numerator) // c.denominator))
    return None


def _simp_floor(args):
    if t.is_int_term(args[0]):
        return args[0]
    c = t.const_val(args[0])
    if c is not None:
        return t.const(c.numerator // c.denominator)
    return None


def _simp_round(args):
    if t.is_int_term(args[0]):
        return args[0]
    return None


t.SIMPLIFY['int'] = _simp_int
t.SIMPLIFY['ceil'] = _simp_ceil
t.SIMPLIFY['floor'] = _simp_floor
t.SIMPLIFY['round'] = _simp_round

OPS = {'Add': t.padd, 'Sub': lambda x, y: x - y, 'Mult': t.pmul, 'Div': p_div, 'Pow': p_pow,
       'FloorDiv': p_floordiv, 'Mod': p_mod}


def unop(ip, op, v):
    if isinstance(v, Unknown):
        return v
    v = arr(ip, v)
    if op == 'USub':
        return elementwise(ip, lambda x: -x, [v])
    if op == 'UAdd':
        return v
    if op == 'Invert' and v.dt == B:
        return elementwise(ip, lambda x: t.ONE - x, [v], B)
    raise Top('unary %s' % op)


def p_cmp(op, x, y):
    """0/1 term of a comparison."""
    ints = t.is_int_term(x) and t.is_int_term(y)
    if op == 'GtE':
        if ints:
            return t.ite('ge', x - y, t.ONE, t.ZERO)
        return t.ite('gt', y - x, t.ZERO, t.ONE)
    if op == 'Gt':
        if ints:
            return t.ite('ge', x - y - t.ONE, t.ONE, t.ZERO)
        return t.ite('gt', x - y, t.ONE, t.ZERO)
    if op == 'LtE':
        return p_cmp('GtE', y, x)
    if op == 'Lt':
        return p_cmp('Gt', y, x)
    if op == 'Eq':
        return t.ite('eq', x - y, t.ONE, t.ZERO)
    if op == 'NotEq':
        return t.ite('eq', x - y, t.ZERO, t.ONE)
    raise Top('comparison %s' % op)


def compare(ip, op, a, b):
    if isinstance(a, Unknown):
        return a
    if isinstance(b, Unknown):
        return b
    if op in ('Is', 'IsNot'):
        same = None
        if a is None or b is None:
            same = a is b
            for x in (a, b):
                if isinstance(x, Arr) and t.single_atom(x.body) is not None and \
                        t.single_atom(x.body).head == V.POISON:
                    same = True
            # a merged None shows as a conditional on the poison term
            x = a if b is None else b
            if isinstance(x, Arr) and same is False:
                c = poison_cond(x.body)
                if c is not None:
                    return num(c if op == 'Is' else t.ONE - c, B)
        elif isinstance(a, Arr) and isinstance(b, Arr):
            return num(p_cmp('Eq', a.body, b.body), B) if a.rank == 0 and b.rank == 0 else num(a is b)
        else:
            same = a is b
        return num(same if op == 'Is' else not same)
    if op in ('In', 'NotIn'):
        if isinstance(b, PDict):
            r = ip.dkey(a) in b.d
        elif isinstance(b, str) and isinstance(a, str):
            r = a in b
        elif isinstance(b, (tuple, PList)):
            seq = ip.iterate(b)
            if not isinstance(seq, list):
                raise Top('membership in a symbolic list')
            acc = t.ZERO
            for x in seq:
                e = compare(ip, 'Eq', a, x)
                p = arr(ip, e).body
                acc = acc + p - t.pmul(acc, p)
            if op == 'NotIn':
                acc = t.ONE - acc
            return num(acc, B)
        else:
            raise Top('membership')
        return num(r if op == 'In' else not r)
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            r = {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'Gt': a > b}.get(op)
            if r is None:
                raise Top('string comparison')
            return num(r)
        if op == 'Eq':
            return num(False)
        if op == 'NotEq':
            return num(True)
    if a is None or b is None:
        if op == 'Eq':
            return num(a is b)
        if op == 'NotEq':
            return num(a is not b)
    if isinstance(a, (tuple, PList)) and isinstance(b, (tuple, PList)) and op in ('Eq', 'NotEq'):
        xa, xb = ip.iterate(a), ip.iterate(b)
        if isinstance(xa, list) and isinstance(xb, list):
            if len(xa) != len(xb):
                return num(op == 'NotEq')
            acc = t.ONE
            for x, y in zip(xa, xb):
                e = arr(ip, compare(ip, 'Eq', x, y))
                acc = t.pmul(acc, e.body)
            return num(acc if op == 'Eq' else t.ONE - acc, B)
        raise Top('list comparison')
    if isinstance(a, DType) and isinstance(b, DType):
        r = a.dt == b.dt
        return num(r if op == 'Eq' else not r)
    if not isinstance(a, (Arr, PList, tuple)) or not isinstance(b, (Arr, PList, tuple)):
        if op in ('Eq', 'NotEq'):
            return num((a is b) == (op == 'Eq'))
        raise Top('comparison of %s' % type(a).__name__)
    return elementwise(ip, lambda x, y: p_cmp(op, x, y), [a, b], B)


def poison_cond(p):
    """0/1 term telling when p is the None placeholder."""
    it = t.as_ite(p)
    if it is None:
        a = t.single_atom(p)
        return t.ONE if a is not None and a.kind == 'f' and a.head == V.POISON else None
    a, b = poison_cond(it.args[1]), poison_cond(it.args[2])
    if a is None and b is None:
        return None
    return t.ite(it.head, it.args[0], a or t.ZERO, b or t.ZERO)


# --------------------------------------------------------------------------
# lists

def list_repeat(ip, n, lst):
    k = t.int_val(n)
    if k is not None and lst.items is not None:
        return PList(lst.items * k)
    if lst.items is not None and len(lst.items) == 1:
        if t.decide_ge(n) is None:
            n = t.ite('ge', n, n, t.ZERO)
        return PList(None, n, t.fresh(n), lst.items[0])
    raise Top('list repetition')


def list_concat(ip, a, b):
    if a.items is not None and b.items is not None:
        return PList(a.items + b.items)
    if b.items is not None and a.items is None:
        r = PList(None, a.length, a.var, a.elem)
        r.tail = list(a.tail) + list(b.items)
        return r
    sa, sb = to_seq(a), to_seq(b)
    n = sa.length + sb.length
    nv = t.fresh(n)
    eb = vsubst(sb.elem, {sb.var: t.var(nv) - sa.length}) if sb.elem is not None else None
    ea = vsubst(sa.elem, {sa.var: t.var(nv)}) if sa.elem is not None else None
    if ea is None:
        e = eb
    elif eb is None:
        e = ea
    else:
        e = merge('ge', t.var(nv) - sa.length, eb, ea)
    return PList(None, n, nv, e)


def list_extend(ip, lst, other):
    if not isinstance(other, PList):
        seq = ip.iterate(other)
        other = PList(seq) if isinstance(seq, list) else PList(None, seq.length, seq.var, seq.elem)
    r = list_concat(ip, lst, other)
    ip.mutate(lst, 'extend')
    lst.restore(r.snapshot())


def list_get(ip, lst, i):
    """Element at integer term i."""
    k = t.int_val(i)
    if lst.items is not None:
        if k is not None:
            if not -len(lst.items) <= k < len(lst.items):
                raise IndexRange('list index %d of %d at %s' % (k, len(lst.items), ip.where()))
            return lst.items[k]
        if len(lst.items) == 1 and t.decide_ge(i) is True:
            return lst.items[0]
        lst = to_seq(lst)
    n = lst.len()
    # explicit tail elements by reference
    if lst.tail:
        d = t.int_val(i - lst.length)
        if d is not None and 0 <= d < len(lst.tail):
            return lst.tail[d]
        if k is not None and k < 0 and -k <= len(lst.tail):
            return lst.tail[k]
        lst = untail(lst)
    if lst.elem is None:
        raise IndexRange('element of an empty list at %s' % ip.where())
    s = t.decide_ge(i)
    if s is False:
        i = i + n
        s = t.decide_ge(i)
        if s is False:
            raise IndexRange('list index below the start at %s' % ip.where())
    if t.decide_ge(n - t.ONE - i) is False:
        raise IndexRange('list index %s of a list of length %s at %s' % (t.show(i), t.show(n), ip.where()))
    if s is None:
        ok = True
        for v in leaves(lst.elem):
            ok = True
        return merge('ge', i, vsubst(lst.elem, {lst.var: i}), vsubst(lst.elem, {lst.var: i + n}))
    r = vsubst(lst.elem, {lst.var: i})
    if isinstance(r, Arr) and r is not lst.elem and r.lib == 'np' and r.rank and r.view is None:
        r.view = (lst, num(i, I))       # a store into the element is a store into the list
    return r


def list_set(ip, lst, i, v):
    k = t.int_val(i)
    ip.mutate(lst, 'item store')
    if lst.items is not None and k is not None:
        if not -len(lst.items) <= k < len(lst.items):
            raise IndexRange('list index %d of %d at %s' % (k, len(lst.items), ip.where()))
        lst.items[k] = v
        return
    s = to_seq(lst)
    n = s.length
    if t.decide_ge(i) is False:
        i = i + n
    if t.decide_ge(n - t.ONE - i) is False:
        raise IndexRange('list index %s of a list of length %s at %s' % (t.show(i), t.show(n), ip.where()))
    nv = t.fresh(n)
    e = vsubst(s.elem, {s.var: t.var(nv)})
    if isinstance(v, Arr) and isinstance(e, Arr) and v.rank != e.rank:
        raise Top('list item of another rank')
    m = merge('eq', t.var(nv) - i, v, e)
    lst.restore((None, n, nv, m, []))


def list_slice(ip, lst, sl):
    n = lst.len()
    a, ln, st = slice_bounds(ip, sl, n)
    ka, kl = t.int_val(a), t.int_val(ln)
    if lst.items is not None and ka is not None and kl is not None and isinstance(st, int):
        return PList([lst.items[ka + st * q] for q in range(max(kl, 0))])
    s = to_seq(lst)
    nv = t.fresh(ln)
    e = vsubst(s.elem, {s.var: a + stp(st) * t.var(nv)}) if s.elem is not None else None
    return PList(None, ln, nv, e)


def stp(st):
    return t.const(st) if isinstance(st, int) else st


def symbolic_stride(ip, sl, n, st):
    if t.decide_ge(st - t.ONE) is not True:
        raise Top('slice step of unknown sign')
    a, ln, _ = slice_bounds(ip, SliceV(sl.a, sl.b, None), n)
    if t.int_val(ln) == 0:
        return a, ln, st
    return a, p_floordiv(ln + st - t.ONE, st), st


def slice_bounds(ip, sl, n):
    """(start, length, constant step) of a slice of a sequence of length n."""
    st = 1
    if sl.c is not None:
        stt = to_int(ip, sl.c)
        st = t.int_val(stt)
        if st is None:
            return symbolic_stride(ip, sl, n, stt)
    if st == 0:
        raise Top('slice step 0')

    def wrap(v, dflt):
        if v is None:
            return dflt
        p = to_int(ip, v)
        d = t.decide_ge(p)
        if d is False:
            q = p + n
            return q if t.decide_ge(q) is not False else t.ZERO
        return p
    if st > 0:
        a = wrap(sl.a, t.ZERO)
        b = wrap(sl.b, n)
        if t.decide_ge(n - b) is False:
            b = n
        if t.decide_ge(n - a) is False:
            a = n
        ln = b - a
        if st > 1:
            ln = p_floordiv(ln + t.const(st - 1), t.const(st))
    else:
        a = wrap(sl.a, n - t.ONE)
        if sl.b is None:
            ln = a + t.ONE
        else:
            ln = a - wrap(sl.b, None)
        if st < -1:
            ln = p_floordiv(ln + t.const(-st - 1), t.const(-st))
    if t.decide_ge(ln) is False:
        ln = t.ZERO
    return a, ln, st


# --------------------------------------------------------------------------
# subscripts

def norm_index(ip, ix, rank, lens):
    """Expand Ellipsis; returns list of entries covering all axes."""
    if not isinstance(ix, tuple):
        ix = (ix,)
    ix = list(ix)
    if any(isinstance(x, Unknown) for x in ix):
        raise Top([x.reason for x in ix if isinstance(x, Unknown)][0])
    ix = [arr(ip, x) if isinstance(x, PList) else x for x in ix]
    used = sum(1 for x in ix if x is not None and x is not Ellipsis)
    if any(x is Ellipsis for x in ix):
        p = [k for k, x in enumerate(ix) if x is Ellipsis][0]
        ix[p:p + 1] = [SliceV(None, None, None)] * (rank - used)
    else:
        ix += [SliceV(None, None, None)] * (rank - used)
    if sum(1 for x in ix if x is not None) > rank:
        raise ShapeError('too many indices for an array of rank %d at %s' % (rank, ip.where()))
    return ix


def wrap_index(ip, i, n):
    d = t.decide_ge(i)
    if d is False:
        i2 = i + n
        if t.decide_ge(i2) is False:
            raise IndexRange('index %s of an axis of length %s at %s' % (t.show(i), t.show(n), ip.where()))
        return i2
    if t.decide_ge(n - t.ONE - i) is False:
        raise IndexRange('index %s of an axis of length %s at %s' % (t.show(i), t.show(n), ip.where()))
    return i


def wrapped(i, n, f):
    """f at a numpy index that may be negative."""
    if t.decide_ge(i) is None and not nonneg_known(i):
        return t.ite('ge', i, f(i), f(i + n))
    return f(i)


def nonneg_known(i):
    """Index terms that are data (inputs, argmin results) rather than
    arithmetic on loop counters: taken to be valid indices."""
    for (fs, bd), c in i.m.items():
        for a, e in fs:
            if a.kind in ('s', 'f', 'r', 'R', 'i', 'ph'):
                return True
    return False


def getitem(ip, o, ix):
    if isinstance(o, Unknown):
        return o
    if isinstance(o, PList):
        if isinstance(ix, SliceV):
            if getattr(ip, 'words', False) and o.tag == 'input:w':
                a, ln, st = slice_bounds(ip, ix, o.len())
                kl = t.int_val(ln)
                if kl is not None and isinstance(st, int):
                    return tuple(list_get(ip, o, a + t.const(st * q)) for q in range(max(kl, 0)))
            return list_slice(ip, o, ix)
        return list_get(ip, o, to_int(ip, ix))
    if isinstance(o, tuple):
        if isinstance(ix, SliceV):
            a, ln, st = slice_bounds(ip, ix, t.const(len(o)))
            ka, kl = t.int_val(a), t.int_val(ln)
            if ka is None and kl is not None and isinstance(st, int):
                return tuple(list_get(ip, PList(list(o)), a + t.const(st * q)) for q in range(max(kl, 0)))
            if ka is None or kl is None or not isinstance(st, int):
                raise Top('symbolic tuple slice')
            return tuple(o[ka + st * q] for q in range(max(kl, 0)))
        i = to_int(ip, ix)
        k = t.int_val(i)
        if k is None:
            return list_get(ip, PList(list(o)), i)
        if not -len(o) <= k < len(o):
            raise IndexRange('tuple index %d of %d at %s' % (k, len(o), ip.where()))
        return o[k]
    if isinstance(o, PDict):
        k = ip.dkey(ix)
        if k not in o.d:
            raise Top('missing dictionary key %r' % (k,))
        return o.d[k]
    if isinstance(o, str):
        if isinstance(ix, Arr):
            k = static_int(ip, ix)
            return o[k]
        raise Top('string index')
    if isinstance(o, ObjV) and o.cls is None and '__getitem__' in o.attrs:
        return ip.call(o.attrs['__getitem__'], [ix], {})
    if not isinstance(o, Arr):
        raise Top('subscript of %s' % type(o).__name__)
    if isinstance(ix, Arr) and ix.dt == B and ix.rank > 0:
        raise Top('boolean mask')
    ent = norm_index(ip, ix, o.rank, o.lens)
    adv = [x for x in ent if isinstance(x, Arr) and x.rank > 0]
    if any(x.dt == B for x in adv):
        raise Top('boolean mask')
    lens = []
    plan = []      # per source axis: function of result indices
    ax = 0
    advlens = bcast_lens(ip, adv) if adv else []
    advpos = None
    contiguous = True
    seen_adv = False
    last_adv = None
    for k, x in enumerate(ent):
        if isinstance(x, Arr) and x.rank > 0:
            if seen_adv and last_adv != k - 1:
                contiguous = False
            seen_adv = True
            last_adv = k
    for x in ent:
        if x is None:
            lens.append(t.ONE)
            continue
        n = o.lens[ax]
        if isinstance(x, SliceV):
            a, ln, st = slice_bounds(ip, x, n)
            pos = len(lens)
            lens.append(ln)
            plan.append((lambda a, st, pos: lambda ri: a + stp(st) * ri(pos))(a, st, pos))
        elif isinstance(x, Arr) and x.rank > 0:
            if advpos is None:
                advpos = len(lens)
                lens.append('adv')
            plan.append((lambda x, n: lambda ri: ('adv', x, n))(x, n))
        else:
            i = wrap_index(ip, to_int(ip, x), n)
            plan.append((lambda i, n: lambda ri: ('int', i, n))(i, n))
        ax += 1
    if advpos is not None:
        if not contiguous:
            lens.remove('adv')
            lens = ['adv'] + lens
        p = lens.index('adv')
        real = lens[:p] + list(advlens) + lens[p + 1:]
        na = len(advlens)
    else:
        p, na, real = None, 0, lens

    def f(*ri):
        def at(pos):
            # pos counts result axes with the advanced block as one axis
            if p is None:
                return ri[pos]
            if not contiguous:
                pos = pos + 1 if pos < advpos else pos
            return ri[pos] if pos < p else ri[pos - 1 + na]
        idx = []
        wraps = []
        for k, g in enumerate(plan):
            v = g(at)
            if isinstance(v, tuple):
                if v[0] == 'int':
                    i = v[1]
                else:
                    i = bcast_at(v[1], ri[p:p + na])
                    if t.int_val(i) is not None and t.int_val(i) < 0:
                        i = i + v[2]
                if t.decide_ge(i) is None and not nonneg_known(i):
                    wraps.append((k, i, v[2]))
                idx.append(i)
            else:
                idx.append(v)
        e = o.at(idx)
        for k, i, n in wraps:
            j2 = list(idx)
            j2[k] = i + n
            e = t.ite('ge', i, e, o.at(j2))
        return e
    r = make(real, f, o.dt, o.lib if real else ('py' if o.lib == 'np' else o.lib))
    if o.lib == 'np' and real and not adv:
        r.view = (o, ix)
        r.tag = o.tag
    return r


def setitem(ip, o, ix, val):
    if isinstance(o, Unknown):
        return
    if isinstance(val, Unknown) and not isinstance(o, (PList, PDict)):
        raise Top(val.reason)
    if isinstance(o, PList):
        if isinstance(ix, SliceV):
            n = o.len()
            a, ln, st = slice_bounds(ip, ix, n)
            if t.int_val(a) == 0 and ln == n and st == 1:
                ip.mutate(o, 'slice store')
                src = val if isinstance(val, PList) else PList(ip.iterate(val))
                o.restore(src.snapshot())
                return
            raise Top('list slice store')
        list_set(ip, o, to_int(ip, ix), val)
        return
    if isinstance(o, PDict):
        ip.mutate(o, 'item store')
        o.d[ip.dkey(ix)] = val
        return
    if not isinstance(o, Arr):
        raise Top('store into %s' % type(o).__name__)
    if o.lib != 'np':
        raise Top('store into an immutable tensor')
    val = arr(ip, val)
    if isinstance(ix, Arr) and ix.dt == B and ix.rank == o.rank:
        ip.mutate(o, 'masked store')
        check_narrow(ip, o, val)
        vs = [t.var(v) for v in o.vars]
        if val.rank:
            raise Top('masked store of an array')
        o.body = t.ite('b', ix.at(vs), val.body, o.body)
        return
    ip.mutate(o, 'store')
    check_narrow(ip, o, val)
    o.body = stored(ip, o, ix, val)
    write_through(ip, o, o)


def write_through(ip, o, val):
    if o.view is not None:
        base, bix = o.view
        if bix is None:
            raise Top('store through a reshaped view')
        setitem(ip, base, bix, val)


def alias(r, base):
    """r shares memory with base without being a plain slice of it."""
    if isinstance(r, Arr) and isinstance(base, Arr) and r is not base and base.lib == 'np' and base.rank and r.rank:
        r.view = (base, None)
        r.tag = base.tag
    return r


def stored(ip, o, ix, val):
    """Body of o (in its own variables) after storing val at ix."""
    ent = norm_index(ip, ix, o.rank, o.lens)
    ent = [x for x in ent if x is not None]
    conds = []
    rix = []
    rlens = []
    adv = [k for k, x in enumerate(ent) if isinstance(x, Arr) and x.rank > 0]
    if adv:
        return stored_adv(ip, o, ent, val)
    for k, x in enumerate(ent):
        v = t.var(o.vars[k])
        n = o.lens[k]
        if isinstance(x, SliceV):
            a, ln, st = slice_bounds(ip, x, n)
            if st == -1:
                conds.append(('ge', a - v))
                conds.append(('ge', v - (a - ln + t.ONE)))
                rix.append(a - v)
            elif st == 1:
                conds.append(('ge', v - a))
                conds.append(('ge', a + ln - t.ONE - v))
                rix.append(v - a)
            else:
                conds.append(('ge', v - a))
                conds.append(('ge', a + (ln - t.ONE) * stp(st) - v))
                conds.append(('eq', p_mod(v - a, stp(st))))
                rix.append(p_floordiv(v - a, stp(st)))
            rlens.append(ln)
        else:
            i = wrap_index(ip, to_int(ip, x), n)
            if t.decide_ge(i) is None and not nonneg_known(i):
                i = t.ite('ge', i, i, i + n)
            conds.append(('eq', v - i))
    # shape check of the value
    if val.rank > len(rlens):
        extra = val.rank - len(rlens)
        if not all(t.int_val(l) == 1 for l in val.lens[:extra]):
            raise ShapeError('store of shape %s into a region of rank %d at %s' % (shp(val), len(rlens), ip.where()))
        val = Arr(val.vars[extra:], val.lens[extra:], val.at([t.ZERO] * extra + [t.var(v) for v in val.vars[extra:]]),
                  val.dt, val.lib)
    for k in range(val.rank):
        l = val.lens[k]
        r = rlens[len(rlens) - val.rank + k]
        if t.int_val(l) != 1 and same_len(l, r) is False:
            raise ShapeError('store of shape %s into region (%s) at %s' %
                             (shp(val), ','.join(t.show(x) for x in rlens), ip.where()))
    new = bcast_at(val, rix) if rix else val.body
    body = new
    for kind, c in reversed(conds):
        body = t.ite(kind, c, body, o.body)
    return body


def stored_adv(ip, o, ent, val):
    """Store at integer arrays: supported when every array entry is an
    affine function of one distinct result axis with unit coefficient."""
    adv = [k for k, x in enumerate(ent) if isinstance(x, Arr) and x.rank > 0]
    arrs = [ent[k] for k in adv]
    lens = bcast_lens(ip, arrs)
    if any(not (isinstance(x, SliceV) and x.a is None and x.b is None and x.c is None)
           for k, x in enumerate(ent) if k not in adv):
        ints = [k for k, x in enumerate(ent) if k not in adv and not isinstance(x, SliceV)]
        if len(ints) + len(adv) != len(ent):
            raise Top('mixed advanced store')
    vs = [t.fresh(l) for l in lens]
    conds = []
    sol = {a: t.ZERO for a, l in zip(vs, lens) if t.int_val(l) == 1}
    for k, x in enumerate(ent):
        v = t.var(o.vars[k])
        if k in adv:
            e = bcast_at(x, [t.var(a) for a in vs])
            e = t.subst(e, sol)
            cand = [a for a in vs if a in e.fv]
            if len(cand) == 1 and cand[0] not in sol:
                s = t.solve_linear(e - v, cand[0])
                if s is None:
                    raise Top('advanced store')
                sol[cand[0]] = s
                l = lens[vs.index(cand[0])]
                conds.append(('ge', s))
                conds.append(('ge', l - t.ONE - s))
            elif not cand:
                conds.append(('eq', v - e))
            else:
                raise Top('advanced store')
        elif not isinstance(x, SliceV):
            conds.append(('eq', v - to_int(ip, x)))
    if len(sol) != len(vs):
        raise Top('advanced store')
    ri = [sol[a] for a in vs]
    rest = [t.var(o.vars[k]) for k, x in enumerate(ent) if isinstance(x, SliceV)]
    if rest and adv[-1] - adv[0] != len(adv) - 1:
        raise Top('advanced store')
    if rest and adv[0] != 0:
        raise Top('advanced store')
    body = bcast_at(val, ri + rest) if val.rank else val.body
    for kind, c in reversed(conds):
        body = t.ite(kind, c, body, o.body)
    return body


def check_narrow(ip, o, val):
    extra = wider(val.dt, o.dt)
    if extra:
        ip.event('narrow', (tuple(sorted(o.dt)), tuple(sorted(val.dt))))


def wider(val, container):
    """Element types of val that may lose information in the container.
    Types: b, i, s (single), f and '$x' (the type of input x)."""
    if 'f' in container:
        return set()
    extra = set(val) - set(container)
    if set(container) - set('b'):
        extra -= set('bi')
    return extra


# --------------------------------------------------------------------------
# linear algebra

def swap_last(a):
    r = a.rank
    if r < 2:
        return a
    lens = list(a.lens)
    lens[-1], lens[-2] = lens[-2], lens[-1]
    return make(lens, lambda *ix: a.at(ix[:-2] + (ix[-1], ix[-2])), a.dt, a.lib)


def transpose(ip, a, perm=None):
    if perm is None:
        perm = list(range(a.rank))[::-1]
    perm = [p if p >= 0 else p + a.rank for p in perm]
    if sorted(perm) != list(range(a.rank)):
        raise ShapeError('transpose permutation %s of rank %d at %s' % (perm, a.rank, ip.where()))
    lens = [a.lens[p] for p in perm]

    def f(*ix):
        src = [None] * a.rank
        for k, p in enumerate(perm):
            src[p] = ix[k]
        return a.at(src)
    return make(lens, f, a.dt, a.lib)


def contract_len(ip, l1, l2, what):
    s = same_len(l1, l2)
    if s is False:
        raise ShapeError('%s: inner dimensions %s and %s differ at %s' %
                         (what, t.show(l1), t.show(l2), ip.where()))
    if s is None:
        raise Top('inner dimensions %s and %s' % (t.show(l1), t.show(l2)))


def matmul(ip, a, b):
    if a.rank == 0 or b.rank == 0:
        raise ShapeError('matmul with a scalar operand at %s' % ip.where())
    a, b = named(a), named(b)
    dt = promote(a.dt, b.dt)
    lib = liboff(a, b)
    if a.rank == 1 and b.rank == 1:
        contract_len(ip, a.lens[0], b.lens[0], 'dot')
        k = t.fresh(a.lens[0])
        return Arr((), (), t.psum(k, a.lens[0], t.pmul(a.at([t.var(k)]), b.at([t.var(k)]))), dt, lib)
    if b.rank == 1:
        contract_len(ip, a.lens[-1], b.lens[0], 'matrix-vector product')

        def f(*ix):
            k = t.fresh(a.lens[-1])
            return t.psum(k, a.lens[-1], t.pmul(a.at(ix + (t.var(k),)), b.at([t.var(k)])))
        return make(a.lens[:-1], f, dt, lib)
    if a.rank == 1:
        contract_len(ip, a.lens[0], b.lens[-2], 'vector-matrix product')

        def f(*ix):
            k = t.fresh(a.lens[0])
            return t.psum(k, a.lens[0], t.pmul(a.at([t.var(k)]), b.at(ix[:-1] + (t.var(k), ix[-1]))))
        return make(b.lens[:-2] + b.lens[-1:], f, dt, lib)
    return mm2(ip, a, b)


def batch_lens(ip, a, b, na, nb):
    """Broadcast leading (batch) axes of a and b."""
    x = Arr(a.vars[:a.rank - na], a.lens[:a.rank - na], t.ZERO)
    y = Arr(b.vars[:b.rank - nb], b.lens[:b.rank - nb], t.ZERO)
    return bcast_lens(ip, [x, y])


def at_batch(a, na, bix, rest):
    """Element of a with broadcast batch index bix and trailing index rest."""
    k = a.rank - na
    n = len(bix)
    idx = [t.ZERO if t.int_val(a.lens[p]) == 1 else bix[n - k + p] for p in range(k)]
    return a.at(idx + list(rest))


def named(a):
    """The array with a large element term put under a name."""
    if 'f' not in a.dt:
        return a
    b = t.define(a.body, 24 if a.body.flags & t.F_ITE else None)
    if b is a.body:
        return a
    return Arr(a.vars, a.lens, b, a.dt, a.lib, None)


def mm2(ip, a, b):
    a, b = named(a), named(b)
    contract_len(ip, a.lens[-1], b.lens[-2], 'matrix product')
    bl = batch_lens(ip, a, b, 2, 2)
    n = len(bl)

    def f(*ix):
        k = t.fresh(a.lens[-1])
        K = t.var(k)
        return t.psum(k, a.lens[-1], t.pmul(at_batch(a, 2, ix[:n], (ix[n], K)),
                                            at_batch(b, 2, ix[:n], (K, ix[n + 1]))))
    return make(list(bl) + [a.lens[-2], b.lens[-1]], f, promote(a.dt, b.dt), liboff(a, b))


def mv2(ip, a, b):
    if a.rank < 2 or b.rank < 1:
        raise ShapeError('matvec with operands of rank %d and %d at %s' % (a.rank, b.rank, ip.where()))
    contract_len(ip, a.lens[-1], b.lens[-1], 'matrix-vector product')
    bl = batch_lens(ip, a, b, 2, 1)
    n = len(bl)

    def f(*ix):
        k = t.fresh(a.lens[-1])
        K = t.var(k)
        return t.psum(k, a.lens[-1], t.pmul(at_batch(a, 2, ix[:n], (ix[n], K)),
                                            at_batch(b, 1, ix[:n], (K,))))
    return make(list(bl) + [a.lens[-2]], f, promote(a.dt, b.dt), liboff(a, b))


def inverse(ip, a):
    if a.rank < 2:
        raise ShapeError('inverse of an array of rank %d at %s' % (a.rank, ip.where()))
    contract_len(ip, a.lens[-1], a.lens[-2], 'inverse of a non-square matrix')
    a = named(a)
    n = a.lens[-1]

    def f(*ix):
        b, i, j = ix[:-2], ix[-2], ix[-1]
        return inv_elem(lambda x, y: a.at(tuple(b) + (x, y)), n, i, j)
    return make(a.lens, f, F, a.lib)


def inv_elem(f, n, i, j):
    if t.int_val(n) == 1:
        return t.precip(f(t.ZERO, t.ZERO))
    x, y = t.fresh(n), t.fresh(n)
    body = f(t.var(x), t.var(y))
    return inv_body(body, x, y, n, i, j)


def inv_body(body, x, y, n, i, j):
    it = t.as_ite(body)
    if it is not None and not (it.args[0].fv & set((x, y))):
        return t.ite(it.head, it.args[0], inv_body(it.args[1], x, y, n, i, j),
                     inv_body(it.args[2], x, y, n, i, j))
    if len(body.m) == 1:
        # product of square factors: reverse and invert each
        (fs, bd), c = next(iter(body.m.items()))
        if bd and all(l == n for _, l in bd) and all(e == 1 for a, e in fs):
            g, nb = t._rename_bound(fs, bd)
            for b, l in nb:
                t.VAR_LEN[b] = n
            ch = chain([a for a, e in g], x, y, [b for b, l in nb], n)
            if ch is not None:
                # ch: list of (atom, left var, right var)
                r = t.const(1 / c)
                prev = i
                out = []
                vs = []
                for k, (a, l, rr) in enumerate(reversed(ch)):
                    last = k == len(ch) - 1
                    if last:
                        nxt = j
                    else:
                        v = t.fresh(n)
                        vs.append(v)
                        nxt = t.var(v)
                    p, q = t.fresh(n), t.fresh(n)
                    ab = t.subst(t.atom_poly(a), {l: t.var(p), rr: t.var(q)})
                    out.append(inv_body(ab, p, q, n, prev, nxt))
                    prev = nxt
                acc = r
                for o in out:
                    acc = t.pmul(acc, o)
                for v in vs:
                    acc = t.psum(v, n, acc)
                return acc
    return t.lift_args('f', 'inv', (t.mklam([x, y], [n, n], body), i, j))


def chain(atoms, x, y, bound, n):
    """Order the factors of sum a[x,k1] b[k1,k2] ... z[km,y]; None unless they
    form such a chain of square factors."""
    left = list(atoms)
    cur = x
    out = []
    for _ in range(len(atoms)):
        c = [a for a in left if cur in a.fv]
        if len(c) != 1:
            return None
        a = c[0]
        if a.kind not in ('s', 'R', 'f', 'ph'):
            return None
        others = [v for v in a.fv if v != cur and (v in bound or v == y or v == x)]
        if len(others) != 1:
            return None
        # both must be direct arguments
        direct = [t.single_atom(z) for z in a.args if isinstance(z, t.Poly)]
        dn = [d.head for d in direct if d is not None and d.kind == 'v']
        if dn.count(cur) != 1 or dn.count(others[0]) != 1:
            return None
        out.append((a, cur, others[0]))
        left.remove(a)
        cur = others[0]
        if cur == y:
            break
    if left or cur != y:
        return None
    return out


def pinv(ip, a):
    """Pseudo-inverse (opaque; numbered by a full-rank factorisation)."""
    a = named(a)
    m, n = a.lens[-2:]

    def f(*ix):
        x, y = t.fresh(m), t.fresh(n)
        body = a.at(tuple(ix[:-2]) + (t.var(x), t.var(y)))
        return t.lift_args('f', 'pinv', (t.mklam([x, y], [m, n], body), ix[-2], ix[-1]))
    return make(list(a.lens[:-2]) + [n, m], f, F, a.lib)


def solve(ip, a, b):
    """inv(a) @ b for numpy/scipy: b vector or matrix."""
    ai = inverse(ip, a)
    if b.rank == a.rank - 1:
        return mv2(ip, ai, b)
    return matmul(ip, ai, b)


# --------------------------------------------------------------------------
# value attributes and methods

def value_attr(ip, o, nm):
    if isinstance(o, Arr):
        if nm == 'shape':
            return tuple(num(l, I) for l in o.lens)
        if nm == 'T':
            return alias(transpose(ip, o), o)
        if nm == 'dtype':
            return DType(o.dt)
        if nm == 'ndim':
            return num(o.rank)
        if nm == 'size':
            p = t.ONE
            for l in o.lens:
                p = t.pmul(p, l)
            return num(p, I)
        if nm == 'at':
            return AtView(o, None)
        if nm == 'device':
            return 'device'
        m = ARR_METHODS.get(nm)
        if m is not None:
            return PyFn('array.' + nm, lambda ip_, a, k: m(ip_, o, *a, **k))
        raise Top('array attribute %s' % nm)
    if isinstance(o, PList):
        m = LIST_METHODS.get(nm)
        if m is not None:
            return PyFn('list.' + nm, lambda ip_, a, k: m(ip_, o, *a, **k))
        raise Top('list attribute %s' % nm)
    if isinstance(o, PDict):
        m = DICT_METHODS.get(nm)
        if m is not None:
            return PyFn('dict.' + nm, lambda ip_, a, k: m(ip_, o, *a, **k))
        raise Top('dict attribute %s' % nm)
    if isinstance(o, str):
        return PyFn('str.' + nm, lambda ip_, a, k: str_method(ip_, o, nm, a))
    if isinstance(o, AtView):
        if nm in ('set', 'add'):
            return PyFn('at.' + nm, lambda ip_, a, k: at_update(ip_, o, nm, a[0]))
    if type(o).__name__ in ('DenseOp', 'Tape'):
        from . import libfns
        return PyFn('op.' + nm, lambda ip_, a, k: libfns.op_method(ip_, o, nm, a, k))
    if isinstance(o, DType):
        if nm in ('max', 'min'):
            return num(t.app('dtype_' + nm), F)
        return o
    if isinstance(o, (FuncV, Bound)):
        if nm == '__name__':
            return o.name if isinstance(o, FuncV) else o.func.name
    raise Top('attribute %s of %s' % (nm, type(o).__name__))


class AtView(object):
    def __init__(self, a, ix):
        self.a, self.ix = a, ix


def at_update(ip, o, nm, val):
    a = o.a
    val = arr(ip, val)
    c = Arr(a.vars, a.lens, a.body, a.dt, a.lib)
    if nm == 'add':
        cur = getitem(ip, a, o.ix)
        val = binop(ip, 'Add', cur, val)
    check_narrow(ip, a, val)
    c.body = stored(ip, c, o.ix, val)
    c.dt = promote(a.dt, frozenset()) or a.dt
    return c


_old_getitem = getitem


def getitem(ip, o, ix):     # noqa: F811
    if isinstance(o, AtView):
        return AtView(o.a, ix)
    if isinstance(o, Table):
        return o.get(ip, ix)
    return _old_getitem(ip, o, ix)


class Table(object):
    """Read-only mapping given by a function of the key."""
    def __init__(self, fn):
        self.fn = fn

    def get(self, ip, key):
        return self.fn(ip, key)


def str_method(ip, s, nm, a):
    if nm == 'format':
        return s
    if nm in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize'):
        return getattr(s, nm)()
    if nm in ('split', 'replace', 'startswith', 'endswith', 'join') and all(isinstance(x, str) for x in a):
        r = getattr(s, nm)(*a)
        if isinstance(r, list):
            return PList(r)
        if isinstance(r, bool):
            return num(r)
        return r
    raise Top('str.%s' % nm)


def m_copy(ip, o):
    if isinstance(o, Arr):
        return Arr(o.vars, o.lens, o.body, o.dt, o.lib)
    r = PList([])
    r.restore(o.snapshot())
    return r


def shape_arg(ip, args):
    if len(args) == 1 and isinstance(args[0], (tuple, PList)):
        args = ip.iterate(args[0])
    elif len(args) == 1 and isinstance(args[0], Arr) and args[0].rank == 1:
        args = ip.iterate(args[0])
    if not isinstance(args, (list, tuple)):
        raise Top('symbolic shape')
    return [to_int(ip, a) for a in args]


def prod(ps):
    r = t.ONE
    for p in ps:
        r = t.pmul(r, p)
    return r


def poly_quot(p, q):
    """p / q when the division is exact for monomial q, else None."""
    if p == q:
        return t.ONE
    if len(q.m) != 1:
        # try: p = q * r for small r by matching
        r = divide_poly(p, q)
        return r
    (qf, qb), qc = next(iter(q.m.items()))
    if qb:
        return None
    out = {}
    for (fs, bd), c in p.m.items():
        d = dict(fs)
        for a, e in qf:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        out[(tuple((a, d[a]) for a, e in fs if d[a]), bd)] = c / qc
    r = t.Poly(out)
    if any(c.denominator != 1 for c in out.values()):
        return None
    return r


def divide_poly(p, q):
    """Exact multivariate division p/q (lexicographic), or None."""
    def lead(x):
        return max(x.m, key=lambda k: (sum(e for a, e in k[0]), t.mono_key(*k)))
    r = t.ZERO
    for _ in range(20):
        if not p.m:
            return r
        lp, lq = lead(p), lead(q)
        d = dict(lp[0])
        for a, e in lq[0]:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
        term = t.Poly({(tuple((a, d[a]) for a, e in lp[0] if d[a]), ()): p.m[lp] / q.m[lq]})
        term = t.canon_poly(term.m.items())
        r = r + term
        p = p - t.pmul(term, q)
    return None


def reshape(ip, a, shape, lib=None):
    total = prod(a.lens)
    shape = list(shape)
    neg = [k for k, s in enumerate(shape) if t.int_val(s) == -1]
    if len(neg) > 1:
        raise ShapeError('reshape with two unknown dimensions at %s' % ip.where())
    if neg:
        known = prod(s for k, s in enumerate(shape) if k != neg[0])
        q = poly_quot(total, known)
        if q is None:
            if len(shape) == 1:
                q = total
            else:
                raise Top('reshape to %s' % [t.show(s) for s in shape])
        shape[neg[0]] = q
    d = same_len(prod(shape), total)
    if d is False:
        raise ShapeError('reshape of %s to (%s) at %s' % (shp(a), ','.join(t.show(s) for s in shape), ip.where()))
    if d is None:
        raise Top('reshape of %s to (%s)' % (shp(a), ','.join(t.show(s) for s in shape)))
    src = list(a.lens)
    # common leading and trailing axes
    lead = 0
    while lead < len(src) and lead < len(shape) and src[lead] == shape[lead]:
        lead += 1
    trail = 0
    while trail < len(src) - lead and trail < len(shape) - lead and src[-1 - trail] == shape[-1 - trail]:
        trail += 1
    ms, md = src[lead:len(src) - trail], shape[lead:len(shape) - trail]
    # size-one axes
    ds = [k for k, l in enumerate(ms) if t.int_val(l) != 1]
    dd = [k for k, l in enumerate(md) if t.int_val(l) != 1]

    def f(*ix):
        pre = ix[:lead]
        mid = ix[lead:len(shape) - trail]
        post = ix[len(shape) - trail:] if trail else ()
        if [ms[k] for k in ds] == [md[k] for k in dd]:
            out = [t.ZERO] * len(ms)
            for k1, k2 in zip(ds, dd):
                out[k1] = mid[k2]
        else:
            flat = t.ZERO
            for l, i in zip(md, mid):
                flat = t.pmul(flat, l) + i
            out = []
            rem = flat
            for k in range(len(ms)):
                stride = prod(ms[k + 1:])
                if k == len(ms) - 1:
                    out.append(rem)
                else:
                    q = p_floordiv(rem, stride) if t.int_val(stride) != 1 else rem
                    out.append(q)
                    rem = p_mod(rem, stride) if t.int_val(stride) != 1 else t.ZERO
        return a.at(list(pre) + list(out) + list(post))
    return make(shape, f, a.dt, lib or a.lib)


def reduce_axis(ip, a, axis, op, keepdims=False):
    """Reduction over the given axes (None: all)."""
    if axis is None:
        axes = list(range(a.rank))
    elif isinstance(axis, (tuple, PList)):
        axes = [static_int(ip, x) for x in ip.iterate(axis)]
    else:
        axes = [static_int(ip, axis)]
    axes = [x + a.rank if x < 0 else x for x in axes]
    if any(not 0 <= x < a.rank for x in axes):
        raise ShapeError('reduction axis out of range at %s' % ip.where())
    keep = [k for k in range(a.rank) if k not in axes]
    kd = keepdims
    lens = [a.lens[k] for k in keep] if not kd else [t.ONE if k in axes else a.lens[k] for k in range(a.rank)]

    def f(*ix):
        if kd:
            ix = tuple(ix[k] for k in keep)
        vs = [t.fresh(a.lens[k]) for k in axes]
        idx = [None] * a.rank
        for k, i in zip(keep, ix):
            idx[k] = i
        for k, v in zip(axes, vs):
            idx[k] = t.var(v)
        body = a.at(idx)
        return op(vs, [a.lens[k] for k in axes], body)
    return make(lens, f, a.dt, a.lib if lens else 'py')


def op_sum(vs, lens, body):
    for v, l in zip(vs, lens):
        body = t.psum(v, l, body)
    return body


def op_red(name):
    def f(vs, lens, body):
        return red(name, vs, lens, body)
    return f


def red(name, vs, lens, body):
    """Reduction; constant small ranges stay symbolic for comparability.
    Terms not depending on the reduced variables move outside of min/max."""
    if name in ('min', 'max') and len(body.m) > 1 and t.as_ite(body) is None:
        vset = set(vs)
        out, inn = {}, {}
        for (fs, bd), c in body.m.items():
            if any(a.fv & vset for a, e in fs) or any(l.fv & vset for n, l in bd):
                inn[(fs, bd)] = c
            else:
                out[(fs, bd)] = c
        if out and inn:
            return t.Poly(out) + red(name, vs, lens, t.Poly(inn))
    if name in ('argmin', 'argmax') and len(body.m) > 1 and t.as_ite(body) is None:
        vset = set(vs)
        inn = {k: c for k, c in body.m.items()
               if any(a.fv & vset for a, e in k[0]) or any(l.fv & vset for n, l in k[1])}
        if inn and len(inn) < len(body.m):
            body = t.Poly(inn)
    return t.reduce_(name, t.mklam(vs, lens, body))


def _ax(args, kw, pos=0):
    if 'axis' in kw:
        return kw['axis']
    return args[pos] if len(args) > pos else None


def _b(kw, nm):
    v = kw.get(nm)
    if v is None:
        return False
    c = t.const_val(v.body)
    if c is None:
        raise Top('symbolic flag %s' % nm)
    return c != 0


def cast(ip, v, d):
    v = arr(ip, v)
    if d is None:
        return v
    if not isinstance(d, DType):
        d = dtype_of(d)
    if d is None:
        return v
    if 'f' not in d.dt and d.dt <= frozenset('ib') and not (v.dt <= frozenset('ib')):
        if d.dt == I and 'f' in v.dt:
            return elementwise(ip, lambda x: t.app('int', x), [v], I)
    elif wider(v.dt, d.dt):
        ip.event('narrow', (tuple(sorted(d.dt)), tuple(sorted(v.dt))))
    return Arr(v.vars, v.lens, v.body, d.dt, v.lib)


def dtype_of(d):
    if isinstance(d, DType):
        return d
    if isinstance(d, str):
        if d in DTYPES:
            return DType(DTYPES[d])
        if d == 'float':
            return DType(F)
        if d == 'int':
            return DType(I)
    if isinstance(d, PyFn):
        if d.name == 'float':
            return DType(F)
        if d.name == 'int':
            return DType(I)
        if d.name == 'bool':
            return DType(B)
    if d is None:
        return None
    if isinstance(d, LibMod):
        return None
    raise Top('dtype %r' % (d,))


def m_flatten(ip, o, *a, **k):
    return reshape(ip, o, [prod(o.lens)])


def m_min(name):
    def f(ip, o, *a, **k):
        return reduce_axis(ip, o, _ax(a, k), op_red(name), _b(k, 'keepdims'))
    return f


def m_arg(name):
    def f(ip, o, *a, **k):
        ax = _ax(a, k)
        if ax is None and o.rank > 1:
            o = m_flatten(ip, o)
        r = reduce_axis(ip, o, ax, op_red(name))
        r.dt = I
        return r
    return f


ARR_METHODS = {
    'copy': lambda ip, o: m_copy(ip, o),
    'reshape': lambda ip, o, *a, **k: alias(reshape(ip, o, shape_arg(ip, a)), o),
    'flatten': m_flatten, 'ravel': lambda ip, o, *a, **k: alias(m_flatten(ip, o), o),
    'transpose': lambda ip, o, *a: alias(transpose(ip, o, [static_int(ip, x) for x in (
        ip.iterate(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, PList)) else a)] if a else None), o),
    'astype': lambda ip, o, d, **k: cast(ip, o, d),
    'numpy': lambda ip, o: Arr(o.vars, o.lens, o.body, o.dt, 'np'),
    'item': lambda ip, o: num(o.at([t.ZERO] * o.rank), o.dt),
    'tolist': lambda ip, o: tolist(ip, o),
    'sum': lambda ip, o, *a, **k: reduce_axis(ip, o, _ax(a, k), op_sum, _b(k, 'keepdims')),
    'min': m_min('min'), 'max': m_min('max'),
    'argmin': m_arg('argmin'), 'argmax': m_arg('argmax'),
    'dot': lambda ip, o, b: np_dot(ip, o, arr(ip, b)),
    'squeeze': lambda ip, o, *a, **k: alias(squeeze(ip, o, _ax(a, k)), o),
    'get_shape': lambda ip, o: tuple(num(l, I) for l in o.lens),
    'mean': lambda ip, o, *a, **k: np_mean(ip, o, _ax(a, k)),
    'conj': lambda ip, o: o,
    'any': lambda ip, o, *a, **k: num(t.app('any', lamof(o)), B),
    'all': lambda ip, o, *a, **k: num(t.app('all', lamof(o)), B),
    'block_until_ready': lambda ip, o: o,
}


def np_mean(ip, o, axis):
    s = reduce_axis(ip, o, axis, op_sum)
    if axis is None:
        n = prod(o.lens)
    else:
        k = static_int(ip, axis)
        n = o.lens[k]
    return binop(ip, 'Div', s, num(n))


def tolist(ip, o):
    if o.rank == 0:
        return o
    jv = t.fresh(o.lens[0])
    e = getitem(ip, o, num(t.var(jv)))
    if o.rank > 1:
        e = tolist(ip, e)
    return PList(None, o.lens[0], jv, e)


def squeeze(ip, o, axis=None):
    if axis is None:
        ax = [k for k, l in enumerate(o.lens) if t.int_val(l) == 1]
    else:
        ax = [static_int(ip, x) for x in (ip.iterate(axis) if isinstance(axis, (tuple, PList)) else [axis])]
        ax = [x + o.rank if x < 0 else x for x in ax]
        for x in ax:
            if t.int_val(o.lens[x]) not in (1, None):
                raise ShapeError('squeeze of an axis of length %s at %s' % (t.show(o.lens[x]), ip.where()))
    keep = [k for k in range(o.rank) if k not in ax]

    def f(*ix):
        idx = [t.ZERO] * o.rank
        for k, i in zip(keep, ix):
            idx[k] = i
        return o.at(idx)
    return make([o.lens[k] for k in keep], f, o.dt, o.lib)


def l_append(ip, o, v):
    ip.mutate(o, 'append')
    if o.items is not None:
        o.items.append(v)
    else:
        o.tail.append(v)


def l_reverse(ip, o):
    ip.mutate(o, 'reverse')
    if o.items is not None:
        o.items.reverse()
        return
    s = untail(o)
    nv = t.fresh(s.length)
    e = vsubst(s.elem, {s.var: s.length - t.ONE - t.var(nv)}) if s.elem is not None else None
    o.restore((None, s.length, nv, e, []))


def l_insert(ip, o, i, v):
    k = static_int(ip, i)
    ip.mutate(o, 'insert')
    if o.items is not None:
        o.items.insert(k, v)
        return
    if k != 0:
        raise Top('insert in the middle of a symbolic list')
    r = list_concat(ip, PList([v]), o)
    r = to_seq(r)
    o.restore(r.snapshot())


def l_pop(ip, o, i=None):
    ip.mutate(o, 'pop')
    if o.items is not None:
        k = -1 if i is None else static_int(ip, i)
        if not o.items:
            raise IndexRange('pop from an empty list at %s' % ip.where())
        return o.items.pop(k)
    if i is None:
        if o.tail:
            return o.tail.pop()
        n = o.length
        v = list_get(ip, o, n - t.ONE)
        nv = t.fresh(n - t.ONE)
        e = vsubst(o.elem, {o.var: t.var(nv)})
        o.restore((None, n - t.ONE, nv, e, []))
        return v
    k = static_int(ip, i)
    if k == 0:
        v = list_get(ip, o, t.ZERO)
        s = list_slice(ip, o, SliceV(num(1), None, None))
        o.restore(s.snapshot())
        return v
    raise Top('list.pop')


LIST_METHODS = {
    'append': l_append, 'reverse': l_reverse, 'insert': l_insert, 'pop': l_pop,
    'extend': lambda ip, o, v: list_extend(ip, o, v),
    'copy': lambda ip, o: m_copy(ip, o),
    'clear': lambda ip, o: (ip.mutate(o, 'clear'), o.restore(([], None, None, None, [])))[1],
}

DICT_METHODS = {
    'keys': lambda ip, o: PList([k if isinstance(k, str) else num(k) for k in o.d]),
    'values': lambda ip, o: PList(list(o.d.values())),
    'items': lambda ip, o: PList([(k if isinstance(k, str) else num(k), v) for k, v in o.d.items()]),
    'get': lambda ip, o, k, d=None: o.d.get(ip.dkey(k), d),
    'copy': lambda ip, o: PDict(dict(o.d)),
    'update': lambda ip, o, p: (ip.mutate(o, 'update'), o.d.update(p.d))[1],
}


# --------------------------------------------------------------------------
# builtins

def b_len(ip, a, k):
    v = a[0]
    if isinstance(v, PList):
        return num(v.len(), I)
    if isinstance(v, (tuple, str)):
        return num(len(v))
    if isinstance(v, Arr):
        if v.rank == 0:
            raise ShapeError('len of a scalar at %s' % ip.where())
        return num(v.lens[0], I)
    if isinstance(v, PDict):
        return num(len(v.d))
    if isinstance(v, Iter):
        return num(v.length, I)
    if isinstance(v, Unknown):
        return v
    raise Top('len of %s' % type(v).__name__)


def make_range(ip, a):
    st = 1
    if len(a) == 1:
        lo, hi = t.ZERO, to_int(ip, a[0])
    else:
        lo, hi = to_int(ip, a[0]), to_int(ip, a[1])
        if len(a) > 2:
            st = t.int_val(to_int(ip, a[2]))
            if st is None:
                step = to_int(ip, a[2])
                ln = hi - lo
                q = poly_quot(ln, step)
                if q is None:
                    raise Top('range with symbolic step')
                v = t.fresh(q)
                return Iter(q, v, num(lo + t.pmul(step, t.var(v)), I))
    if not (t.is_int_term(lo) and t.is_int_term(hi)):
        for x in (lo, hi):
            if t.const_val(x) is not None and t.int_val(x) is None:
                raise ShapeError('range over a non-integer at %s' % ip.where())
    n = (hi - lo) if st > 0 else (lo - hi)
    if abs(st) != 1:
        n = p_floordiv(n + t.const(abs(st) - 1), t.const(abs(st)))
    d = t.decide_ge(n)
    if d is False:
        n = t.ZERO
    elif d is None and not nonneg_count(n):
        n = t.ite('ge', n, n, t.ZERO)
    v = t.fresh(n)
    return Iter(n, v, num(lo + t.const(st) * t.var(v), I))


def nonneg_count(n):
    """Counts given by data terms (inputs) are taken to be nonnegative."""
    for (fs, bd), c in n.m.items():
        for a, e in fs:
            if a.kind in ('s', 'f'):
                return True
    return False


def b_reversed(ip, a, k):
    v = a[0]
    if isinstance(v, (tuple, str)):
        return PList(list(v)[::-1])
    if isinstance(v, PList) and v.items is not None:
        return PList(v.items[::-1])
    if isinstance(v, PList):
        v = untail(v)
        v = Iter(v.length, v.var, v.elem)
    if isinstance(v, Arr):
        jv = t.fresh(v.lens[0])
        v = Iter(v.lens[0], jv, getitem(ip, v, num(t.var(jv))))
    if isinstance(v, Iter):
        nv = t.fresh(v.length)
        return Iter(v.length, nv, vsubst(v.elem, {v.var: v.length - t.ONE - t.var(nv)}))
    raise Top('reversed')


def b_enumerate(ip, a, k):
    start = to_int(ip, a[1]) if len(a) > 1 else (to_int(ip, k['start']) if 'start' in k else t.ZERO)
    seq = ip.iterate(a[0])
    if isinstance(seq, list):
        return PList([(num(start + t.const(i)), v) for i, v in enumerate(seq)])
    nv = t.fresh(seq.length)
    return Iter(seq.length, nv, (num(start + t.var(nv), I), vsubst(seq.elem, {seq.var: t.var(nv)})))


def b_zip(ip, a, k):
    seqs = [ip.iterate(x) for x in a]
    if all(isinstance(s, list) for s in seqs):
        return PList([tuple(x) for x in zip(*seqs)])
    lens = [t.const(len(s)) if isinstance(s, list) else s.length for s in seqs]
    n = lens[0]
    for l in lens[1:]:
        if l == n:
            continue
        d = t.decide_ge(l - n)
        if d is True:
            continue
        if d is False or t.decide_ge(n - l) is True:
            n = l
            continue
        n = t.ite('ge', l - n, n, l)
    k0 = t.int_val(n)
    if k0 is not None:
        out = []
        for i in range(k0):
            out.append(tuple(s[i] if isinstance(s, list) else vsubst(s.elem, {s.var: t.const(i)}) for s in seqs))
        return PList(out)
    nv = t.fresh(n)
    es = []
    for s in seqs:
        if isinstance(s, list):
            s2 = to_seq(PList(s))
            es.append(vsubst(s2.elem, {s2.var: t.var(nv)}))
        else:
            es.append(vsubst(s.elem, {s.var: t.var(nv)}))
    return Iter(n, nv, tuple(es))


def b_list(ip, a, k):
    if not a:
        return PList([])
    seq = ip.iterate(a[0])
    if isinstance(seq, list):
        return PList(list(seq))
    nv = t.fresh(seq.length)
    return PList(None, seq.length, nv, vsubst(seq.elem, {seq.var: t.var(nv)}))


def b_tuple(ip, a, k):
    if not a:
        return ()
    seq = ip.iterate(a[0])
    if isinstance(seq, list):
        return tuple(seq)
    return PList(None, seq.length, seq.var, seq.elem)


def b_map(ip, a, k):
    f = a[0]
    if len(a) == 2:
        seq = ip.iterate(a[1])
        unpack = False
    else:
        seq = ip.iterate(b_zip(ip, a[1:], {}))
        unpack = True

    def app(v):
        return ip.call(f, list(v) if unpack else [v], {})
    if isinstance(seq, list):
        return PList([app(v) for v in seq])
    nv = t.fresh(seq.length)
    return PList(None, seq.length, nv, app(vsubst(seq.elem, {seq.var: t.var(nv)})))


def b_isinstance(ip, a, k):
    v, c = a
    cs = list(c) if isinstance(c, tuple) else [c]
    r = False
    for x in cs:
        nm = x.name if isinstance(x, (PyFn, ClassV)) else getattr(x, 'path', '?')
        if nm == 'list':
            r = r or isinstance(v, PList)
        elif nm == 'tuple':
            r = r or isinstance(v, tuple)
        elif nm == 'dict':
            r = r or isinstance(v, PDict)
        elif nm == 'str':
            r = r or isinstance(v, str)
        elif nm in ('np.ndarray', 'jnp.ndarray'):
            r = r or (isinstance(v, Arr) and v.rank > 0)
        elif nm == 'tf.Tensor':
            r = r or (isinstance(v, Arr) and v.lib == 'im')
        elif nm in ('int', 'float', 'bool'):
            if isinstance(v, Arr) and v.rank == 0:
                if nm == 'int':
                    r = r or v.dt in (I, B)
                elif nm == 'float':
                    r = r or v.dt == F
                else:
                    r = r or v.dt == B
        elif isinstance(x, ClassV):
            r = r or (isinstance(v, ObjV) and v.cls is not None and _subclass(v.cls, x))
        else:
            raise Top('isinstance %s' % nm)
    return num(r)


def _subclass(c, x):
    if c is x:
        return True
    return any(isinstance(b, ClassV) and _subclass(b, x) for b in c.bases)


def b_minmax(op):
    def f(ip, a, k):
        if len(a) == 1:
            v = a[0]
            if isinstance(v, PList) and v.items is not None:
                xs = v.items
            elif isinstance(v, tuple):
                xs = list(v)
            else:
                return reduce_axis(ip, arr(ip, v), None, op_red(op))
        else:
            xs = a
        acc = arr(ip, xs[0])
        for x in xs[1:]:
            acc = elementwise(ip, (lambda p, q: p_max(p, q)) if op == 'max' else (lambda p, q: p_min(p, q)), [acc, x])
        return acc
    return f


def p_max(x, y):
    if t.is_int_term(x) and t.is_int_term(y):
        return t.ite('ge', x - y, x, y)
    d = t.const_val(x - y)
    if d is not None:
        return x if d >= 0 else y
    x, y = sorted((x, y), key=lambda q: q.key)
    return t.app('max2', x, y)


def p_min(x, y):
    if t.is_int_term(x) and t.is_int_term(y):
        return t.ite('ge', x - y, y, x)
    d = t.const_val(x - y)
    if d is not None:
        return y if d >= 0 else x
    x, y = sorted((x, y), key=lambda q: q.key)
    return t.app('min2', x, y)


def b_int(ip, a, k):
    if not a:
        return num(0)
    if isinstance(a[0], str):
        try:
            return num(int(a[0]))
        except ValueError:
            raise Top('int of a string')
    v = arr(ip, a[0])
    if v.rank:
        if all(t.int_val(l) == 1 for l in v.lens):
            v = num(v.at([t.ZERO] * v.rank))
        else:
            raise Top('int of an array')
    return num(t.app('int', v.body), I)


def b_float(ip, a, k):
    if isinstance(a[0], str):
        try:
            return num(float(a[0]))
        except ValueError:
            raise Top('float of a string')
    v = arr(ip, a[0])
    return Arr((), (), v.body if not v.rank else v.at([t.ZERO] * v.rank), F, 'py')


def b_sum(ip, a, k):
    seq = ip.iterate(a[0])
    start = a[1] if len(a) > 1 else num(0)
    if isinstance(seq, list):
        acc = start
        for x in seq:
            acc = ip.binop('Add', acc, x)
        return acc
    e = arr(ip, seq.elem)
    jv = t.fresh(seq.length)
    e = vsubst(e, {seq.var: t.var(jv)})
    r = make(e.lens, lambda *ix: t.psum(jv, seq.length, e.at(ix)), e.dt, e.lib)
    return ip.binop('Add', r, start) if a[1:] else r


def b_abs(ip, a, k):
    return elementwise(ip, lambda x: t.app('abs', x), [a[0]])


def b_round(ip, a, k):
    return elementwise(ip, lambda x: t.app('round', x), [a[0]], I)


def b_print(ip, a, k):
    return None


def b_getattr(ip, a, k):
    return ip.getattr(a[0], a[1])


def b_hasattr(ip, a, k):
    try:
        ip.getattr(a[0], a[1])
        return num(True)
    except Top:
        return num(False)


def b_type(ip, a, k):
    v = a[0]
    if isinstance(v, ObjV) and v.cls is not None:
        return v.cls
    raise Top('type()')


def b_slice(ip, a, k):
    a = list(a)
    if len(a) == 1:
        return SliceV(None, a[0], None)
    if len(a) == 2:
        return SliceV(a[0], a[1], None)
    return SliceV(*a)


def b_bool(ip, a, k):
    c = ip.truth(a[0])
    return ip.cond_value(c)


def b_all(ip, a, k):
    v = a[0]
    if isinstance(v, Arr) and v.rank:
        return num(t.app('all', lamof(v)), B)
    seq = ip.iterate(v)
    if not isinstance(seq, list):
        raise Top('all over a symbolic list')
    acc = t.ONE
    for x in seq:
        acc = t.pmul(acc, ip.cond_value(ip.truth(x)).body)
    return num(acc, B)


def b_any(ip, a, k):
    v = a[0]
    if isinstance(v, Arr) and v.rank:
        return num(t.app('any', lamof(v)), B)
    seq = ip.iterate(v)
    if not isinstance(seq, list):
        raise Top('any over a symbolic list')
    acc = t.ONE
    for x in seq:
        acc = t.pmul(acc, t.ONE - ip.cond_value(ip.truth(x)).body)
    return num(t.ONE - acc, B)


def b_divmod(ip, a, k):
    return (binop(ip, 'FloorDiv', a[0], a[1]), binop(ip, 'Mod', a[0], a[1]))


def b_sorted(ip, a, k):
    raise Top('sorted')


def b_str(ip, a, k):
    if a and isinstance(a[0], str):
        return a[0]
    return '{str}'


def b_pow(ip, a, k):
    return binop(ip, 'Pow', a[0], a[1])


def b_super(ip, a, k):
    raise Top('super()')


def b_filter(ip, a, k):
    raise Top('filter()')


def b_dict(ip, a, k):
    d = {}
    if a:
        if isinstance(a[0], PDict):
            d.update(a[0].d)
        else:
            for x in ip.iterate(a[0]):
                kk, v = ip.iterate(x)
                d[ip.dkey(kk)] = v
    d.update(k)
    return PDict(d)


BUILTINS = {nm: PyFn(nm, f) for nm, f in {
    'len': b_len, 'range': lambda ip, a, k: make_range(ip, a), 'reversed': b_reversed,
    'enumerate': b_enumerate, 'zip': b_zip, 'list': b_list, 'tuple': b_tuple, 'map': b_map,
    'isinstance': b_isinstance, 'min': b_minmax('min'), 'max': b_minmax('max'), 'int': b_int,
    'float': b_float, 'sum': b_sum, 'abs': b_abs, 'round': b_round, 'print': b_print,
    'getattr': b_getattr, 'hasattr': b_hasattr, 'type': b_type, 'slice': b_slice, 'bool': b_bool,
    'all': b_all, 'any': b_any, 'divmod': b_divmod, 'sorted': b_sorted, 'str': b_str, 'dict': b_dict,
    'pow': b_pow, 'super': b_super, 'filter': b_filter,
}.items()}
for _e in ('ValueError', 'TypeError', 'RuntimeError', 'IndexError', 'Exception', 'NotImplementedError',
           'AssertionError', 'KeyError'):
    BUILTINS[_e] = PyFn(_e, lambda ip, a, k: None)
BUILTINS['NotImplemented'] = None
BUILTINS['Ellipsis'] = Ellipsis


def _static_method_list(nm):
    return PyFn('list.' + nm, lambda ip, a, k: LIST_METHODS[nm](ip, *a, **k))


_orig_value_attr = value_attr


def value_attr(ip, o, nm):      # noqa: F811
    if isinstance(o, PyFn):
        if o.name == 'list' and nm in LIST_METHODS:
            return _static_method_list(nm)
        if o.name == 'dict' and nm == 'fromkeys':
            return PyFn('dict.fromkeys', lambda ip_, a, k: PDict({ip_.dkey(x): (a[1] if len(a) > 1 else None)
                                                                for x in ip_.iterate(a[0])}))
        raise Top('attribute %s of builtin %s' % (nm, o.name))
    return _orig_value_attr(ip, o, nm)


from .libfns import LIB, np_dot, call      # noqa: E402
from . import rng      # noqa: E402,F401
