"""Abstract values of the analyser.

Arr     numeric array (or scalar) given by a term with free index variables
PList   Python list: explicit items, or (length, index variable, template)
PDict, ObjV, ClassV, FuncV, Bound, LibMod, LibFn, PyFn, SliceV, DType, Unknown
"""

from . import terms as t
from .terms import Top


class ShapeError(Exception):
    """The analysed program combines arrays whose shapes never agree."""


class IndexRange(Exception):
    """An index that is provably outside its array."""


_birth = [0]


def birth():
    _birth[0] += 1
    return _birth[0]


class Mut(object):
    """Mutable heap object."""
    def snapshot(self):
        raise NotImplementedError

    def restore(self, s):
        raise NotImplementedError


class Arr(Mut):
    __slots__ = ('vars', 'lens', 'body', 'dt', 'lib', 'view', 'birth', 'tag')

    def __init__(self, vs, lens, body, dt=frozenset('f'), lib='im', view=None):
        self.vars = tuple(vs)
        self.lens = tuple(lens)
        self.body = body
        self.dt = dt
        self.lib = lib
        self.view = view
        self.birth = birth()
        self.tag = None

    @property
    def rank(self):
        return len(self.vars)

    def at(self, idx):
        if not self.vars:
            return self.body
        mp = {}
        for v, i in zip(self.vars, idx):
            mp[v] = i
        return t.subst(self.body, mp)

    def snapshot(self):
        return (self.vars, self.lens, self.body, self.dt)

    def restore(self, s):
        self.vars, self.lens, self.body, self.dt = s

    def __repr__(self):
        return 'Arr[%s](%s)' % (','.join('%s<%s' % (v, t.show(l, 2)) for v, l in zip(self.vars, self.lens)),
                                t.show(self.body, 3))


F = frozenset('f')
I = frozenset('i')
B = frozenset('b')


def promote(*dts):
    r = frozenset()
    for d in dts:
        r |= d
    if 'f' in r:
        r = F
    elif 'i' in r and len(r) > 1:
        r = r - frozenset('b')
    return r


def num(c, dt=None):
    """Scalar from a Python number or Poly."""
    if isinstance(c, t.Poly):
        if dt is None:
            dt = I if t.is_int_term(c) else F
        return Arr((), (), c, dt, 'py')
    if isinstance(c, bool):
        return Arr((), (), t.const(int(c)), B, 'py')
    if isinstance(c, int):
        return Arr((), (), t.const(c), I, 'py')
    if isinstance(c, float):
        return Arr((), (), fconst(c), F, 'py')
    return Arr((), (), t.const(c), dt or F, 'py')


def fconst(c):
    if c != c:
        return t.app('nan')
    if c == float('inf'):
        return t.app('inf')
    if c == float('-inf'):
        return -t.app('inf')
    if abs(c) >= 1e15:
        # the repository writes 1e20 for an infinite cost
        return t.app('inf') if c > 0 else -t.app('inf')
    return t.const(t.Fraction(repr(c)))


def make(lens, f, dt=F, lib='im'):
    """Array of the given shape with element term f(*indices)."""
    vs = [t.fresh(l) for l in lens]
    return Arr(vs, lens, f(*[t.var(v) for v in vs]), dt, lib)


def inp(name, lens, lib='np', dt=None):
    return make(lens, lambda *ix: t.sym(name, *ix), dt or frozenset(['f']), lib)


def lamof(a):
    if not a.vars:
        return a.body
    return t.mklam(a.vars, a.lens, a.body)


class PList(Mut):
    """items: Python list of values, or None with (length, var, elem)."""
    def __init__(self, items=None, length=None, var=None, elem=None):
        self.items = items
        self.length = length
        self.var = var
        self.elem = elem
        self.tail = []          # explicitly appended after the symbolic part
        self.birth = birth()
        self.tag = None

    def snapshot(self):
        return (None if self.items is None else list(self.items), self.length,
                self.var, self.elem, list(self.tail))

    def restore(self, s):
        self.items = None if s[0] is None else list(s[0])
        self.length, self.var, self.elem = s[1], s[2], s[3]
        self.tail = list(s[4])

    def len(self):
        if self.items is not None:
            return t.const(len(self.items))
        return self.length + t.const(len(self.tail))

    def __repr__(self):
        if self.items is not None:
            return 'PList%r' % (self.items,)
        return 'PList(%s; %s -> %r)+%r' % (t.show(self.length), self.var, self.elem, self.tail)


class PDict(Mut):
    def __init__(self, d=None):
        self.d = d or {}
        self.birth = birth()
        self.tag = None

    def snapshot(self):
        return dict(self.d)

    def restore(self, s):
        self.d = dict(s)


class ObjV(Mut):
    def __init__(self, cls, attrs=None, name=None):
        self.cls = cls
        self.attrs = attrs or {}
        self.birth = birth()
        self.name = name
        self.tag = None

    def snapshot(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = dict(s)

    def __repr__(self):
        return 'Obj<%s>' % (self.cls.name if self.cls else self.name)


class ClassV(object):
    def __init__(self, name, node, module, bases=()):
        self.name, self.node, self.module, self.bases = name, node, module, bases
        self.members = {}

    def lookup(self, nm):
        if nm in self.members:
            return self.members[nm]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(nm)
                if r is not None:
                    return r
        return None


class FuncV(object):
    def __init__(self, node, module, env, name, defaults=(), kwdefaults=None, kind='func'):
        self.node, self.module, self.env, self.name = node, module, env, name
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.kind = kind          # func, static, class

    def __repr__(self):
        return 'Func<%s.%s>' % (self.module.name if self.module else '?', self.name)


class Bound(object):
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class ModuleV(object):
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.env = {}
        self.loaded = False

    def __repr__(self):
        return 'Module<%s>' % self.name


class LibMod(object):
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'LibMod<%s>' % self.path


class LibFn(LibMod):
    pass


class PyFn(object):
    """Function implemented by the analyser: fn(interp, args, kwargs)."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class SliceV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class DType(object):
    def __init__(self, dt):
        self.dt = dt

    def __repr__(self):
        return 'DType%s' % sorted(self.dt)


class Unknown(object):
    """Value outside the analysed fragment."""
    def __init__(self, reason):
        self.reason = reason

    def __repr__(self):
        return 'Unknown(%s)' % self.reason


class Iter(object):
    """Iterable with symbolic length: element template in a variable."""
    def __init__(self, length, var, elem):
        self.length, self.var, self.elem = length, var, elem


# --------------------------------------------------------------------------
# Value trees: substitution, flattening, merging

def vsubst(v, mp):
    """Substitute index variables in a value tree (copies containers)."""
    if isinstance(v, Arr):
        if v.body.fv & mp.keys() or any(l.fv & mp.keys() for l in v.lens):
            lens = [t.subst(l, mp) for l in v.lens]
            vs = [t.fresh(l) for l in lens]
            body = t.subst(v.body, {a: t.var(b) for a, b in zip(v.vars, vs)})
            r = Arr(vs, lens, t.subst(body, mp), v.dt, v.lib)
            r.tag = v.tag
            return r
        return v
    if isinstance(v, tuple):
        r = tuple(vsubst(x, mp) for x in v)
        return v if all(a is b for a, b in zip(r, v)) else r
    if isinstance(v, PList):
        if v.items is not None:
            r = [vsubst(x, mp) for x in v.items]
            return v if all(a is b for a, b in zip(r, v.items)) else PList(r)
        return _subst_plist(v, mp)
    return v


def _subst_plist(v, mp):
    if v.tail:
        v = untail(v)
    n = t.subst(v.length, mp)
    nv = t.fresh(n)
    e = vsubst(v.elem, {v.var: t.var(nv)})
    e = vsubst(e, mp)
    r = PList(None, n, nv, e)
    r.tag = v.tag
    return r


def untail(v):
    """Symbolic list with the explicit tail folded into the template."""
    if v.items is not None or not v.tail:
        return v
    base_len = v.length
    total = base_len + t.const(len(v.tail))
    nv = t.fresh(total)
    e = vsubst(v.elem, {v.var: t.var(nv)}) if v.elem is not None else None
    for k, x in enumerate(v.tail):
        pos = base_len + t.const(k)
        if e is None:
            e = x
        else:
            e = merge('ge', t.var(nv) - pos, x, e)
    return PList(None, total, nv, e)


def to_seq(v):
    """PList in symbolic form."""
    if v.items is None:
        return untail(v)
    n = len(v.items)
    nv = t.fresh(t.const(n))
    if n == 0:
        return PList(None, t.ZERO, nv, None)
    e = v.items[0]
    for k in range(1, n):
        e = merge('ge', t.var(nv) - t.const(k), v.items[k], e)
    return PList(None, t.const(n), nv, e)


POISON = 'None'


def is_poison(v):
    return v is None


def same_len(a, b):
    """True, False (never equal for generic dimensions) or None."""
    if a == b:
        return True
    d = a - b
    c = t.const_val(d)
    if c is not None:
        return c == 0
    for (fs, bd), c in d.m.items():
        if bd:
            return None
        for a_, e in fs:
            if a_.kind != 'd':
                return None
    return False


def merge(kind, c, a, b):
    """Value tree equal to a when the condition holds and to b otherwise."""
    if a is b:
        return a
    if isinstance(a, Unknown):
        return a
    if isinstance(b, Unknown):
        return b
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.rank != b.rank:
            return Unknown('merge of arrays of rank %d and %d' % (a.rank, b.rank))
        lens = []
        for x, y in zip(a.lens, b.lens):
            if x != y:
                z = t.ite(kind, c, x, y)
                lens.append(z)
            else:
                lens.append(x)
        vs = [t.fresh(l) for l in lens]
        ix = [t.var(v) for v in vs]
        r = Arr(vs, lens, t.ite(kind, c, a.at(ix), b.at(ix)), promote(a.dt, b.dt), a.lib)
        r.tag = a.tag or b.tag
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(kind, c, x, y) for x, y in zip(a, b))
    if isinstance(a, PList) and isinstance(b, PList):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return PList([merge(kind, c, x, y) for x, y in zip(a.items, b.items)])
        sa, sb = to_seq(a), to_seq(b)
        n = sa.length if sa.length == sb.length else t.ite(kind, c, sa.length, sb.length)
        nv = t.fresh(n)
        if sa.elem is None:
            e = vsubst(sb.elem, {sb.var: t.var(nv)})
        elif sb.elem is None:
            e = vsubst(sa.elem, {sa.var: t.var(nv)})
        else:
            e = merge(kind, c, vsubst(sa.elem, {sa.var: t.var(nv)}), vsubst(sb.elem, {sb.var: t.var(nv)}))
        return PList(None, n, nv, e)
    if a is None and isinstance(b, Arr):
        return merge(kind, c, make(b.lens, lambda *ix: t.app(POISON), b.dt, b.lib), b)
    if b is None and isinstance(a, Arr):
        return merge(kind, c, a, make(a.lens, lambda *ix: t.app(POISON), a.dt, a.lib))
    if a is None and isinstance(b, (tuple, PList)):
        return merge(kind, c, poison_like(b), b)
    if b is None and isinstance(a, (tuple, PList)):
        return merge(kind, c, a, poison_like(a))
    if isinstance(a, PDict) and isinstance(b, PDict) and set(a.d) == set(b.d):
        return PDict({k: merge(kind, c, a.d[k], b.d[k]) for k in a.d})
    if isinstance(a, (str, DType, LibMod)) or isinstance(b, (str, DType, LibMod)):
        if type(a) is type(b):
            if isinstance(a, str) and a == b:
                return a
            if isinstance(a, DType):
                return DType(promote(a.dt, b.dt))
            if isinstance(a, LibMod) and a.path == b.path:
                return a
        return Unknown('merge of %r and %r' % (a, b))
    if isinstance(a, Bound) and isinstance(b, Bound) and a.obj is b.obj and a.func is b.func:
        return a
    if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node:
        return a
    if isinstance(a, SliceV) and isinstance(b, SliceV):
        return SliceV(merge(kind, c, a.a, b.a), merge(kind, c, a.b, b.b), merge(kind, c, a.c, b.c))
    return Unknown('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def poison_like(v):
    if isinstance(v, Arr):
        return make(v.lens, lambda *ix: t.app(POISON), v.dt, v.lib)
    if isinstance(v, tuple):
        return tuple(poison_like(x) for x in v)
    if isinstance(v, PList):
        if v.items is not None:
            return PList([poison_like(x) for x in v.items])
        return PList(None, v.length, v.var, poison_like(v.elem))
    return v


class Leaf(object):
    """Numeric leaf of a value tree: context variables (list indices) and array."""
    __slots__ = ('vars', 'lens', 'arr', 'path')

    def __init__(self, vs, lens, arr, path):
        self.vars, self.lens, self.arr, self.path = vs, lens, arr, path


def leaves(v, ctx=(), path='', out=None):
    """Numeric leaves; list lengths are leaves too (path ending in '#len')."""
    if out is None:
        out = []
    if isinstance(v, Arr):
        out.append(Leaf([c[0] for c in ctx], [c[1] for c in ctx], v, path))
    elif isinstance(v, tuple):
        for k, x in enumerate(v):
            leaves(x, ctx, '%s.%d' % (path, k), out)
    elif isinstance(v, PList):
        if v.items is not None:
            for k, x in enumerate(v.items):
                leaves(x, ctx, '%s[%d]' % (path, k), out)
        else:
            v = untail(v)
            if v.elem is not None:
                leaves(v.elem, ctx + ((v.var, v.length),), path + '[i]', out)
    return out


def first_unknown(v):
    if isinstance(v, Unknown):
        return v
    if isinstance(v, tuple):
        xs = v
    elif isinstance(v, PList):
        if v.items is not None:
            xs = v.items
        else:
            v = untail(v)
            xs = [v.elem]
    else:
        return None
    for x in xs:
        u = first_unknown(x)
        if u is not None:
            return u
    return None


def known(v):
    u = first_unknown(v)
    if u is not None:
        raise Top(u.reason)
    return v


def skeleton_map(v, f, ctx=(), path=''):
    """Copy of the value tree with every Arr replaced by f(ctx, arr, path)."""
    if isinstance(v, Arr):
        return f(ctx, v, path)
    if isinstance(v, tuple):
        return tuple(skeleton_map(x, f, ctx, '%s.%d' % (path, k)) for k, x in enumerate(v))
    if isinstance(v, PList):
        if v.items is not None:
            return PList([skeleton_map(x, f, ctx, '%s[%d]' % (path, k)) for k, x in enumerate(v.items)])
        v = untail(v)
        if v.elem is None:
            return PList(None, v.length, v.var, None)
        nv = t.fresh(v.length)
        e = vsubst(v.elem, {v.var: t.var(nv)})
        return PList(None, v.length, nv, skeleton_map(e, f, ctx + ((nv, v.length),), path + '[i]'))
    return v


def define(v, depth=3):
    """Share large element terms of a value under names (see terms.define)."""
    if isinstance(v, Arr):
        if v.view is None and 'f' in v.dt:
            v.body = t.define(v.body)
    elif depth and isinstance(v, tuple):
        for x in v:
            define(x, depth - 1)
    elif depth and isinstance(v, PList):
        if v.items is not None:
            if len(v.items) <= 12:
                for x in v.items:
                    define(x, depth - 1)
        elif v.elem is not None:
            define(v.elem, depth - 1)


def own(v, tag, seen=None):
    """Mark every mutable part of a value tree as belonging to its caller."""
    seen = set() if seen is None else seen
    if id(v) in seen:
        return v
    seen.add(id(v))
    if isinstance(v, (Arr, PList, PDict, ObjV)):
        if v.tag is None and not (isinstance(v, Arr) and v.rank == 0):
            v.tag = tag
    if isinstance(v, tuple):
        parts = v
    elif isinstance(v, PList):
        parts = (v.items if v.items is not None else [v.elem]) + list(v.tail)
    elif isinstance(v, PDict):
        parts = list(v.d.values())
    elif isinstance(v, ObjV):
        parts = list(v.attrs.values())
    else:
        return v
    for x in parts:
        own(x, tag, seen)
    return v
