"""Term domain of the analyser: canonical polynomials over array elements.

A numeric value of the analysed program is abstracted by a *term*: a polynomial
with rational coefficients over atoms.  Atoms are elements of symbolic input
arrays, uninterpreted applications, reductions, conditionals, and members of
recurrences.  Matrix algebra is expressed with summation indices bound in the
monomials (index notation), so a matrix product, a quadratic form, a loop that
accumulates and a batched TensorFlow operation all reach one normal form.

Nothing here evaluates program code; terms are built and rewritten only.
"""

import hashlib
import time
from fractions import Fraction
from math import gcd

MAX_MONOS = 6000


class Blowup(Exception):
    """A term became larger than the configured bound."""


class Timeout(Blowup):
    """The time budget of a normal-form computation is used up."""


_deadline = [None, 0]


def set_deadline(seconds):
    _deadline[0] = None if seconds is None else time.monotonic() + seconds


def tick():
    d = _deadline[0]
    if d is not None:
        _deadline[1] += 1
        if _deadline[1] & 63 == 0 and time.monotonic() > d:
            raise Timeout('normal-form budget')


class Top(Exception):
    """Construct outside the analysed fragment."""


def _digest(s):
    return s if len(s) <= 40 else hashlib.md5(s.encode()).hexdigest()[:20]


# --------------------------------------------------------------------------
# Variables and ranges

_fresh = [0]
VAR_LEN = {}          # index variable name -> length term (0 <= var < length)
VAR_LO = {}           # optional lower bound (default 0)


def reset():
    """Forget everything interned; used between independent analyses."""
    _fresh[0] = 0
    VAR_LEN.clear()
    VAR_LO.clear()
    _atoms.clear()
    _subst_memo.clear()
    DEFS.clear()
    _ge_memo.clear()
    _weights.clear()


def fresh(length=None, tag='~'):
    _fresh[0] += 1
    name = '%s%d' % (tag, _fresh[0])
    if length is not None:
        VAR_LEN[name] = length
    return name


# --------------------------------------------------------------------------
# Atoms

_atoms = {}


class Atom(object):
    __slots__ = ('kind', 'head', 'args', 'key', 'fv', 'hgt', 'flags')

    def __repr__(self):
        return show_atom(self)


F_ITE = 1
F_TOP = 2
F_REC = 4
F_PH = 8
F_DELTA = 16
F_AT = 32


def mk(kind, head, args=()):
    """Interned atom."""
    args = tuple(args)
    raw = '%s:%s(%s)' % (kind, head, ','.join(a.key for a in args))
    a = _atoms.get(raw)
    if a is not None:
        return a
    a = Atom()
    a.kind, a.head, a.args = kind, head, args
    if kind == 'v':
        a.key = '$' + head
        a.fv = frozenset([head])
        a.hgt = 0
        a.flags = 0
    else:
        a.key = _digest(raw)
        fv = frozenset()
        h = 0
        fl = 0
        for x in args:
            fv |= x.fv
            h = max(h, x.hgt)
            fl |= x.flags
        a.fv = fv
        a.hgt = h
        if kind == 'i':
            fl |= F_ITE
        elif kind == 'top':
            fl |= F_TOP
        elif kind == 'R':
            fl |= F_REC
        elif kind == 'ph':
            fl |= F_PH
        elif kind == 'delta':
            fl |= F_DELTA
        elif kind == 's' and head[:1] == '@':
            fl |= F_AT
        a.flags = fl
    _atoms[raw] = a
    return a


class Lam(object):
    """Function of index variables: vars (canonical names), lens, body."""
    __slots__ = ('vars', 'lens', 'body', 'key', 'fv', 'hgt', 'flags')


def mklam(vs, lens, body):
    """Close body over variables vs (fresh names), with canonical naming."""
    h = body.hgt
    for l in lens:
        h = max(h, l.hgt)
    h += 1
    names = ['#%d.%d' % (h, k) for k in range(len(vs))]
    body = subst(body, {v: var(n) for v, n in zip(vs, names)})
    lm = Lam()
    lm.vars = tuple(names)
    lm.lens = tuple(lens)
    lm.body = body
    lm.hgt = h
    fv = body.fv - frozenset(names)
    fl = body.flags
    for l in lens:
        fv |= l.fv
        fl |= l.flags
    lm.fv = fv
    lm.flags = fl
    lm.key = _digest('lam%d(%s;%s)' % (h, ','.join(l.key for l in lens), body.key))
    return lm


def openlam(lm, idx=None):
    """Body of the lambda at given index terms (or fresh variables)."""
    if idx is None:
        vs = [fresh(l) for l in lm.lens]
        return vs, subst(lm.body, {n: var(v) for n, v in zip(lm.vars, vs)})
    return None, subst(lm.body, dict(zip(lm.vars, idx)))


# --------------------------------------------------------------------------
# Polynomials.  monos: dict (factors, bound) -> Fraction

class Poly(object):
    __slots__ = ('m', 'key', 'fv', 'hgt', 'flags')

    def __init__(self, m):
        if len(m) > MAX_MONOS:
            raise Blowup('term with %d monomials' % len(m))
        self.m = m
        fv = set()
        h = 0
        fl = 0
        parts = []
        for (fs, bd), c in m.items():
            inner = 0
            loc = set()
            for a, e in fs:
                loc |= a.fv
                inner = max(inner, a.hgt)
                fl |= a.flags
            for n, l in bd:
                loc.discard(n)
                fl |= l.flags
            for n, l in bd:
                loc |= l.fv
                inner = max(inner, l.hgt)
            if bd:
                inner += 1
            h = max(h, inner)
            fv |= loc
            parts.append('%s*%s' % (c, mono_key(fs, bd)))
        parts.sort()
        self.key = _digest('+'.join(parts)) if parts else '0'
        self.fv = frozenset(fv)
        self.hgt = h
        self.flags = fl

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        return padd(self, o)

    def __sub__(self, o):
        return padd(self, pscale(o, -1))

    def __mul__(self, o):
        return pmul(self, o)

    def __neg__(self):
        return pscale(self, -1)


def mono_key(fs, bd):
    s = '.'.join(a.key if e == 1 else '%s^%d' % (a.key, e) for a, e in fs)
    if bd:
        s += '|' + ','.join('%s<%s' % (n, l.key) for n, l in bd)
    return s


ONE_MONO = ((), ())


def const(c):
    c = Fraction(c)
    return Poly({ONE_MONO: c} if c else {})


ZERO = const(0)
ONE = const(1)
_var_cache = {}


def var(name):
    p = _var_cache.get(name)
    if p is None:
        p = _var_cache[name] = Poly({(((mk('v', name), 1),), ()): Fraction(1)})
    return p


PIN = {}


def dim(name):
    if name in PIN and PIN[name] >= DIM_LO.get(name, 1):
        return const(PIN[name])
    return atom_poly(mk('d', name))


def atom_poly(a):
    return Poly({(((a, 1),), ()): Fraction(1)})


def sym(name, *idx):
    return lift_args('s', name, idx)


def app(name, *args):
    return lift_args('f', name, args)


def top(reason):
    return atom_poly(mk('top', reason))


def is_const(p):
    return not p.m or (len(p.m) == 1 and ONE_MONO in p.m)


def const_val(p):
    """Fraction value if constant else None."""
    if not p.m:
        return Fraction(0)
    if len(p.m) == 1 and ONE_MONO in p.m:
        return p.m[ONE_MONO]
    return None


def int_val(p):
    c = const_val(p)
    if c is not None and c.denominator == 1:
        return int(c)
    return None


def single_atom(p):
    """The atom if p is exactly one atom with coefficient one."""
    if len(p.m) == 1:
        (fs, bd), c = next(iter(p.m.items()))
        if c == 1 and not bd and len(fs) == 1 and fs[0][1] == 1:
            return fs[0][0]
    return None


def as_ite(p):
    a = single_atom(p)
    if a is not None and a.kind == 'i':
        return a
    return None


def lift_args(kind, head, args):
    """Atom application; conditionals in scalar arguments move outside."""
    for k, a in enumerate(args):
        if isinstance(a, Poly):
            if a.flags & F_ITE:
                it = as_ite(a)
                if it is not None:
                    c, t, e = it.args
                    pre, post = args[:k], args[k + 1:]
                    return ite(it.head, c,
                               lift_args(kind, head, pre + (t,) + post),
                               lift_args(kind, head, pre + (e,) + post))
        elif isinstance(a, Lam) and a.flags & F_ITE:
            it = as_ite(a.body)
            if it is not None and not (it.args[0].fv & set(a.vars)):
                c = it.args[0]
                vs, _ = openlam(a)
                m = {n: var(v) for n, v in zip(a.vars, vs)}
                t = mklam(vs, a.lens, subst(it.args[1], m))
                e = mklam(vs, a.lens, subst(it.args[2], m))
                pre, post = args[:k], args[k + 1:]
                return ite(it.head, c,
                           lift_args(kind, head, pre + (t,) + post),
                           lift_args(kind, head, pre + (e,) + post))
    return mkatom(kind, head, args)


# hooks: head -> function(args) -> Poly or None (simplification of applications)
SIMPLIFY = {}


def mkatom(kind, head, args):
    if kind == 'f':
        s = SIMPLIFY.get(head)
        if s is not None:
            r = s(args)
            if r is not None:
                return r
    if kind in 'sf' and head in SYMMETRIC and len(args) >= 2:
        a, b = args[-2], args[-1]
        if b.key < a.key:
            args = tuple(args[:-2]) + (b, a)
    if kind == 'R':
        if head in SYMREC and len(args) >= 3:
            a, b = args[-2], args[-1]
            if b.key < a.key:
                args = tuple(args[:-2]) + (b, a)
        r = unfold_rec(head, args)
        if r is not None:
            return r
    return atom_poly(mk(kind, head, args))


SYMREC = set()        # recurrences symmetric in the last two indices
SYMMETRIC = set()     # names of input arrays symmetric in the last two indices


# --------------------------------------------------------------------------
# Arithmetic

def padd(p, q):
    if not p.m:
        return q
    if not q.m:
        return p
    m = dict(p.m)
    for k, c in q.m.items():
        v = m.get(k, 0) + c
        if v:
            m[k] = v
        else:
            m.pop(k, None)
    r = Poly(m)
    if r.flags & F_ITE:
        r = norm_ite(r)
    return r


def psumlist(ps):
    m = {}
    for p in ps:
        for k, c in p.m.items():
            v = m.get(k, 0) + c
            if v:
                m[k] = v
            else:
                m.pop(k, None)
    r = Poly(m)
    if r.flags & F_ITE:
        r = norm_ite(r)
    return r


def pscale(p, c):
    c = Fraction(c)
    if c == 1:
        return p
    it = as_ite(p)
    if it is not None:
        return ite(it.head, it.args[0], pscale(it.args[1], c), pscale(it.args[2], c))
    return Poly({k: v * c for k, v in p.m.items()} if c else {})


def _rename_bound(fs, bd):
    """Fresh names for the bound variables of a monomial."""
    if not bd:
        return list(fs), []
    mp = {}
    nb = []
    for n, l in bd:
        f = fresh()
        mp[n] = var(f)
    for n, l in bd:
        l2 = subst(l, mp) if (l.fv & set(mp)) else l
        nm = next(iter(mp[n].fv))
        VAR_LEN[nm] = l2
        nb.append((nm, l2))
    out = []
    extra = []
    for a, e in fs:
        if a.fv & set(mp):
            q = subst_atom(a, mp)
            sa = single_atom(q)
            if sa is not None:
                out.append((sa, e))
            else:
                extra.append((q, e))
        else:
            out.append((a, e))
    if extra:
        raise Reshaped(out, extra, nb)
    return out, nb


class Reshaped(Top):
    """Renaming bound indices simplified a factor into a polynomial."""

    def __init__(self, out, extra, nb):
        Top.__init__(self, 'bound renaming changed atom shape')
        self.out, self.extra, self.nb = out, extra, nb

    def poly(self):
        r = canon_mono(self.out, [])
        for q, e in self.extra:
            r = pmul(r, ppow(q, e))
        for n, l in self.nb:
            r = psum(n, l, r)
        return r


def mono_poly(fs, bd):
    """A monomial (coefficient one) rebuilt under the current knowledge."""
    try:
        g, nb = _rename_bound(fs, bd)
    except Reshaped as e:
        return e.poly()
    return Poly({(tuple(fs), tuple(bd)): Fraction(1)})


def pmul(p, q):
    if not p.m or not q.m:
        return ZERO
    cp, cq = const_val(p), const_val(q)
    if cp is not None:
        return pscale(q, cp)
    if cq is not None:
        return pscale(p, cq)
    for x, y in ((p, q), (q, p)):
        it = as_ite(x)
        if it is not None:
            c = it.args[0]
            return ite(it.head, c,
                       pmul(it.args[1], restrict(y, it.head, c, True)),
                       pmul(it.args[2], restrict(y, it.head, c, False)))
    if len(p.m) * len(q.m) > 4 * MAX_MONOS:
        raise Blowup('product of %d and %d monomials' % (len(p.m), len(q.m)))
    acc = []
    for (f1, b1), c1 in p.m.items():
        for (f2, b2), c2 in q.m.items():
            if b1 or b2:
                try:
                    g1, n1 = _rename_bound(f1, b1)
                    g2, n2 = _rename_bound(f2, b2)
                    r = canon_mono(g1 + g2, n1 + n2)
                except Reshaped:
                    r = pmul(mono_poly(f1, b1), mono_poly(f2, b2))
            else:
                r = canon_mono(list(f1) + list(f2), [])
            acc.append(pscale_raw(r, c1 * c2))
    m = {}
    for r in acc:
        for k, c in r.m.items():
            v = m.get(k, 0) + c
            if v:
                m[k] = v
            else:
                m.pop(k, None)
    r = Poly(m)
    if r.flags & F_ITE:
        r = norm_ite(r)
    return r


def pscale_raw(p, c):
    if c == 1:
        return p
    return Poly({k: v * c for k, v in p.m.items()} if c else {})


def ppow(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return ppow(precip(p), -n)
    r = p
    for _ in range(n - 1):
        r = pmul(r, p)
    return r


def precip(p):
    c = const_val(p)
    if c is not None:
        if c == 0:
            return app('undef', const(0))
        return const(1 / c)
    it = as_ite(p)
    if it is not None:
        return ite(it.head, it.args[0], precip(it.args[1]), precip(it.args[2]))
    if len(p.m) == 1:
        (fs, bd), c = next(iter(p.m.items()))
        if not bd:
            return canon_poly([((tuple((a, -e) for a, e in fs), ()), 1 / c)])
    # normalise by a leading coefficient
    k0 = min(p.m, key=lambda k: mono_key(*k))
    c0 = p.m[k0]
    q = pscale(p, 1 / c0)
    return Poly({(((mk('P', '', (q,)), -1),), ()): 1 / c0})


def canon_poly(items):
    acc = []
    for (fs, bd), c in items:
        acc.append(pscale_raw(canon_mono(list(fs), list(bd)), c))
    return psumlist(acc)


# --------------------------------------------------------------------------
# Monomial canonicalisation

def _sig(x, env, memo):
    """Structural signature with variables replaced by labels."""
    if not (x.fv & env.keys()):
        return x.key
    k = (id(x))
    s = memo.get(k)
    if s is not None:
        return s
    if isinstance(x, Atom):
        if x.kind == 'v':
            s = '<' + env[x.head] + '>'
        else:
            args = x.args
            if (x.kind in 'sf' and x.head in SYMMETRIC and len(args) >= 2 or
                    x.kind == 'R' and x.head in SYMREC and len(args) >= 3):
                ss = [_sig(a, env, memo) for a in args]
                ss[-2:] = sorted(ss[-2:])
            else:
                ss = [_sig(a, env, memo) for a in args]
            s = '%s:%s(%s)' % (x.kind, x.head, ','.join(ss))
    elif isinstance(x, Lam):
        s = 'lam%d(%s;%s)' % (len(x.vars), ','.join(_sig(l, env, memo) for l in x.lens),
                              _sig(x.body, env, memo))
    else:
        parts = []
        for (fs, bd), c in x.m.items():
            t = '.'.join(sorted('%s^%d' % (_sig(a, env, memo), e) for a, e in fs))
            parts.append('%s*%s|%s' % (c, t, ','.join(_sig(l, env, memo) for n, l in bd)))
        parts.sort()
        s = '+'.join(parts)
    s = _digest(s)
    memo[k] = s
    return s


def _refine(fs, names, colors):
    ncls = len(set(colors.values()))
    while True:
        new = {}
        for b in names:
            env = dict(colors)
            env[b] = colors[b] + '!'
            memo = {}
            occ = sorted('%s^%d' % (_sig(a, env, memo), e) for a, e in fs if b in a.fv)
            new[b] = _digest(colors[b] + '/' + ';'.join(occ))
        n2 = len(set(new.values()))
        colors = new
        if n2 == ncls:
            return colors
        ncls = n2


def _label(fs, names, colors, budget):
    colors = _refine(fs, names, colors)
    cls = {}
    for b in names:
        cls.setdefault(colors[b], []).append(b)
    multi = sorted((c, bs) for c, bs in cls.items() if len(bs) > 1)
    if not multi:
        memo = {}
        s = '.'.join(sorted('%s^%d' % (_sig(a, colors, memo), e) for a, e in fs))
        return s, colors
    c, bs = multi[0]
    best = None
    for b in bs:
        if budget[0] <= 0:
            break
        budget[0] -= 1
        c2 = dict(colors)
        c2[b] = colors[b] + '*'
        r = _label(fs, names, c2, budget)
        if best is None or r[0] < best[0]:
            best = r
    return best


def canon_mono(fs, bound):
    """Canonical one-monomial polynomial (coefficient 1) from a factor list
    [(atom, exp)] and bound variables [(fresh name, length)].  May return a
    more general polynomial when a factor simplifies."""
    tick()
    # merge equal atoms
    d = {}
    order = []
    for a, e in fs:
        if a in d:
            d[a] += e
        else:
            d[a] = e
            order.append(a)
    fs = [(a, d[a]) for a in order if d[a] != 0]
    bound = list(bound)
    # delta elimination
    for a, e in fs:
        if a.kind == 'delta' and e > 1:
            fs = [(x, (1 if x is a else y)) for x, y in fs]
    changed = True
    while changed and bound:
        changed = False
        for a, e in fs:
            if a.kind != 'delta':
                continue
            for n, l in bound:
                if n in a.fv:
                    sol = solve_linear(a.args[0], n)
                    if sol is None:
                        continue
                    if sol.fv & set([n]):
                        continue
                    rest = [x for x in fs if x[0] is not a]
                    nb = [x for x in bound if x[0] != n]
                    if any(n in l2.fv for _, l2 in nb):
                        continue
                    inr = in_range(sol, l)
                    if inr is False:
                        return ZERO
                    p = ONE
                    for x, ex in rest:
                        if n in x.fv:
                            q = subst_atom(x, {n: sol})
                        else:
                            q = atom_poly(x)
                        p = pmul(p, ppow(q, ex))
                    for bn, bl in nb:
                        p = psum(bn, bl, p)
                    return p
    # inverse of a single symbol: inv(U)[i,k] U[k,j] -> delta(i,j)
    if bound:
        r = _cancel_inverse(fs, bound)
        if r is not None:
            return r
    # unused bound variables
    used = set()
    for a, e in fs:
        used |= a.fv
    mult = ONE
    nb = []
    for n, l in bound:
        if n in used or any(n in l2.fv for _, l2 in bound):
            nb.append((n, l))
        else:
            mult = pmul(mult, l)
    bound = nb
    if bound:
        if len(bound) == 1:
            n, l = bound[0]
            best = {n: 'c'}
        else:
            names = [n for n, l in bound]
            lens = dict(bound)
            colors = {n: 'L' + (lens[n].key if not (lens[n].fv & set(names)) else 'dep') for n in names}
            s, best = _label(fs, names, colors, [200])
        h = 0
        for a, e in fs:
            h = max(h, a.hgt)
        for n, l in bound:
            h = max(h, l.hgt)
        h += 1
        bound.sort(key=lambda x: best[x[0]])
        mp = {n: var('#%d.%d' % (h, k)) for k, (n, l) in enumerate(bound)}
        nfs = []
        s = set(mp)
        for a, e in fs:
            if a.fv & s:
                q = rename_atom(a, mp)
                nfs.append((q, e))
            else:
                nfs.append((a, e))
        fs = nfs
        bound = [('#%d.%d' % (h, k), subst(l, mp) if l.fv & s else l)
                 for k, (n, l) in enumerate(bound)]
    fs = sorted(fs, key=lambda x: (x[0].key, x[1]))
    r = Poly({(tuple(fs), tuple(bound)): Fraction(1)})
    if mult is not ONE and mult != ONE:
        r = pmul(r, mult)
    return r


def _cancel_inverse(fs, bound):
    bn = dict(bound)
    for a, e in fs:
        if a.kind == 'f' and a.head == 'inv' and e == 1:
            lm = a.args[0]
            body = single_atom(lm.body)
            if body is None or body.kind not in 'sf':
                continue
            for b, e2 in fs:
                if b.kind == body.kind and b.head == body.head and e2 == 1 and b is not a:
                    for side in (0, 1):
                        # inv[i,k] * U[k,j]  or U[i,k] * inv[k,j]
                        if side == 0:
                            i, k = a.args[1], a.args[2]
                        else:
                            k, j = a.args[1], a.args[2]
                        ks = single_atom(k)
                        if ks is None or ks.kind != 'v' or ks.head not in bn:
                            continue
                        if sum(1 for x, _ in fs if ks.head in x.fv) != 2:
                            continue
                        # other index of b
                        w = fresh()
                        if side == 0:
                            cand = subst(lm.body, {lm.vars[0]: k, lm.vars[1]: var(w)})
                        else:
                            cand = subst(lm.body, {lm.vars[0]: var(w), lm.vars[1]: k})
                        ca = single_atom(cand)
                        if ca is None or ca.kind not in 'sf' or len(ca.args) != len(b.args):
                            continue
                        o = None
                        ok = True
                        for x, y in zip(ca.args, b.args):
                            if x == var(w):
                                o = y
                            elif x != y:
                                ok = False
                        if not ok or o is None:
                            # symmetric symbols may have swapped arguments
                            if b.head in SYMMETRIC and ca.args[:-2] == b.args[:-2]:
                                l2 = [y for y in b.args[-2:] if y != k]
                                if len(l2) == 1:
                                    o = l2[0]
                                    ok = True
                            if not ok or o is None:
                                continue
                        other = i if side == 0 else j
                        rest = [x for x in fs if x[0] is not a and x[0] is not b]
                        p = delta(other - o)
                        for x, ex in rest:
                            p = pmul(p, ppow(atom_poly(x), ex))
                        for n, l in bound:
                            if n != ks.head:
                                p = psum(n, l, p)
                        return p
    return None


def rename_atom(a, mp):
    q = subst_atom(a, mp)
    s = single_atom(q)
    if s is None:
        raise Top('renaming changed atom shape: %s' % show_atom(a))
    return s


# --------------------------------------------------------------------------
# Linear integer reasoning

def linear_coeff(p, name):
    """(coefficient poly, rest) if p is linear in variable name, else None."""
    a = mk('v', name)
    co = {}
    rest = {}
    for (fs, bd), c in p.m.items():
        hit = [e for x, e in fs if x is a]
        if hit:
            if hit[0] != 1 or bd:
                return None
            fs2 = tuple(x for x in fs if x[0] is not a)
            if any(name in x.fv for x, e in fs2):
                return None
            co[(fs2, bd)] = c
        else:
            if any(name in x.fv for x, e in fs):
                return None
            rest[(fs, bd)] = c
    return Poly(co), Poly(rest)


def solve_linear(p, name):
    """Solution of p == 0 for variable name when its coefficient is +-1."""
    r = linear_coeff(p, name)
    if r is None:
        return None
    co, rest = r
    c = const_val(co)
    if c == 1:
        return -rest
    if c == -1:
        return rest
    return None


_assume = []      # stack of terms known to be >= 0 (integers)


def lower_bound(p, depth=0):
    """A provable lower bound of an integer term, as a polynomial in dims
    only, or None."""
    return _extreme(p, False)


def _extreme(p, upper):
    for _ in range(40):
        vs = [v for v in p.fv if v in VAR_LEN]
        if any(v not in VAR_LEN for v in p.fv):
            return None
        if not vs:
            return p
        # inner-most variables first: lengths may depend on other variables
        vs.sort(key=lambda v: -int(''.join(ch for ch in v if ch.isdigit()) or 0))
        v = vs[0]
        r = linear_coeff(p, v)
        if r is None:
            return None
        co, rest = r
        s = sign_dims(co)
        if s is None:
            return None
        if s == 0:
            p = rest
        elif (s > 0) == upper:
            if VAR_LEN[v].flags & F_ITE:
                return None
            p = pmul(co, VAR_LEN[v] - ONE) + rest
        else:
            p = pmul(co, VAR_LO.get(v, ZERO)) + rest
    return None


def sign_dims(p):
    """Sign of a polynomial when every dimension symbol is >= 1: 1, -1, 0 or
    None when unknown.  (1 means >= 0 and not identically zero.)"""
    if not p.m:
        return 0
    c = const_val(p)
    if c is not None:
        return 1 if c > 0 else -1
    q = shift_dims(p)
    if q is None:
        return None
    if all(c >= 0 for c in q.m.values()):
        return 1
    if all(c <= 0 for c in q.m.values()):
        return -1
    return None


def shift_dims(p):
    """Rewrite p with each dimension d as d'+lo(d)."""
    mp = {}
    for (fs, bd), c in p.m.items():
        if bd:
            return None
        for a, e in fs:
            if a.kind == 'd':
                if e < 0:
                    return None
                mp[a] = atom_poly(a) + const(DIM_LO.get(a.head, 1))
            elif a.kind == 'f' and a.head in NONNEG_APPS and e > 0:
                pass
            elif a.kind == 's' and a.head in NAT_SYMS and e > 0:
                pass
            else:
                return None
    if not mp:
        return p
    r = ZERO
    for (fs, bd), c in p.m.items():
        t = const(c)
        for a, e in fs:
            t = pmul(t, ppow(mp.get(a, atom_poly(a)), e))
        r = padd(r, t)
    return r


DIM_LO = {}                      # lower bound of a dimension symbol (default 1)
NONNEG_APPS = {'floordiv', 'mod', 'argmin', 'argmax', 'choice'}
# uninterpreted (smooth) functions, which have derivatives
SMOOTH = set()
NAT_SYMS = set()                 # integer symbols known to be >= 0


def decide_ge(p):
    """Decide p >= 0 for an integer term: True, False or None."""
    c = const_val(p)
    if c is not None:
        return c >= 0
    k = (p.key, tuple([(v, VAR_LEN[v].key if v in VAR_LEN else None) for v in sorted(p.fv)]),
         tuple([a.key for a in _assume]), len(NAT_SYMS), len(DIM_LO))
    r = _ge_memo.get(k, 0)
    if r != 0:
        return r
    r = _ge_memo[k] = _decide_ge(p)
    return r


_ge_memo = {}


def _decide_ge(p):
    lo = _extreme(p, False)
    if lo is not None:
        q = lo if const_val(lo) is not None else shift_dims(lo)
        if q is not None and all(c >= 0 for c in q.m.values()):
            return True
    hi = _extreme(p, True)
    if hi is not None:
        q = hi + ONE
        q = q if const_val(q) is not None else shift_dims(q)
        if q is not None and all(c <= 0 for c in q.m.values()):
            return False
    for a in _assume:
        if a is p:
            continue
        d = p - a
        cd = const_val(d)
        if cd is not None and cd >= 0:
            return True
        if cd is None and _dec0(d):
            return True
        d = -p - ONE - a
        cd = const_val(d)
        if cd is not None and cd >= 0:
            return False
        if cd is None and _dec0(d):
            return False
    return None


def _dec0(p):
    lo = _extreme(p, False)
    if lo is None:
        return False
    q = lo if const_val(lo) is not None else shift_dims(lo)
    return q is not None and all(c >= 0 for c in q.m.values())


def in_range(p, length):
    """True if 0 <= p < length provable, False if provably outside, else None."""
    a = decide_ge(p)
    b = decide_ge(length - ONE - p)
    if a is False or b is False:
        return False
    if a and b:
        return True
    return None


# --------------------------------------------------------------------------
# Conditionals.  Condition kinds: 'ge' (integer poly >= 0), 'gt' (real poly
# > 0), 'eq' (poly == 0), 'b' (boolean term != 0).

def norm_cond(kind, p):
    """Normalise: returns (kind, poly, polarity) or a bool."""
    if kind == 'ge':
        d = decide_ge(p)
        if d is not None:
            return d
        p = tighten(p)
        # canonical polarity: leading monomial has a positive coefficient
        q = -p - ONE
        if lead_sign(p) < 0:
            return ('ge', q, False)
        return ('ge', p, True)
    if kind == 'gt':
        c = const_val(p)
        if c is not None:
            return c > 0
        k0 = min((k for k in p.m if k != ONE_MONO), key=lambda k: mono_key(*k))
        s = abs(p.m[k0])
        p = pscale(p, 1 / s)
        return ('gt', p, True)
    if kind == 'eq':
        c = const_val(p)
        if c is not None:
            return c == 0
        k0 = min((k for k in p.m if k != ONE_MONO), key=lambda k: mono_key(*k))
        return ('eq', pscale(p, 1 / p.m[k0]), True)
    if kind == 'b':
        c = const_val(p)
        if c is not None:
            return c != 0
        return ('b', p, True)
    raise ValueError(kind)


def tighten(p):
    """p >= 0 over the integers divided by the common factor of its terms."""
    g = 0
    for k, c in p.m.items():
        if k != ONE_MONO:
            if c.denominator != 1:
                return p
            g = gcd(g, c.numerator)
    if g <= 1 or not is_int_term(p):
        return p
    c = p.m.get(ONE_MONO, Fraction(0))
    rest = p - const(c)
    return pscale(rest, Fraction(1, g)) + const(c.numerator // (g * c.denominator))


def lead_sign(p):
    ks = [k for k in p.m if k != ONE_MONO]
    # prefer index variables over dims so that conditions read "i >= c"
    def rank(k):
        kinds = set(a.kind for a, e in k[0])
        return (0 if 'v' in kinds else 1, mono_key(*k))
    k0 = min(ks, key=rank)
    return 1 if p.m[k0] > 0 else -1


def is_int_term(p):
    """All atoms integer valued."""
    for (fs, bd), c in p.m.items():
        if c.denominator != 1 or bd:
            return False
        for a, e in fs:
            if e < 0:
                return False
            if a.kind in ('v', 'd'):
                continue
            if a.kind == 's' and a.head in INT_SYMS:
                continue
            if a.kind == 'f' and a.head in ('floordiv', 'mod', 'argmin', 'argmax', 'int', 'ceil', 'floor', 'powint', 'choice'):
                continue
            if a.kind == 'r' and a.head in ('argmin', 'argmax'):
                continue
            if a.kind == 'i' and is_int_term(a.args[1]) and is_int_term(a.args[2]):
                continue
            return False
    return True


INT_SYMS = set()
POS_SYMS = set()                 # symbols known to be positive
INT_HI = {}                      # number of values of an index symbol


def ite(kind, p, a, b):
    if a == b:
        return a
    it = as_ite(p)
    if it is not None:
        return ite(it.head, it.args[0],
                   ite(kind, it.args[1], a, b), ite(kind, it.args[2], a, b))
    if kind == 'eq' and is_int_term(p):
        vs = [v for v in p.fv if v in VAR_LEN]
        for v in sorted(vs):
            s = solve_linear(p, v)
            if s is not None and v not in s.fv:
                # v == s: a at the point, b elsewhere
                inr = in_range(s, VAR_LEN[v])
                if inr is False:
                    return b
                a1 = subst(a, {v: s}) if v in a.fv else a
                d = var(v) - s
                return ite('ge', d, ite('ge', d - ONE, b, a1), b)
    n = norm_cond(kind, p)
    if n is True:
        return a
    if n is False:
        return b
    kind, p, pol = n
    if not pol:
        a, b = b, a
    a = restrict(a, kind, p, True)
    b = restrict(b, kind, p, False)
    if kind == 'ge':
        # a single point in one branch: substitute the index value
        for v in sorted(p.fv):
            if v not in VAR_LEN:
                continue
            r = linear_coeff(p, v)
            if r is None:
                continue
            c = const_val(r[0])
            if c == 1:
                # true: v >= -rest ; false: v <= -rest-1
                lo = -r[1]
                if lo == ONE:
                    pt = ZERO
                    b2 = subst(b, {v: pt}) if v in b.fv else b
                    if subst(a, {v: pt}) == b2:
                        return a
                    b = b2
                if VAR_LEN[v] - ONE == lo:
                    a2 = subst(a, {v: lo}) if v in a.fv else a
                    if subst(b, {v: lo}) == a2:
                        return b
                    a = a2
        if a == b:
            return a
    if a == b:
        return a
    # order conditions (BDD style): smaller condition outside
    ck = cond_key(kind, p)
    best = None
    for x in (a, b):
        ia = as_ite(x)
        if ia is not None:
            k2 = cond_key(ia.head, ia.args[0])
            if k2 < ck and (best is None or k2 < best[0]):
                best = (k2, ia.head, ia.args[0])
    if best is not None:
        _, k2, p2 = best
        return ite(k2, p2,
                   ite(kind, p, restrict(a, k2, p2, True), restrict(b, k2, p2, True)),
                   ite(kind, p, restrict(a, k2, p2, False), restrict(b, k2, p2, False)))
    return atom_poly(mk('i', kind, (p, a, b)))


def cond_key(kind, p):
    return kind + p.key


def implied(kind, p, akind, ap, val):
    """Value of condition (kind,p) given (akind,ap) == val, or None."""
    if kind == akind and p == ap:
        return val
    if kind == 'ge' and akind == 'ge':
        known = ap if val else -ap - ONE
        d = p - known
        if decide_ge(d):
            return True
        d = -p - ONE - known
        if decide_ge(d):
            return False
    if kind == 'gt' and akind == 'gt':
        if val:
            if p == -ap:
                return False
        # real: p >= ap implies p > 0 when ap > 0
        d = const_val(p - ap)
        if d is not None:
            if val and d >= 0:
                return True
            if not val and d <= 0:
                return False
    if kind == 'eq' and akind == 'eq' and val:
        d = const_val(p - ap)
        if d is not None and d != 0:
            return False
    return None


_restrict_depth = [0]


def restrict(p, kind, c, val):
    """Simplify p under the assumption that condition (kind, c) == val."""
    if not (p.flags & F_ITE):
        return p
    known = None
    if kind == 'ge':
        known = c if val else -c - ONE
        _assume.append(known)
    try:
        def f(a):
            if a.kind == 'i':
                v = implied(a.head, a.args[0], kind, c, val)
                if v is True:
                    return restrict(a.args[1], kind, c, val)
                if v is False:
                    return restrict(a.args[2], kind, c, val)
                t = restrict(a.args[1], kind, c, val)
                e = restrict(a.args[2], kind, c, val)
                if t is a.args[1] and e is a.args[2]:
                    return None
                return ite(a.head, a.args[0], t, e)
            return None
        return map_ite(p, f)
    finally:
        if known is not None:
            _assume.pop()


def map_ite(p, f):
    """Rebuild p replacing top-level 'i' factors by f(atom) (None = keep)."""
    changed = False
    acc = []
    for (fs, bd), c in p.m.items():
        if not any(a.flags & F_ITE for a, e in fs):
            acc.append(Poly({(fs, bd): c}))
            continue
        t = const(c)
        if bd:
            # leave bound monomials alone unless an unbound conditional is hit
            hit = False
            reps = {}
            for a, e in fs:
                if a.kind == 'i':
                    r = f(a)
                    if r is not None:
                        hit = True
                        reps[a] = r
            if not hit:
                acc.append(Poly({(fs, bd): c}))
                continue
            g, nb = _rename_bound(fs, bd)
            body = const(c)
            for (a, e), (a0, e0) in zip(g, fs):
                if a0 in reps:
                    mp = {n0: var(n1) for (n0, _), (n1, _) in zip(bd, nb)}
                    body = pmul(body, ppow(subst(reps[a0], mp), e))
                else:
                    body = pmul(body, ppow(atom_poly(a), e))
            for n, l in nb:
                body = psum(n, l, body)
            acc.append(body)
            changed = True
            continue
        loc = False
        for a, e in fs:
            if a.kind == 'i':
                r = f(a)
                if r is not None:
                    loc = True
                    t = pmul(t, ppow(r, e))
                    continue
            t = pmul(t, ppow(atom_poly(a), e))
        if loc:
            changed = True
            acc.append(t)
        else:
            acc.append(Poly({(fs, bd): c}))
    if not changed:
        return p
    return psumlist(acc)


def norm_ite(p):
    """Lift conditionals with unbound conditions to the outside."""
    if as_ite(p) is not None:
        return p
    best = None
    for (fs, bd), c in p.m.items():
        names = set(n for n, l in bd)
        for a, e in fs:
            if a.kind == 'i' and not (a.args[0].fv & names):
                k = cond_key(a.head, a.args[0])
                if best is None or k < best[0]:
                    best = (k, a.head, a.args[0])
    if best is None:
        return p
    _, kind, c = best

    def pick(val):
        return lambda a: _pick(a, kind, c, val)
    t = map_ite(p, pick(True))
    e = map_ite(p, pick(False))
    return ite(kind, c, t, e)


def _pick(a, kind, c, val):
    if a.head == kind and a.args[0] == c:
        return a.args[1] if val else a.args[2]
    if kind == 'ge':
        known = c if val else -c - ONE
        _assume.append(known)
        try:
            v = implied(a.head, a.args[0], kind, c, val)
        finally:
            _assume.pop()
    else:
        v = implied(a.head, a.args[0], kind, c, val)
    if v is True:
        return a.args[1]
    if v is False:
        return a.args[2]
    return None


def delta(p):
    """Kronecker delta of p == 0."""
    c = const_val(p)
    if c is not None:
        return ONE if c == 0 else ZERO
    if decide_ge(p - ONE) or decide_ge(-p - ONE):
        return ZERO
    it = as_ite(p)
    if it is not None:
        return ite(it.head, it.args[0], delta(it.args[1]), delta(it.args[2]))
    if lead_sign(p) < 0:
        p = -p
    return atom_poly(mk('delta', '', (p,)))


# --------------------------------------------------------------------------
# Sums

def psum(v, length, body):
    """Sum of body over v in [0, length)."""
    if not body.m:
        return ZERO
    if v not in VAR_LEN:
        VAR_LEN[v] = length
    n = int_val(length)
    if n is not None and n <= 12 and v in body.fv:
        return psumlist([subst(body, {v: const(k)}) for k in range(n)])
    if n == 0:
        return ZERO
    if v not in body.fv:
        return pmul(length, body)
    it = as_ite(body)
    if it is not None:
        c, a, b = it.args
        if v not in c.fv:
            return ite(it.head, c, psum(v, length, a), psum(v, length, b))
        if it.head == 'ge':
            r = linear_coeff(c, v)
            if r is not None and const_val(r[0]) in (1, -1):
                if const_val(r[0]) == 1:
                    cut = -r[1]        # v >= cut : a
                    lo_body, hi_body = b, a
                else:
                    cut = r[1] + ONE   # v <= rest : a, i.e. v < rest+1
                    lo_body, hi_body = a, b
                if not (cut.fv & set([v])):
                    ok = decide_ge(cut), decide_ge(length - cut)
                    if ok == (True, True):
                        v1 = fresh(cut)
                        v2 = fresh(length - cut)
                        p1 = psum(v1, cut, subst(lo_body, {v: var(v1)}))
                        p2 = psum(v2, length - cut, subst(hi_body, {v: var(v2) + cut}))
                        return padd(p1, p2)
        f = fresh(length)
        b2 = subst(body, {v: var(f)})
        if as_ite(b2) is None:
            return psum(f, length, b2)
        return canon_mono([(as_ite(b2), 1)], [(f, length)])
    acc = []
    for (fs, bd), c in body.m.items():
        if bd:
            try:
                g, nb = _rename_bound(fs, bd)
            except Reshaped as e:
                acc.append(pscale(psum(v, length, e.poly()), c))
                continue
        else:
            g, nb = list(fs), []
        if any(v in a.fv for a, e in g) or any(v in l.fv for n, l in nb):
            f = fresh(length)
            mp = {v: var(f)}
            p = None
            g2 = []
            extra = ONE
            for a, e in g:
                if v in a.fv:
                    q = subst_atom(a, mp)
                    s = single_atom(q)
                    if s is None:
                        extra = pmul(extra, ppow(q, e))
                    else:
                        g2.append((s, e))
                else:
                    g2.append((a, e))
            nb2 = [(n, subst(l, mp)) for n, l in nb]
            if extra is ONE:
                acc.append(pscale_raw(canon_mono(g2, nb2 + [(f, length)]), c))
            else:
                p = canon_mono(g2, [])
                p = pmul(p, extra)
                for n, l in nb2:
                    p = psum(n, l, p)
                acc.append(pscale(psum(f, length, p), c))
        else:
            p = canon_mono(g, nb)
            acc.append(pscale(pmul(p, length), c))
    return psumlist(acc)


# --------------------------------------------------------------------------
# Substitution of index variables (and of symbols, for closing lambdas)

_subst_memo = {}


def subst(p, mp):
    """Substitute variables (name -> Poly)."""
    if not (p.fv & mp.keys()):
        return p
    mp = {k: v for k, v in mp.items() if k in p.fv}
    mk_ = tuple(sorted((k, v.key) for k, v in mp.items()))
    ck = (p.key, mk_, tuple(a.key for a in _assume)) if p.flags & (F_ITE | F_REC) else (p.key, mk_)
    r = _subst_memo.get(ck)
    if r is not None:
        return r
    acc = []
    for (fs, bd), c in p.m.items():
        hit = any(a.fv & mp.keys() for a, e in fs) or any(l.fv & mp.keys() for n, l in bd)
        if not hit:
            acc.append(Poly({(fs, bd): c}))
            continue
        if bd:
            try:
                g, nb = _rename_bound(fs, bd)
            except Reshaped as e:
                acc.append(pscale(subst(e.poly(), mp), c))
                continue
            nb = [(n, subst(l, mp)) for n, l in nb]
            for n, l in nb:
                VAR_LEN[n] = l
        else:
            g, nb = fs, []
        simple = []
        other = ONE
        for a, e in g:
            if a.fv & mp.keys():
                q = subst_atom(a, mp)
                s = single_atom(q)
                if s is not None and s.kind != 'i':
                    simple.append((s, e))
                else:
                    other = pmul(other, ppow(q, e))
            else:
                simple.append((a, e))
        if other is ONE:
            t = canon_mono(simple, nb)
        else:
            t = pmul(canon_mono(simple, []), other)
            for n, l in nb:
                t = psum(n, l, t)
        acc.append(pscale(t, c))
    r = psumlist(acc)
    _subst_memo[ck] = r
    return r


def subst_atom(a, mp):
    """Substituted atom as a Poly."""
    if not (a.fv & mp.keys()):
        return atom_poly(a)
    if a.kind == 'v':
        return mp[a.head]
    args = []
    for x in a.args:
        if isinstance(x, Lam):
            args.append(subst_lam(x, mp))
        else:
            args.append(subst(x, mp))
    args = tuple(args)
    return rebuild(a.kind, a.head, args)


def rebuild(kind, head, args):
    if kind == 'i':
        return ite(head, *args)
    if kind == 'delta':
        return delta(args[0])
    if kind == 'P':
        return args[0]
    if kind == 'r':
        return reduce_(head, args[0])
    if kind in ('s', 'f', 'R', 'ph', 'D'):
        return lift_args(kind, head, args)
    return atom_poly(mk(kind, head, args))


def subst_lam(lm, mp):
    if not (lm.fv & mp.keys()):
        return lm
    vs = [fresh(subst(l, mp)) for l in lm.lens]
    body = subst(lm.body, {n: var(v) for n, v in zip(lm.vars, vs)})
    body = subst(body, mp)
    return mklam(vs, [subst(l, mp) for l in lm.lens], body)


# negative powers of wrapped polynomials need care in ppow(rebuild(P)): the
# wrapped polynomial is returned and the exponent (negative) is applied by the
# caller through ppow -> precip, which wraps again.


def transform(p, f):
    """Bottom-up rebuild; f(atom_with_new_args) -> Poly or None."""
    memo = {}

    def go(q):
        r = memo.get(q.key)
        if r is not None:
            return r
        acc = []
        for (fs, bd), c in q.m.items():
            if bd:
                try:
                    g, nb = _rename_bound(fs, bd)
                except Reshaped as e:
                    acc.append(pscale(go(e.poly()), c))
                    continue
                nb = [(n, go(l)) for n, l in nb]
            else:
                g, nb = fs, []
            t = ONE
            for a, e in g:
                t = pmul(t, ppow(goa(a), e))
            for n, l in nb:
                t = psum(n, l, t)
            acc.append(pscale(t, c))
        r = psumlist(acc)
        memo[q.key] = r
        return r

    def goa(a):
        args = []
        for x in a.args:
            if isinstance(x, Lam):
                vs = [fresh(go(l)) for l in x.lens]
                b = subst(x.body, {n: var(v) for n, v in zip(x.vars, vs)})
                args.append(mklam(vs, [VAR_LEN[v] for v in vs], go(b)))
            else:
                args.append(go(x))
        r = f(a, tuple(args))
        if r is not None:
            return r
        return rebuild(a.kind, a.head, tuple(args)) if a.args else atom_poly(a)
    return go(p)


def atoms_in(p, pred, out=None):
    """All atoms (recursively) satisfying pred."""
    if out is None:
        out = {}
    seen = set()

    def goa(a):
        if id(a) in seen:
            return
        seen.add(id(a))
        if pred(a):
            out[a.key] = a
        for x in a.args:
            if isinstance(x, Lam):
                for l in x.lens:
                    go(l)
                go(x.body)
            else:
                go(x)

    def go(q):
        if id(q) in seen:
            return
        seen.add(id(q))
        for (fs, bd), c in q.m.items():
            for a, e in fs:
                goa(a)
            for n, l in bd:
                go(l)
    go(p)
    return out


# --------------------------------------------------------------------------
# Reductions and inverses

def reduce_(op, lm):
    """min/max/argmin/argmax reduction over the variables of a lambda."""
    if not (set(lm.vars) & lm.body.fv) and op in ('min', 'max'):
        return lm.body
    return lift_args('r', op, (lm,))


def _inv_simplify(args):
    lm, i, j = args
    body = lm.body
    # inverse of the identity
    if body == delta(var(lm.vars[0]) - var(lm.vars[1])):
        return delta(i - j)
    # common rational factor
    k0 = min(body.m, key=lambda k: mono_key(*k)) if body.m else None
    if k0 is None:
        return top('inverse of zero')
    c0 = None
    cs = [abs(c) for c in body.m.values()]
    m = max(cs)
    if as_ite(body) is None and len(body.m) == 1 and body.m[k0] != 1:
        c0 = body.m[k0]
        vs, b = openlam(lm)
        return pscale(app('inv', mklam(vs, lm.lens, pscale(b, 1 / c0)), i, j), 1 / c0)
    # transpose normalisation
    vs, b = openlam(lm)
    bt = subst(b, {vs[0]: var(vs[1]), vs[1]: var(vs[0])})
    lt = mklam(vs, [lm.lens[1], lm.lens[0]], bt)
    if lt.key < lm.key:
        return atom_poly(mk('f', 'inv', (lt, j, i)))
    if lt.key == lm.key and j.key < i.key:
        return atom_poly(mk('f', 'inv', (lm, j, i)))
    return None


SIMPLIFY['inv'] = _inv_simplify


# --------------------------------------------------------------------------
# Recurrences

class Rec(object):
    """R(0)[idx] = init ; R(j+1)[idx] = step(j)[idx]."""
    def __init__(self, name):
        self.name = name
        self.jvar = None
        self.vars = ()
        self.init = None     # Poly in vars
        self.step = None     # Poly in jvar, vars
        self.lens = ()
        self.length = None   # number of steps (informative)


RECS = {}


def unfold_rec(rid, args):
    r = RECS.get(rid)
    if r is None or r.init is None:
        return None
    j = args[0]
    c = int_val(j)
    if c is not None and c == 0:
        return subst(r.init, dict(zip(r.vars, args[1:])))
    d = decide_ge(j - ONE)
    if d:
        if c is not None and c > 6:
            return None
        mp = dict(zip(r.vars, args[1:]))
        mp[r.jvar] = j - ONE
        return subst(r.step, mp)
    return None


# --------------------------------------------------------------------------
# Named definitions: large element terms are shared under a content-derived name

DEFS = {}                 # name -> Lam
_weights = {}
DEF_MIN = 120


def weight(p, cap=100000):
    r = _weights.get(id(p))
    if r is not None:
        return r[0]
    w = 0
    for (fs, bd), c in p.m.items():
        w += len(bd)
        for a, e in fs:
            w += 1
            for x in a.args:
                w += weight(x.body) if isinstance(x, Lam) else weight(x)
        if w > cap:
            break
    _weights[id(p)] = (w, p)
    return w


def define(p, least=None):
    """The term under a name when it is large; unchanged otherwise."""
    if p.flags & (F_PH | F_TOP | F_AT) or weight(p) < (least or DEF_MIN):
        return p
    a = single_atom(p)
    if a is not None and a.kind == 'D':
        return p
    vs = sorted(p.fv)
    if any(v not in VAR_LEN for v in vs):
        return p
    lm = mklam(vs, [ONE] * len(vs), p)
    name = 'D' + hashlib.md5(lm.key.encode()).hexdigest()[:14]
    DEFS[name] = lm
    return atom_poly(mk('D', name, [var(v) for v in vs]))


def expand(p):
    """Definitions replaced by their terms."""
    def f(a, args):
        if a.kind == 'D':
            lm = DEFS[a.head]
            return expand(subst(lm.body, dict(zip(lm.vars, args))))
        return None
    return transform(p, f)


# --------------------------------------------------------------------------
# Printing

def show(p, depth=4):
    if not p.m:
        return '0'
    it = as_ite(p)
    if it is not None:
        return show_atom(it, depth)
    parts = []
    for (fs, bd), c in sorted(p.m.items(), key=lambda kc: mono_key(*kc[0])):
        s = '*'.join(show_atom(a, depth) + ('' if e == 1 else '^%d' % e) for a, e in fs)
        if bd:
            s = 'sum{%s}(%s)' % (','.join('%s<%s' % (n, show(l, 1)) for n, l in bd), s)
        if not fs:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        parts.append(s)
        if len(parts) > 40:
            parts.append('...(%d more)' % (len(p.m) - 40))
            break
    return ' + '.join(parts)


def show_atom(a, depth=4):
    if a.kind == 'v':
        return a.head
    if a.kind == 'd':
        return a.head
    if depth <= 0:
        return '%s..' % (a.head or a.kind)
    args = []
    for x in a.args:
        if isinstance(x, Lam):
            args.append('\\%s.%s' % (','.join(x.vars), show(x.body, depth - 1)))
        else:
            args.append(show(x, depth - 1))
    if a.kind == 's':
        return a.head + ('[' + ','.join(args) + ']' if args else '')
    if a.kind == 'i':
        op = {'ge': '>=0', 'gt': '>0', 'eq': '==0', 'b': ''}[a.head]
        return 'if(%s%s ? %s : %s)' % (args[0], op, args[1], args[2])
    if a.kind == 'R':
        return 'R<%s>(%s)' % (a.head, ','.join(args))
    if a.kind == 'r':
        return '%s{%s}' % (a.head, args[0])
    if a.kind == 'delta':
        return 'eye(%s)' % args[0]
    if a.kind == 'P':
        return '(%s)' % args[0]
    return '%s(%s)' % (a.head, ','.join(args))
