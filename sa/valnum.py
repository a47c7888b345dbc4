"""Value numbering of terms by random interpretation.

The second stage of the comparison.  Two summaries whose normal forms differ
may still denote the same function (matrix identities such as push-through,
symmetry of an inverse).  In the manner of Gulwani and Necula's random
interpretation, every input symbol is assigned a pseudo-random value and both
*terms* are given a value number in high precision arithmetic; dimension and
horizon symbols take a few small values and every index point is visited.
Only the terms produced by the abstract interpreter are interpreted here; no
code of the analysed repository is.
"""

import hashlib
from decimal import Decimal, getcontext, localcontext, InvalidOperation, DivisionByZero, Overflow
from fractions import Fraction

from . import terms as t

PREC = 90
TOL = Decimal(10) ** -24
EPS = Decimal(10) ** -30
BIG = Decimal(10) ** 45
TINY = Decimal(10) ** -85
MASK = (1 << 64) - 1


class Undefined(Exception):
    pass


class OutOfRange(Undefined):
    pass


class Limit(Exception):
    pass


def _h(*parts):
    s = '|'.join(str(p) for p in parts)
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), 'big')


def _unit(x):
    """Decimal in (-1, 1) from a 64 bit hash."""
    return (Decimal(x) / Decimal(1 << 63)) - 1


def _round(v):
    if isinstance(v, int):
        return str(v)
    if v == v.to_integral_value():
        return str(int(v))
    if abs(v) < EPS:
        return '0'
    r = +v.quantize(Decimal(10) ** (v.adjusted() - 22))
    if r == r.to_integral_value():
        return str(int(r))
    return str(r.normalize())


class Sample(object):
    """One assignment of dimensions and symbols."""

    def __init__(self, seed, dims, steps=400000, scale=0, force=None):
        self.seed = seed
        self.scale = Decimal(10) ** scale
        self.force = force or {}
        self.fixed = {}
        self.log = None
        self.seen = {}
        self.over = None
        self.keep = []
        self.dims = dims
        self.memo = {}
        self.rmemo = {}
        self.order = {}
        self.mats = {}
        self.steps = steps

    # ---- polynomials
    def poly(self, p, env):
        c = p.__class__
        fv = self.order.get(id(p))
        if fv is None:
            fv = self.order[id(p)] = (tuple(sorted(p.fv)), p)
        try:
            k = (id(p),) + tuple([env[v] for v in fv[0]])
        except KeyError as e:
            raise Undefined('free index %s' % e)
        memo = self.memo
        if self.over is not None and p.flags & (t.F_AT | t.F_REC):
            memo = self.over['memo']
        r = memo.get(k)
        if r is not None:
            return r
        self.steps -= 1
        if self.steps < 0:
            raise Limit()
        tot = 0
        for (fs, bd), c in p.m.items():
            v = self.mono(fs, bd, env)
            if c.denominator == 1:
                n = c.numerator
                tot = tot + (v if n == 1 else v * n)
            else:
                tot = tot + Decimal(c.numerator) / Decimal(c.denominator) * v
        memo[k] = tot
        return tot

    def mono(self, fs, bd, env):
        if not bd:
            r = 1
            for a, e in fs:
                r = r * self.factor(a, e, env)
                if isinstance(r, int) and r == 0:
                    return 0
            return r
        names = [n for n, l in bd]
        ns = set(names)
        if any(l.fv & ns for n, l in bd):
            return self.nested(fs, list(bd), env)
        rng = {n: int(self.poly(l, env)) for n, l in bd}
        if any(x <= 0 for x in rng.values()):
            return 0
        # variable elimination over tables
        facs = []
        r = 1
        for a, e in fs:
            vs = tuple(sorted(a.fv & ns))
            if not vs:
                r = r * self.factor(a, e, env)
            else:
                tab = {}
                e2 = dict(env)

                def fill(k, key):
                    if k == len(vs):
                        tab[key] = self.factor(a, e, e2)
                        return
                    for i in range(rng[vs[k]]):
                        e2[vs[k]] = i
                        fill(k + 1, key + (i,))
                fill(0, ())
                facs.append((vs, tab))
        left = list(names)
        while left:
            # cheapest variable
            best = None
            for v in left:
                u = set()
                for vs, tab in facs:
                    if v in vs:
                        u |= set(vs)
                c = 1
                for x in u:
                    c *= rng[x]
                if best is None or c < best[0]:
                    best = (c, v, u)
            c, v, u = best
            left.remove(v)
            if not u:
                r = r * rng[v]
                continue
            out = tuple(sorted(u - {v}))
            mine = [f for f in facs if v in f[0]]
            facs = [f for f in facs if v not in f[0]]
            pos = [(tuple(vs), tab) for vs, tab in mine]
            tab2 = {}
            asg = {}

            def go(k, key):
                if k == len(out):
                    s = 0
                    for i in range(rng[v]):
                        asg[v] = i
                        x = 1
                        for vs, tab in pos:
                            x = x * tab[tuple([asg[q] for q in vs])]
                        s = s + x
                    tab2[key] = s
                    return
                for i in range(rng[out[k]]):
                    asg[out[k]] = i
                    go(k + 1, key + (i,))
            go(0, ())
            if out:
                facs.append((out, tab2))
            else:
                r = r * tab2[()]
        return r

    def nested(self, fs, bd, env):
        """Sums whose ranges depend on one another."""
        names = set(n for n, l in bd)
        todo = list(bd)
        for k, (n, l) in enumerate(todo):
            if not (l.fv & names):
                rest = todo[:k] + todo[k + 1:]
                e2 = dict(env)
                s = 0
                for i in range(int(self.poly(l, env))):
                    e2[n] = i
                    s = s + self.nested2(fs, rest, e2)
                return s
        raise Undefined('cyclic ranges')

    def nested2(self, fs, bd, env):
        if not bd:
            r = 1
            for a, e in fs:
                r = r * self.factor(a, e, env)
            return r
        names = set(n for n, l in bd)
        for k, (n, l) in enumerate(bd):
            if not (l.fv & names):
                e2 = dict(env)
                s = 0
                for i in range(int(self.poly(l, env))):
                    e2[n] = i
                    s = s + self.nested2(fs, bd[:k] + bd[k + 1:], e2)
                return s
        raise Undefined('cyclic ranges')

    def factor(self, a, e, env):
        v = self.atom(a, env)
        if e == 1:
            return v
        if e > 0:
            return v ** e
        if v == 0 or abs(v) < EPS:
            raise Undefined('division by zero')
        return (Decimal(1) / v) ** (-e)

    # ---- atoms
    def atom(self, a, env):
        k = a.kind
        if k == 'v':
            try:
                return env[a.head]
            except KeyError:
                raise Undefined('free index %s' % a.head)
        if k == 'd':
            return self.dim(a.head)
        if k == 'delta':
            return 1 if self.poly(a.args[0], env) == 0 else 0
        if k == 's':
            return self.symbol(a.head, tuple([self.idx(self.poly(x, env)) for x in a.args]))
        if k == 'i':
            k2 = (a.head, a.args[0].key)
            o = self.force.get(k2)
            if o is None:
                o = self.cond(a.head, self.poly(a.args[0], env))
                sn = self.seen.get(k2)
                if sn is None:
                    self.seen[k2] = [a.args[0], set((o,)), dict(env)]
                else:
                    sn[1].add(o)
            return self.poly(a.args[1] if o else a.args[2], env)
        if k == 'P':
            return self.poly(a.args[0], env)
        if k == 'R':
            return self.rec(a, env)
        if k == 'r':
            return self.reduce(a, env)
        if k == 'D':
            lm = t.DEFS[a.head]
            return self.poly(lm.body, dict(zip(lm.vars, [self.idx(self.poly(x, env)) for x in a.args])))
        if k == 'f':
            return self.app(a, env)
        raise t.Top(a.head if k == 'top' else 'term kind ' + k)

    def idx(self, v):
        if isinstance(v, int):
            return v
        r = v.to_integral_value()
        return int(r) if abs(v - r) < EPS else _round(v)

    def dim(self, name):
        v = self.dims.get(name)
        if v is None:
            v = self.dims[name] = max(t.DIM_LO.get(name, 1), 1 + _h(self.seed, 'dim', name) % 3)
        return v

    def cond(self, kind, v):
        if isinstance(v, int):
            return v >= 0 if kind == 'ge' else v > 0 if kind == 'gt' else v == 0 if kind == 'eq' else v != 0
        if kind == 'ge':
            return v >= -EPS
        if kind == 'gt':
            return v > EPS
        if kind == 'eq':
            return abs(v) <= EPS
        return abs(v) > EPS

    def symbol(self, name, idx):
        if name[:1] == '@' and self.over is not None and name in self.over:
            return self.over[name][idx]
        if name in t.INT_SYMS:
            if (name, idx) in self.fixed:
                return self.fixed[name, idx]
            hi = t.INT_HI.get(name)
            hi = 2 if hi is None else int(self.poly(hi, {}))
            if self.log is not None:
                self.log[name, idx] = hi
            return _h(self.seed, name, idx) % hi
        sym = name in t.SYMMETRIC and len(idx) >= 2
        if sym:
            a, b = idx[-2:]
            key = idx[:-2] + ((a, b) if str(a) <= str(b) else (b, a))
        else:
            key = idx
        if self.log is not None:
            self.log[name, key] = 0
        if (name, key) in self.fixed:
            return self.fixed[name, key]
        if sym:
            v = _unit(_h(self.seed, name, key)) / 2
            return (v + 3 if a == b else v) * self.scale
        v = _unit(_h(self.seed, name, idx)) * self.scale
        return abs(v) + EPS if name in t.POS_SYMS else v

    def lam(self, lm, env):
        """Table of a lambda: lens, dict."""
        lens = []
        for l in lm.lens:
            lens.append(int(self.poly(l, env)))
        tab = {}
        e2 = dict(env)

        def go(k, key):
            if k == len(lens):
                tab[key] = self.poly(lm.body, e2)
                return
            for i in range(lens[k]):
                e2[lm.vars[k]] = i
                go(k + 1, key + (i,))
        go(0, ())
        return lens, tab

    def rec(self, a, env):
        args = [self.idx(self.poly(x, env)) for x in a.args]
        return self.recat(a.head, args[0], tuple(args[1:]))

    def recat(self, name, j, ix):
        k = (name, j, ix)
        rmemo = self.rmemo if self.over is None else self.over['rmemo']
        r = rmemo.get(k)
        if r is not None:
            if r is Undefined:
                raise Undefined('recurrence')
            return r
        rc = t.RECS.get(name)
        if rc is None or rc.init is None:
            raise Undefined('open recurrence %s' % name)
        if not isinstance(j, int) or j < 0 or j > 40:
            raise Undefined('recurrence at step %s' % (j,))
        env = dict(zip(rc.vars, ix))
        if j == 0:
            r = self.poly(rc.init, env)
        else:
            env[rc.jvar] = j - 1
            r = self.poly(rc.step, env)
        rmemo[k] = r
        return r

    def reduce(self, a, env):
        lm = a.args[0]
        lens, tab = self.lam(lm, env)
        if not tab:
            raise Undefined('reduction over an empty range')
        op = a.head
        best = None
        for key in sorted(tab):
            v = tab[key]
            if best is None:
                best = (key, v)
            elif op in ('min', 'argmin') and v < best[1] - EPS or op in ('max', 'argmax') and v > best[1] + EPS:
                best = (key, v)
            elif op not in ('min', 'max', 'argmin', 'argmax'):
                raise t.Top('reduction ' + op)
        if op in ('min', 'max'):
            return best[1]
        n = 0
        for x, l in zip(best[0], lens):
            n = n * l + x
        return n

    # ---- applications
    def matrix(self, lm, env, what):
        fv = self.order.get(id(lm))
        if fv is None:
            fv = self.order[id(lm)] = (tuple(sorted(lm.fv)), lm)
        try:
            k = (what, id(lm)) + tuple([env[v] for v in fv[0]])
        except KeyError as e:
            raise Undefined('free index %s' % e)
        mats = self.mats
        if self.over is not None and lm.flags & (t.F_AT | t.F_REC):
            mats = self.over['mats']
        r = mats.get(k)
        if r is None:
            lens, tab = self.lam(lm, env)
            if len(lens) == 2 and what == 'pinv':
                r = pinv([[Decimal(tab[(i, j)]) for j in range(lens[1])] for i in range(lens[0])])
            elif len(lens) != 2 or lens[0] != lens[1]:
                r = 'rectangular matrix'
            else:
                n = lens[0]
                m = [[Decimal(tab[(i, j)]) for j in range(n)] for i in range(n)]
                r = inverse(m) if what == 'inv' else cholesky(m) if what == 'chol' else expm(m)
            mats[k] = r
        if isinstance(r, str):
            raise (Undefined if r.startswith('singular') else OutOfRange)(r)
        return r

    def arg(self, x, env):
        if isinstance(x, t.Lam):
            lens, tab = self.lam(x, env)
            return 'L%s:%s' % (lens, ';'.join(_round(tab[k]) for k in sorted(tab)))
        return _round(self.poly(x, env))

    def app(self, a, env):
        h = a.head
        if h == 'inv':
            m = self.matrix(a.args[0], env, 'inv')
            i, j = [self.idx(self.poly(x, env)) for x in a.args[1:]]
            return m[i][j]
        if h == 'pinv':
            m = self.matrix(a.args[0], env, 'pinv')
            i, j = [self.idx(self.poly(x, env)) for x in a.args[1:]]
            return m[i][j]
        if h == 'chol':
            i, j = [self.idx(self.poly(x, env)) for x in a.args[1:]]
            return self.matrix(a.args[0], env, 'chol')[i][j]
        if h == 'expm':
            i, j = [self.idx(self.poly(x, env)) for x in a.args[1:]]
            return self.matrix(a.args[0], env, 'expm')[i][j]
        if h == 'rk4':
            return self.rk4(a, env)
        if h == 'undef':
            raise Undefined('division by zero')
        f = FUN.get(h)
        if f is not None:
            xs = [self.poly(x, env) for x in a.args]
            r = f(*xs)
            if r is None:
                raise OutOfRange('argument of %s' % h)
            return r
        if h == 'inf':
            return BIG
        if h == 'choice':
            lens, tab = self.lam(a.args[0], env)
            u, c = self.poly(a.args[1], env), Decimal(0)
            for q in range(lens[0]):
                c += Decimal(tab[(q,)])
                if u < c:
                    return q
            return max(lens[0] - 1, 0)
        if h == 'rng_u':
            v = Decimal(_h(self.seed, 'app', h, *[self.arg(x, env) for x in a.args]) % 99989 + 5) / 100003
            return v
        return self.opaque(a, env)

    def rk4(self, a, env):
        """One Runge-Kutta step of the summarised right-hand side."""
        lam, dt, lx, t0 = a.args[:4]
        ix = tuple([self.idx(self.poly(x, env)) for x in a.args[4:]])
        h, tv = self.poly(dt, env), self.poly(t0, env)
        fv = self.order.get(id(lam))
        if fv is None:
            fv = self.order[id(lam)] = (tuple(sorted(lam.fv | lx.fv)), (lam, lx))
        else:
            fv = (tuple(sorted(lam.fv | lx.fv)),)
        try:
            k = ('rk4', id(lam), id(lx), h, tv) + tuple([env[v] for v in fv[0]])
        except KeyError as e:
            raise Undefined('free index %s' % e)
        mats = self.mats if self.over is None else self.over['mats']
        r = mats.get(k)
        if r is None:
            x = self.lam(lx, env)[1] if isinstance(lx, t.Lam) else {(): self.poly(lx, env)}

            def f(y, s):
                old = self.over
                self.over = {'memo': {}, 'rmemo': {}, 'mats': {}, '@rky': y, '@rks': {(): s}}
                try:
                    return self.lam(lam, env)[1] if isinstance(lam, t.Lam) else {(): self.poly(lam, env)}
                finally:
                    self.over = old
            h = Decimal(h)
            half = h / 2
            k1 = f(x, tv)
            k2 = f({i: x[i] + half * k1[i] for i in x}, tv + half)
            k3 = f({i: x[i] + half * k2[i] for i in x}, tv + half)
            k4 = f({i: x[i] + h * k3[i] for i in x}, tv + h)
            r = {i: x[i] + h * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6 for i in x}
            mats[k] = r
            self.keep.append((lam, lx))
        return r[ix]

    def opaque(self, a, env):
        xs = [self.arg(x, env) for x in a.args]
        if a.head[:2] == 'D|':
            # derivatives commute
            ds = a.head.split('|')[2].split(',')
            q = len(xs) - sum(int(d.split('.')[1]) for d in ds)
            parts = []
            pre = xs[:q]
            for d in ds:
                r = int(d.split('.')[1])
                parts.append((d, xs[q:q + r]))
                q += r
            xs = pre + [x for d, p in sorted(parts) for x in [d] + p]
        if a.head in ('dare', 'care') and len(xs) >= 2:
            xs[-2:] = sorted(xs[-2:])
        if a.head in t.SYMMETRIC and len(xs) >= 2:
            xs[-2:] = sorted(xs[-2:])
            v = _unit(_h(self.seed, 'app', a.head, *xs)) / 2
            return v + 3 if xs[-1] == xs[-2] else v
        v = _h(self.seed, 'app', a.head, *xs)
        if a.head in t.NONNEG_APPS or a.head in ('ceil', 'floor', 'int'):
            return v % 3
        return _unit(v)


def has_data(c):
    return any(a.kind not in 'vd' for fs, bd in c.m for a, e in fs)


def inverse(m, eps=EPS):
    n = len(m)
    a = [list(r) + [Decimal(1 if i == j else 0) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(a[r][c]))
        if abs(a[p][c]) < eps:
            return 'singular matrix'
        a[c], a[p] = a[p], a[c]
        d = a[c][c]
        a[c] = [x / d for x in a[c]]
        for r in range(n):
            if r != c and a[r][c] != 0:
                f = a[r][c]
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return [r[n:] for r in a]


def pinv(m):
    """Pseudo-inverse by a full-rank factorisation m = C R."""
    rows, cols = len(m), len(m[0]) if m else 0
    a = [list(r) for r in m]
    big = max([abs(x) for r in m for x in r] + [Decimal(0)])
    if big != 0 and not Decimal('1e-3') < big < 1000:
        r = pinv([[x / big for x in r] for r in m])
        return r if isinstance(r, str) else [[x / big for x in q] for q in r]
    lead, r = [], 0
    for c in range(cols):
        if r == rows:
            break
        p = max(range(r, rows), key=lambda q: abs(a[q][c]))
        if abs(a[p][c]) <= Decimal(10) ** -40 * big:
            continue
        a[r], a[p] = a[p], a[r]
        d = a[r][c]
        a[r] = [x / d for x in a[r]]
        for q in range(rows):
            if q != r and a[q][c] != 0:
                f = a[q][c]
                a[q] = [x - f * y for x, y in zip(a[q], a[r])]
        lead.append(c)
        r += 1
    if not lead:
        return [[Decimal(0)] * rows for _ in range(cols)]
    C = [[m[i][c] for c in lead] for i in range(rows)]
    R = a[:r]
    Ct = [list(x) for x in zip(*C)]
    Rt = [list(x) for x in zip(*R)]
    g, h = inverse(matmul(R, Rt), TINY), inverse(matmul(Ct, C), TINY)
    if isinstance(g, str) or isinstance(h, str):
        return 'singular factor'
    return matmul(matmul(Rt, g), matmul(h, Ct))


def expm(m):
    n = len(m)
    s = max([sum(abs(x) for x in r) for r in m] + [Decimal(0)])
    if s > 60:
        return 'matrix exponential of a large matrix'
    q = 0
    while s > 1:
        s /= 2
        q += 1
    f = Decimal(2) ** q
    a = [[x / f for x in r] for r in m]
    one = [[Decimal(1 if i == j else 0) for j in range(n)] for i in range(n)]
    e, u = [list(r) for r in one], one
    for k in range(1, 80):
        u = [[x / k for x in r] for r in matmul(u, a)]
        e = [[x + y for x, y in zip(r, z)] for r, z in zip(e, u)]
        if max(abs(x) for r in u for x in r) < Decimal(10) ** -(PREC + 3):
            break
    for _ in range(q):
        e = matmul(e, e)
    return e


def matmul(a, b):
    c = list(zip(*b))
    return [[sum(x * y for x, y in zip(r, z) if x and y) + Decimal(0) for z in c] for r in a]


def cholesky(m):
    n = len(m)
    l = [[Decimal(0)] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            s = m[i][j] - sum(l[i][k] * l[j][k] for k in range(j))
            if i == j:
                if s <= EPS:
                    return 'not positive definite'
                l[i][i] = s.sqrt()
            else:
                l[i][j] = s / l[j][j]
    return l


def _sin(x):
    x = Decimal(x)
    if abs(x) > 50:
        return None
    s = u = x
    k = 1
    while abs(u) > Decimal(10) ** -(PREC + 5) and k < 400:
        u = -u * x * x / ((k + 1) * (k + 2))
        s += u
        k += 2
    return s


def _cos(x):
    x = Decimal(x)
    if abs(x) > 50:
        return None
    s = u = Decimal(1)
    k = 0
    while abs(u) > Decimal(10) ** -(PREC + 5) and k < 400:
        u = -u * x * x / ((k + 1) * (k + 2))
        s += u
        k += 2
    return s


def _exp(x):
    x = Decimal(x)
    if x <= -90:
        return Decimal(0)
    return x.exp() if x < 90 else None


def _int(x):
    r = Decimal(x).to_integral_value()
    return int(r) if abs(Decimal(x) - r) < EPS else int(x)


def _round0(x):
    return int(Decimal(x).to_integral_value())


def _fdiv(x, y):
    if y == 0:
        raise Undefined('division by zero')
    if isinstance(x, int) and isinstance(y, int):
        return x // y
    q = Decimal(x) / Decimal(y)
    r = q.to_integral_value()
    if abs(q - r) < EPS:
        return int(r)
    return int(q.to_integral_value(rounding='ROUND_FLOOR'))


def _mod(x, y):
    return x - _fdiv(x, y) * y


def _ceil(x):
    r = Decimal(x).to_integral_value()
    if abs(Decimal(x) - r) < EPS:
        return int(r)
    return int(Decimal(x).to_integral_value(rounding='ROUND_CEILING'))


def _sqrt(x):
    return Decimal(x).sqrt() if x >= 0 else None


def _log(x):
    return Decimal(x).ln() if x > 0 else None


def _tanh(x):
    e = _exp(2 * x)
    return None if e is None else (e - 1) / (e + 1)


def _pow(x, y):
    if isinstance(y, int) and abs(y) < 40 and (y >= 0 or x != 0):
        return Decimal(x) ** y if not isinstance(x, int) or y < 0 else x ** y
    if x > 0:
        return Decimal(x) ** Decimal(y)
    return None


FUN = {'sin': _sin, 'cos': _cos, 'exp': _exp, 'sqrt': _sqrt, 'log': _log, 'abs': lambda x: abs(x), 'sign': lambda x: 0 if abs(x) <= EPS else 1 if x > 0 else -1,
       'max2': lambda x, y: max(x, y), 'min2': lambda x, y: min(x, y), 'int': _int, 'round': lambda *a: _round0(a[0]),
       'floordiv': _fdiv, 'mod': _mod, 'ceil': _ceil, 'floor': lambda x: _fdiv(x, 1), 'tanh': _tanh,
       'pow': _pow, 'powint': _pow,
       'pi': lambda: Decimal('3.14159265358979323846264338327950288419716939937510582097494459230781640628620899')}


def all_dims(polys):
    return all_heads(polys, 'd')


def all_apps(polys):
    return all_heads(polys, 'f')


def all_heads(polys, kind):
    out = set()
    seen = set()
    todo = [p for p in polys if p is not None]
    names = set()

    def goa(a):
        if id(a) in seen:
            return
        seen.add(id(a))
        if a.kind == kind:
            out.add(a.head)
        if a.kind == 'R' and a.head in t.RECS and a.head not in names:
            names.add(a.head)
            r = t.RECS[a.head]
            todo.extend([x for x in (r.init, r.step) if x is not None])
        if a.kind == 'D' and a.head not in names:
            names.add(a.head)
            todo.append(t.DEFS[a.head].body)
        for x in a.args:
            if isinstance(x, t.Lam):
                for l in x.lens:
                    go(l)
                go(x.body)
            else:
                go(x)

    def go(q):
        if id(q) in seen:
            return
        seen.add(id(q))
        for (fs, bd), c in q.m.items():
            for a, e in fs:
                goa(a)
            for n, l in bd:
                go(l)
    while todo:
        go(todo.pop())
    return out


def samples(polys, seed=1):
    """Dimension assignments: small, all different, and single-step ones."""
    ds = sorted(all_dims(polys))
    out = []
    tables = [[2, 3, 1], [3, 2, 2], [1, 2, 3], [4, 2, 1]]
    for k, tab in enumerate(tables):
        d = {}
        for i, nm in enumerate(ds):
            lo = t.DIM_LO.get(nm, 1)
            v = 1 + _h(seed, k, nm) % 3 if k else 2 + _h(seed, k, nm) % 2
            d[nm] = v if v > lo or lo == 1 else lo + (k & 1)
        # horizons: 3, 2, 1, 4 steps
        for nm in ds:
            if nm in HORIZON:
                d[nm] = max(t.DIM_LO.get(nm, 1), HORIZON[nm][k])
        out.append((k, d))
    return out


HORIZON = {'T': (3, 2, 1, 4), 'N': (3, 2, 1, 4), 'steps': (2, 3, 1, 1), 'blocks': (3, 2, 1, 2), 'B': (2, 3, 1, 2)}


def points(vs, sm, env, limit):
    """Index points of the context variables (dependent ranges allowed)."""
    out = []

    def go(k, e):
        if len(out) >= limit:
            return
        if k == len(vs):
            out.append(dict(e))
            return
        l = t.VAR_LEN.get(vs[k])
        n = int(sm.poly(l, e)) if l is not None else 1
        for i in range(n):
            e[vs[k]] = i
            go(k + 1, e)
        e.pop(vs[k], None)
    go(0, dict(env))
    return out


def agree(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    x, y = Decimal(x), Decimal(y)
    return abs(x - y) <= TOL * (1 + abs(x) + abs(y))


SCALES = (0, 0, 9, -7)
RK_SCALES = (-1, 0, -1, -7)


def has_rk4(polys):
    return any(n == 'rk4' for n in all_apps(polys))


def confirmed(sm, p, q, env, steps):
    """A mismatch counts only when it is no matter of precision: both values
    are recomputed with many more digits and must keep their value."""
    vals = []
    for prec in (PREC, 4 * PREC, 16 * PREC):
        getcontext().prec = prec
        try:
            s2 = Sample(sm.seed, dict(sm.dims), steps, 0, sm.force)
            s2.scale = sm.scale
            s2.fixed = sm.fixed
            try:
                a, b = s2.poly(p, env), s2.poly(q, env)
            except (Limit,) + ARITH:
                return None
        finally:
            getcontext().prec = PREC
        vals.append((a, b))
        if len(vals) > 1:
            if agree(a, b):
                return False
            if agree(a, vals[-2][0]) and agree(b, vals[-2][1]):
                return True
    return None


class Numbering(object):
    """Shared samples for the pairs of one comparison."""

    def __init__(self, polys, steps=3000000):
        getcontext().prec = PREC
        self.steps = steps
        self.assign = samples(polys)
        sc = RK_SCALES if has_rk4(polys) else SCALES
        self.samples = [Sample(k, dict(d), steps, sc[k % len(sc)]) for k, d in self.assign]
        self.forced = {}

    def equal(self, vs, p, q, limit=400):
        """(True, points) | (False, witness) | (None, reason)."""
        n = 0
        why = None
        for sm in self.samples:
            sm.steps = self.steps
            r, w = self.visit(sm, vs, p, q, limit, '')
            if r is False:
                return r, w
            if r is None:
                why = w
                if w == 'value numbering too large':
                    return None, w
            else:
                n += w
        if not n:
            return None, 'no index point with a value (%s)' % why
        for k, (c, val) in sorted(self.untaken().items()):
            for i in (0, 1):
                d = self.assign[i]
                sm = self.forced.get((k, val, i), 0)
                if sm == 0:
                    if t.is_int_term(c) and not has_data(c):
                        sm = Sample(d[0], dict(d[1]), self.steps, 0, {k: val})
                    else:
                        sm = self.realise(k, c, val, d)
                    self.forced[(k, val, i)] = sm
                if sm is None:
                    continue
                sm.steps = self.steps
                r, w = self.visit(sm, vs, p, q, limit, 'when %s is %s, ' % (t.show(c, 4) + OPS[k[0]], val), True)
                if r is False:
                    return r, w
        return True, n

    def realise(self, k, c, val, d):
        """A sample on which the condition has the given outcome: one input
        entry it reads is moved."""
        env = None
        for sm in self.samples:
            if k in sm.seen and sm.seed == d[0]:
                env = sm.seen[k][2]
        if env is None:
            return None

        def at(fixed, log=None):
            s = Sample(d[0], dict(d[1]), self.steps, 0)
            s.fixed = fixed
            s.log = log
            return s, s.poly(c, env)
        try:
            log = {}
            s, f0 = at({}, log)
            ints = [e for e in sorted(log, key=str) if log[e]][:4]
            for q in range(200 if ints else 0):
                pick = {}
                for e in ints:
                    pick[e] = q % log[e]
                    q //= log[e]
                s2, y2 = at(pick)
                if s2.cond(k[0], y2) == val:
                    return at(pick)[0]
                if q:
                    break
            goal = Decimal(0) if k[0] == 'eq' else Decimal(1 if val else -1)
            for e in [e for e in sorted(log, key=str) if not log[e]][:8]:
                x0 = s.symbol(*e)
                x1 = x0 + 1
                y0, y1 = f0, at({e: x1})[1]
                for _ in range(12):
                    if abs(y1 - y0) < EPS:
                        break
                    x2 = x1 + (goal - y1) * (x1 - x0) / (y1 - y0)
                    s2, y2 = at({e: x2})
                    if s2.cond(k[0], y2) == val:
                        return at({e: x2})[0]
                    x0, y0, x1, y1 = x1, y1, x2, y2
        except (Limit, t.Top) + ARITH:
            pass
        return None

    def untaken(self):
        """Conditions with one outcome on all samples: the other is visited
        as well (rarely taken value conditions, large thresholds)."""
        out = {}
        for sm in self.samples:
            for k, (c, o, _) in sm.seen.items():
                if k in out:
                    out[k][1].update(o)
                else:
                    out[k] = (c, set(o))
        return {k: (c, not next(iter(o))) for k, (c, o) in out.items()
                if len(o) == 1 and (not t.is_int_term(c) or large_constant(c))}

    def visit(self, sm, vs, p, q, limit, pre, lenient=False):
        n = 0
        why = None
        try:
            pts = points(vs, sm, {}, limit)
        except ARITH as e:
            return None, str(e)
        for env in pts:
            a = b = None
            try:
                b = sm.poly(q, env)
            except ARITH as e:
                why = str(e) or type(e).__name__
            except Limit:
                return None, 'value numbering too large'
            if b is None:
                continue
            try:
                a = sm.poly(p, env)
            except OutOfRange as e:
                why = str(e)
                continue
            except ARITH as e:
                if lenient:
                    continue
                return False, pre + 'code value undefined (%s) at %s with %s' % (
                    str(e) or type(e).__name__, show_env(vs, env), show_dims(sm.dims))
            except Limit:
                return None, 'value numbering too large'
            n += 1
            if not agree(a, b):
                c = confirmed(sm, p, q, env, 4 * self.steps)
                if c is False:
                    continue
                if c is None:
                    n -= 1
                    why = 'value beyond the precision'
                    continue
                return False, pre + 'value numbers differ at %s with %s' % (show_env(vs, env), show_dims(sm.dims))
        if not n:
            return None, why
        return True, n


OPS = {'ge': ' >= 0', 'gt': ' > 0', 'eq': ' == 0', 'b': ''}
ARITH = (Undefined, InvalidOperation, Overflow, DivisionByZero, IndexError)


def large_constant(p):
    """An integer constant beyond the reach of the samples."""
    unit = min([abs(c) for (fs, bd), c in p.m.items() if fs or bd] or [1])
    for (fs, bd), c in p.m.items():
        if not fs and abs(c) >= 5 * unit:
            return True
        for a, e in fs:
            if a.kind == 'f' and any(isinstance(x, t.Poly) and large_constant(x) for x in a.args):
                return True
    return False


def show_env(vs, env):
    return '(%s)' % ', '.join(str(env[v]) for v in vs)


def show_dims(d):
    return ', '.join('%s=%d' % (k, d[k]) for k in sorted(d))
