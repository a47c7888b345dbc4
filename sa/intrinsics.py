"""Summaries of three functions whose bodies are checked by properties of
their own: the simulated associative scan (C01) and the Runge-Kutta steps (C14)."""

from . import terms as t
from . import loops, lib
from .values import *


def my_assoc_scan(ip, f, args, kw):
    b = ip.bind(f, args, kw)
    names = list(b)
    op, a = b['op'], b['a']
    rev = b.get('reverse', False)
    if isinstance(rev, Arr):
        rev = ip.truth(rev)
    if rev not in (True, False):
        raise t.Top('direction of the scan is not known')
    if isinstance(a, Unknown):
        return a
    if isinstance(a, Arr):
        raise t.Top('scan over an array')
    if isinstance(a, tuple):
        a = PList(list(a))
    if not isinstance(a, PList):
        raise t.Top('scan over %s' % type(a).__name__)
    s = to_seq(a)
    n = s.length
    if s.elem is None:
        raise t.Top('scan over an empty list')
    ip.event('my_scan', (n, bool(rev)))

    def at(i):
        return vsubst(s.elem, {s.var: i})

    def step(c, e):
        return ip.call(op, [e, c] if rev else [c, e], {})
    m = n - t.ONE
    if rev:
        carry, _ = loops.scan(ip, step, m, lambda j: at(n - t.const(2) - j), at(n - t.ONE))
    else:
        carry, _ = loops.scan(ip, step, m, lambda j: at(j + t.ONE), at(t.ZERO))
    iv = t.fresh(n)
    I = t.var(iv)
    return PList(None, n, iv, carry((n - t.ONE - I) if rev else I))


def _has(p, name, pred):
    for a in t.atoms_in(p, lambda a: a.kind == 's' and a.head == name).values():
        if not pred(a):
            return False
    return True


# In the composition obligations the increment of an integrator step is an
# uninterpreted function of its state, step and clock (the right-hand sides
# are compared by the obligations of the stages).
OPAQUE = [False]


def rk4(with_none):
    def h(ip, f, args, kw):
        b = ip.bind(f, args, kw)
        fn, dt, x, tt, par = b['f'], b['dt'], b['x'], b.get('t'), b.get('param')
        for v in (fn, dt, x, tt, par):
            if isinstance(v, Unknown):
                return v
        dt = lib.arr(ip, dt)
        x = lib.arr(ip, x)
        if dt.rank != 0:
            raise t.Top('array time step in rk4')
        X = '@rkx'
        xs = make(list(x.lens), lambda *ix: t.sym(X, *ix), x.dt | F, x.lib)
        T = num(t.sym('@rkt')) if False else make([], lambda: t.sym('@rkt'), F, x.lib)
        t0 = t.ZERO
        if with_none:
            a = [xs]
            if tt is not None:
                a.append(T)
                t0 = lib.arr(ip, tt).body
            if par is not None:
                a.append(par)
        else:
            a = [xs, T, par]
            t0 = lib.arr(ip, tt).body
        loops.IN_RHS[0] += 1
        try:
            if loops.IN_RHS[0] > 1:
                raise t.Top('integrator step inside the right-hand side of another')
            out = ip.call(fn, a, {})
        finally:
            loops.IN_RHS[0] -= 1
        if isinstance(out, Unknown):
            return out
        out = lib.arr(ip, out)
        lens = lib.bcast_lens(ip, [x, out])
        if len(lens) != x.rank or any(same_len(p, q) is False for p, q in zip(lens, x.lens)):
            raise ShapeError('right-hand side of rk4 has shape [%s] for a state of shape [%s] at %s' % (
                ', '.join(t.show(l) for l in out.lens), ', '.join(t.show(l) for l in x.lens), ip.where()))
        vs = [t.fresh(l) for l in x.lens]
        iv = [t.var(v) for v in vs]
        body = lib.bcast_at(out, iv)
        # the clock only matters when the right-hand side reads it
        if not any(True for _ in t.atoms_in(body, lambda a_: a_.kind == 's' and a_.head == '@rkt')):
            t0 = t.ZERO
        # leading axes on which the system is a batch of independent systems
        nb = 0
        while nb < x.rank and _has(body, X, lambda a_: len(a_.args) > nb and a_.args[nb] == iv[nb]):
            if x.rank - nb <= 1 and not t.atoms_in(body, lambda a_: a_.kind == 's' and a_.head == X):
                break
            nb += 1

        def strip(a_, ar):
            if a_.kind == 's' and a_.head == X:
                return t.lift_args('s', '@rky', ar[nb:])
            if a_.kind == 's' and a_.head == '@rkt':
                return t.sym('@rks')
            return None
        body = t.transform(body, strip)

        def elem(*ix):
            mp = dict(zip(vs[:nb], ix[:nb]))
            r = [t.fresh(l) for l in x.lens[nb:]]
            m2 = dict(mp)
            m2.update(zip(vs[nb:], [t.var(v) for v in r]))
            lens2 = [t.subst(l, mp) for l in x.lens[nb:]]
            lam = t.mklam(r, lens2, t.subst(body, m2))
            r2 = [t.fresh(l) for l in lens2]
            lx = t.mklam(r2, lens2, x.at(list(ix[:nb]) + [t.var(v) for v in r2]))
            if OPAQUE[0]:
                return t.lift_args('f', 'rkstep', (dt.body, x.at(list(ix)), t0))
            return t.lift_args('f', 'rk4', (lam, dt.body, lx, t0) + tuple(ix[nb:]))
        return make(list(x.lens), elem, promote(x.dt, F), x.lib)
    return h


def install(ip):
    ip.intrinsics['parallel_control.my_assoc_scan.my_assoc_scan'] = my_assoc_scan
    ip.intrinsics['parallel_control.diffeq_np.rk4'] = rk4(True)
    ip.intrinsics['parallel_control.diffeq_tf.rk4'] = rk4(False)
