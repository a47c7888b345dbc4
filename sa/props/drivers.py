"""Obligations for the benchmark modules (timed functions, drivers, problem generators)."""
import math

from .. import terms as t, valnum as VN, values as V, libfns as LF
from ..obl import ob, Missing
from ..values import *
from . import clqt_np, hjb, nlqt, viterbi

FILES = {k: 'parallel_control/%s.py:' % k for k in (
    'linear_speedtest', 'finite_speedtest', 'nonlinear_speedtest', 'contlin_speedtest', 'hjb_grid_1d_speedtest', 'viterbi_tf')}
HORIZONS = ('T', 'N', 'B', 'cB')
SIZES = list(range(1, 40)) + [63, 64, 65, 100, 1000, 4095, 4096, 4097, 9999, 10000]


# ---- uninterpreted solver passes

def _lens(h, name, d):
    """Output lengths of a solver pass, from its named arguments."""
    def L(k, ax):
        return d[k].lens[ax]

    def iv(k):
        v = d[k]
        return h.ip.lib.arr(h.ip, v).body
    one = t.ONE
    if name in ('lqt_seq_backwardpass', 'lqt_par_backwardpass'):
        T, n, m = L('Fs', 0), L('Fs', 1), L('Ls', 2)
        return [T + one, n, n], [T + one, n], [T, m, n], [T, m]
    if name in ('lqt_seq_forwardpass', 'lqt_par_forwardpass', 'lqt_par_fwdbwdpass'):
        return [L('Fs', 0) + one, L('Fs', 1)], [L('Fs', 0), L('Ls', 2)]
    if name == 'lqt_gen_to_canon':
        return list(d['Fs'].lens), list(d['cs'].lens), list(d['Xs'].lens)
    if name == 'lqt_canon_to_gen':
        return list(d['Kxs'].lens), list(d['ds'].lens)
    if name == 'condense':
        B, p, w, b = (h.dim(x) for x in ('cB', 'cp', 'cm', 'cn'))
        n = L('Fs', 1)
        return ([B, n, n], [B, n], [B, n, w], [B, p, n], [B, p], [B, p, p], [B, w, w], [B, p, w], [B, w],
                [B, b, n], [B, b], [B, b, w])
    if name == 'convertUX':
        return [iv('T'), h.dim('m')], [iv('T') + one, h.dim('n')]
    if name in ('fsc_seq_backwardpass', 'fsc_par_backwardpass'):
        return [L('fs', 0), L('fs', 1)], [L('fs', 0) + one, L('fs', 1)]
    if name == 'fsc_seq_forwardpass':
        return [L('fs', 0) + one], [L('fs', 0)]
    if name in ('fsc_par_forwardpass', 'fsc_par_fwdbwdpass'):
        return [L('fs', 0)], [L('fs', 0) + one]
    if name.startswith('nlqt_iterate'):
        return list(d['us'].lens), list(d['xs'].lens)
    n, m = h.dims('n m')
    if name in ('clqt_seq_backwardpass', 'clqt_par_backwardpass', 'pclqt_backwardpass'):
        N = iv('steps') * (iv('blocks') if 'blocks' in d else one)
        return [N + one, n, n], [N + one, n], [N, m, n], [N, m]
    if name in ('clqt_seq_forwardpass', 'clqt_combine_fwdbwd'):
        return [L('Kxs', 0) + one, n], [L('Kxs', 0), m]
    if name in ('clqt_par_forwardpass', 'clqt_par_fwdbwdpass', 'pclqt_forwardpass'):
        N = iv('steps') * iv('blocks')
        return [N + one, n], [N, m]
    if name in ('clqt_seq_fwdbwdpass', 'pclqt_fwdbwdpass'):
        N = iv('steps') * (iv('blocks') if 'blocks' in d else one)
        return [N + one, n, n], [N + one, n], [N + one, n, n]
    if name in ('seq_bw_pass_upwind', 'seq_bw_pass_assoc', 'par_bw_pass'):
        return [iv('blocks') + one, L('fd_x_grid', 0)]
    if name in ('viterbi_seq_forwardpass', 'viterbi_par_forwardpass'):
        return [L('ys', 0), L('prior', 0)], [L('ys', 0) + one, L('prior', 0)]
    if name in ('viterbi_seq_backwardpass', 'viterbi_par_backwardpass'):
        return [L('us', 0) + one]
    if name == 'viterbi_par_bwfwpass':
        return [L('ys', 0) + one], [L('ys', 0) + one, L('prior', 0)]
    if name == 'direct_shooting_block_V':
        return [L('fd_x_grid', 0), L('fd_x_grid', 0)]
    raise t.Top('no summary of %s' % name)


INT_OUT = {'fsc_seq_backwardpass': (0,), 'fsc_par_backwardpass': (0,), 'fsc_seq_forwardpass': (0, 1),
           'viterbi_seq_forwardpass': (0,), 'viterbi_par_forwardpass': (0,), 'viterbi_seq_backwardpass': (0,),
           'viterbi_par_backwardpass': (0,), 'viterbi_par_bwfwpass': (0,),
           'fsc_par_forwardpass': (0, 1), 'fsc_par_fwdbwdpass': (0, 1)}

PASSES = {
    'lqt_tf': 'lqt_seq_backwardpass lqt_par_backwardpass lqt_seq_forwardpass lqt_par_forwardpass lqt_par_fwdbwdpass '
              'lqt_gen_to_canon lqt_canon_to_gen',
    'condensing_tf': 'condense convertUX',
    'fsc_tf': 'fsc_seq_backwardpass fsc_par_backwardpass fsc_seq_forwardpass fsc_par_forwardpass fsc_par_fwdbwdpass',
    'nlqt_tf': 'nlqt_iterate_seq nlqt_iterate_par_1 nlqt_iterate_par_2',
    'clqt_tf': 'clqt_seq_backwardpass clqt_seq_forwardpass clqt_seq_fwdbwdpass clqt_combine_fwdbwd clqt_par_backwardpass '
               'clqt_par_forwardpass clqt_par_fwdbwdpass',
    'parareal_clqt_tf': 'pclqt_backwardpass pclqt_forwardpass pclqt_fwdbwdpass',
    'viterbi_tf': 'viterbi_seq_forwardpass viterbi_par_forwardpass viterbi_seq_backwardpass viterbi_par_backwardpass '
                  'viterbi_par_bwfwpass',
    'hjb_grid_1d_tf': 'seq_bw_pass_upwind direct_shooting_block_V seq_bw_pass_assoc par_bw_pass',
}


def encode(h, v, what):
    """Value of an argument as a term."""
    if isinstance(v, Unknown):
        raise t.Top(v.reason)
    if v is None:
        return (t.app('none'),)
    if isinstance(v, bool):
        return (t.ONE if v else t.ZERO,)
    if isinstance(v, (tuple, list)):
        return sum([encode(h, x, what) for x in v], ())
    if isinstance(v, (PyFn, FuncV, Bound)):
        return probe(h, v, what)
    if isinstance(v, ObjV):
        raise t.Top('object as argument %s' % what)
    a = h.ip.lib.arr(h.ip, v)
    return (V.lamof(a),)


def probe(h, f, what):
    return encode(h, value_of(h, f, what), what)


def value_of(h, f, what):
    """A function argument, through its value at a generic point."""
    for k in (1, 2):
        try:
            a = [make([], (lambda i: lambda: t.sym('@p%d' % i))(i), F, 'tf') for i in range(k)]
            r = h.ip.call(f, a, {})
            if isinstance(r, Unknown):
                raise t.Top(r.reason)
            return r
        except ShapeError:
            continue
    raise t.Top('function argument %s' % what)


class Passes(object):
    """Replaces the solver passes by uninterpreted functions of their arguments."""

    def __init__(self, h, modules):
        self.h = h
        self.log = []
        for m in modules:
            for n in PASSES[m].split():
                h.member('parallel_control.' + m, n)
                h.ip.intrinsics['parallel_control.%s.%s' % (m, n)] = self.stub(m, n)

    def stub(self, mod, name):
        def g(ip, f, args, kw):
            h = self.h
            b = ip.bind(f, args, kw)
            for v in b.values():
                if isinstance(v, Unknown):
                    return v
            self.capacity(ip, name, b)
            ts = ()
            for k in sorted(b):
                if k != 'max_parallel' and not (k == 'forward'):
                    ts += encode(h, b[k], k)
            ls = _lens(h, name, b)
            single = isinstance(ls, list)
            out = []
            for q, l in enumerate([ls] if single else ls):
                i = q in INT_OUT.get(name, ())
                fn = '%s.%d' % (name, q)
                out.append(make(list(l), (lambda fn: lambda *ix: t.lift_args('f', fn, ts + tuple(ix)))(fn), I if i else F, 'tf'))
            self.log.append(name)
            return out[0] if single else tuple(out)
        return g

    def capacity(self, ip, name, b):
        """A declared parallel capacity covers the horizon."""
        if 'max_parallel' not in b:
            return
        c = ip.lib.arr(ip, b['max_parallel']).body
        if 'Fs' in b:
            n = b['Fs'].lens[0]
        elif 'fs' in b:
            n = b['fs'].lens[0]
        elif 'us' in b and name.startswith('viterbi'):
            n = b['us'].lens[0]
        elif 'ys' in b:
            n = b['ys'].lens[0]
        elif 'rs' in b:
            n = b['rs'].lens[0]
        else:
            n = ip.lib.arr(ip, b['blocks']).body
        h = self.h
        for k in SIZES:
            d = {x: k if x in HORIZONS else 2 for x in VN.all_dims([n, c])}
            sm = VN.Sample(1, d)
            have, cap = sm.poly(n, {}), sm.poly(c, {})
            h.compared += 1
            if cap < 1 or have >= 2 ** (math.ceil(math.log2(cap)) + 1):
                h.fail('%s is given a parallel capacity of %s for a horizon of %s at %s' % (name, cap, have, ip.where()))
                return


def solved(h, mod, name, got, ref, log):
    """Compare, unless the function bypasses the solver passes."""
    n = len(h.diffs)
    h.same(got(), ref(), 'result')
    if len(h.diffs) > n:
        inner = [q for q in h.ip.functions_seen
                 if q.split('.')[-2] in PASSES and q.split('.')[-1] not in CHEAP]
        if inner:
            del h.diffs[n:]
            h.undecided('%s composes internal functions (%s)' % (name, ', '.join(sorted(inner)[:3])))


CHEAP = ('clqt_seq_backwardpass_defaults', 'clqt_seq_fwdbwdpass_defaults', 'par_backwardpass_defaults', 'clqt_par_fwdbwdpass_defaults')


# ---- problems

def names(h, k, s):
    return [h.dim(x + k, 1) for x in s.split()]


def lqt_problem(h, k=''):
    T, n, m, p, q = names(h, k, 'T n m p q')
    sh = (('x0', n), ('F', T, n, n), ('c', T, n), ('L', T, n, m), ('H', T, p, n), ('HT', q, n), ('r', T, p), ('rT', q),
          ('X', T, p, p), ('XT', q, q), ('U', T, m, m))
    return [h.arr(s[0] + k, *s[1:], lib='tf') for s in sh]


def fsc_problem(h, k=''):
    N, x, u = names(h, k, 'N x u')
    h.index('f' + k, x)
    h.index('x0' + k, x)
    return [make([], lambda: t.sym('x0' + k), I, 'tf'), h.arr('f' + k, N, x, u, nat=1, lib='tf'),
            h.arr('L' + k, N, x, u, lib='tf'), h.arr('LT' + k, x, lib='tf')]


def nlqt_problem(h, k=''):
    T, n, m, p, q = names(h, k, 'T n m p q')
    fs = [h.fn(s + k, [n], 'tf') for s in ('f', 'Fx', 'Fu')]
    sh = (('H', T, p, n), ('HT', q, n), ('r', T, p), ('rT', q), ('X', T, p, p), ('XT', q, q), ('U', T, m, m))
    return [h.arr('u' + k, T, m, lib='tf'), h.arr('x' + k, T + t.ONE, n, lib='tf')] + fs + [
        h.arr(s[0] + k, *s[1:], lib='tf') for s in sh]


def clqt_problem(h):
    f = clqt_np.coeffs(h, 'tf')
    g = clqt_np.terminal(h, 'tf')
    x0 = h.arr('x0', h.dim('n'), lib='tf')
    return [x0, g['XT'], g['HT'], g['rT'], g['T']] + [f[k] for k in 'FLXUcHr']


def blocks(h):
    return [h.int(h.dim('B', 1)), h.int(h.dim('N', 1))]


def register(mod, name, f):
    ob('C22', FILES[mod] + name)(f)


# ---- timed functions

for _k, _n in enumerate(('lqt_sequential', 'lqt_parallel')):
    def _f(h, k=_k, n=_n):
        ps = Passes(h, ['lqt_tf', 'condensing_tf'])
        a = lqt_problem(h)[1:]
        solved(h, 'lqt_tf', n, lambda: h.func('linear_speedtest', n + '_bw', *a),
               lambda: h.spec('drivers', 'lqt_back', bool(k), *a), ps)
    _f.__name__ = 'time_' + _n + '_bw'
    register('linear_speedtest', _n + '_bw', _f)

for _k, _n, _c in ((0, 'lqt_sequential_bwfw', 0), (1, 'lqt_parallel_bwfw_1', 0), (2, 'lqt_parallel_bwfw_2', 0),
                   (0, 'lqt_sequential_cond_bwfw', 1), (1, 'lqt_parallel_cond_bwfw_1', 1), (2, 'lqt_parallel_cond_bwfw_2', 1)):
    def _f(h, k=_k, n=_n, c=_c):
        ps = Passes(h, ['lqt_tf', 'condensing_tf'])
        a = lqt_problem(h) + ([h.int(h.dim('Nc', 1))] if c else [])
        solved(h, 'lqt_tf', n, lambda: h.func('linear_speedtest', n, *a),
               lambda: h.spec('drivers', 'lqt_condensed' if c else 'lqt_solve', k, *a), ps)
    _f.__name__ = 'time_' + _n
    register('linear_speedtest', _n, _f)

for _k, _n in enumerate(('fsc_seq_bw', 'fsc_par_bw')):
    def _f(h, k=_k, n=_n):
        ps = Passes(h, ['fsc_tf'])
        a = fsc_problem(h)[1:]
        solved(h, 'fsc_tf', n, lambda: h.func('finite_speedtest', n, *a), lambda: h.spec('drivers', 'fsc_back', bool(k), *a), ps)
    _f.__name__ = 'time_' + _n
    register('finite_speedtest', _n, _f)

for _k, _n in enumerate(('fsc_seq_bwfw', 'fsc_par_bwfw_1', 'fsc_par_bwfw_2')):
    def _f(h, k=_k, n=_n):
        ps = Passes(h, ['fsc_tf'])
        a = fsc_problem(h)
        solved(h, 'fsc_tf', n, lambda: h.func('finite_speedtest', n, *a), lambda: h.spec('drivers', 'fsc_solve', k, *a), ps)
    _f.__name__ = 'time_' + _n
    register('finite_speedtest', _n, _f)

for _k, _n in enumerate(('nlqt_iter_seq', 'nlqt_iter_par_1', 'nlqt_iter_par_2')):
    def _f(h, k=_k, n=_n):
        ps = Passes(h, ['nlqt_tf'])
        a = nlqt_problem(h)
        solved(h, 'nlqt_tf', n, lambda: h.func('nonlinear_speedtest', n, *a), lambda: h.spec('drivers', 'iterate', k, *a), ps)
    _f.__name__ = 'time_' + _n
    register('nonlinear_speedtest', _n, _f)

for _n, _s, _k in (('clqt_ref_sol_1', 'clqt_seq', 1), ('clqt_ref_sol_2', 'clqt_seq', 2), ('clqt_seq_bw', 'clqt_seq', 0),
                   ('clqt_seq_bw_fw', 'clqt_seq', 1), ('clqt_par_bw', 'clqt_par', 0), ('clqt_par_bw_fw', 'clqt_par', 1),
                   ('clqt_par_bw_fwbw', 'clqt_par', 2), ('clqt_parareal_bw', 'clqt_para', 0),
                   ('clqt_parareal_bw_fw', 'clqt_para', 1), ('clqt_parareal_bw_fwbw', 'clqt_para', 2)):
    def _f(h, n=_n, s=_s, k=_k):
        ps = Passes(h, ['clqt_tf', 'parareal_clqt_tf'])
        a = blocks(h) + ([h.int(h.dim('K', 1))] if s == 'clqt_para' else []) + clqt_problem(h)
        solved(h, 'clqt_tf', n, lambda: h.func('contlin_speedtest', n, *a), lambda: h.spec('drivers', s, k, *a), ps)
    _f.__name__ = 'time_' + _n
    register('contlin_speedtest', _n, _f)

for _k, _n in enumerate(('seq_upwind', 'seq_assoc', 'par_assoc')):
    def _f(h, k=_k, n=_n):
        ps = Passes(h, ['hjb_grid_1d_tf'])
        f, L, LT, T, B, N, xs, us = hjb.model(h, 'tf')
        solved(h, 'hjb_grid_1d_tf', n, lambda: h.func('hjb_grid_1d_speedtest', n, f, L, LT, T, B, N, xs, *([us] if k == 0 else [])),
               lambda: h.spec('drivers', 'hjb_solve', k, f, L, LT, T, B, N, xs, us), ps)
    _f.__name__ = 'time_' + _n
    register('hjb_grid_1d_speedtest', _n, _f)


# ---- drivers: what is executed, what is measured, what is reported

class Watch(object):
    """Log of the calls of the timed functions and of the clock readings."""

    def __init__(self, h, mod, fns):
        self.h, self.log, self.clocks = h, [], 0
        LF.CLOCK[0] = self.now
        self.names = [f for f in fns]
        for f in fns:
            h.member('parallel_control.' + mod, f)
            h.ip.intrinsics['parallel_control.%s.%s' % (mod, f)] = self.wrap(f)

    def now(self, ip):
        self.clocks += 1
        k = self.clocks
        self.log.append(('clock', k))
        return make([], lambda: t.sym('@clock', t.const(k)), F)

    def wrap(self, name):
        def g(ip, f, args, kw):
            q = '%s.%s' % (f.module.name, f.name)
            self.log.append(('call', name, ip.bind(f, args, kw)))
            saved = ip.intrinsics.pop(q)
            try:
                return ip.call_func(f, args, kw)
            finally:
                ip.intrinsics[q] = saved
        return g

    def weights(self, v, n):
        """v * n as a combination of clock readings: {reading: weight}."""
        v = self.h.ip.lib.arr(self.h.ip, v)
        if v.rank != 0:
            raise t.Top('reported time is an array')

        def at(k):
            def f(a, args):
                if a.kind == 's' and a.head == '@clock':
                    return t.ONE if t.const_val(args[0]) == k else t.ZERO
                return None
            c = t.const_val(t.transform(v.body, f))
            if c is None:
                raise t.Top('reported time is not a combination of clock readings')
            return c * n
        base = at(-1)
        w = {k: at(k) - base for k in range(1, self.clocks + 1)}
        return {k: c for k, c in w.items() if c != 0}, base

    def measured(self, v, n, name, want, lo, what):
        """The reported time v is the mean over n executions of name(want)
        that follow one earlier execution.  Returns the log position reached."""
        h = self.h
        w, base = self.weights(v, n)
        pos = {e[1]: i for i, e in enumerate(self.log) if e[0] == 'clock'}
        ks = sorted(w)
        h.compared += 1
        if base != 0 or not ks or len(ks) % 2 or any(w[k] != (-1 if i % 2 == 0 else 1) for i, k in enumerate(ks)):
            h.fail('the reported time is not a mean over %d executions of elapsed clock intervals (weights of the clock '
                   'readings times %d: %s)' % (n, n, ', '.join('%s' % w[k] for k in ks) or 'none'), what)
            return lo
        inside = []
        for a, b in zip(ks[::2], ks[1::2]):
            inside += [e for e in self.log[pos[a]:pos[b]] if e[0] == 'call']
        before = [e for e in self.log[lo:pos[ks[0]]] if e[0] == 'call']
        if pos[ks[0]] < lo:
            h.fail('the reported time covers the measurement of another problem', what)
        for e in before + inside:
            if e[1] != name:
                h.fail('%s is executed where %s is measured' % (e[1], name), what)
                return pos[ks[-1]] + 1
        h.check(len(inside) == n, '%d executions of %s are measured, the mean is over %d' % (len(inside), name, n), what)
        h.check(len(before) >= 1, 'no execution of %s precedes the measurement (graph construction is measured)' % name, what)
        for e in before + inside:
            d = e[2]
            ks2 = list(d)
            if len(ks2) != len(want):
                h.undecided('parameters of %s' % name, what)
                return pos[ks[-1]] + 1
            for k, x in zip(ks2, want):
                h.compared += 1
                if d[k] is x:
                    continue
                if isinstance(d[k], (PyFn, FuncV, Bound)) or isinstance(x, (PyFn, FuncV, Bound)):
                    if not h.same(value_of(h, d[k], k), value_of(h, x, k), '%s: argument %s of %s' % (what, k, name)):
                        return pos[ks[-1]] + 1
                elif not h.same(d[k], x, '%s: argument %s of %s' % (what, k, name)):
                    return pos[ks[-1]] + 1
        return pos[ks[-1]] + 1


def listed(mod, fn, problem, pick, modules, dims, others, extra=None):
    """Driver over a list of problems: returns (T, D, run_times)."""
    for n, count in ((3, 2), (1, 1), (None, 1)):
        def _f(h, n=n, count=count):
            Passes(h, modules)
            ps = [problem(h, str(k + 1)) for k in range(count)]
            w = Watch(h, mod, others)
            kw = {} if n is None else {'n_iter': h.int(n)}
            ex = []
            if extra and n is not None:
                ex = [h.int(h.dim(extra, 1))]
                kw[extra] = ex[0]
            elif extra:
                ex = [h.int(4)]
            r = h.func(mod, fn + '_speedtest', PList([tuple(p) for p in ps]), **kw)
            T, D, times = r
            h.same(T, PList([h.int(dims(p)[0]) for p in ps]), 'T')
            h.same(D, PList([h.int(dims(p)[1]) for p in ps]), 'D')
            if not isinstance(times, PList) or times.items is None:
                raise t.Top('run times')
            h.check(len(times.items) == count, 'number of run times')
            lo = 0
            for k, (p, v) in enumerate(zip(ps, times.items)):
                lo = w.measured(v, n or 10, fn, pick(p) + ex, lo, 'problem %d' % (k + 1))
        tag = 'default' if n is None else '%d x %d' % (count, n)
        ob('C22', FILES[mod] + fn + '_speedtest', 'drive_%s [%s]' % (fn, tag))(_f)


LIN = ['lqt_sequential_bw', 'lqt_parallel_bw', 'lqt_sequential_bwfw', 'lqt_parallel_bwfw_1', 'lqt_parallel_bwfw_2',
       'lqt_sequential_cond_bwfw', 'lqt_parallel_cond_bwfw_1', 'lqt_parallel_cond_bwfw_2']
for _n in LIN:
    listed('linear_speedtest', _n, lqt_problem, (lambda p: p[1:]) if _n.endswith('_bw') else (lambda p: p),
           ['lqt_tf', 'condensing_tf'], lambda p: (p[1].lens[0], p[1].lens[1]), LIN, 'Nc' if 'cond' in _n else None)

FIN = ['fsc_seq_bw', 'fsc_par_bw', 'fsc_seq_bwfw', 'fsc_par_bwfw_1', 'fsc_par_bwfw_2']
for _n in FIN:
    listed('finite_speedtest', _n, fsc_problem, (lambda p: p[1:]) if _n.endswith('_bw') else (lambda p: p),
           ['fsc_tf'], lambda p: (p[1].lens[0], p[3].lens[0]), FIN)

NON = ['nlqt_iter_seq', 'nlqt_iter_par_1', 'nlqt_iter_par_2']
for _n in NON:
    listed('nonlinear_speedtest', _n, nlqt_problem, lambda p: p, ['nlqt_tf'], lambda p: (p[0].lens[0], p[1].lens[1]), NON)

CON = ['clqt_seq_bw', 'clqt_seq_bw_fw', 'clqt_par_bw', 'clqt_par_bw_fw', 'clqt_par_bw_fwbw', 'clqt_parareal_bw',
       'clqt_parareal_bw_fw', 'clqt_parareal_bw_fwbw']
for _n in CON:
    for _i in (3, None):
        def _f(h, n=_n, i=_i):
            Passes(h, ['clqt_tf', 'parareal_clqt_tf'])
            w = Watch(h, 'contlin_speedtest', CON)
            p = clqt_problem(h)
            B = blocks(h)
            kw = {} if i is None else {'n_iter': h.int(i)}
            K = []
            if 'parareal' in n:
                K = [h.int(2) if i is None else h.int(h.dim('K', 1))]
                if i:
                    kw['parareal_niter'] = K[0]
            time, err = h.func('contlin_speedtest', n + '_speedtest', tuple(p), *B, **kw)
            w.measured(time, i or 10, n, B + K + p, 0, 'elapsed')
            fwd = {'bw': 0, 'fw': 1, 'fwbw': 2}[n.split('_')[-1]]
            fam = n.split('_')[1]
            at = 0 if fwd == 0 else 4
            got = h.spec('drivers', 'clqt_' + {'seq': 'seq', 'par': 'par', 'parareal': 'para'}[fam], fwd, *(B + K + p))
            ref = h.spec('drivers', 'clqt_seq', max(fwd, 1), *(B + p))
            h.same(err, h.spec('drivers', 'deviation', got[at], ref[at]), 'reported deviation')
        ob('C22', FILES['contlin_speedtest'] + _n + '_speedtest', 'drive_%s [%s]' % (_n, _i or 'default'))(_f)

GRID = ['seq_upwind', 'seq_assoc', 'par_assoc']
for _k, _n in enumerate(GRID):
    for _i in (3, None):
        def _f(h, k=_k, n=_n, i=_i):
            Passes(h, ['hjb_grid_1d_tf'])
            w = Watch(h, 'hjb_grid_1d_speedtest', GRID)
            f, L, LT, T, B, N, xs, us = hjb.model(h, 'tf')
            kw = {}
            bT = num(0.1)
            if i is None:
                N = h.int(10)
            else:
                bT = h.scalar('bT', 'np')
                kw = dict(n_iter=h.int(i), steps=N, block_T=bT)
            time, e1, e2 = h.func('hjb_grid_1d_speedtest', n + '_speedtest', (f, L, LT, T, xs, us), B, **kw)
            want = [f, L, LT, bT, B, N, xs] + ([us] if k == 0 else [])
            w.measured(time, i or 10, n, want, 0, 'elapsed')
            got = h.spec('drivers', 'hjb_solve', k, f, L, LT, bT, B, N, xs, us)
            ref = h.spec('drivers', 'hjb_solve', 0, f, L, LT, bT, B, N, xs, us)
            h.same(e1, h.spec('drivers', 'deviation', got, ref), 'deviation')
            h.same(e2, h.spec('drivers', 'middle', got, ref, h.int(xs.lens[0])), 'deviation in the middle of the grid')
        ob('C22', FILES['hjb_grid_1d_speedtest'] + _n + '_speedtest', 'drive_%s [%s]' % (_n, _i or 'default'))(_f)

VIT = ['viterbi_fsc_seq_bwfw', 'viterbi_fsc_par_bwfw', 'viterbi_fsc_par_bwfwbw', 'viterbi_seq_fwbw', 'viterbi_par_fwbw',
       'viterbi_seqpar_fwbw', 'viterbi_par_fwbwfw']
for _n in VIT:
    for _i in (3, None):
        def _f(h, n=_n, i=_i):
            Passes(h, ['fsc_tf', 'viterbi_tf'])
            w = Watch(h, 'viterbi_tf', VIT)
            _, P, ys = viterbi.hmm(h)
            _, Q, yt = viterbi.hmm(h, 'tf')
            x, N = h.dim('x'), h.dim('N')
            h.index('ref', x)
            asked = []

            def reference(ip, f, args, kw):
                o, y = args[0], args[1]
                asked.append((o, y))
                return h.seq('ref', N + t.ONE, int=1), h.seq('refV', N + t.ONE, x)
            for m in ('seqViterbi', 'parBwdFwdViterbi', 'parBwdFwdBwdViterbi', 'ref_viterbi_log', 'parFwdBwdViterbi'):
                c = h.cls('viterbi_np', 'Viterbi_np').lookup(m)
                if isinstance(c, FuncV):
                    h.ip.intrinsics['parallel_control.viterbi_np.' + c.name] = reference

            def data(ip, a, kw):
                h.same(a[0], h.int(N), 'length of the generated data')
                return h.seq('true', N, int=1), ys
            o = h.obj('ge_model_np', 'GEModel', dict(zip(('prior', 'Pi', 'Po'), P), genData=PyFn('genData', data)))
            time, err = h.func('viterbi_tf', n + '_speedtest', o, h.int(N), **({} if i is None else {'n_iter': h.int(i)}))
            if '_fsc_' in n:
                want = list(h.func('viterbi_tf', 'make_viterbi_fsc', o, ys))
            else:
                want = list(Q) + [yt]
            w.measured(time, i or 10, n, want, 0, 'elapsed')
            h.check(bool(asked) or None, 'reference solver')
            for q, y in asked[:1]:
                for k, v in zip(('prior', 'Pi', 'Po'), P):
                    h.same(h.ip.getattr(q, k), v, 'reference model')
                h.same(y, ys, 'reference data')
            got = h.func('viterbi_tf', n, *want)
            h.same(err, h.spec('drivers', 'deviation', h.spec('drivers', 'stacked', h.seq('refV', N + t.ONE, x)), got[1]), 'reported deviation')
        ob('C22', FILES['viterbi_tf'] + _n + '_speedtest', 'drive_%s [%s]' % (_n, _i or 'default'))(_f)


# ---- problem generators

class Source(object):
    """Recorded calls of the model methods a generator uses."""

    def __init__(self, h, mod, cls, methods):
        self.h, self.log, self.made = h, [], []
        c = h.cls(mod, cls)
        for m, f in methods.items():
            fn = c.lookup(m)
            if not isinstance(fn, FuncV):
                raise Missing('%s.%s' % (cls, m))
            h.ip.intrinsics['parallel_control.%s.%s' % (mod, fn.name)] = self.stub(m, f)

    def stub(self, m, make):
        def g(ip, f, args, kw):
            b = ip.bind(f, args, kw)
            o = b.pop('self')
            out = make(len([e for e in self.log if e[0] == m]) + 1)
            self.log.append((m, o, b, out))
            return out
        return g

    def calls(self, m):
        return [e for e in self.log if e[0] == m]


def sizes(h, n, start, stop):
    """np.logspace(start, stop, num=n) rounded down: sizes T1, T2, ..."""
    ts = [h.dim('T%d' % (k + 1), 10 + 7 * k) for k in range(n)]

    def f(ip, a, k):
        names = ('start', 'stop', 'num', 'endpoint', 'base', 'dtype')
        d = dict(zip(names, a))
        d.update(k)
        h.same((d['start'], d['stop']), (start, stop), 'range of the sizes')
        h.same(d.get('num', h.int(50)), h.int(n), 'number of sizes')
        h.same(d.get('base', num(10)), num(10), 'base of the sizes')
        if d.get('endpoint', True) is not True:
            h.fail('the last size is left out')
        return h.ip.lib.arr(h.ip, PList([h.int(x) for x in ts]))
    LF.SIZES[0] = f
    return ts


def produced(h, name, g, n):
    if not isinstance(g, PList) or g.items is None:
        raise t.Top('values produced by %s' % name)
    h.check(len(g.items) == n, 'number of problems')
    return g.items


def lqt_object(h, k):
    T, n, m, p, q = names(h, k, 'Th n m p q')
    s = {'F': (n, n), 'c': (n,), 'L': (n, m), 'H': (p, n), 'r': (p,), 'X': (p, p), 'U': (m, m)}
    d = {x: h.seq(x + k, T, *l) for x, l in s.items()}
    d.update(HT=h.arr('HT' + k, q, n), rT=h.arr('rT' + k, q), XT=h.arr('XT' + k, q, q))
    return h.obj('lqt_np', 'LQT', d), h.arr('x0' + k, n)


LQT_ORDER = ('F', 'c', 'L', 'H', 'HT', 'r', 'rT', 'X', 'XT', 'U')


def limits(h):
    return h.scalar('start'), h.scalar('stop')


@ob('C22', FILES['linear_speedtest'] + 'tracking_generator')
def gen_tracking(h):
    a, b = limits(h)
    ts = sizes(h, 2, a, b)
    src = Source(h, 'linear_model_np', 'LinearModel', dict(
        genData=lambda k: h.arr('xy%d' % k, h.dim('K'), 2), getLQT=lambda k: lqt_object(h, str(k))))
    g = produced(h, 'tracking_generator', h.func('linear_speedtest', 'tracking_generator', start=a, stop=b, num=h.int(2)), 2)
    data, made = src.calls('genData'), src.calls('getLQT')
    if len(data) != 2 or len(made) != 2:
        raise t.Top('model calls of the generator')
    for k in range(2):
        h.same(data[k][2]['N'], h.spec('ar', 'idiv', h.int(ts[k]), h.int(10)), 'reference points of problem %d' % (k + 1))
        h.same(made[k][2]['xy'], data[k][3], 'data of problem %d' % (k + 1))
        h.same(made[k][2]['steps'], h.int(10), 'interpolation of problem %d' % (k + 1))
        q, x0 = made[k][3]
        h.same(g[k], tuple([x0] + [q.attrs[x] for x in LQT_ORDER]), 'problem %d' % (k + 1))


for _by_size in (True, False):
    def _f(h, by=_by_size):
        a, b = limits(h)
        src = Source(h, 'mass_model_np', 'MassModel', dict(
            __init__=lambda k: None, getLQT=lambda k: lqt_object(h, str(k))))
        N = h.int(h.dim('N', 2))
        if by:
            ts = sizes(h, 2, a, b)
            g = h.func('linear_speedtest', 'mass_generator', N, start=a, stop=b, num=h.int(2))
            ns = [N, N]
        else:
            ts = [h.dim('T', 1)] * 2
            g = h.func('linear_speedtest', 'mass_generator_2', h.int(ts[0]), nstart=h.int(2), nend=h.int(5), nstep=h.int(2))
            ns = [h.int(2), h.int(4)]
        g = produced(h, 'mass_generator', g, 2)
        init, made = src.calls('__init__'), src.calls('getLQT')
        if len(init) != 2 or len(made) != 2:
            raise t.Top('model calls of the generator')
        for k in range(2):
            h.same(init[k][2]['N'], ns[k], 'masses of problem %d' % (k + 1))
            h.check(made[k][1] is init[k][1], 'problem %d is made from another model' % (k + 1))
            h.same(made[k][2]['Tf'], num(10.0), 'time span of problem %d' % (k + 1))
            h.same(made[k][2]['dt'], h.spec('ar', 'div', num(10.0), h.int(ts[k])), 'step of problem %d' % (k + 1))
            q, x0 = made[k][3]
            h.same(g[k], tuple([x0] + [q.attrs[x] for x in LQT_ORDER]), 'problem %d' % (k + 1))
    ob('C22', FILES['linear_speedtest'] + ('mass_generator' if _by_size else 'mass_generator_2'),
       'gen_mass' + ('' if _by_size else '_2'))(_f)


@ob('C22', FILES['finite_speedtest'] + 'finite_generator')
def gen_finite(h):
    a, b = limits(h)
    ts = sizes(h, 2, a, b)

    def control(k):
        N, x, u = names(h, str(k), 'N x u')
        h.index('f%d' % k, x)
        return h.obj('fsc_np', 'FSC', dict(f=h.seq('f%d' % k, N, x, u, int=1), L=h.seq('L%d' % k, N, x, u),
                                           LT=h.arr('LT%d' % k, x), gamma=num(t.ONE, F)))
    src = Source(h, 'finite_model_np', 'FiniteModel', dict(
        genData=lambda k: (h.arr('track%d' % k, h.dim('K'), 2), make([], lambda: t.sym('x0%d' % k), I)), getFSC=control))
    nx = h.int(h.dim('nx', 2))
    g = produced(h, 'finite_generator', h.func('finite_speedtest', 'finite_generator', nx=nx, start=a, stop=b, num=h.int(2)), 2)
    data, made = src.calls('genData'), src.calls('getFSC')
    if len(data) != 2 or len(made) != 2:
        raise t.Top('model calls of the generator')
    for k in range(2):
        h.same(data[k][2]['T'], h.int(ts[k]), 'length of problem %d' % (k + 1))
        h.same(data[k][2]['nx'], nx, 'states of problem %d' % (k + 1))
        h.same(made[k][2]['track'], data[k][3][0], 'track of problem %d' % (k + 1))
        c = made[k][3]
        h.same(g[k], (data[k][3][1], c.attrs['f'], c.attrs['L'], c.attrs['LT']), 'problem %d' % (k + 1))


@ob('C22', FILES['nonlinear_speedtest'] + 'nonlinear_generator')
def gen_nonlinear(h):
    a, b = limits(h)
    ts = sizes(h, 2, a, b)

    def guess(k):
        T, n, m = names(h, str(k), 'Th n m')
        return h.seq('u%d' % k, T, m), h.seq('x%d' % k, T + t.ONE, n)
    src = Source(h, 'nonlinear_model_np', 'NonlinearModel', dict(
        genData=lambda k: (h.arr('xyt%d' % k, h.dim('K'), 3), h.arr('dense%d' % k, h.dim('K'), 3)),
        getLQT=lambda k: lqt_object(h, str(k)), initialGuess=guess))
    g = produced(h, 'nonlinear_generator', h.func('nonlinear_speedtest', 'nonlinear_generator', start=a, stop=b, num=h.int(2)), 2)
    data, made, init = src.calls('genData'), src.calls('getLQT'), src.calls('initialGuess')
    if len(data) != 2 or len(made) != 2 or len(init) != 2:
        raise t.Top('model calls of the generator')
    x, u = h.arr('px', h.dim('Bp', 1), 5, lib='tf'), h.arr('pu', h.dim('Bp', 1), 2, lib='tf')
    for k in range(2):
        w = 'problem %d' % (k + 1)
        h.same(data[k][2]['N'], h.int(ts[k]), 'length of ' + w)
        h.same(made[k][2]['xyt'], data[k][3][0], 'track of ' + w)
        q, x0 = made[k][3]
        h.check(init[k][2]['lqt'] is q, 'the initial guess of %s belongs to another problem' % w)
        h.same(init[k][2]['x0'], x0, 'initial state of ' + w)
        h.check(h.ip.truth(init[k][2]['init_to_zero']) is True, 'the initial guess of %s is not the zero control' % w)
        us, xs = init[k][3]
        v = g[k]
        h.same((v[0], v[1]), (us, xs), 'initial guess of ' + w)
        for i, nm in enumerate(('f', 'Fx', 'Fu')):
            h.same(h.call(v[2 + i], x, u), h.func('nonlinear_model_tf', 'nonlinear_model_' + nm, x, u), '%s of %s' % (nm, w))
        h.same(v[5:], tuple(q.attrs[s] for s in LQT_ORDER[3:]), w)


@ob('C22', FILES['contlin_speedtest'] + 'clqr_get_tracking_model')
def gen_clqt(h):
    p = tuple(clqt_problem(h))
    x0, XT, HT, rT, T, fs = p[0], p[1], p[2], p[3], p[4], p[5:]
    h.member('parallel_control.linear_model_tf', 'get_clqt')
    h.ip.intrinsics['parallel_control.linear_model_tf.get_clqt'] = lambda ip, f, a, k: (x0, T, XT, HT, rT) + (
        fs[0], fs[1], fs[2], fs[3], fs[4], fs[5], fs[6])
    r = h.func('contlin_speedtest', 'clqr_get_tracking_model')
    h.check(isinstance(r, tuple) and len(r) == 12, 'problem tuple')
    for k, (v, w) in enumerate(zip(r, p)):
        if isinstance(w, PyFn):
            h.same(value_of(h, v, ''), value_of(h, w, ''), 'function %d of the problem' % k)
        else:
            h.same(v, w, 'entry %d of the problem' % k)


@ob('C22', FILES['hjb_grid_1d_speedtest'] + 'get_model')
def gen_hjb(h):
    n, m = h.int(h.dim('x', 3)), h.int(h.dim('u', 2))
    r = h.func('hjb_grid_1d_speedtest', 'get_model', n, m)
    w = h.func('cnonlin_models_tf', 'velocity_model', n, m)
    h.check(isinstance(r, tuple) and len(r) == 6, 'model tuple')
    x, u = h.arr('px', h.dim('Bp', 1), lib='tf'), h.arr('pu', h.dim('Bp', 1), lib='tf')
    for k, (v, q) in enumerate(zip(r, w)):
        if k < 2:
            h.same(h.call(v, x, u), h.call(q, x, u), 'function %d of the model' % k)
        elif k == 2:
            h.same(h.call(v, x), h.call(q, x), 'terminal cost')
        else:
            h.same(v, q, 'entry %d of the model' % k)
