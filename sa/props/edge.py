"""Obligations for single-step horizons and for the capacity of scans."""
from .. import obl, terms as t, valnum as VN
from ..values import *
from ..obl import ob
from . import lqt_np, lqt_tf, clqt_np, clqt_tf, fsc, viterbi, hjb, condensing, nlqt, parareal

GROUPS = ((('lqt_np', 'lqt_tf', 'fsc', 'viterbi', 'nlqt'), ({'T': 1, 'N': 1},)),
          (('clqt_np', 'clqt_tf', 'hjb', 'parareal'), ({'B': 1}, {'N': 1}, {'B': 1, 'N': 1})))
FROM = set('C02 C03 C04 C05 C07 C08 C09 C10 C11 C12 C14 C15'.split())


def pinned(f, pin):
    def g(h):
        t.PIN.update(pin)
        f(h)
    return g


for _props, _target, _name, _f in list(obl.REG):
    _m = _f.__module__.split('.')[-1]
    for _mods, _pins in GROUPS:
        if _m in _mods and FROM & set(_props):
            for _p in _pins:
                ob('C21', _target, '%s [%s]' % (_name, ', '.join('%s=%d' % q for q in sorted(_p.items()))))(pinned(_f, _p))


# ---- capacity of the parallel scans

SIZES = list(range(1, 70)) + [127, 128, 129, 255, 256, 257, 4095, 4096, 4097, 9999, 10000]
TF = ('lqt_tf', 'fsc', 'viterbi', 'nlqt', 'clqt_tf', 'hjb')
HORIZONS = ('T', 'N', 'B', 'CAP')


def parameters(f):
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def capacity(f, declared):
    """Run the operations of obligation f and bound every scan they start.

    declared: the caller declares the horizon itself as the capacity
    (otherwise the default capacity is kept)."""
    def g(h):
        h.same = lambda *a, **k: True
        h.check = lambda *a, **k: True
        real = h.func

        def func(mod, name, *a, **kw):
            fn = h.member('parallel_control.' + mod, name)
            if declared and isinstance(fn, FuncV) and 'max_parallel' in parameters(fn) and 'max_parallel' not in kw:
                kw = dict(kw, max_parallel=h.int(h.dim('CAP')))
            return real(mod, name, *a, **kw)
        h.func = func
        f(h)
        scans = [e for e in h.ip.events if e.kind == 'scan_levels']
        for e in scans:
            n, lv = e.data
            for k in SIZES:
                d = {x: k if x in HORIZONS else 2 for x in VN.all_dims([n, lv])}
                try:
                    sm = VN.Sample(1, d)
                    have, levels = sm.poly(n, {}), sm.poly(lv, {})
                except VN.ARITH as err:
                    h.fail('for a horizon of %d the levels of the scan at %s are undefined: %s' % (k, e.where, err))
                    break
                except (VN.Limit, t.Top) as err:
                    h.undecided('capacity of the scan at %s: %s' % (e.where, err))
                    break
                h.compared += 1
                if have >= 2 ** (int(levels) + 1):
                    h.fail('%s elements for a horizon of %d exceed the capacity 2**(%s + 1) of the scan at %s' % (have, k, levels, e.where))
                    break
    return g


for _props, _target, _name, _f in list(obl.REG):
    _m = _f.__module__.split('.')[-1]
    if _m in TF and _target.split(':')[0].endswith('_tf.py') and 'C21' not in _props and '_par' in _target.replace(':par', ':_par') \
            and '_init' not in _target and '_comb' not in _target:
        for _d in (True, False):
            ob('C21', _target, '%s [%s capacity]' % (_name, 'declared' if _d else 'default'))(capacity(_f, _d))
