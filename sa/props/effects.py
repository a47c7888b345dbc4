"""Obligations on effects: nothing a caller owns is modified.

Every operation analysed by another obligation is analysed once more with the
comparison switched off; objects that belong to the caller (arguments, parts
of the problem object, earlier results, default arguments, module and class
state) carry a mark which views, elements and slices of them inherit, and any
store into a marked object is reported."""
from .. import obl, terms as t, values as V, compare as CM, valnum as VN
from ..values import *
from ..obl import ob
from . import (scan, lqt_np, lqt_tf, clqt_np, clqt_tf, fsc, viterbi, hjb, condensing, nlqt, parareal, sqp, models, problems,
               stoch)

FROM = set('C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C18'.split())


def quiet(f):
    """Run the operations of f without comparing anything; returns the
    reason the analysis stopped early, if it did."""
    def g(h):
        for nm in ('same', 'check'):
            setattr(h, nm, lambda *a, **k: True)
        for nm in ('undecided', 'fail'):
            setattr(h, nm, lambda *a, **k: None)
        for nm in ('call', 'method', 'func'):
            def w(*a, _r=getattr(h, nm), **kw):
                h.ip.attr_reads.clear()
                for x in list(a) + list(kw.values()):
                    V.own(x, 'an argument')
                return V.own(_r(*a, **kw), 'an earlier result')
            setattr(h, nm, w)
        ro = h.obj

        def obj(mod, c, fields):
            o = ro(mod, c, fields)
            if c == 'NLQT':
                # the transition terms of the linearised problem are the solver's own storage
                for k in 'FcL':
                    o.attrs['lqt'].attrs[k].tag = ''
            return V.own(o, 'the problem object')
        h.obj = obj
        h.ip.owned = {}
        stop = None
        try:
            f(h)
        except (t.Top, t.Blowup) as e:
            stop = e
        for nm in ('same', 'check', 'undecided', 'fail', 'call', 'method', 'func', 'obj'):
            h.__dict__.pop(nm, None)
        return stop
    return g


def bodies(v, out, seen):
    if id(v) in seen:
        return out
    seen.add(id(v))
    if isinstance(v, Arr):
        out.append(v.body)
    elif isinstance(v, ObjV):
        for x in v.attrs.values():
            bodies(x, out, seen)
    elif isinstance(v, PDict):
        for x in v.d.values():
            bodies(x, out, seen)
    elif isinstance(v, (tuple, PList)):
        for x in V.leaves(v):
            out.append(x.arr.body if hasattr(x, 'arr') else x[2].body)
    return out


def symbols(v):
    """Names of the inputs a value is made of."""
    return VN.all_heads(bodies(v, [], set()), 's')


def placeholder(v):
    return v is None or (isinstance(v, PList) and v.items is not None and not v.items and not v.tail) or \
        (isinstance(v, PDict) and not v.d)


GROWS = ('append', 'extend', 'insert', 'store', 'item store', 'in-place', 'loop store', 'masked store')


def unmodified(f):
    def g(h):
        stop = quiet(f)(h)
        ip = h.ip
        found = False
        for obj, old, where, what in ip.owned.values():
            msg = '%s of %s at %s' % (what, obj.tag, where)
            now = obj.snapshot()
            h.compared += 1
            if isinstance(obj, (Arr, PList)):
                was = Arr((), (), t.ZERO) if isinstance(obj, Arr) else PList([])
                was.restore(old)
                cur = Arr((), (), t.ZERO) if isinstance(obj, Arr) else PList([])
                cur.restore(now)
                try:
                    d, n = CM.compare(cur, was, msg)
                except (t.Top, t.Blowup) as e:
                    h.undecided('%s: %s' % (msg, e))
                    continue
                for x in d:
                    if x.kind == 'differs':
                        h.fail(msg)
                        found = True
                        break
                else:
                    if (stop is not None or ip.unknowns) and what in GROWS:
                        h.fail(msg)         # the state afterwards is unknown, but these are not undone
                        found = True
                        d = []
                    for x in d[:1]:
                        h.undecided(msg + ': ' + x.msg)
            else:
                h.fail(msg)
                found = True
        for e in ip.events:
            if e.kind == 'mutate' and e.data[0].startswith(('global ', 'ClassV', 'ModuleV')):
                h.fail('%s of %s at %s' % (e.data[1], e.data[0], e.where))
                found = True
        for o, nm, v, old, read, where in ip.attr_log:
            h.compared += 1
            what = 'attribute %s of %s at %s' % (nm, o.tag, where)
            if not placeholder(old):
                h.fail('%s replaced' % what)
                found = True
            elif read and symbols(v) - symbols(tuple(x for k, x in o.attrs.items() if k != nm)):
                h.fail('%s keeps a value of this call for later calls' % what)
                found = True
        h.compared += 1
        if stop is not None and not found:
            raise stop
    return g


for _props, _target, _name, _f in list(obl.REG):
    if FROM & set(_props) and not _name.endswith(']'):
        ob('C19', _target, _name + ' [effects]')(unmodified(_f))
