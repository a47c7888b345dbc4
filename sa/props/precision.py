"""Obligations on element types: no result is stored in a narrower container.

Every operation analysed by another obligation is analysed once more with the
comparison switched off and the element type of each input left open ('$x' is
whatever type input x has); a store or conversion of a value whose type may be
wider than that of its container is reported."""
from .. import obl, terms as t
from ..values import *
from ..obl import ob
from . import effects


def open_types(f):
    def g(h):
        for nm in ('arr', 'seq', 'scalar'):
            def w(name, *a, _r=getattr(h, nm), _s=nm == 'scalar', **kw):
                lib = (a[0] if a else 'np') if _s else kw.get('lib', 'np')
                own = lib == 'np' and not kw.get('int') and not kw.get('nat') and kw.get('dt') is None
                if own and not _s:
                    kw['dt'] = frozenset(['$' + name])
                r = _r(name, *a, **kw)
                if own and _s:
                    r.dt = frozenset(['$' + name])
                return r
            setattr(h, nm, w)
        stop = effects.quiet(f)(h)
        for nm in ('arr', 'seq', 'scalar'):
            h.__dict__.pop(nm, None)
        h.compared += 1
        seen = set()
        for e in h.ip.events:
            if e.kind == 'narrow' and (e.where, e.data) not in seen:
                seen.add((e.where, e.data))
                h.fail('values of type %s stored in a container of type %s at %s' % (
                    named(e.data[1]), named(e.data[0]), e.where))
        if stop is not None and not seen:
            raise stop
    return g


NAMES = {'f': 'float64', 's': 'float32', 'i': 'integer', 'b': 'boolean'}


def named(dt):
    return '/'.join(NAMES.get(x, 'the type of %s' % x[1:]) for x in dt) or 'unknown'


for _props, _target, _name, _f in list(obl.REG):
    if effects.FROM & set(_props) and not _name.endswith(']'):
        ob('C20', _target, _name + ' [types]')(open_types(_f))
