"""Obligations: one analysed operation of /repo against its reference."""

import importlib
import multiprocessing as mp
import multiprocessing.connection
import os
import sys
import time
import traceback

from . import terms as t, values as V, interp as IN, intrinsics, loops, compare as CM
from .values import *

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REG = []          # (property ids, target, name, function)


def ob(props, target, name=None):
    """Register an obligation.  props: property id or list of them."""
    if isinstance(props, str):
        props = [props]

    def d(f):
        REG.append((tuple(props), target, name or f.__name__, f))
        return f
    return d


def pyval(a):
    if isinstance(a, int) and not isinstance(a, bool):
        return num(t.const(a), V.I)
    if isinstance(a, tuple):
        return tuple([pyval(x) for x in a])
    return a


class Missing(Exception):
    """A public operation of the repository no longer exists."""


class H(object):
    """Analysis session of one obligation."""

    def __init__(self):
        t.reset()
        t.RECS.clear()
        t.SYMREC.clear()
        del loops.OPEN[:]
        loops.IN_RHS[0] = 0
        intrinsics.OPAQUE[0] = False
        t.SYMMETRIC.clear()
        t.INT_SYMS.clear()
        t.NAT_SYMS.clear()
        t.SMOOTH.clear()
        t.INT_HI.clear()
        t.POS_SYMS.clear()
        t.DIM_LO.clear()
        t.PIN.clear()
        self.ip = IN.Interp([('parallel_control', os.path.join(REPO, 'parallel_control')),
                            ('specs', os.path.join(HERE, 'specs')),
                            ('experiments_bellman', os.path.join(REPO, 'experiments-bellman')),
                            ('experiments_hjb', os.path.join(REPO, 'experiments-hjb')),
                            ('experiments_viterbi', os.path.join(REPO, 'experiments-viterbi'))])
        intrinsics.install(self.ip)
        self.thorough = os.environ.get('VERIF_TIER') == 'thorough'
        self.diffs = []
        self.compared = 0
        self.notes = []

    def opaque_steps(self):
        intrinsics.OPAQUE[0] = True
        self.notes.append('integrator increments uninterpreted in this composition (right-hand sides: stage obligations)')

    # ---- names
    def dim(self, name, lo=None):
        if lo is not None:
            t.DIM_LO[name] = lo
        return t.dim(name)

    def dims(self, names):
        return [t.dim(x) for x in names.split()]

    def symmetric(self, *names):
        t.SYMMETRIC.update(names)

    def positive(self, *names):
        t.POS_SYMS.update(names)

    def index(self, name, n):
        """Symbol name[...] takes the values 0..n-1."""
        t.INT_SYMS.add(name)
        t.NAT_SYMS.add(name)
        t.INT_HI[name] = n

    def scalar(self, name, lib='np'):
        return make([], lambda: t.sym(name), F, lib)

    def arr(self, name, *lens, **kw):
        lens = [l if isinstance(l, t.Poly) else t.const(l) for l in lens]
        a = inp(name, lens, kw.get('lib', 'np'), kw.get('dt'))
        a.tag = 'input:' + name
        if kw.get('int'):
            a.dt = V.I
            t.INT_SYMS.add(name)
        if kw.get('nat'):
            a.dt = V.I
            t.INT_SYMS.add(name)
            t.NAT_SYMS.add(name)
        return a

    def int(self, p):
        return num(p if isinstance(p, t.Poly) else t.const(p), V.I)

    def seq(self, name, length, *lens, **kw):
        """List of arrays name[k, ...]."""
        lens = [l if isinstance(l, t.Poly) else t.const(l) for l in lens]
        v = t.fresh(length)
        e = make(lens, lambda *ix: t.sym(name, t.var(v), *ix), kw.get('dt') or F, kw.get('lib', 'np'))
        e.tag = 'input:%s[k]' % name
        if kw.get('int'):
            e.dt = V.I
            t.INT_SYMS.add(name)
        r = PList(None, length, v, e)
        r.tag = 'input:' + name
        return r

    def tseq(self, specs, length, **kw):
        """List of tuples of arrays."""
        v = t.fresh(length)
        es = []
        for name, lens in specs:
            lens = [l if isinstance(l, t.Poly) else t.const(l) for l in lens]
            e = make(lens, (lambda nm: lambda *ix: t.sym(nm, t.var(v), *ix))(name), F, kw.get('lib', 'np'))
            e.tag = 'input:%s[k]' % name
            es.append(e)
        r = PList(None, length, v, tuple(es))
        r.tag = 'input:list'
        return r

    def fn(self, name, out_lens, lib='np', dt=None, which=None, sym=False):
        """Uninterpreted function of array arguments: element idx of name(args).
        which: positions of the arguments it reads (default all)."""
        if sym:
            t.SYMMETRIC.add(name)
        t.SMOOTH.add(name)

        def g(ip, a, kw):
            xs = []
            for x in list(a) + [kw[k] for k in sorted(kw)]:
                if isinstance(x, Unknown):
                    return x
                if x is None:
                    continue
                xs.append(ip.lib.arr(ip, x))
            lens = out_lens(*xs) if callable(out_lens) else out_lens
            lams = [V.lamof(x) for x in xs]
            return make(list(lens), lambda *ix: t.lift_args('f', name, tuple(lams) + tuple(ix)), dt or F, lib)
        return PyFn(name, g)

    # ---- repository objects
    def module(self, name):
        m = self.ip.load(name)
        if m is None:
            raise Missing('module %s' % name)
        return m

    def member(self, modname, attr):
        m = self.module(modname)
        if attr not in m.env.d:
            raise Missing('%s.%s' % (modname, attr))
        v = m.env.d[attr]
        if isinstance(v, Unknown):
            raise t.Top(v.reason)
        return v

    def cls(self, modname, cname):
        return self.member('parallel_control.' + modname, cname)

    def obj(self, modname, cname, fields):
        """Object of a repository class with the given fields (constructor not run)."""
        return ObjV(self.cls(modname, cname), dict(fields))

    def call(self, f, *args, **kw):
        r = self.ip.call(f, list(args), kw)
        return r

    def method(self, o, name, *args, **kw):
        if isinstance(o, ObjV) and o.cls.lookup(name) is None and name not in o.attrs:
            raise Missing('%s.%s' % (o.cls.name, name))
        if isinstance(o, ClassV) and o.lookup(name) is None:
            raise Missing('%s.%s' % (o.name, name))
        return self.ip.call(self.ip.getattr(o, name), list(args), kw)

    def func(self, modname, name, *args, **kw):
        return self.ip.call(self.member('parallel_control.' + modname, name), list(args), kw)

    def spec(self, modname, name, *args, **kw):
        """Reference function, analysed from /verif/specs (never executed)."""
        m = self.ip.load('specs.' + modname)
        f = m.env.d[name]
        if isinstance(f, Unknown):
            raise t.Top('reference: ' + f.reason)
        ev = len(self.ip.events)
        r = self.ip.call(f, [pyval(a) for a in args], kw)
        del self.ip.events[ev:]
        return r

    # ---- verdicts
    def same(self, actual, ref, what='result'):
        d, n = CM.compare(actual, ref, what)
        self.compared += n
        self.diffs.extend(d)
        return not d

    def rejected(self, f, what):
        """f() must end in an exception on every path."""
        ev = len(self.ip.events)
        self.compared += 1
        try:
            r = f()
        except (ShapeError, IndexRange, IN.Raised):
            return
        if isinstance(r, Unknown) or any(e.kind == 'raise' and e.pc for e in self.ip.events[ev:]):
            self.undecided('cannot decide whether this is rejected', what)
        else:
            self.fail('accepted without an error', what)

    def fail(self, msg, path=''):
        self.diffs.append(CM.Diff('differs', path, msg))

    def undecided(self, msg, path=''):
        self.diffs.append(CM.Diff('undecided', path, msg))

    def check(self, ok, msg, path=''):
        self.compared += 1
        if ok is None:
            self.undecided(msg, path)
        elif not ok:
            self.fail(msg, path)


def run_one(k):
    props, target, name, f = REG[k]
    sys.setrecursionlimit(100000)
    t0 = time.time()
    res = {'target': target, 'name': name, 'props': props, 'violations': [], 'undecided': []}
    h = None
    try:
        h = H()
        f(h)
    except Missing as e:
        res['violations'].append('public operation %s does not exist' % e)
    except (ShapeError, IndexRange) as e:
        res['violations'].append('%s: %s' % (type(e).__name__, e))
    except IN.Raised as e:
        res['violations'].append('the operation raises %s on every path' % e)
    except (t.Top, t.Blowup) as e:
        res['undecided'].append('%s (%s)' % (e, h.ip.where() if h else ''))
    except RecursionError:
        res['undecided'].append('term depth')
    except MemoryError:
        res['undecided'].append('memory')
    except Exception as e:
        res['undecided'].append('analyser: %s: %s | %s' % (
            type(e).__name__, e, traceback.format_exc(limit=-4).replace('\n', ' / ')))
    if h is not None:
        for d in h.diffs:
            (res['violations'] if d.kind == 'differs' else res['undecided']).append('%s: %s' % (d.path, d.msg))
        ip = h.ip
        res['compared'] = h.compared
        res['functions'] = sorted(q for q in ip.functions_seen if not q.startswith('specs.'))
        res['files'] = sorted(p for p in ip.files if not p.startswith(os.path.join(HERE, 'specs')))
        res['stmts'] = ip.stmts
        res['loops'] = dict(ip.loop_rules)
        res['notes'] = h.notes
        res['unknowns'] = list(ip.unknowns)
    res['wall'] = round(time.time() - t0, 2)
    return res


def _init():
    import threading
    threading.stack_size(512 * 1024 * 1024)


def _entry(k):
    """Run in a thread with a large stack."""
    import threading
    out = []
    th = threading.Thread(target=lambda: out.append(run_one(k)))
    th.start()
    th.join()
    return out[0] if out else {'target': REG[k][1], 'name': REG[k][2], 'props': REG[k][0], 'violations': [],
                               'undecided': ['analysis thread ended'], 'wall': 0}


def load_all():
    d = os.path.join(HERE, 'sa', 'props')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and f != '__init__.py':
            importlib.import_module('sa.props.' + f[:-3])
    importlib.import_module('sa.shared').apply()


def run_many(ks, jobs=None, timeout=800, each=None, progress=None):
    """Run obligations in worker processes, each obligation in its own."""
    jobs = jobs or min(8, os.cpu_count() or 1)
    ctx = mp.get_context('fork')
    pend = list(ks)
    live = {}
    out = []
    t0 = time.time()
    while pend or live:
        while pend and len(live) < jobs:
            k = pend.pop(0)
            a, b = ctx.Pipe(False)

            def go(k=k, b=b):
                _init()
                b.send(_entry(k))
                b.close()
            p = ctx.Process(target=go)
            p.start()
            b.close()
            live[k] = (p, a, time.time())
        done = []
        mp.connection.wait([x[1] for x in live.values()], timeout=1.0)
        for k, (p, a, ts) in live.items():
            if a.poll():
                try:
                    out.append(a.recv())
                except EOFError:
                    out.append({'target': REG[k][1], 'name': REG[k][2], 'props': REG[k][0], 'violations': [],
                                'undecided': ['worker ended without a result'], 'wall': round(time.time() - ts, 2)})
                p.join()
                done.append(k)
            elif time.time() - t0 > timeout or (each and time.time() - ts > each):
                p.kill()
                p.join()
                out.append({'target': REG[k][1], 'name': REG[k][2], 'props': REG[k][0], 'violations': [],
                            'undecided': ['time limit'], 'wall': round(time.time() - ts, 2)})
                done.append(k)
        for k in done:
            del live[k]
            if progress:
                progress([r for r in out if r['target'] == REG[k][1] and r['name'] == REG[k][2]][-1])
        if time.time() - t0 > timeout:
            for k in pend:
                out.append({'target': REG[k][1], 'name': REG[k][2], 'props': REG[k][0], 'violations': [],
                            'undecided': ['time limit'], 'wall': 0})
            pend = []
    out.sort(key=lambda r: (r['target'], r['name']))
    return out
