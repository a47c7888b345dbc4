"""Closing loops: one generic iteration over placeholders, then closed forms.

A loop with symbolic trip count n is analysed once.  Each location written by
the body gets a placeholder term ph(j, index) standing for its content after j
iterations; the body yields the step term E(j, index; ph).  The resulting
equations are solved by the rules below; what no rule solves becomes a member
of a named recurrence R(j, index) with R(0)=init and R(j+1)=step.

  const      E has no placeholder                 val(j) = if j>=1 then E(j-1) else init
  keep       E is the placeholder itself          val(j) = init
  sum        E = ph + g, g without placeholders   val(j) = init + sum_{t<j} g(t)
  store      E writes one index per iteration     val(j)[i] = E at the iteration writing i
  carry      reading the element stored last      becomes a carried scalar
  recurrence otherwise
"""

import ast

from . import terms as t
from .terms import Top
from .values import *
from . import values as V


class Loc(object):
    """A location written by a loop body."""
    def __init__(self, key, obj, init):
        self.key, self.obj, self.init = key, obj, init
        self.growth = None        # list growth per iteration (int)
        self.axgrowth = {}        # leaf path -> (axis, growth)
        self.induct = None        # term added per iteration
        self.template = None      # value tree used for the placeholder skeleton
        self.ph = None


class PLeaf(object):
    """One numeric leaf equation."""
    def __init__(self, head, iv, lens, init, step):
        self.head, self.iv, self.lens, self.init, self.step = head, iv, lens, init, step


_loop_id = [0]


def _freeze(v):
    """Copy of a value tree (contents as of now)."""
    if isinstance(v, Arr):
        return Arr(v.vars, v.lens, v.body, v.dt, v.lib)
    if isinstance(v, PList):
        if v.items is not None:
            return PList([_freeze(x) for x in v.items])
        u = untail(v)
        return PList(None, u.length, u.var, _freeze(u.elem) if u.elem is not None else None)
    if isinstance(v, tuple):
        return tuple(_freeze(x) for x in v)
    return v


def _content(obj):
    return _freeze(obj) if isinstance(obj, (Arr, PList)) else obj


def sym_loop(ip, seq, target, body, env):
    """Execute a for loop with symbolic trip count."""
    def run(env_, j):
        ip.assign(target, vsubst(seq.elem, {seq.var: j}), env_)
        out = ip.exec_block(body, env_)
        if out[0] not in ('next', 'cont'):
            raise Top('early exit from a symbolic loop')
    run_loop(ip, seq.length, run, env)
    return ('next',)


class Peel(Exception):
    """The body behaves differently in its first or last iteration."""
    def __init__(self, which):
        self.which = which


def _peel(d, jv, n):
    """Does the value change only between the first (last) iteration and the others?"""
    for a in t.atoms_in(d, lambda a: a.kind == 'i').values():
        c = a.args[0]
        if jv not in c.fv:
            continue
        r = t.linear_coeff(c, jv)
        if r is None:
            continue
        co = t.const_val(r[0])
        if a.head == 'ge' and co == -1:
            if r[1] == n - t.const(2):
                raise Peel('last')
            if r[1] == t.ZERO:
                raise Peel('first')
        elif a.head == 'ge' and co == 1:
            if r[1] == -t.ONE:
                raise Peel('first')
            if r[1] == t.ONE - n:
                raise Peel('last')
        elif a.head == 'eq' and co in (1, -1):
            z = r[1] if co == -1 else -r[1]
            if z == t.ZERO:
                raise Peel('first')
            if z == n - t.ONE:
                raise Peel('last')


def run_loop(ip, n, run, env):
    """n iterations of run(env, j); a first or last iteration that changes the
    structure differently from the others is executed separately."""
    nunk, nev = len(ip.unknowns), len(ip.events)
    try:
        return run_loop1(ip, n, run, env)
    except Peel as e:
        which = e.which
        del ip.unknowns[nunk:]
        del ip.events[nev:]
    m = n - t.ONE
    if which == 'last':
        run_loop(ip, m, run, env)
        run(env, m)
    else:
        run(env, t.ZERO)
        run_loop(ip, m, lambda e, j: run(e, j + t.ONE), env)


def run_loop1(ip, n, run, env):
    jv = t.fresh(n)
    lid = 'L%d' % (_loop_id[0] + 1)
    _loop_id[0] += 1
    J = t.var(jv)
    start = V.birth()
    locs = {}
    names0 = dict(env.d)
    final = None
    for attempt in range(8):
        saved = dict(env.d)
        ip.begin()
        nunk = len(ip.unknowns)
        nev = len(ip.events)
        t._assume.append(n - t.ONE)
        try:
            for loc in locs.values():
                _install(ip, loc, lid, J, n, env)
            placed = dict(env.d)
            run(env, J)
            after = dict(env.d)
            written = {}
            for nm, v in after.items():
                if nm in names0 and (placed.get(nm) is not v):
                    written[('n', nm)] = (None, names0[nm], v)
            # heap objects that existed before the loop
            heap = {}
            for k, (obj, old) in ip.journals[-1].items():
                if obj.birth > start:
                    continue
                if isinstance(obj, ObjV):
                    for a, v in obj.attrs.items():
                        o = old.get(a)
                        lk = ('a', id(obj), a)
                        if lk in locs:
                            if v is not locs[lk].ph:
                                heap[lk] = (obj, locs[lk].init, v)
                        elif o is not v:
                            heap[lk] = (obj, o, v)
                elif isinstance(obj, PDict):
                    for a, v in obj.d.items():
                        o = old.get(a)
                        lk = ('d', id(obj), a)
                        if lk in locs:
                            if v is not locs[lk].ph:
                                heap[lk] = (obj, locs[lk].init, v)
                        elif o is not v:
                            heap[lk] = (obj, o, v)
                else:
                    lk = ('h', id(obj))
                    if lk in locs:
                        heap[lk] = (obj, locs[lk].init, _content(obj))
                    else:
                        heap[lk] = (obj, None, _content(obj))
            # placeholders mutated in place
            for lk, loc in locs.items():
                if lk[0] == 'n' and lk not in written:
                    written[lk] = (None, loc.init, after.get(lk[1]))
            written.update(heap)
            steps = {lk: _freeze(v[2]) for lk, v in written.items()}
            temps = {nm: _freeze(v) for nm, v in after.items() if nm not in names0}
        except BaseException:
            t._assume.pop()
            ip.rollback()
            env.d.clear()
            env.d.update(saved)
            raise
        t._assume.pop()
        ip.rollback()
        env.d.clear()
        env.d.update(saved)
        changed = False
        for lk, (obj, init, v) in written.items():
            loc = locs.get(lk)
            step = steps[lk]
            if loc is None:
                if lk[0] == 'h':
                    init = _content(obj)
                else:
                    init = _freeze(init) if lk[0] == 'n' else init
                if lk[0] in 'nad' and _same_object(init, v) and not isinstance(v, (Arr, PList, tuple)):
                    continue
                loc = Loc(lk, obj, init)
                loc.template = _template(init, step)
                locs[lk] = loc
                _plan(loc, init, step, J, n)
                changed = True
            else:
                if _replan(loc, step, J, n):
                    changed = True
        if not changed:
            final = (steps, temps)
            break
        if attempt < 7:
            del ip.unknowns[nunk:]
            del ip.events[nev:]
    if final is None:
        raise Top('loop does not stabilise')
    steps, temps = final
    # equations
    eqs = {}
    skel = {}
    for lk, loc in locs.items():
        if lk not in steps:
            continue
        if loc.template is None:
            continue
        pls = _leaf_eqs(loc, steps[lk], lid, J, n)
        for p in pls:
            eqs[p.head] = p
    solved = solve(ip, eqs, jv, n, lid)
    _close(solved)
    ip.loops_closed += 1

    def fin(v, at):
        return _apply_tree(v, solved, lid, jv, at)
    for lk, loc in locs.items():
        if lk not in steps:
            continue
        if loc.template is None:
            val = fin(steps[lk], n - t.ONE)
        else:
            val = _final_value(loc, solved, lid, n)
        if lk[0] == 'n':
            env.d[lk[1]] = val
        elif lk[0] == 'a':
            ip.touch(loc.obj)
            loc.obj.attrs[lk[2]] = val
        elif lk[0] == 'd':
            ip.touch(loc.obj)
            loc.obj.d[lk[2]] = val
        else:
            ip.mutate(loc.obj, 'loop store')
            if isinstance(val, Unknown):
                raise Top(val.reason)
            loc.obj.restore(val.snapshot())
    for nm, v in temps.items():
        env.d[nm] = fin(v, n - t.ONE)


def _same_object(a, b):
    return a is b


def retype(a, b):
    """a with element types wide enough for b as well."""
    if isinstance(a, Arr) and isinstance(b, Arr):
        dt = V.promote(a.dt, b.dt)
        if dt == a.dt:
            return a
        r = Arr(a.vars, a.lens, a.body, dt, a.lib, a.view)
        r.tag = a.tag
        return r
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(retype(x, y) for x, y in zip(a, b))
    return a


def _template(init, step):
    """Value whose structure the placeholder has."""
    if isinstance(init, Unknown):
        return init
    if init is None and isinstance(step, (Arr, tuple, PList)):
        return poison_like(step)
    if isinstance(init, Arr) and isinstance(step, Arr):
        if init.rank != step.rank:
            return None
        return retype(init, step)
    if isinstance(init, tuple) and isinstance(step, tuple) and len(init) == len(step):
        return tuple(_template(a, b) for a, b in zip(init, step))
    if isinstance(init, PList) and isinstance(step, PList):
        return step
    return init


def _growth(d, J):
    """Change of a length in one iteration, when it is the same in all."""
    if d.fv or d.flags & t.F_PH or not t.is_int_term(d):
        return None
    return d


def _plan(loc, init, step, J, n):
    if isinstance(step, Unknown):
        loc.template = step
    if isinstance(init, PList) and isinstance(step, PList):
        d = _growth(step.len() - init.len(), J)
        if d is None:
            _peel(step.len() - init.len(), next(iter(J.fv)), n)
            loc.template = Unknown('list length change in a loop')
            return
        loc.growth = d
        if d == t.ZERO and init.items is not None and step.items is not None:
            return
        u = to_seq(init)
        if u.elem is None:
            w = to_seq(step)
            loc.template = PList(None, w.length, w.var, w.elem)
        else:
            loc.template = PList(None, u.length, u.var, retype(u.elem, to_seq(step).elem))
            loc.template.tail = u.tail
    elif isinstance(init, Arr) and isinstance(step, Arr) and init.rank == step.rank:
        for k, (a, b) in enumerate(zip(init.lens, step.lens)):
            if a != b:
                d = t.int_val(b - a)
                if d is None:
                    loc.template = Unknown('array shape change in a loop')
                    return
                loc.axgrowth[k] = d
        if init.rank == 0:
            d = step.body - init.body
            if t.is_int_term(init.body) and t.is_int_term(step.body):
                # candidate induction variable (verified on the next round)
                if not (d.fv & J.fv):
                    loc.induct = d
    elif isinstance(init, tuple) and not isinstance(step, tuple):
        loc.template = Unknown('structure change in a loop')


def _replan(loc, step, J, n):
    """Adjust the plan after a run with placeholders; True when changed."""
    if isinstance(loc.template, Unknown):
        return False
    if isinstance(step, Unknown):
        loc.template = step
        return True
    ph = loc.ph
    if isinstance(ph, PList) and isinstance(step, PList):
        d = _growth(step.len() - ph.len(), J)
        if d is None:
            _peel(step.len() - ph.len(), next(iter(J.fv)), n)
        if d is None or (loc.growth is not None and d != loc.growth):
            if d is not None and loc.growth == t.ZERO:
                loc.growth = d
                return True
            loc.template = Unknown('list length change in a loop')
            return True
    elif isinstance(ph, Arr) and isinstance(step, Arr):
        if ph.rank != step.rank:
            loc.template = Unknown('rank change in a loop')
            return True
        for k, (a, b) in enumerate(zip(ph.lens, step.lens)):
            g = loc.axgrowth.get(k, 0)
            d = t.int_val(b - a)
            if d is None or d != g:
                loc.template = Unknown('array shape change in a loop')
                return True
        if loc.induct is not None:
            if step.body - ph.body != loc.induct:
                loc.induct = None
                return True
    elif isinstance(ph, tuple) != isinstance(step, tuple):
        loc.template = Unknown('structure change in a loop')
        return True
    return False


def _ph_head(lid, lk, path):
    return '%s/%s%s' % (lid, '.'.join(str(x) for x in lk), path)


def _install(ip, loc, lid, J, n, env):
    """Put the placeholder value into the location."""
    tm = loc.template
    if tm is None:
        return
    val = _ph_value(loc, tm, lid, J, n)
    loc.ph = val
    lk = loc.key
    if lk[0] == 'n':
        env.d[lk[1]] = val
    elif lk[0] == 'a':
        ip.touch(loc.obj)
        loc.obj.attrs[lk[2]] = val
    elif lk[0] == 'd':
        ip.touch(loc.obj)
        loc.obj.d[lk[2]] = val
    else:
        if isinstance(val, Unknown):
            raise Top(val.reason)
        ip.touch(loc.obj)
        loc.obj.restore(val.snapshot())
        loc.ph = val


def _ph_value(loc, tm, lid, J, n):
    init = loc.init
    if isinstance(tm, Unknown):
        return tm
    if isinstance(tm, Arr):
        if loc.induct is not None:
            return Arr((), (), init.body + J * loc.induct, tm.dt, tm.lib)
        lens = list(tm.lens)
        for k, g in loc.axgrowth.items():
            lens[k] = lens[k] + J * t.const(g)
        head = _ph_head(lid, loc.key, '')
        return make(lens, lambda *ix: t.lift_args('ph', head, (J,) + ix), tm.dt, tm.lib)
    if isinstance(tm, PList) and loc.growth is not None and tm.items is None:
        base = init.len()
        length = base + t.pmul(J, loc.growth)
        iv = t.fresh(length)
        if tm.elem is None:
            return PList(None, length, iv, None)
        e = vsubst(tm.elem, {tm.var: t.var(iv)})

        def f(ctx, a, path):
            head = _ph_head(lid, loc.key, '[i]' + path)
            lens = a.lens
            return make(lens, lambda *ix: t.lift_args(
                'ph', head, (J, t.var(iv)) + tuple(t.var(c[0]) for c in ctx) + ix), a.dt, a.lib)
        return PList(None, length, iv, skeleton_map(e, f))

    def g(ctx, a, path):
        head = _ph_head(lid, loc.key, path)
        return make(a.lens, lambda *ix: t.lift_args(
            'ph', head, (J,) + tuple(t.var(c[0]) for c in ctx) + ix), a.dt, a.lib)
    return skeleton_map(tm, g)


def _norm_to(v, tm):
    """Bring v to the structure of tm (symbolic lists)."""
    if isinstance(tm, PList) and isinstance(v, PList):
        if tm.items is None:
            v = to_seq(v)
            if v.elem is not None and tm.elem is not None:
                return PList(None, v.length, v.var, _norm_to(v.elem, tm.elem))
            return v
        if v.items is None or len(v.items) != len(tm.items):
            raise Top('list structure changes in a loop')
        return PList([_norm_to(a, b) for a, b in zip(v.items, tm.items)])
    if isinstance(tm, tuple):
        if not isinstance(v, tuple) or len(v) != len(tm):
            if v is None:
                return poison_like(tm)
            raise Top('tuple structure changes in a loop')
        return tuple(_norm_to(a, b) for a, b in zip(v, tm))
    if v is None and isinstance(tm, Arr):
        return poison_like(tm)
    return v


def _leaf_eqs(loc, step, lid, J, n):
    tm = loc.ph
    if isinstance(tm, Unknown) or isinstance(step, Unknown):
        return []
    if loc.induct is not None:
        return []
    st = {l.path: l for l in leaves(_norm_to(step, tm))}
    ini = {l.path: l for l in leaves(_norm_to(loc.init, tm))}
    out = []
    for l in leaves(tm):
        if not (isinstance(tm, (Arr, PList, tuple))):
            continue
        lens = list(l.lens) + list(l.arr.lens)
        # lengths after the last iteration: placeholders range over everything
        lens = [t.subst(x, {next(iter(J.fv)): n}) if x.fv & J.fv else x for x in lens]
        iv = [t.fresh(x) for x in lens]
        ix = [t.var(v) for v in iv]

        def body(q):
            if q is None:
                return None
            k = len(q.vars)
            b = q.arr.at(ix[k:])
            if k:
                b = t.subst(b, dict(zip(q.vars, ix[:k])))
            return b
        i = body(ini.get(l.path))
        if i is None:
            i = t.app('unset')
        s = body(st.get(l.path))
        if s is None:
            raise Top('leaf %s disappears in a loop' % l.path)
        if l.path in st and st[l.path].arr.rank != l.arr.rank:
            raise Top('rank of %s changes in a loop' % l.path)
        path = l.path
        # entries beyond the current length are don't-care: keep
        grown = None
        if isinstance(tm, PList) and loc.growth is not None and loc.growth != t.ZERO:
            grown = (0, loc.init.len(), loc.growth)
        elif isinstance(tm, Arr) and loc.axgrowth:
            k, gr = next(iter(loc.axgrowth.items()))
            grown = (k, loc.template.lens[k], t.const(gr))
        if grown is not None and t.decide_ge(-grown[2]) is not True:
            k, l0, gr = grown
            lim = l0 + t.pmul(J + t.ONE, gr)
            me = t.lift_args('ph', _ph_head(lid, loc.key, path), (J,) + tuple(ix))
            s = t.ite('ge', ix[k] - lim, me, s)
        out.append(PLeaf(_ph_head(lid, loc.key, path), iv, lens, i, s))
    return out


def _final_value(loc, solved, lid, n):
    tm = loc.ph
    if isinstance(tm, Unknown):
        return tm
    if loc.induct is not None:
        return Arr((), (), loc.init.body + n * loc.induct, tm.dt, tm.lib)
    if isinstance(tm, Arr):
        lens = list(loc.template.lens)
        for k, g in loc.axgrowth.items():
            lens[k] = lens[k] + n * t.const(g)
        head = _ph_head(lid, loc.key, '')
        return make(lens, lambda *ix: solved[head](n, list(ix)), tm.dt, tm.lib)
    if isinstance(tm, PList) and loc.growth is not None and tm.items is None:
        length = loc.init.len() + t.pmul(n, loc.growth)
        iv = t.fresh(length)
        if tm.elem is None:
            return PList(None, length, iv, None)
        e = vsubst(tm.elem, {tm.var: t.var(iv)})

        def f(ctx, a, path):
            head = _ph_head(lid, loc.key, '[i]' + path)
            return make(a.lens, lambda *ix: solved[head](
                n, [t.var(iv)] + [t.var(c[0]) for c in ctx] + list(ix)), a.dt, a.lib)
        return PList(None, length, iv, skeleton_map(e, f))

    def g(ctx, a, path):
        head = _ph_head(lid, loc.key, path)
        return make(a.lens, lambda *ix: solved[head](
            n, [t.var(c[0]) for c in ctx] + list(ix)), a.dt, a.lib)
    return skeleton_map(tm, g)


def _apply_tree(v, solved, lid, jv, at):
    def f(ctx, a, path):
        b = subst_ph(a.body, solved)
        b = t.subst(b, {jv: at})
        lens = [t.subst(subst_ph(l, solved), {jv: at}) for l in a.lens]
        vs = [t.fresh(l) for l in lens]
        b = t.subst(b, {x: t.var(y) for x, y in zip(a.vars, vs)})
        return Arr(vs, lens, b, a.dt, a.lib)
    return vsubst(skeleton_map(v, f), {jv: at})


# --------------------------------------------------------------------------
# Solving

def ph_heads(p, prefix=None):
    if not (p.flags & t.F_PH):
        return set()
    at = t.atoms_in(p, lambda a: a.kind == 'ph' and (prefix is None or a.head.startswith(prefix)))
    return set(a.head for a in at.values())


def subst_ph(p, fns):
    if not fns or not (p.flags & t.F_PH):
        return p
    hs = ph_heads(p)
    if not (hs & set(fns)):
        return p

    def f(a, args):
        if a.kind == 'ph' and a.head in fns:
            return fns[a.head](args[0], list(args[1:]))
        return None
    return t.transform(p, f)


def solve(ip, eqs, jv, n, lid):
    """Solve the equations; returns head -> function(j, idx) -> term."""
    solved = {}
    pending = dict(eqs)
    prefix = lid + '/'
    J = t.var(jv)
    ycount = [0]

    def count(rule):
        ip.loop_rules[rule] = ip.loop_rules.get(rule, 0) + 1

    def selfph(p):
        return t.lift_args('ph', p.head, (J,) + tuple(t.var(v) for v in p.iv))

    while pending:
        progress = False
        for h in sorted(pending):
            p = pending[h]
            p.step = subst_ph(p.step, solved)
            hs = ph_heads(p.step, prefix)
            me = selfph(p)
            if not hs:
                solved[h] = _const_rule(p, jv)
                count('const')
            elif p.step == me:
                solved[h] = _keep_rule(p)
                count('keep')
            elif hs == set([h]) and not ph_heads(p.step - me, prefix):
                solved[h] = _sum_rule(p, jv, p.step - me)
                count('sum')
            else:
                s = store_pattern(p, jv, me, prefix)
                if s is not None:
                    solved[h] = _store_rule(p, jv, s, n)
                    count('store')
                else:
                    continue
            del pending[h]
            progress = True
        if progress:
            continue
        if not pending:
            break
        # updates confined to one slice of an axis
        for h in sorted(pending):
            p = pending[h]
            s = slice_pin(p, jv, selfph(p), prefix, pending)
            if s is None:
                continue
            axis, c = s
            ykey = '%s|%d' % (h, axis)
            if ykey in eqs:
                continue
            rest = [v for k, v in enumerate(p.iv) if k != axis]
            y = PLeaf(ykey, rest, [l for k, l in enumerate(p.lens) if k != axis],
                      t.subst(p.init, {p.iv[axis]: c}), None)

            def cut(a, args, h=h, ykey=ykey, axis=axis):
                if a.kind == 'ph' and a.head == h:
                    return t.lift_args('ph', ykey, (args[0],) + tuple(
                        x for k, x in enumerate(args[1:]) if k != axis))
                return None
            y.step = t.transform(t.subst(p.step, {p.iv[axis]: c}), cut)
            pending[ykey] = y
            eqs[ykey] = y

            def whole(j, idx, p=p, ykey=ykey, axis=axis, c=c):
                inner = [x for k, x in enumerate(idx) if k != axis]
                if ykey in solved:
                    v = solved[ykey](j, inner)
                else:
                    v = t.lift_args('ph', ykey, (j,) + tuple(inner))
                return t.ite('eq', idx[axis] - c, v, t.subst(p.init, dict(zip(p.iv, idx))))
            solved[h] = whole
            del pending[h]
            count('slice')
            progress = True
            break
        if progress:
            continue
        # carried elements of stored arrays
        stores = {}
        for h in sorted(pending):
            p = pending[h]
            s = store_position(p, jv, selfph(p), prefix)
            if s is not None:
                stores[h] = s
        done = False
        for h in sorted(stores):
            p = pending[h]
            axis, tstar = stores[h]       # iteration that writes index iv
            ykey = '%s@' % h
            if ykey in eqs or ykey in solved or ykey in pending:
                continue
            reads = {}
            for h2 in sorted(pending):
                at = t.atoms_in(pending[h2].step, lambda a: a.kind == 'ph' and a.head == h)
                for a in at.values():
                    reads[a.key] = a
            ok = True
            kinds = {}
            for a in reads.values():
                now = a.args[0]
                if now != J and now != tstar:
                    ok = False
                    break
                idx = a.args[1:]
                when = t.subst(tstar, {p.iv[axis]: idx[axis]})
                if when == now - t.ONE:
                    kinds[a.key] = 'last'
                elif idx[axis] == t.var(p.iv[axis]) and all(
                        x == t.var(v) for x, v in zip(idx, p.iv)):
                    kinds[a.key] = 'keep'
                elif t.decide_ge(when - now) is True:
                    kinds[a.key] = 'init'
                else:
                    ok = False
                    break
            if not ok or 'last' not in kinds.values():
                continue
            # position written at iteration j
            sol = t.solve_linear(tstar - J, p.iv[axis])
            if sol is None:
                continue
            rest = [v for k, v in enumerate(p.iv) if k != axis]
            y = PLeaf(ykey, rest, [l for k, l in enumerate(p.lens) if k != axis], None, None)
            y.init = t.subst(p.init, {p.iv[axis]: t.subst(sol, {jv: -t.ONE})})
            # placing on axis
            st = t.subst(p.step, {p.iv[axis]: sol})

            def rew(q, keep_init):
                def f(a, args):
                    if a.kind == 'ph' and a.head == h:
                        idx = args[1:]
                        when = t.subst(tstar, {p.iv[axis]: idx[axis]})
                        if args[0] != J and args[0] != tstar:
                            return None
                        if when == args[0] - t.ONE:
                            return t.lift_args('ph', ykey, (J,) + tuple(
                                x for k, x in enumerate(idx) if k != axis))
                        if t.decide_ge(when - args[0]) is True:
                            return t.subst(p.init, dict(zip(p.iv, idx)))
                    return None
                return t.transform(q, f)
            y.step = rew(st, True)
            for h2 in sorted(pending):
                q = pending[h2]
                q.step = rew(q.step, False)
            pending[ykey] = y
            eqs[ykey] = y
            count('carry')
            done = True
            break
        if done:
            continue
        # recurrences for what does not store
        group = set(h for h in pending if h not in stores)
        while True:
            bad = set(h for h in group if not (ph_heads(pending[h].step, prefix) <= group))
            if not bad:
                break
            group -= bad
        if not group:
            group = set(pending)
        _rec_group(group, pending, solved, jv, n)
        count('recurrence')
        for h in group:
            del pending[h]
    return solved


_rec_id = [0]


def _rec_group(group, pending, solved, jv, n):
    """The remaining equations become mutually recursive named sequences.

    Index variables of enclosing loops that occur in the equations become
    additional index parameters, so that the names stay closed terms.
    """
    names = {}
    extra = set()
    for h in sorted(group):
        _rec_id[0] += 1
        names[h] = 'R%d' % _rec_id[0]
        p = pending[h]
        bound = set(p.iv) | {jv}
        extra |= (p.init.fv | p.step.fv) - bound
    order = lambda vs: sorted(vs, key=lambda v: (len(v), v))
    extra = order(extra)
    while True:           # lengths of parameters may mention further parameters
        more = set()
        for v in extra:
            if v not in t.VAR_LEN:
                raise Top('recurrence depends on an index without range')
            more |= t.VAR_LEN[v].fv
        more -= set(extra) | {jv}
        if not more:
            break
        extra = order(set(extra) | more)
    ex = tuple(t.var(v) for v in extra)
    fns = {}
    for h in group:
        nm = names[h]
        fns[h] = (lambda nm: lambda j, idx: t.lift_args('R', nm, (j,) + ex + tuple(idx)))(nm)
    recs = []
    for h in sorted(group):
        p = pending[h]
        r = t.Rec(names[h])
        mp = {}
        for v in extra:
            mp[v] = t.var(t.fresh(t.subst(t.VAR_LEN[v], mp)))
        ev = tuple(next(iter(mp[v].fv)) for v in extra)
        r.jvar = t.fresh(t.subst(n, mp))
        lens = [t.subst(l, mp) for l in p.lens]
        r.vars = ev + tuple(t.fresh(l) for l in lens)
        r.lens = tuple(t.VAR_LEN[v] for v in ev) + tuple(lens)
        mp.update({a: t.var(b) for a, b in zip(p.iv, r.vars[len(ev):])})
        init = t.subst(p.init, mp)
        mp[jv] = t.var(r.jvar)
        step = t.subst(subst_ph(p.step, fns), mp)
        if IN_RHS[0] and (init.flags | step.flags) & t.F_AT:
            raise Top('loop inside the right-hand side of an integrator step')
        r.length = n
        recs.append((r, init, step))
    for r, init, step in recs:
        r.init, r.step = init, step
        t.RECS[r.name] = r
        if (init.flags | step.flags) & t.F_PH:
            OPEN.append(r)
    solved.update(fns)


IN_RHS = [0]
OPEN = []          # sequences whose equations mention contents of an enclosing loop


def _close(solved):
    """The enclosing loop is solved: its contents are known at every step."""
    if not OPEN or not solved:
        return
    for r in list(OPEN):
        if (ph_heads(r.init) | ph_heads(r.step)) & set(solved):
            r.init = subst_ph(r.init, solved)
            r.step = subst_ph(r.step, solved)
        if not ((r.init.flags | r.step.flags) & t.F_PH):
            OPEN.remove(r)


def _const_rule(p, jv):
    def f(j, idx):
        mp = dict(zip(p.iv, idx))
        i = t.subst(p.init, mp)
        d = t.decide_ge(j - t.ONE)
        if d is False:
            return i
        mp[jv] = j - t.ONE
        if d is True:
            return t.subst(p.step, mp)
        t._assume.append(j - t.ONE)
        try:
            e = t.subst(p.step, mp)
        finally:
            t._assume.pop()
        return t.ite('ge', j - t.ONE, e, i)
    return f


def _keep_rule(p):
    return lambda j, idx: t.subst(p.init, dict(zip(p.iv, idx)))


def _sum_rule(p, jv, g):
    def f(j, idx):
        mp = dict(zip(p.iv, idx))
        i = t.subst(p.init, mp)
        v = t.fresh(j)
        mp[jv] = t.var(v)
        return i + t.psum(v, j, t.subst(g, mp))
    return f


def _paths(p, me, conds, out):
    """Leaves of a conditional term with the conditions leading to them."""
    it = t.as_ite(p)
    if it is None:
        out.append((p, list(conds)))
        return
    for br, val in ((it.args[1], True), (it.args[2], False)):
        conds.append((it.head, it.args[0], val))
        _paths(br, me, conds, out)
        conds.pop()


def slice_pin(p, jv, me, prefix, pending):
    """(axis, index) when the step changes only the entries with that index,
    which no iteration moves; own content is read there only."""
    if not p.iv or t.as_ite(p.step) is None:
        return None
    out = []
    _paths(p.step, me, [], out)
    for axis, v in enumerate(p.iv):
        found = None
        for leaf, conds in out:
            if leaf == me:
                continue
            lo, hi = [], []
            for kind, c, val in conds:
                if kind == 'eq' and val:
                    cs = (c, -c)
                elif kind == 'ge':
                    cs = (c if val else -c - t.ONE,)
                else:
                    continue
                for k in cs:
                    if v not in k.fv or jv in k.fv or k.flags & t.F_PH:
                        continue
                    r = t.linear_coeff(k, v)
                    if r is None:
                        continue
                    s = t.const_val(r[0])
                    if s == 1:
                        lo.append(-r[1])
                    elif s == -1:
                        hi.append(r[1])
            pin = [a for a in lo if a in hi]
            if not pin or (found is not None and found not in pin):
                found = None
                break
            found = found if found is not None else pin[0]
        if found is None or found.fv & set(p.iv):
            continue
        ok = True
        for q in pending.values():
            for a in t.atoms_in(q.step, lambda a: a.kind == 'ph' and a.head == p.head).values():
                if a.args[1 + axis] != found and not (q is p and t.atom_poly(a) == me):
                    # under the pin the index itself may be written
                    if not (q is p and a.args[1 + axis] == t.var(v)):
                        ok = False
        if ok:
            return axis, found
    return None


def store_position(p, jv, me, prefix):
    """(axis, iteration writing index iv) when the step stores one index per
    iteration along one axis and keeps everything else; else None."""
    if not p.iv or t.as_ite(p.step) is None:
        return None
    out = []
    _paths(p.step, me, [], out)
    if not any(leaf == me for leaf, c in out):
        return None
    found = None
    for leaf, conds in out:
        if leaf == me:
            continue
        lo = []
        hi = []
        for kind, c, val in conds:
            if kind != 'ge' or jv not in c.fv:
                continue
            k = c if val else -c - t.ONE
            r = t.linear_coeff(k, jv)
            if r is None:
                continue
            s = t.sign_dims(r[0])
            if s == 1:
                lo.append((r[0], r[1]))      # co*j + rest >= 0
            elif s == -1:
                hi.append((-r[0], r[1]))     # rest - co*j >= 0
        pin = None
        # implicit bounds 0 <= iv and iv <= len-1 may replace one side
        for co, rest in lo:
            for co2, rest2 in hi:
                if co != co2:
                    continue
                w = rest + rest2
                if t.const_val(co) == 1:
                    if w == t.ZERO:
                        pin = rest2
                else:
                    if w == co - t.ONE:
                        pin = t.app('floordiv', rest2, co)
        if pin is None:
            # boundary stores: j <= rest with rest == 0, or j >= n-1
            pin = _boundary_pin(p, conds, jv)
        if pin is None:
            return None
        if found is not None and found != pin:
            return None
        found = pin
    if found is None:
        return None
    axes = [k for k, v in enumerate(p.iv) if v in found.fv]
    if len(axes) != 1:
        return None
    return axes[0], found


def _boundary_pin(p, conds, jv):
    """A single bound that pins an element because the index is at the end of
    its range, e.g. index >= j with index <= j known from the length."""
    for kind, c, val in conds:
        if kind != 'ge' or jv not in c.fv:
            continue
        k = c if val else -c - t.ONE
        r = t.linear_coeff(k, jv)
        if r is None or t.const_val(r[0]) not in (1, -1):
            continue
        if t.const_val(r[0]) == -1:
            # j <= rest ; pinned when rest <= j always, i.e. k == 0 always
            pin = r[1]
        else:
            pin = -r[1]
        if t.decide_ge(-k) is True:
            return pin
    return None


def store_pattern(p, jv, me, prefix):
    """Closed store: position known and stored values free of placeholders
    except keeping the old content."""
    pos = store_position(p, jv, me, prefix)
    if pos is None:
        return None
    axis, tstar = pos
    J = t.var(jv)

    def f(a, args):
        # own content that is not yet overwritten is the initial content
        if a.kind != 'ph' or a.head != p.head or len(args) < 1:
            return None
        # under the pin the iteration may be written as tstar
        if t.atom_poly(t.mk('ph', a.head, args)) == me:
            return t.ZERO
        if args[0] == J or args[0] == tstar:
            when = t.subst(tstar, {p.iv[axis]: args[1:][axis]})
            if t.decide_ge(when - args[0]) is True:
                return t.ZERO
        return None
    rest = t.transform(p.step, f)
    if ph_heads(rest, prefix):
        return None
    return pos


def _store_rule(p, jv, pos, n):
    axis, tstar = pos

    def f(j, idx):
        mp = dict(zip(p.iv, idx))
        when = t.subst(tstar, mp)
        init = t.subst(p.init, mp)
        c1 = when                      # when >= 0
        c2 = j - t.ONE - when          # when <= j-1
        if t.decide_ge(c1) is False or t.decide_ge(c2) is False:
            return init
        m2 = dict(mp)
        m2[jv] = when
        t._assume.append(c1)
        t._assume.append(c2)
        try:
            e = _keep_init(t.subst(p.step, m2), p)
        finally:
            t._assume.pop()
            t._assume.pop()
        return t.ite('ge', c1, t.ite('ge', c2, e, init), init)
    return f


def _keep_init(e, p):
    """Kept content before the write is the initial content."""
    def f(a, args):
        if a.kind == 'ph' and a.head == p.head:
            return t.subst(p.init, dict(zip(p.iv, args[1:])))
        return None
    if not (e.flags & t.F_PH):
        return e
    return t.transform(e, f)


# --------------------------------------------------------------------------
# scans

def scan(ip, fn, n, elem_at, init, reverse=False, has_out=False):
    """Left fold of fn(carry, elem).  Returns (final carry, stacked carries or
    outputs as a function)."""
    _loop_id[0] += 1
    lid = 'L%d' % _loop_id[0]
    jv = t.fresh(n)
    J = t.var(jv)
    lk = ('s', 'carry')
    pos = (n - t.ONE - J) if reverse else J
    init = _freeze(init)
    tm = init
    # the structure of the initial carry is the structure of the carry
    loc = Loc(lk, None, init)
    loc.template = tm

    def g(ctx, a, path):
        head = _ph_head(lid, lk, path)
        return make(a.lens, lambda *ix: t.lift_args(
            'ph', head, (J,) + tuple(t.var(c[0]) for c in ctx) + ix), a.dt, 'im')
    ph = skeleton_map(tm, g)
    loc.ph = ph
    ip.begin()
    t._assume.append(n - t.ONE)
    try:
        r = _freeze(fn(ph, elem_at(pos)))
    finally:
        t._assume.pop()
        ip.rollback()
    known(r)
    if has_out:
        carry, out = r
    else:
        carry, out = r, None
    if isinstance(carry, PList) and isinstance(ph, tuple) and carry.items is not None:
        carry = tuple(carry.items)
    if isinstance(carry, Unknown):
        raise Top(carry.reason)
    check_shapes(ip, init, carry)
    eqs = {p.head: p for p in _leaf_eqs(loc, _freeze(carry), lid, J, n)}
    solved = solve(ip, eqs, jv, n, lid)
    _close(solved)
    ip.loops_closed += 1

    def carry_at(j):
        def g2(ctx, a, path):
            head = _ph_head(lid, lk, path)
            return make(a.lens, lambda *ix: solved[head](
                j, [t.var(c[0]) for c in ctx] + list(ix)), a.dt, 'im')
        return skeleton_map(tm, g2)

    def out_at(j):
        v = _apply_tree(out, solved, lid, jv, j)
        return v
    return carry_at, out_at


def check_shapes(ip, a, b):
    known(a)
    known(b)
    la, lb = leaves(a), leaves(b)
    if len(la) != len(lb):
        raise ShapeError('scan carry has %d components, initial value %d at %s' % (len(lb), len(la), ip.where()))
    for x, y in zip(la, lb):
        if x.arr.rank != y.arr.rank:
            raise ShapeError('scan carry component %s changes rank at %s' % (x.path, ip.where()))
        for l1, l2 in zip(x.arr.lens, y.arr.lens):
            if same_len(l1, l2) is False:
                raise ShapeError('scan carry component %s changes shape (%s to %s) at %s' %
                                 (x.path, t.show(l1), t.show(l2), ip.where()))


def counting_while(ip, s, env):
    """while i < n: ... i += c, rewritten to a counted loop when possible."""
    if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
        # the counter bounds the number of iterations, the other conditions
        # make the remaining ones empty (they read nothing the body does not write)
        for k, c in enumerate(s.test.values):
            rest = s.test.values[:k] + s.test.values[k + 1:]
            extra = rest[0] if len(rest) == 1 else ast.copy_location(ast.BoolOp(ast.And(), rest), s.test)
            if _counting_while(ip, s, c, extra, env):
                return True
        return False
    return _counting_while(ip, s, s.test, None, env)


def _counting_while(ip, s, c, extra, env):
    if not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.left, ast.Name)):
        return False
    nm = c.left.id
    lim = set(y.id for y in ast.walk(c.comparators[0]) if isinstance(y, ast.Name))
    for x in s.body:
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id in lim and isinstance(y.ctx, ast.Store):
                return False
    # exactly one top-level update i += 1 / i -= 1 / i = i + 1
    step = None
    k = None
    for i, x in enumerate(s.body):
        for y in ast.walk(x):
            if isinstance(y, ast.Name) and y.id == nm and isinstance(y.ctx, ast.Store):
                if step is not None:
                    return False
                if isinstance(x, ast.AugAssign) and isinstance(x.value, ast.Constant) and \
                        isinstance(x.op, (ast.Add, ast.Sub)):
                    step = x.value.value if isinstance(x.op, ast.Add) else -x.value.value
                elif isinstance(x, ast.Assign) and isinstance(x.value, ast.BinOp) and \
                        isinstance(x.value.left, ast.Name) and x.value.left.id == nm and \
                        isinstance(x.value.right, ast.Constant) and \
                        isinstance(x.value.op, (ast.Add, ast.Sub)):
                    step = x.value.right.value if isinstance(x.value.op, ast.Add) else -x.value.right.value
                else:
                    return False
                k = i
    if step not in (1, -1):
        return False
    for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        if isinstance(x, (ast.Break, ast.Continue, ast.Return)):
            return False
    start = ip.lookup(nm, env)
    limit = ip.eval(c.comparators[0], env)
    if not (isinstance(start, Arr) and isinstance(limit, Arr)):
        return False
    op = type(c.ops[0]).__name__
    if step == 1 and op in ('Lt', 'LtE', 'NotEq'):
        n = limit.body - start.body + (t.ONE if op == 'LtE' else t.ZERO)
    elif step == -1 and op in ('Gt', 'GtE', 'NotEq'):
        n = start.body - limit.body + (t.ONE if op == 'GtE' else t.ZERO)
    else:
        return False
    if t.decide_ge(n) is not True:
        n = t.ite('ge', n, n, t.ZERO)

    body = s.body if extra is None else [ast.copy_location(ast.If(extra, s.body, []), s)]

    def run(env_, j):
        out = ip.exec_block(body, env_)
        if out[0] not in ('next', 'cont'):
            raise Top('early exit from a symbolic loop')
    run_loop(ip, n, run, env)
    return True
