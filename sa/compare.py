"""Comparison of abstract values.

Two values are compared leaf by leaf after
  * their recurrences were merged by partition refinement (two recurrences are
    one when their initial contents and step terms are equal up to the merge),
  * index symmetry of recurrences was established by coinduction,
  * remaining conditionals were split into cases over the index ranges.
The comparison only rewrites terms; nothing is evaluated.
"""

from . import terms as t, valnum as VN
from .values import *
from .values import leaves, to_seq, untail


class Diff(object):
    def __init__(self, kind, path, msg):
        self.kind, self.path, self.msg = kind, path, msg   # kind: 'differs' | 'undecided'

    def __repr__(self):
        return '%s at %s: %s' % (self.kind, self.path or 'value', self.msg)


# --------------------------------------------------------------------------
# structure alignment

class Pair(object):
    def __init__(self, path, vs, lens, a, b):
        self.path, self.vars, self.lens, self.a, self.b = path, vs, lens, a, b


def _kind(v):
    if isinstance(v, Arr):
        return 'array of rank %d' % v.rank
    if isinstance(v, PList):
        return 'list'
    if isinstance(v, tuple):
        return 'tuple of %d' % len(v)
    return 'None' if v is None else type(v).__name__


def explicit(v):
    """Explicit item list when known."""
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, PList) and v.items is not None:
        return v.items
    return None


def align(a, b, path, ctx, pairs, diffs):
    """a: analysed value, b: reference value."""
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        diffs.append(Diff('undecided', path, (a if isinstance(a, Unknown) else b).reason))
        return
    if isinstance(b, Arr) and isinstance(a, Arr):
        if a.rank != b.rank:
            diffs.append(Diff('differs', path, 'rank %d, expected %d' % (a.rank, b.rank)))
            return
        vs = []
        for k, (x, y) in enumerate(zip(a.lens, b.lens)):
            pairs.append(Pair('%s.shape[%d]' % (path, k), list(ctx), None, x, y))
            vs.append(t.fresh(y))
        ix = [t.var(v) for v in vs]
        pairs.append(Pair(path, list(ctx) + vs, None, a.at(ix), b.at(ix)))
        return
    ea, eb = explicit(a), explicit(b)
    if ea is not None and eb is not None:
        if len(ea) != len(eb):
            diffs.append(Diff('differs', path, '%d items, expected %d' % (len(ea), len(eb))))
            return
        for k, (x, y) in enumerate(zip(ea, eb)):
            align(x, y, '%s[%d]' % (path, k), ctx, pairs, diffs)
        return
    if isinstance(a, (PList, tuple)) and isinstance(b, (PList, tuple)):
        sa = to_seq(PList(list(a)) if isinstance(a, tuple) else a)
        sb = to_seq(PList(list(b)) if isinstance(b, tuple) else b)
        pairs.append(Pair('len(%s)' % (path or 'value'), list(ctx), None, sa.length, sb.length))
        if sb.elem is None or sa.elem is None:
            if (sb.elem is None) != (sa.elem is None):
                diffs.append(Diff('differs', path, 'list is empty on one side'))
            return
        v = t.fresh(sb.length)
        align(vsubst(sa.elem, {sa.var: t.var(v)}), vsubst(sb.elem, {sb.var: t.var(v)}),
              path + '[%s]' % v, list(ctx) + [v], pairs, diffs)
        return
    if isinstance(a, PList) and isinstance(b, Arr) or isinstance(a, Arr) and isinstance(b, PList):
        # list of items against an array with a leading axis
        lst, ar = (a, b) if isinstance(a, PList) else (b, a)
        if ar.rank >= 1:
            s = to_seq(lst)
            v = t.fresh(ar.lens[0])
            x = None if s.elem is None else vsubst(s.elem, {s.var: t.var(v)})
            sub = make(list(ar.lens[1:]), lambda *ix: ar.at([t.var(v)] + list(ix)), ar.dt, ar.lib)
            pairs.append(Pair('len(%s)' % (path or 'value'), list(ctx), None, s.length, ar.lens[0]))
            if a is lst:
                align(x, sub, path + '[%s]' % v, list(ctx) + [v], pairs, diffs)
            else:
                align(sub, x, path + '[%s]' % v, list(ctx) + [v], pairs, diffs)
            return
    if isinstance(a, PDict) and isinstance(b, PDict):
        for k in b.d:
            if k not in a.d:
                diffs.append(Diff('differs', path, 'key %r missing' % (k,)))
            else:
                align(a.d[k], b.d[k], '%s[%r]' % (path, k), ctx, pairs, diffs)
        for k in a.d:
            if k not in b.d:
                diffs.append(Diff('differs', path, 'extra key %r' % (k,)))
        return
    if isinstance(a, ObjV) and isinstance(b, (ObjV, PDict)):
        bd = b.attrs if isinstance(b, ObjV) else b.d
        for k in bd:
            if k not in a.attrs:
                diffs.append(Diff('differs', path, 'attribute %s missing' % k))
            else:
                align(a.attrs[k], bd[k], '%s.%s' % (path, k), ctx, pairs, diffs)
        return
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        if type(a) is type(b) and a == b:
            return
        diffs.append(Diff('differs', path, '%s, expected %s' % (
            repr(a) if isinstance(a, (str, bool, type(None))) else _kind(a),
            repr(b) if isinstance(b, (str, bool, type(None))) else _kind(b))))
        return
    if isinstance(a, DType) and isinstance(b, DType):
        if a.dt != b.dt:
            diffs.append(Diff('differs', path, 'dtype %s, expected %s' % (sorted(a.dt), sorted(b.dt))))
        return
    diffs.append(Diff('differs', path, '%s, expected %s' % (_kind(a), _kind(b))))


# --------------------------------------------------------------------------
# recurrences

def rec_names(polys):
    """All recurrence names reachable from the terms."""
    todo = list(polys)
    seen = set()
    order = []
    while todo:
        p = todo.pop()
        if p is None or not (p.flags & t.F_REC):
            continue
        for a in t.atoms_in(p, lambda a: a.kind == 'R').values():
            if a.head in seen or a.head not in t.RECS:
                continue
            seen.add(a.head)
            order.append(a.head)
            r = t.RECS[a.head]
            todo.extend([r.init, r.step])
    return sorted(order, key=lambda s: (len(s), s))


def rebuild(p, names=None):
    """Rebuild the term bottom up (renaming recurrences)."""
    def f(a, args):
        if a.kind == 'R' and names is not None and a.head in names:
            return t.lift_args('R', names[a.head], args)
        return None
    return t.transform(p, f)


def symmetric_recs(names):
    """Greatest set of recurrences symmetric in their last two indices."""
    cand = set()
    for nm in names:
        r = t.RECS[nm]
        if len(r.lens) >= 2 and r.lens[-1] == r.lens[-2] and nm not in t.SYMREC:
            cand.add(nm)
    cand -= t.SYMREC
    if not cand:
        return
    while cand:
        t.SYMREC |= cand
        t._subst_memo.clear()
        bad = set()
        ok = False
        try:
            for nm in sorted(cand):
                r = t.RECS[nm]
                u, v = r.vars[-2], r.vars[-1]
                sw = {u: t.var(v), v: t.var(u)}
                for q in (r.init, r.step):
                    q2 = rebuild(q) if q.flags & t.F_REC else q
                    if t.subst(q2, sw) != q2:
                        bad.add(nm)
                        break
            ok = True
        finally:
            if not ok:
                t.SYMREC -= cand
                t._subst_memo.clear()
        if not bad:
            break
        t.SYMREC -= cand
        cand -= bad
        t._subst_memo.clear()


def merge_recs(polys):
    """Partition refinement; returns the renaming recurrence -> class."""
    names = rec_names(polys)
    if not names:
        return {}
    symmetric_recs(names)
    color = {}
    for nm in names:
        r = t.RECS[nm]
        color[nm] = 'c%d' % len(r.lens) + ('s' if nm in t.SYMREC else '')
    uniq = {}
    hold = []
    while True:
        keys = {}
        # placeholder recurrences named by colour (no definition: no unfolding)
        ren = {nm: '%' + color[nm] for nm in names}
        for nm in names:
            if ren[nm][-1] == 's':
                t.SYMREC.add(ren[nm])
        for nm in names:
            r = t.RECS[nm]
            mp = {r.jvar: t.var('!j')}
            t.VAR_LEN.setdefault('!j', None)
            if t.VAR_LEN.get('!j') is None:
                t.VAR_LEN.pop('!j', None)
            for k, v in enumerate(r.vars):
                mp[v] = t.var('!%d' % k)
            init = rebuild(t.subst(r.init, mp), ren) if r.init.flags & t.F_REC else t.subst(r.init, mp)
            step = rebuild(r.step, ren)
            step = t.subst(step, mp)
            keys[nm] = (color[nm], init.key, step.key)
        cls = {}
        for nm in names:
            cls.setdefault(keys[nm], []).append(nm)
        new = {}
        for i, k in enumerate(sorted(cls, key=lambda k: cls[k][0])):
            s = 'k%d_%d' % (len(t.RECS[cls[k][0]].lens), i) + ('s' if cls[k][0] in t.SYMREC else '')
            for nm in cls[k]:
                new[nm] = s
        if len(set(new.values())) == len(set(color.values())):
            break
        color = new
    rep = {}
    out = {}
    for nm in names:
        rep.setdefault(color[nm], nm)
        out[nm] = rep[color[nm]]
    return out


# --------------------------------------------------------------------------
# pointwise comparison

class Budget(Exception):
    pass


def bound_names(p):
    return set(v for v in p.fv if v.startswith('#'))


def top_conds(p, out):
    """Conditions of conditionals that are not under a binder."""
    for (fs, bd), c in p.m.items():
        names = set(n for n, l in bd)
        for a, e in fs:
            if a.kind == 'i' and not (a.args[0].fv & names):
                out[(a.head, a.args[0].key)] = (a.head, a.args[0])
            elif a.flags & t.F_ITE:
                # conditionals inside arguments were lifted when possible
                pass


def rec_args(p):
    out = {}
    for a in t.atoms_in(p, lambda a: a.kind == 'R').values():
        j = a.args[0]
        if not bound_names(j):
            out.setdefault(a.head, {})[j.key] = j
    return out


def equal(p, q, budget, depth=0):
    """True, or (False, p, q, assumptions)."""
    if p == q:
        return True
    d = p - q
    if not d.m:
        return True
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    conds = {}
    top_conds(p, conds)
    top_conds(q, conds)
    if conds and depth < 24:
        kind, c = conds[min(conds)]
        for val in (True, False):
            r = under(kind, c, val, p, q, budget, depth)
            if r is not True:
                return r
        return True
    # recurrences at neighbouring positions
    ra, rb = rec_args(p), rec_args(q)
    for h in sorted(set(ra) | set(rb)):
        js = dict(ra.get(h, {}))
        js.update(rb.get(h, {}))
        for k in sorted(js):
            j = js[k]
            if (j - t.ONE).key in js and t.decide_ge(j - t.ONE) is None and depth < 24:
                for val in (True, False):
                    r = under('ge', j - t.ONE, val, p, q, budget, depth)
                    if r is not True:
                        return r
                return True
    return (False, p, q, list(t._assume))


def under(kind, c, val, p, q, budget, depth):
    if kind == 'ge':
        k = c if val else -c - t.ONE
        d = t.decide_ge(k)
        if d is False:
            return True
        t._assume.append(k)
        try:
            # a bound that pins an index
            for v in sorted(k.fv):
                r = t.linear_coeff(k, v) if v in t.VAR_LEN else None
                if r is None or t.const_val(r[0]) not in (1, -1):
                    continue
                co = t.const_val(r[0])
                pt = -r[1] if co == 1 else r[1]
                if co == 1 and t.VAR_LEN[v] - t.ONE == pt or co == -1 and pt == t.ZERO:
                    return equal(t.subst(rebuild(p), {v: pt}), t.subst(rebuild(q), {v: pt}), budget, depth + 1)
            return equal(rebuild(p), rebuild(q), budget, depth + 1)
        finally:
            t._assume.pop()
    p2 = t.restrict(p, kind, c, val)
    q2 = t.restrict(q, kind, c, val)
    if kind == 'eq' and val:
        for v in sorted(c.fv):
            if v in t.VAR_LEN:
                s = t.solve_linear(c, v)
                if s is not None and v not in s.fv:
                    return equal(t.subst(p2, {v: s}), t.subst(q2, {v: s}), budget, depth + 1)
    return equal(p2, q2, budget, depth + 1)


OPAQUE_OK = True


def compare(a, b, what='value', limit=4):
    """Differences between the analysed value a and the reference b."""
    pairs, diffs = [], []
    align(a, b, what, [], pairs, diffs)
    polys = []
    for p in pairs:
        polys.extend([p.a, p.b])
    open_pairs = [p for p in pairs if p.a != p.b]
    stats['normal form'] = stats.get('normal form', 0) + len(pairs) - len(open_pairs)
    n = len(pairs)
    if open_pairs:
        # stage 1: merged recurrences and case splits, within a time budget
        t.set_deadline(NF_BUDGET)
        left = []
        try:
            raw = [(p.a, p.b) for p in open_pairs]
            ren = merge_recs([x for p in open_pairs for x in (p.a, p.b)])
            for p in open_pairs:
                a, b = p.a, p.b
                if ren and a.flags & t.F_REC:
                    a = rebuild(a, ren)
                if ren and b.flags & t.F_REC:
                    b = rebuild(b, ren)
                if (a.flags | b.flags) & t.F_TOP or equal_or_none(a, b) is not True:
                    left.append(p)
                else:
                    stats['coinduction and case split'] = stats.get('coinduction and case split', 0) + 1
        except t.Blowup:
            left = left + [p for p in open_pairs[open_pairs.index(left[-1]) + 1 if left else 0:]]
            left = list(dict.fromkeys(left))
        finally:
            t.set_deadline(None)
        # stage 2: value numbering
        vn = VN.Numbering([x for p in left for x in (p.a, p.b)]) if left else None
        for p in left:
            if len(diffs) >= limit:
                break
            if (p.a.flags | p.b.flags) & t.F_TOP:
                tops = set(x.head for q in (p.a, p.b) for x in t.atoms_in(q, lambda x: x.kind == 'top').values())
                diffs.append(Diff('undecided', p.path, 'unknown: ' + '; '.join(sorted(tops))))
                continue
            try:
                r, why = vn.equal(p.vars, p.a, p.b)
            except (t.Top, t.Blowup) as e:
                r, why = None, str(e)
            if r is True:
                stats['value numbering'] = stats.get('value numbering', 0) + 1
            elif r is None:
                diffs.append(Diff('undecided', p.path, why))
            else:
                only_a, only_b = split_diff(p.a, p.b)
                diffs.append(Diff('differs', p.path, '%s: code has {%s} where the reference has {%s}' % (
                    why, clip(t.show(only_a, 6)), clip(t.show(only_b, 6)))))
    return diffs, n


NF_BUDGET = 15
stats = {}


def equal_or_none(a, b):
    try:
        return equal(a, b, [400])
    except Budget:
        return None


def split_diff(x, y):
    """Monomials only on one side."""
    if t.as_ite(x) is not None or t.as_ite(y) is not None:
        return x, y
    a = {k: c for k, c in x.m.items() if y.m.get(k) != c}
    b = {k: c for k, c in y.m.items() if x.m.get(k) != c}
    return t.Poly(a), t.Poly(b)


def clip(s, n=900):
    return s if len(s) <= n else s[:n] + '...'
