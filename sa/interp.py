"""Abstract interpreter over the Python syntax tree.

Statements are executed over the abstract values of values.py.  Branches whose
condition is not decided by the abstract state are both analysed and joined by
a conditional term; loops with symbolic trip count are analysed once with
placeholders and closed by loops.py.  No code of the analysed program runs.
"""

import ast
import builtins
import copy
import os
import warnings

from . import terms as t
from .terms import Top, Blowup
from .values import *
from . import values as V


class Env(object):
    __slots__ = ('d', 'parent', 'module', 'globals_')

    def __init__(self, parent, module):
        self.d = {}
        self.parent = parent
        self.module = module
        self.globals_ = set()


class Cond(object):
    """Branch condition: kind, term, polarity."""
    __slots__ = ('kind', 'p', 'pol')

    def __init__(self, kind, p, pol=True):
        self.kind, self.p, self.pol = kind, p, pol


class Event(object):
    def __init__(self, kind, where, data, pc):
        self.kind, self.where, self.data, self.pc = kind, where, data, pc

    def __repr__(self):
        return 'Event(%s at %s: %r)' % (self.kind, self.where, self.data)


JUMPS = (ast.Return, ast.Raise, ast.Break, ast.Continue)


_jump_cache = {}


def has_jump(stmts):
    for s in stmts:
        r = _jump_cache.get(id(s))
        if r is None:
            r = _jump1(s)
            _jump_cache[id(s)] = (r, s)
        else:
            r = r[0]
        if r:
            return True
    return False


def _jump1(s):
    if isinstance(s, JUMPS):
        return True
    if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return False
    if isinstance(s, (ast.For, ast.While)):
        # break/continue belong to the inner loop; return/raise leave it
        for x in ast.walk(s):
            if isinstance(x, (ast.Return, ast.Raise)):
                return True
        return False
    for f in ('body', 'orelse', 'finalbody'):
        b = getattr(s, f, None)
        if isinstance(b, list) and has_jump(b):
            return True
    return False


# decorators the interpreter looks through: they do not change the value
# computed by the decorated function
TRANSPARENT_DECORATORS = ('tf.function', 'jax.jit', 'functools.wraps', 'jit')


class Interp(object):
    MAX_DEPTH = 60
    MAX_UNROLL = 40

    def __init__(self, roots):
        self.roots = roots          # list of (package prefix, directory)
        self.modules = {}
        self.journals = []
        self.pc = []
        self.events = []
        self.tapes = []
        self.stack = []             # (FuncV, node)
        self.cur = None
        self.depth = 0
        self.intrinsics = {}        # qualified function name -> handler
        self.unknowns = []
        self.files = {}
        self.functions_seen = set()
        self.calls = 0
        self.stmts = 0
        self.loops_closed = 0
        self.loop_rules = {}
        self.owned = None           # effects analysis: id -> (object, contents when first modified, ...)
        self.attr_log = []
        self.attr_reads = set()
        from . import lib
        self.lib = lib
        from . import loops
        self.loops = loops

    # ------------------------------------------------------------------
    def where(self, node=None):
        node = node or self.cur
        f = self.stack[-1] if self.stack else None
        if f is None:
            return '?:%s' % getattr(node, 'lineno', '?')
        return '%s:%s:%s' % (f.module.path if f.module else '?', getattr(node, 'lineno', '?'), f.name)

    def event(self, kind, data):
        self.events.append(Event(kind, self.where(), data, list(self.pc)))

    # ------------------------------------------------------------------
    # modules
    def find(self, name):
        for prefix, d in self.roots:
            if prefix and (name == prefix or name.startswith(prefix + '.')):
                rel = name[len(prefix):].lstrip('.').replace('.', '/')
                p = os.path.join(d, rel + '.py') if rel else os.path.join(d, '__init__.py')
                if os.path.exists(p):
                    return p
            elif not prefix:
                p = os.path.join(d, name.replace('.', '/') + '.py')
                if os.path.exists(p):
                    return p
        return None

    def load(self, name, src=None):
        m = self.modules.get(name)
        if m is not None:
            return m
        path = self.find(name)
        if path is None:
            return None
        with open(path) as f:
            src = f.read()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(src, path)
        m = ModuleV(name, path, tree)
        self.modules[name] = m
        env = Env(None, m)
        m.env = env
        self.files[path] = len(src.splitlines())
        self.exec_module(m)
        return m

    def exec_module(self, m):
        env = m.env
        env.d['__name__'] = m.name
        fake = FuncV(None, m, None, '<module>')
        self.stack.append(fake)
        try:
            for s in m.tree.body:
                if isinstance(s, ast.If):
                    continue
                if isinstance(s, ast.Expr):
                    continue
                try:
                    self.exec_block([s], env)
                except (Top, Blowup, ShapeError, IndexRange) as e:
                    self.smash(s, env, str(e))
        finally:
            self.stack.pop()
        if not m.name.startswith('specs'):
            for k, v in env.d.items():
                V.own(v, 'module state %s.%s' % (m.name, k))

    # ------------------------------------------------------------------
    # heap
    def touch(self, obj):
        if self.journals:
            j = self.journals[-1]
            if id(obj) not in j:
                j[id(obj)] = (obj, obj.snapshot())

    def mutate(self, obj, what=''):
        self.touch(obj)
        if getattr(obj, 'tag', None):
            self.event('mutate', (obj.tag, what))
            if self.owned is not None and id(obj) not in self.owned:
                self.owned[id(obj)] = (obj, obj.snapshot(), self.where(), what)

    def begin(self):
        self.journals.append({})

    def rollback(self):
        """Undo the writes of the current journal; returns new contents."""
        j = self.journals.pop()
        new = {}
        for k, (obj, old) in j.items():
            new[k] = (obj, obj.snapshot(), old)
            obj.restore(old)
        return new

    # ------------------------------------------------------------------
    # statements
    def exec_block(self, stmts, env):
        stmts = list(stmts)
        while stmts:
            s = stmts[0]
            rest = stmts[1:]
            self.cur = s
            self.stmts += 1
            if isinstance(s, ast.If):
                try:
                    c = self.truth(self.eval(s.test, env))
                except Top as e:
                    c = Cond('b', t.top('condition: %s' % e))
                if c is True:
                    stmts = s.body + rest
                    continue
                if c is False:
                    stmts = s.orelse + rest
                    continue
                if has_jump(s.body) or has_jump(s.orelse):
                    return self.fork(c, s.body + rest, s.orelse + rest, env)
                out = self.fork(c, s.body, s.orelse, env)
                if out[0] != 'next':
                    return out
                stmts = rest
                continue
            if isinstance(s, ast.With):
                tapes = []
                try:
                    for item in s.items:
                        v = self.eval(item.context_expr, env)
                        if type(v).__name__ == 'Tape':
                            tapes.append(v)
                        if item.optional_vars is not None:
                            self.assign(item.optional_vars, v, env)
                except Top as e:
                    self.smash(s, env, str(e))
                    stmts = rest
                    continue
                if not tapes:
                    stmts = s.body + rest
                    continue
                from . import libfns
                for tp in tapes:
                    self.tapes.append(tp)
                    libfns.tape_enter(self, tp)
                out = ('next',)
                try:
                    out = self.exec_block(s.body, env)
                finally:
                    for tp in reversed(tapes):
                        self.tapes.pop()
                        out = libfns.tape_exit(self, tp, env, out)
                if out[0] != 'next':
                    return out
                stmts = rest
                continue
            if isinstance(s, ast.Try):
                stmts = s.body + s.orelse + s.finalbody + rest
                continue
            try:
                out = self.exec_stmt(s, env)
            except Raised as e:
                return ('raise', str(e))
            except Top as e:
                if isinstance(s, (ast.Return, ast.Raise)):
                    return ('ret', self.unknown(str(e)))
                self.smash(s, env, str(e))
                out = ('next',)
            except Blowup as e:
                if isinstance(s, (ast.Return, ast.Raise)):
                    return ('ret', self.unknown('blowup: %s' % e))
                self.smash(s, env, 'blowup: %s' % e)
                out = ('next',)
            if out[0] != 'next':
                return out
            stmts = rest
        return ('next',)

    def unknown(self, reason):
        r = '%s at %s' % (reason, self.where())
        self.unknowns.append(r)
        return Unknown(r)

    def smash(self, s, env, reason):
        """Everything the statement may write becomes unknown."""
        u = self.unknown(reason)
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                env.d[x.id] = u
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                b = x.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id != 'self':
                    env.d[b.id] = u
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
                    x.func.attr in ('append', 'reverse', 'extend', 'insert', 'pop', 'sort'):
                b = x.func.value
                if isinstance(b, ast.Name):
                    env.d[b.id] = u

    def fork(self, c, s1, s2, env):
        saved = dict(env.d)
        res = []
        for stmts, val in ((s1, True), (s2, False)):
            env.d.clear()
            env.d.update(saved)
            self.begin()
            n = self.assume(c, val)
            try:
                out = self.exec_block(stmts, env)
            except BaseException:
                self.unassume(n)
                self.rollback()
                raise
            self.unassume(n)
            after = dict(env.d)
            new = self.rollback()
            res.append((out, after, new))
        env.d.clear()
        env.d.update(saved)
        (o1, e1, h1), (o2, e2, h2) = res
        if o1[0] == 'raise' and o2[0] == 'raise':
            return o1
        if o1[0] == 'raise' or o2[0] == 'raise':
            o, e, h = (o2, e2, h2) if o1[0] == 'raise' else (o1, e1, h1)
            env.d.clear()
            env.d.update(e)
            for k, (obj, new, old) in h.items():
                self.touch(obj)
                obj.restore(new)
            return o
        a, b = o1[0], o2[0]
        if a == 'cont':
            a = 'next'
        if b == 'cont':
            b = 'next'
        if a != b:
            if set((a, b)) == set(('ret', 'next')):
                # falling off the end of a function returns None
                v1 = o1[1] if a == 'ret' else None
                v2 = o2[1] if b == 'ret' else None
                self.merge_state(c, e1, h1, e2, h2, env)
                return ('ret', self.merge(c, v1, v2))
            raise Top('conditional %s' % (a if a != 'next' else b))
        self.merge_state(c, e1, h1, e2, h2, env)
        if a == 'ret':
            return ('ret', self.merge(c, o1[1], o2[1]))
        if a == 'brk':
            return ('brk',)
        return ('next',)

    def merge(self, c, a, b):
        if c.pol:
            return merge(c.kind, c.p, a, b)
        return merge(c.kind, c.p, b, a)

    def merge_state(self, c, e1, h1, e2, h2, env):
        env.d.clear()
        for k in list(e1) + [x for x in e2 if x not in e1]:
            if k in e1 and k in e2:
                env.d[k] = self.merge(c, e1[k], e2[k])
            else:
                env.d[k] = e1[k] if k in e1 else e2[k]
        for k in set(h1) | set(h2):
            obj = (h1.get(k) or h2.get(k))[0]
            old = (h1.get(k) or h2.get(k))[2]
            n1 = h1[k][1] if k in h1 else old
            n2 = h2[k][1] if k in h2 else old
            self.touch(obj)
            obj.restore(self.merge_content(c, obj, n1, n2))

    def merge_content(self, c, obj, n1, n2):
        if isinstance(obj, (Arr, PList)):
            a, b = _clone(obj, n1), _clone(obj, n2)
            m = self.merge(c, a, b)
            if isinstance(m, Unknown):
                raise Top(m.reason)
            return m.snapshot()
        r = {}
        for k in list(n1) + [x for x in n2 if x not in n1]:
            if k in n1 and k in n2:
                r[k] = self.merge(c, n1[k], n2[k])
            else:
                r[k] = n1[k] if k in n1 else n2[k]
        return r

    def assume(self, c, val):
        """Push the condition onto the path condition; returns undo count."""
        pol = c.pol == val
        self.pc.append((c.kind, c.p, pol))
        if c.kind == 'ge':
            t._assume.append(c.p if pol else -c.p - t.ONE)
            return 1
        return 0

    def unassume(self, n):
        self.pc.pop()
        for _ in range(n):
            t._assume.pop()

    def exec_stmt(self, s, env):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Top('statement %s' % type(s).__name__)
        return m(s, env) or ('next',)

    def s_Pass(self, s, env):
        pass

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def s_Assert(self, s, env):
        pass

    def s_Global(self, s, env):
        env.globals_ |= set(s.names)

    def s_Nonlocal(self, s, env):
        raise Top('nonlocal')

    def s_Delete(self, s, env):
        for x in s.targets:
            if isinstance(x, ast.Name):
                env.d.pop(x.id, None)

    def s_Import(self, s, env):
        for a in s.names:
            v = self.import_module(a.name if a.asname else a.name.split('.')[0])
            env.d[a.asname or a.name.split('.')[0]] = v
            if not a.asname and '.' in a.name and self.find(a.name):
                self.load(a.name)

    def s_ImportFrom(self, s, env):
        base = s.module or ''
        for a in s.names:
            m = self.load(base)
            if m is not None and a.name in m.env.d:
                env.d[a.asname or a.name] = m.env.d[a.name]
                continue
            sub = self.load(base + '.' + a.name)
            if sub is not None:
                env.d[a.asname or a.name] = sub
            else:
                env.d[a.asname or a.name] = self.import_module(base + '.' + a.name)

    def import_module(self, name):
        m = self.load(name)
        if m is not None:
            return m
        if any(prefix and name == prefix for prefix, d in self.roots):
            return PackageV(name)
        return LibMod(self.lib.canon(name))

    def s_FunctionDef(self, s, env):
        f = self.make_func(s, env)
        env.d[s.name] = f

    def make_func(self, s, env):
        kind = 'func'
        for d in s.decorator_list:
            nm = _dotted(d.func if isinstance(d, ast.Call) else d)
            if nm == 'staticmethod':
                kind = 'static'
            elif nm == 'classmethod':
                kind = 'class'
            elif nm == 'property':
                kind = 'property'
            elif nm in TRANSPARENT_DECORATORS or nm == 'partial' or nm == 'functools.partial':
                pass
            else:
                raise Top('decorator %s' % nm)
        defaults = [self.eval(d, env) for d in s.args.defaults]
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.eval(d, env)
        for d in defaults + list(kwd.values()):
            V.own(d, 'a default argument of %s' % s.name)
        return FuncV(s, env.module, env, s.name, defaults, kwd, kind)

    def s_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        c = ClassV(s.name, s, env.module, bases)
        sub = Env(env, env.module)
        for x in s.body:
            if isinstance(x, (ast.Expr, ast.Pass)):
                continue
            self.exec_block([x], sub)
        for k, v in sub.d.items():
            c.members[k] = v
            V.own(v, 'class state %s.%s' % (s.name, k))
            if isinstance(v, FuncV):
                v.name = '%s.%s' % (s.name, k)
                v.env = env
        env.d[s.name] = c

    def s_Return(self, s, env):
        v = self.eval(s.value, env) if s.value is not None else None
        define(v)
        return ('ret', v)

    def s_Raise(self, s, env):
        nm = '?'
        if s.exc is not None:
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            nm = _dotted(x)
        self.event('raise', nm)
        return ('raise', nm)

    def s_Break(self, s, env):
        return ('brk',)

    def s_Continue(self, s, env):
        return ('cont',)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        for tg in s.targets:
            self.assign(tg, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = type(s.op).__name__
        rhs = self.eval(s.value, env)
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.lookup(tg.id, env)
            r = self.inplace(op, old, rhs)
            if r is not old:
                env.d[tg.id] = r
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            old = self.getattr(o, tg.attr)
            r = self.inplace(op, old, rhs)
            if r is not old:
                self.setattr(o, tg.attr, r)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            ix = self.eval_index(tg.slice, env)
            old = self.getitem(o, ix)
            r = self.inplace(op, old, rhs) if isinstance(old, PList) else self.binop(op, old, rhs)
            if r is not old:
                self.setitem(o, ix, r)
        else:
            raise Top('augmented target')

    def inplace(self, op, old, rhs):
        if isinstance(old, PList) and op == 'Add':
            self.lib.list_extend(self, old, rhs)
            return old
        r = self.binop(op, old, rhs)
        if isinstance(old, Arr) and old.lib == 'np' and old.rank > 0 and isinstance(r, Arr):
            if op == 'MatMult':
                return r
            if r.rank != old.rank:
                raise ShapeError('in-place result of different rank at %s' % self.where())
            self.store_whole(old, r)
            return old
        return r

    def store_whole(self, obj, val):
        """numpy in-place store of val into all of obj."""
        self.mutate(obj, 'in-place')
        self.lib.check_narrow(self, obj, val)
        self.lib.write_through(self, obj, val)
        obj.body = val.at([t.var(v) for v in obj.vars])

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        seq = self.iterate(it)
        if s.orelse:
            raise Top('for-else')
        if isinstance(seq, list):
            if len(seq) > self.MAX_UNROLL:
                raise Top('explicit loop over %d items' % len(seq))
            for x in seq:
                self.assign(s.target, x, env)
                out = self.exec_block(s.body, env)
                if out[0] == 'brk':
                    break
                if out[0] in ('ret', 'raise'):
                    return out
            return
        return self.loops.sym_loop(self, seq, s.target, s.body, env)

    def s_While(self, s, env):
        for _ in range(self.MAX_UNROLL):
            c = self.truth(self.eval(s.test, env))
            if c is False:
                return
            if c is not True:
                if self.loops.counting_while(self, s, env):
                    return
                raise Top('while loop')
            out = self.exec_block(s.body, env)
            if out[0] == 'brk':
                return
            if out[0] in ('ret', 'raise'):
                return out
        raise Top('while loop')

    # ------------------------------------------------------------------
    # assignment
    def assign(self, tg, v, env):
        if isinstance(tg, ast.Name):
            define(v)
            if tg.id in env.globals_:
                self.event('mutate', ('global %s.%s' % (env.module.name, tg.id), 'assignment'))
                env.module.env.d[tg.id] = v
            else:
                env.d[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if isinstance(v, Unknown):
                for x in tg.elts:
                    self.assign(x, v, env)
                return
            items = self.unpack(v, len(tg.elts), [isinstance(x, ast.Starred) for x in tg.elts])
            for x, y in zip(tg.elts, items):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(tg, ast.Attribute):
            o = self.eval(tg.value, env)
            self.setattr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.eval(tg.value, env)
            ix = self.eval_index(tg.slice, env)
            self.setitem(o, ix, v)
        else:
            raise Top('assignment target %s' % type(tg).__name__)

    def unpack(self, v, n, starred):
        seq = self.iterate(v)
        if not isinstance(seq, list):
            k = t.int_val(seq.length)
            if k is None:
                if any(starred):
                    raise Top('starred unpacking of a symbolic sequence')
                d = V.same_len(seq.length, t.const(n))
                if d is False and t.const_val(seq.length - t.const(n)) is not None:
                    raise ShapeError('unpacking %s values into %d names' % (t.show(seq.length), n))
                k = n
            seq = [vsubst(seq.elem, {seq.var: t.const(i)}) for i in range(k)]
        if any(starred):
            p = starred.index(True)
            after = n - p - 1
            if len(seq) < n - 1:
                raise ShapeError('unpacking %d values into %d names at %s' % (len(seq), n, self.where()))
            return seq[:p] + [PList(seq[p:len(seq) - after])] + seq[len(seq) - after:]
        if len(seq) != n:
            raise ShapeError('unpacking %d values into %d names at %s' % (len(seq), n, self.where()))
        return seq

    def attr_store(self, o, nm, v):
        """Record a store into an attribute of an object that existed
        before the current operation."""
        self.attr_log.append((o, nm, v, o.attrs.get(nm), (id(o), nm) in self.attr_reads, self.where()))

    def setattr(self, o, nm, v):
        if isinstance(o, ObjV):
            self.touch(o)
            if self.owned is not None and o.tag:
                self.attr_store(o, nm, v)
            o.attrs[nm] = v
            return
        if isinstance(o, Unknown):
            return
        self.event('mutate', ('%s %s' % (type(o).__name__, getattr(o, 'name', '')), 'attribute %s' % nm))
        raise Top('attribute store on %s' % type(o).__name__)

    def setitem(self, o, ix, v):
        self.lib.setitem(self, o, ix, v)

    def getitem(self, o, ix):
        return self.lib.getitem(self, o, ix)

    # ------------------------------------------------------------------
    # expressions
    def eval(self, x, env):
        m = getattr(self, 'e_' + type(x).__name__, None)
        if m is None:
            raise Top('expression %s' % type(x).__name__)
        return m(x, env)

    def e_Constant(self, x, env):
        v = x.value
        if isinstance(v, (bool, int, float)):
            return num(v)
        return v

    def lookup(self, nm, env):
        e = env
        while e is not None:
            if nm in e.d:
                return e.d[nm]
            e = e.parent
        m = env.module
        if m is not None and nm in m.env.d:
            return m.env.d[nm]
        b = self.lib.BUILTINS.get(nm)
        if b is not None:
            return b
        if hasattr(builtins, nm) or m is None or m.name.startswith('specs') or not self.stack or nm.startswith('_') \
                or self.handles_errors():
            raise Top('name %s is not bound' % nm)
        raise Raised('NameError: name %s is not bound at %s' % (nm, self.where()))

    def handles_errors(self):
        for f in self.stack:
            k = id(f.node)
            if k not in _tries:
                _tries[k] = (f.node, any(isinstance(x, (ast.Try, ast.Delete)) for x in ast.walk(f.node)))
            if _tries[k][1]:
                return True
        return False

    def e_Name(self, x, env):
        return self.lookup(x.id, env)

    def e_Attribute(self, x, env):
        o = self.eval(x.value, env)
        return self.getattr(o, x.attr)

    def getattr(self, o, nm):
        if isinstance(o, ObjV):
            if self.owned is not None and o.tag:
                self.attr_reads.add((id(o), nm))
            if nm in o.attrs:
                return o.attrs[nm]
            if o.cls is not None:
                f = o.cls.lookup(nm)
                if f is not None:
                    if isinstance(f, FuncV):
                        if f.kind == 'static':
                            return f
                        if f.kind == 'class':
                            return Bound(o.cls, f)
                        if f.kind == 'property':
                            return self.call(f, [o], {})
                        return Bound(o, f)
                    return f
            if nm == '__class__' and o.cls is not None:
                return o.cls
            if nm == '__dict__':
                return PDict(dict(o.attrs))
            raise Top('attribute %s of %r' % (nm, o))
        if isinstance(o, ClassV):
            f = o.lookup(nm)
            if f is None:
                if nm == '__name__':
                    return o.name
                raise Top('class attribute %s.%s' % (o.name, nm))
            if isinstance(f, FuncV) and f.kind == 'class':
                return Bound(o, f)
            return f
        if isinstance(o, ModuleV):
            if nm in o.env.d:
                return o.env.d[nm]
            sub = self.load(o.name + '.' + nm)
            if sub is not None:
                return sub
            raise Top('module attribute %s.%s' % (o.name, nm))
        if isinstance(o, PackageV):
            sub = self.load(o.name + '.' + nm)
            if sub is None:
                raise Top('module %s.%s' % (o.name, nm))
            return sub
        if isinstance(o, LibMod):
            return self.lib.lib_attr(o.path + '.' + nm)
        if isinstance(o, Unknown):
            return o
        return self.lib.value_attr(self, o, nm)

    def eval_index(self, x, env):
        if isinstance(x, ast.Tuple):
            return tuple(self.eval_index(y, env) for y in x.elts)
        if isinstance(x, ast.Slice):
            return SliceV(self.eval(x.lower, env) if x.lower else None,
                          self.eval(x.upper, env) if x.upper else None,
                          self.eval(x.step, env) if x.step else None)
        return self.eval(x, env)

    def e_Slice(self, x, env):
        return self.eval_index(x, env)

    def e_Subscript(self, x, env):
        o = self.eval(x.value, env)
        ix = self.eval_index(x.slice, env)
        return self.getitem(o, ix)

    def e_BinOp(self, x, env):
        a = self.eval(x.left, env)
        b = self.eval(x.right, env)
        return self.binop(type(x.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def e_UnaryOp(self, x, env):
        v = self.eval(x.operand, env)
        op = type(x.op).__name__
        if op == 'Not':
            c = self.truth(v)
            if c is True or c is False:
                return num(not c)
            return self.cond_value(c, False)
        return self.lib.unop(self, op, v)

    def cond_value(self, c, val=True):
        """Boolean scalar of a condition (== val)."""
        if c is True or c is False:
            return num(c == val)
        pol = c.pol == val
        return num(t.ite(c.kind, c.p, t.ONE if pol else t.ZERO, t.ZERO if pol else t.ONE), B)

    def e_BoolOp(self, x, env):
        is_and = isinstance(x.op, ast.And)
        acc = None
        undo = []
        try:
            for k, y in enumerate(x.values):
                v = self.eval(y, env)
                c = self.truth(v)
                if c is True or c is False:
                    if c != is_and:
                        # decides the result given the previous operands
                        if acc is None:
                            return v
                        return v if not isinstance(v, Arr) or True else v
                    if k == len(x.values) - 1 and acc is None:
                        return v
                    continue
                p = self.cond_value(c).body
                if acc is None:
                    acc = p
                elif is_and:
                    acc = t.pmul(acc, p)
                else:
                    acc = acc + p - t.pmul(acc, p)
                undo.append(self.assume(c, is_and))
        finally:
            for n in reversed(undo):
                self.unassume(n)
        if acc is None:
            return num(is_and)
        return num(acc, B)

    def e_Compare(self, x, env):
        left = self.eval(x.left, env)
        acc = None
        for op, y in zip(x.ops, x.comparators):
            right = self.eval(y, env)
            r = self.lib.compare(self, type(op).__name__, left, right)
            if acc is None:
                acc = r
            else:
                acc = self.lib.binop(self, 'Mult', acc, r)
                if isinstance(acc, Arr):
                    acc.dt = B
            left = right
        return acc

    def truth(self, v):
        """True, False or Cond."""
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, Arr):
            if v.rank:
                if all(t.int_val(l) == 1 for l in v.lens):
                    v = Arr((), (), v.at([t.ZERO] * v.rank), v.dt, v.lib)
                else:
                    raise Top('truth value of an array')
            p = v.body
            for kind, c, pol in self.pc:
                p = t.restrict(p, kind, c, pol)
            c = t.const_val(p)
            if c is not None:
                return c != 0
            it = t.as_ite(p)
            if it is not None:
                a, b = t.const_val(it.args[1]), t.const_val(it.args[2])
                if a == 1 and b == 0:
                    return self.known(it.head, it.args[0], True)
                if a == 0 and b == 1:
                    return self.known(it.head, it.args[0], False)
            if v.dt == B:
                return self.known('b', p, True)
            if t.is_int_term(p):
                n = t.norm_cond('eq', p)
                if n is True or n is False:
                    return not n
                return self.known(n[0], n[1], not n[2])
            return self.known('eq', p, False)
        if isinstance(v, (str, tuple, dict)):
            return bool(v)
        if isinstance(v, PList):
            n = v.len()
            d = t.decide_ge(n - t.ONE)
            if d is not None:
                return d
            return Cond('ge', n - t.ONE)
        if isinstance(v, PDict):
            return bool(v.d)
        if isinstance(v, Unknown):
            return Cond('b', t.top(v.reason))
        return True

    def known(self, kind, p, pol):
        for k2, p2, v2 in self.pc:
            r = t.implied(kind, p, k2, p2, v2)
            if r is not None:
                return r == pol
        return Cond(kind, p, pol)

    def e_IfExp(self, x, env):
        c = self.truth(self.eval(x.test, env))
        if c is True:
            return self.eval(x.body, env)
        if c is False:
            return self.eval(x.orelse, env)
        n = self.assume(c, True)
        try:
            a = self.eval(x.body, env)
        finally:
            self.unassume(n)
        n = self.assume(c, False)
        try:
            b = self.eval(x.orelse, env)
        finally:
            self.unassume(n)
        return self.merge(c, a, b)

    def e_Lambda(self, x, env):
        defaults = [self.eval(d, env) for d in x.args.defaults]
        return FuncV(x, env.module, env, '<lambda>', defaults)

    def e_Tuple(self, x, env):
        return tuple(self.expand(x.elts, env))

    def expand(self, elts, env):
        out = []
        for y in elts:
            if isinstance(y, ast.Starred):
                seq = self.iterate(self.eval(y.value, env))
                if not isinstance(seq, list):
                    raise Top('star of a symbolic sequence')
                out += seq
            else:
                out.append(self.eval(y, env))
        return out

    def e_List(self, x, env):
        return PList(self.expand(x.elts, env))

    def e_Set(self, x, env):
        raise Top('set display')

    def e_Dict(self, x, env):
        d = {}
        for k, v in zip(x.keys, x.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, PDict):
                    raise Top('dict unpacking')
                d.update(o.d)
                continue
            d[self.dkey(self.eval(k, env))] = self.eval(v, env)
        return PDict(d)

    def dkey(self, k):
        if isinstance(k, str):
            return k
        if isinstance(k, Arr) and k.rank == 0:
            c = t.const_val(k.body)
            if c is not None:
                return c
        if isinstance(k, tuple):
            return tuple(self.dkey(y) for y in k)
        raise Top('dictionary key %r' % (k,))

    def e_JoinedStr(self, x, env):
        parts = []
        for y in x.values:
            if isinstance(y, ast.Constant):
                parts.append(str(y.value))
            else:
                v = self.eval(y.value, env)
                if isinstance(v, str):
                    parts.append(v)
                else:
                    parts.append('{%s}' % ast.unparse(y.value))
        return ''.join(parts)

    def e_NamedExpr(self, x, env):
        v = self.eval(x.value, env)
        self.assign(x.target, v, env)
        return v

    def comp(self, gens, env, leaf):
        """List comprehension; returns PList."""
        g = gens[0]
        seq = self.iterate(self.eval(g.iter, env))
        if isinstance(seq, list):
            items = []
            for v in seq:
                sub = Env(env, env.module)
                self.assign(g.target, v, sub)
                ok = True
                for c in g.ifs:
                    r = self.truth(self.eval(c, sub))
                    if r is not True and r is not False:
                        raise Top('comprehension filter')
                    ok = ok and r
                if not ok:
                    continue
                if len(gens) > 1:
                    r = self.comp(gens[1:], sub, leaf)
                    if r.items is None:
                        raise Top('nested symbolic comprehension')
                    items += r.items
                else:
                    items.append(leaf(sub))
            return PList(items)
        if g.ifs or len(gens) > 1:
            raise Top('filtered comprehension over a symbolic range')
        jv = t.fresh(seq.length)
        v = vsubst(seq.elem, {seq.var: t.var(jv)})
        sub = Env(env, env.module)
        self.assign(g.target, v, sub)
        t._assume.append(seq.length - t.ONE)
        try:
            e = leaf(sub)
        finally:
            t._assume.pop()
        return PList(None, seq.length, jv, e)

    def e_ListComp(self, x, env):
        return self.comp(x.generators, env, lambda sub: self.eval(x.elt, sub))

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, x, env):
        r = self.comp(x.generators, env, lambda sub: (self.eval(x.key, sub), self.eval(x.value, sub)))
        if r.items is None:
            raise Top('symbolic dict comprehension')
        return PDict({self.dkey(k): v for k, v in r.items})

    # ------------------------------------------------------------------
    # iteration
    def iterate(self, v):
        """Explicit Python list of values, or Iter."""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Iter):
            n = t.int_val(v.length)
            if n is not None and n <= self.MAX_UNROLL:
                return [vsubst(v.elem, {v.var: t.const(k)}) for k in range(max(n, 0))]
            return v
        if isinstance(v, PList):
            if v.items is not None:
                return list(v.items)
            v = untail(v)
            return self.iterate(Iter(v.length, v.var, v.elem))
        if isinstance(v, Arr):
            if v.rank == 0:
                raise Top('iteration over a scalar')
            jv = t.fresh(v.lens[0])
            e = self.lib.getitem(self, v, num(t.var(jv)))
            return self.iterate(Iter(v.lens[0], jv, e))
        if isinstance(v, PDict):
            return [k if isinstance(k, (str, tuple)) else num(k) for k in v.d]
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Unknown):
            raise Top(v.reason)
        raise Top('iteration over %s' % type(v).__name__)

    # ------------------------------------------------------------------
    # calls
    def e_Call(self, x, env):
        f = self.eval(x.func, env)
        args = []
        for a in x.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env)
                if isinstance(v, Unknown):
                    raise Top(v.reason)
                seq = self.iterate(v)
                if not isinstance(seq, list):
                    raise Top('star argument of symbolic length')
                args += seq
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in x.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if not isinstance(v, PDict):
                    raise Top('** argument')
                kw.update(v.d)
            else:
                kw[k.arg] = v
        old = self.cur
        self.cur = x
        try:
            return self.call(f, args, kw)
        finally:
            self.cur = old

    def call(self, f, args, kw):
        self.calls += 1
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.obj] + list(args), kw)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw)
        if isinstance(f, PyFn):
            return f.fn(self, args, kw)
        if isinstance(f, LibFn) or isinstance(f, LibMod):
            return self.lib.call(self, f.path, args, kw)
        if isinstance(f, ObjV) and f.cls is not None:
            m = f.cls.lookup('__call__')
            if m is not None:
                return self.call_func(m, [f] + list(args), kw)
        if isinstance(f, DType):
            return self.lib.cast(self, args[0], f)
        if isinstance(f, Unknown):
            return f
        raise Top('call of %s' % type(f).__name__)

    def construct(self, c, args, kw):
        o = ObjV(c)
        init = c.lookup('__init__')
        if init is not None:
            self.call_func(init, [o] + list(args), kw)
        elif args or kw:
            raise ShapeError('%s() takes no arguments' % c.name)
        return o

    def bind(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise ShapeError('%s takes %d arguments, %d given at %s' %
                                 (f.name, len(names), len(args), self.where()))
            d[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            d[a.vararg.arg] = ()
        for n, v in zip(names, args):
            d[n] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in d:
                    raise ShapeError('%s got two values for %s at %s' % (f.name, k, self.where()))
                d[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise ShapeError('%s has no argument %s at %s' % (f.name, k, self.where()))
        if a.kwarg is not None:
            d[a.kwarg.arg] = PDict(extra)
        nd = len(f.defaults)
        for n, v in zip(names[len(names) - nd:], f.defaults):
            if n not in d:
                d[n] = v
        for k, v in f.kwdefaults.items():
            if k not in d:
                d[k] = v
        for n in names + kwonly:
            if n not in d:
                raise ShapeError('%s is missing argument %s at %s' % (f.name, n, self.where()))
        return d

    def generate(self, f, env):
        """All values a generator function produces (its consumers in this
        code base exhaust it without feeding values back)."""
        node = collected(f.node)
        if _is_generator(node):
            raise Top('yield as an expression in %s' % f.name)
        out = PList([])
        env.d['.produced'] = out
        r = self.exec_block(node.body, env)
        if r[0] == 'raise':
            raise Raised(r[1])
        if r[0] == 'ret' and r[1] is not None:
            raise Top('generator %s returns a value' % f.name)
        p = env.d['.produced']
        if isinstance(p, Unknown):
            raise Top(p.reason)
        return p

    def call_func(self, f, args, kw):
        q = None
        if f.module is not None:
            q = '%s.%s' % (f.module.name, f.name)
            h = self.intrinsics.get(q)
            if h is not None:
                return h(self, f, args, kw)
        if len(self.stack) > self.MAX_DEPTH:
            raise Top('call depth')
        if isinstance(f.node, ast.FunctionDef):
            active = sum(1 for g in self.stack if g.node is f.node)
            if active > 4:
                raise Top('recursion in %s' % f.name)
        env = Env(f.env, f.module)
        env.d.update(self.bind(f, args, kw))
        if q:
            self.functions_seen.add(q)
        self.stack.append(f)
        cur = self.cur
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if _is_generator(f.node):
                return self.generate(f, env)
            out = self.exec_block(f.node.body, env)
        finally:
            self.stack.pop()
            self.cur = cur
        if out[0] == 'ret':
            return out[1]
        if out[0] == 'raise':
            raise Raised(out[1])
        return None


class Raised(Top):
    """The call raises on every path."""


class _Collect(ast.NodeTransformer):
    """yield e  ->  append e to the list of produced values."""

    def visit_Expr(self, n):
        if not isinstance(n.value, ast.Yield):
            return self.generic_visit(n)
        v = n.value.value or ast.Constant(None)
        c = ast.Expr(ast.Call(ast.Attribute(ast.Name('.produced', ast.Load()), 'append', ast.Load()), [v], []))
        return ast.fix_missing_locations(ast.copy_location(c, n))

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_FunctionDef


_collected = {}
_tries = {}


def collected(node):
    r = _collected.get(id(node))
    if r is None:
        c = copy.deepcopy(node)
        c.body = [_Collect().visit(x) for x in c.body]
        r = _collected[id(node)] = (node, c)
    return r[1]


class PackageV(object):
    def __init__(self, name):
        self.name = name


_gen_cache = {}


def _is_generator(node):
    r = _gen_cache.get(id(node))
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(x))
        _gen_cache[id(node)] = r
    return r


def _clone(obj, content):
    if isinstance(obj, Arr):
        o = Arr((), (), t.ZERO, obj.dt, obj.lib)
    else:
        o = PList([])
    o.restore(content)
    return o


def _dotted(x):
    if isinstance(x, ast.Name):
        return x.id
    if isinstance(x, ast.Attribute):
        return _dotted(x.value) + '.' + x.attr
    return '?'
