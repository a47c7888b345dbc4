"""Obligations for parallel_control/fsc_np.py and fsc_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t

MN = 'parallel_control/fsc_np.py:'
MF = MN + 'FSC.'
MT = 'parallel_control/fsc_tf.py:'


def model(h, lib='np'):
    h.dim('x', 2)
    h.dim('u', 2)
    N, x, u = h.dim('N', 1), h.dim('x'), h.dim('u')
    h.index('f', x)
    if lib == 'np':
        f = h.seq('f', N, x, u, int=1)
        L = h.seq('L', N, x, u)
    else:
        f = h.arr('f', N, x, u, nat=1, lib='tf')
        L = h.arr('L', N, x, u, lib='tf')
    LT = h.arr('LT', x, lib=lib)
    o = h.obj('fsc_np', 'FSC', dict(f=f, L=L, LT=LT, gamma=num(t.ONE, F)))
    return o, f, L, LT


def start(h, lib='np'):
    h.index('x0', h.dim('x'))
    return make([], lambda: t.sym('x0'), I, lib)


def policy(h, lib='np'):
    h.index('us', h.dim('u'))
    N, x = h.dim('N'), h.dim('x')
    if lib == 'np':
        return h.seq('us', N, x, int=1)
    return h.arr('us', N, x, nat=1, lib='tf')


def values(h, lib='np'):
    N, x = h.dim('N') + t.ONE, h.dim('x')
    return h.seq('V', N, x) if lib == 'np' else h.arr('V', N, x, lib='tf')


def elems(h, n, lib='np'):
    x = h.dim('x')
    return h.seq('E', n, x, x) if lib == 'np' else h.arr('E', n, x, x, lib='tf')


@ob('C10', MF + 'seqBackwardPass')
def fsc_np_backward(h):
    o, f, L, LT = model(h)
    h.same(h.method(o, 'seqBackwardPass'), h.spec('fsc', 'seq_backward', f, L, LT))


@ob('C10', MF + 'seqForwardPass')
def fsc_np_forward(h):
    o, f, L, LT = model(h)
    x0, us = start(h), policy(h)
    h.same(h.method(o, 'seqForwardPass', x0, us), h.spec('fsc', 'simulate', f, x0, us))


@ob('C10', MF + 'seqSimulation')
def fsc_np_simulation(h):
    o, f, L, LT = model(h)
    x0 = start(h)
    h.index('uo', h.dim('u'))
    us = h.seq('uo', h.dim('N'), int=1)
    h.same(h.method(o, 'seqSimulation', x0, us), h.spec('fsc', 'open_loop', f, x0, us))


@ob('C10', MF + 'parBackwardPass_init')
def fsc_np_elements(h):
    o, f, L, LT = model(h)
    E = h.spec('fsc', 'elements', f, L)
    h.same(h.method(o, 'parBackwardPass_init'), h.spec('pick', 'append', E, h.spec('fsc', 'last', LT)))


@ob('C10', MN + 'combine_V')
def fsc_np_combine(h):
    x = h.dim('x', 2)
    a, b = h.arr('A', x, x), h.arr('B', x, x)
    h.same(h.func('fsc_np', 'combine_V', a, b), h.spec('fsc', 'combine', a, b))


@ob('C10', MN + 'combine_f')
def fsc_np_combine_f(h):
    x = h.dim('x', 2)
    h.index('A', x)
    h.index('B', x)
    a, b = h.arr('A', x, nat=1), h.arr('B', x, nat=1)
    h.same(h.func('fsc_np', 'combine_f', a, b), h.spec('fsc', 'combine_f', a, b))


@ob('C10', MF + 'parBackwardPass_extract')
def fsc_np_extract(h):
    o, f, L, LT = model(h)
    E = elems(h, h.dim('N') + t.ONE)
    h.same(h.method(o, 'parBackwardPass_extract', E), h.spec('fsc', 'extract', E, f, L))


@ob('C10', MF + 'parBackwardPass')
def fsc_np_par_backward(h):
    o, f, L, LT = model(h)
    h.same(h.method(o, 'parBackwardPass'), h.spec('fsc', 'par_backward', f, L, LT))


@ob('C10', MF + 'parForwardPass_init')
def fsc_np_forward_elements(h):
    o, f, L, LT = model(h)
    x0, us = start(h), policy(h)
    h.same(h.method(o, 'parForwardPass_init', x0, us), h.spec('fsc', 'forward_elements', x0, f, us))


@ob('C10', MF + 'parForwardPass_extract')
def fsc_np_forward_extract(h):
    o, f, L, LT = model(h)
    us = policy(h)
    h.index('E', h.dim('x'))
    E = h.seq('E', h.dim('N') + t.ONE, h.dim('x'), int=1)
    h.same(h.method(o, 'parForwardPass_extract', E, us), h.spec('fsc', 'extract_forward', E, us))


@ob('C10', MF + 'parForwardPass')
def fsc_np_par_forward(h):
    o, f, L, LT = model(h)
    x0, us = start(h), policy(h)
    h.same(h.method(o, 'parForwardPass', x0, us), h.spec('fsc', 'par_forward', x0, f, us))


@ob('C10', MF + 'parFwdBwdPass_init')
def fsc_np_fwdbwd_elements(h):
    o, f, L, LT = model(h)
    x0 = start(h)
    h.same(h.method(o, 'parFwdBwdPass_init', x0), h.spec('fsc', 'fwdbwd_elements', x0, f, L))


@ob('C10', MF + 'parFwdBwdPass_extract')
def fsc_np_fwdbwd_extract(h):
    o, f, L, LT = model(h)
    us, V, E = policy(h), values(h), elems(h, h.dim('N') + t.ONE)
    h.same(h.method(o, 'parFwdBwdPass_extract', E, us, V), h.spec('fsc', 'extract_fwdbwd', E, us, V))


@ob('C10', MF + 'parFwdBwdPass')
def fsc_np_par_fwdbwd(h):
    o, f, L, LT = model(h)
    x0, us, V = start(h), policy(h), values(h)
    h.same(h.method(o, 'parFwdBwdPass', x0, us, V), h.spec('fsc', 'par_fwdbwd', x0, f, L, us, V))


@ob('C10', MF + 'parFwdBwdPass2_extract')
def fsc_np_fwdbwd2_extract(h):
    o, f, L, LT = model(h)
    x0, us, V, E = start(h), policy(h), values(h), elems(h, h.dim('N'))
    h.same(h.method(o, 'parFwdBwdPass2_extract', x0, E, us, V), h.spec('fsc', 'extract_fwdbwd2', x0, E, us, V))


@ob('C10', MF + 'parFwdBwdPass2')
def fsc_np_par_fwdbwd2(h):
    o, f, L, LT = model(h)
    x0, us, V = start(h), policy(h), values(h)
    h.same(h.method(o, 'parFwdBwdPass2', x0, us, V), h.spec('fsc', 'par_fwdbwd2', x0, f, L, us, V))


@ob('C10', MF + 'cost')
def fsc_np_cost(h):
    o, f, L, LT = model(h)
    h.index('xs', h.dim('x'))
    h.index('uo', h.dim('u'))
    xs, us = h.seq('xs', h.dim('N') + t.ONE, int=1), h.seq('uo', h.dim('N'), int=1)
    h.same(h.method(o, 'cost', xs, us), h.spec('fsc', 'cost', f, L, LT, xs, us))


@ob('C10', MF + 'batch_solution', 'fsc_np_batch two steps, two controls')
def fsc_np_batch(h):
    h.dim('x', 2)
    x, two = h.dim('x'), t.const(2)
    fs, Ls = [], []
    for k in range(2):
        h.index('f%d' % k, x)
        fs.append(h.arr('f%d' % k, x, two, nat=1))
        Ls.append(h.arr('L%d' % k, x, two))
    LT = h.arr('LT', x)
    x0 = start(h)
    o = h.obj('fsc_np', 'FSC', dict(f=PList(fs), L=PList(Ls), LT=LT, gamma=num(t.ONE, F)))
    h.same(h.method(o, 'batch_solution', x0), h.spec('fsc', 'enumerate2', PList(fs), PList(Ls), LT, x0))


for _gf in (0, 1):
    for _gL in (0, 1):
        for _gT in (0, 1):
            def _f(h, gf=_gf, gL=_gL, gT=_gT):
                o, f, L, LT = model(h)
                x, u, N = h.dim('x'), h.dim('u'), h.int(h.dim('N'))
                h.index('fc', x)
                f1 = f if gf else h.arr('fc', x, u, nat=1)
                L1 = L if gL else h.arr('Lc', x, u)
                c = h.cls('fsc_np', 'FSC')
                kw = dict(T=N)
                if gT:
                    kw['LT'] = LT
                r = h.method(c, 'checkAndExpand', f1, L1, **kw)
                h.same(h.ip.getattr(r, 'f'), h.spec('fsc', 'expand_list', f1, N, bool(gf)), 'f')
                h.same(h.ip.getattr(r, 'L'), h.spec('fsc', 'expand_list', L1, N, bool(gL)), 'L')
                h.same(h.ip.getattr(r, 'LT'), LT if gT else make([x], lambda i: t.ONE, F, 'np'), 'LT')
            ob('C10', MF + 'checkAndExpand', 'fsc_np_expand f %s, L %s, LT %s' % (
                'list' if _gf else 'one', 'list' if _gL else 'one', 'given' if _gT else 'default'))(_f)


# ---- TensorFlow

def order(h, r, *w):
    return h.spec('pick', 'order', r, w)


@ob('C10', MT + 'fsc_seq_backwardpass')
def fsc_tf_backward(h):
    o, f, L, LT = model(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_seq_backwardpass', f, L, LT), h.spec('fsc', 'seq_backward', f, L, LT))


@ob('C10', MT + 'fsc_seq_forwardpass')
def fsc_tf_forward(h):
    o, f, L, LT = model(h, 'tf')
    x0, us = start(h, 'tf'), policy(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_seq_forwardpass', x0, f, us), order(h, h.spec('fsc', 'simulate', f, x0, us), 1, 0))


@ob('C10', MT + 'fsc_par_backwardpass_init_most')
def fsc_tf_elements(h):
    o, f, L, LT = model(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_par_backwardpass_init_most', f, L), h.spec('fsc', 'elements', f, L))


@ob('C10', MT + 'fsc_par_backwardpass_init_last')
def fsc_tf_last(h):
    LT = h.arr('LT', h.dim('x', 2), lib='tf')
    h.same(h.func('fsc_tf', 'fsc_par_backwardpass_init_last', LT), h.spec('fsc', 'last', LT))


for _n, _r in (('fsc_par_comb_V', False), ('fsc_par_comb_V_rev', True)):
    def _f(h, n=_n, r=_r):
        x = h.dim('x', 2)
        a, b = h.arr('A', h.dim('Bt', 1), x, x, lib='tf'), h.arr('B', h.dim('Bt', 1), x, x, lib='tf')
        h.same(h.func('fsc_tf', n, *((b, a) if r else (a, b))), h.spec('fsc', 'batch_combine', a, b))
    ob('C10', MT + _n, 'fsc_tf_combine' + ('_rev' if _r else ''))(_f)


@ob('C10', MT + 'fsc_par_backwardpass')
def fsc_tf_par_backward(h):
    o, f, L, LT = model(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_par_backwardpass', f, L, LT), h.spec('fsc', 'par_backward', f, L, LT))


@ob('C10', MT + 'fsc_par_forwardpass_init_first')
def fsc_tf_forward_first(h):
    x = h.dim('x', 2)
    x0 = start(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_par_forwardpass_init_first', x0, h.int(x)), h.spec('fsc', 'constant_map', x0, h.int(x)))


@ob('C10', MT + 'fsc_par_forwardpass_init_most')
def fsc_tf_forward_elements(h):
    o, f, L, LT = model(h, 'tf')
    us = policy(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_par_forwardpass_init_most', f, us), h.spec('fsc', 'policy_maps', f, us))


@ob('C10', MT + 'fsc_par_comb_f')
def fsc_tf_combine_f(h):
    x, n = h.dim('x', 2), h.dim('Bt', 1)
    h.index('A', x)
    h.index('B', x)
    a, b = h.arr('A', n, x, nat=1, lib='tf'), h.arr('B', n, x, nat=1, lib='tf')
    h.same(h.func('fsc_tf', 'fsc_par_comb_f', a, b), h.spec('fsc', 'batch_combine_f', a, b))


@ob('C10', MT + 'fsc_par_forwardpass')
def fsc_tf_par_forward(h):
    o, f, L, LT = model(h, 'tf')
    x0, us = start(h, 'tf'), policy(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_par_forwardpass', x0, f, us), h.spec('fsc', 'par_forward', x0, f, us))


@ob('C10', MT + 'fsc_par_fwdbwdpass_init_first')
def fsc_tf_fwdbwd_first(h):
    o, f, L, LT = model(h, 'tf')
    x0 = start(h, 'tf')
    L0 = h.arr('L0', h.dim('x'), h.dim('u'), lib='tf')
    h.same(h.func('fsc_tf', 'fsc_par_fwdbwdpass_init_first', x0, L0), h.spec('fsc', 'first', x0, h.int(h.dim('x'))))


@ob('C10', MT + 'fsc_par_fwdbwdpass_init_most')
def fsc_tf_fwdbwd_elements(h):
    o, f, L, LT = model(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_par_fwdbwdpass_init_most', f, L), h.spec('fsc', 'elements', f, L))


@ob('C10', MT + 'fsc_par_fwdbwdpass')
def fsc_tf_par_fwdbwd(h):
    o, f, L, LT = model(h, 'tf')
    x0, us, V = start(h, 'tf'), policy(h, 'tf'), values(h, 'tf')
    h.same(h.func('fsc_tf', 'fsc_par_fwdbwdpass', x0, f, L, us, V), h.spec('fsc', 'par_fwdbwd', x0, f, L, us, V))


@ob('C10', MT + 'fsc_np_to_tf')
def fsc_to_tf(h):
    o, f, L, LT = model(h)
    h.same(h.func('fsc_tf', 'fsc_np_to_tf', o), (f, L, LT))


# ---- the reference formulations agree with one another

@ob('C10', 'reference', 'fsc value functions from composed elements')
def fsc_lemma(h):
    o, f, L, LT = model(h)
    h.same(h.spec('fsc', 'par_backward', f, L, LT), h.spec('fsc', 'seq_backward', f, L, LT))
