"""Obligations for parallel_control/viterbi_np.py and viterbi_tf.py."""
from ..obl import ob
from ..values import *
from .. import terms as t
from . import fsc

MN = 'parallel_control/viterbi_np.py:Viterbi_np.'
MT = 'parallel_control/viterbi_tf.py:'


def hmm(h, lib='np'):
    x, y, N = h.dim('x', 2), h.dim('y', 2), h.dim('N', 1)
    h.index('ys', y)
    h.positive('prior', 'Pi', 'Po')
    prior, Pi, Po = h.arr('prior', x, lib=lib), h.arr('Pi', x, x, lib=lib), h.arr('Po', x, y, lib=lib)
    ys = h.arr('ys', N, nat=1, lib=lib)
    o = h.obj('viterbi_np', 'Viterbi_np', dict(prior=prior, Pi=Pi, Po=Po)) if lib == 'np' else None
    return o, (prior, Pi, Po), ys


@ob('C11', MN + 'ref_viterbi')
def vit_ref(h):
    o, p, ys = hmm(h)
    h.same(h.method(o, 'ref_viterbi', ys), h.spec('viterbi', 'viterbi_prob', *p, ys))


for _n in ('ref_viterbi_log', 'ref_viterbi_log_v2', 'seqViterbi'):
    def _f(h, n=_n):
        o, p, ys = hmm(h)
        h.same(h.method(o, n, ys), h.spec('viterbi', 'viterbi', *p, ys))
    ob('C11', MN + _n, 'vit_' + _n)(_f)


@ob('C11', MN + 'getFSC')
def vit_fsc(h):
    o, p, ys = hmm(h)
    r = h.method(o, 'getFSC', ys)
    f, L, LT = h.spec('viterbi', 'as_control', *p, ys)
    h.same(h.ip.getattr(r, 'f'), f, 'f')
    h.same(h.ip.getattr(r, 'L'), L, 'L')
    h.same(h.ip.getattr(r, 'LT'), LT, 'LT')


@ob('C11', MN + 'fscToViterbi')
def vit_from_fsc(h):
    o, p, ys = hmm(h)
    h.index('xs', h.dim('x'))
    xs, V = h.seq('xs', h.dim('N') + t.ONE, int=1), h.seq('V', h.dim('N') + t.ONE, h.dim('x'))
    h.same(h.method(o, 'fscToViterbi', xs, V), (h.spec('viterbi', 'rev', xs), h.spec('viterbi', 'rev', V)))


@ob('C11', MN + 'parBwdFwdViterbi')
def vit_par(h):
    o, p, ys = hmm(h)
    f, L, LT = h.spec('viterbi', 'as_control', *p, ys)
    h.same(h.method(o, 'parBwdFwdViterbi', ys), h.spec('viterbi', 'control_viterbi', f, L, LT, True))


@ob('C11', MN + 'parBwdFwdBwdViterbi')
def vit_par_values(h):
    o, p, ys = hmm(h)
    f, L, LT = h.spec('viterbi', 'as_control', *p, ys)
    h.same(h.method(o, 'parBwdFwdBwdViterbi', ys), h.spec('viterbi', 'control_viterbi_values', f, L, LT))


# ---- TensorFlow, through the control problem

def fsc_args(h):
    o, f, L, LT = fsc.model(h, 'tf')
    return f, L, LT


for _n, _s, _a in (('viterbi_fsc_seq_bwfw', 'control_viterbi', (False,)), ('viterbi_fsc_par_bwfw', 'control_viterbi', (True,)),
                   ('viterbi_fsc_par_bwfwbw', 'control_viterbi_values', ())):
    def _f(h, n=_n, s=_s, a=_a):
        f = fsc_args(h)
        h.same(h.func('viterbi_tf', n, *f), h.spec('viterbi', s, *f, *a))
    ob('C11', MT + _n, _n)(_f)


@ob('C11', MT + 'get_viterbi_from_fsc')
def vit_tf_from_fsc(h):
    h.index('xs', h.dim('x', 2))
    n = h.dim('N', 1) + t.ONE
    xs, V = h.arr('xs', n, nat=1, lib='tf'), h.arr('V', n, h.dim('x'), lib='tf')
    h.same(h.func('viterbi_tf', 'get_viterbi_from_fsc', xs, V), (h.spec('viterbi', 'rev', xs), h.spec('viterbi', 'rev', V)))


@ob('C11', MT + 'make_viterbi_fsc')
def vit_tf_make(h):
    o, p, ys = hmm(h)
    h.same(h.func('viterbi_tf', 'make_viterbi_fsc', o, ys), h.spec('viterbi', 'as_control', *p, ys))


# ---- TensorFlow, direct

def policy(h):
    h.index('us', h.dim('x', 2))
    return h.arr('us', h.dim('N', 1), h.dim('x'), nat=1, lib='tf')


def final_value(h):
    return h.arr('VT', h.dim('x', 2), lib='tf')


@ob('C11', MT + 'viterbi_seq_forwardpass')
def vit_tf_forward(h):
    o, p, ys = hmm(h, 'tf')
    h.same(h.func('viterbi_tf', 'viterbi_seq_forwardpass', *p, ys), h.spec('viterbi', 'forward', *p, ys))


@ob('C11', MT + 'viterbi_seq_backwardpass')
def vit_tf_backward(h):
    us, VT = policy(h), final_value(h)
    h.same(h.func('viterbi_tf', 'viterbi_seq_backwardpass', us, VT), h.spec('viterbi', 'backtrack', us, VT))


@ob('C11', MT + 'viterbi_seq_fwbw')
def vit_tf_seq(h):
    o, p, ys = hmm(h, 'tf')
    h.same(h.func('viterbi_tf', 'viterbi_seq_fwbw', *p, ys), h.spec('viterbi', 'viterbi', *p, ys))


@ob('C11', MT + 'viterbi_par_forwardpass_init')
def vit_tf_elements(h):
    o, p, ys = hmm(h, 'tf')
    h.same(h.func('viterbi_tf', 'viterbi_par_forwardpass_init', *p, ys), h.spec('viterbi', 'forward_elements', *p, ys))


for _n, _r in (('viterbi_par_comb_V', False), ('viterbi_par_comb_V_rev', True)):
    def _f(h, n=_n, r=_r):
        x = h.dim('x', 2)
        a, b = h.arr('A', h.dim('Bt', 1), x, x, lib='tf'), h.arr('B', h.dim('Bt', 1), x, x, lib='tf')
        h.same(h.func('viterbi_tf', n, *((b, a) if r else (a, b))), h.spec('fsc', 'batch_combine', a, b))
    ob('C11', MT + _n, _n)(_f)


@ob('C11', MT + 'viterbi_par_comb_f')
def vit_tf_comb_f(h):
    x, n = h.dim('x', 2), h.dim('Bt', 1)
    h.index('A', x)
    h.index('B', x)
    a, b = h.arr('A', n, x, nat=1, lib='tf'), h.arr('B', n, x, nat=1, lib='tf')
    h.same(h.func('viterbi_tf', 'viterbi_par_comb_f', a, b), h.spec('fsc', 'batch_combine_f', a, b))


@ob('C11', MT + 'viterbi_par_forwardpass')
def vit_tf_par_forward(h):
    o, p, ys = hmm(h, 'tf')
    h.same(h.func('viterbi_tf', 'viterbi_par_forwardpass', *p, ys), h.spec('viterbi', 'par_forward', *p, ys))


@ob('C11', MT + 'viterbi_par_backwardpass_init')
def vit_tf_back_elements(h):
    us, VT = policy(h), final_value(h)
    h.same(h.func('viterbi_tf', 'viterbi_par_backwardpass_init', us, VT), h.spec('viterbi', 'backward_elements', us, VT))


@ob('C11', MT + 'viterbi_par_backwardpass')
def vit_tf_par_backward(h):
    us, VT = policy(h), final_value(h)
    h.same(h.func('viterbi_tf', 'viterbi_par_backwardpass', us, VT), h.spec('viterbi', 'backtrack', us, VT))


for _n in ('viterbi_par_fwbw', 'viterbi_seqpar_fwbw'):
    def _f(h, n=_n):
        o, p, ys = hmm(h, 'tf')
        h.same(h.func('viterbi_tf', n, *p, ys), h.spec('viterbi', 'par_fwbw', *p, ys))
    ob('C11', MT + _n, _n)(_f)


@ob('C11', MT + 'viterbi_par_bwfwpass_init')
def vit_tf_bwfw_elements(h):
    o, p, ys = hmm(h, 'tf')
    h.same(h.func('viterbi_tf', 'viterbi_par_bwfwpass_init', *p, ys), h.spec('viterbi', 'bwfw_elements', *p, ys))


@ob('C11', MT + 'viterbi_par_bwfwpass')
def vit_tf_bwfw(h):
    o, p, ys = hmm(h, 'tf')
    V = h.arr('V', h.dim('N') + t.ONE, h.dim('x'), lib='tf')
    h.same(h.func('viterbi_tf', 'viterbi_par_bwfwpass', *p, ys, V), h.spec('viterbi', 'par_bwfw', *p, ys, V))


@ob('C11', MT + 'viterbi_par_fwbwfw')
def vit_tf_fwbwfw(h):
    o, p, ys = hmm(h, 'tf')
    h.same(h.func('viterbi_tf', 'viterbi_par_fwbwfw', *p, ys), h.spec('viterbi', 'par_fwbwfw', *p, ys))


# ---- the reference formulations agree with one another

@ob('C11', 'reference', 'viterbi as a control problem')
def vit_lemma_control(h):
    o, p, ys = hmm(h)
    f, L, LT = h.spec('viterbi', 'as_control', *p, ys)
    h.same(h.spec('viterbi', 'control_viterbi', f, L, LT, True), h.spec('viterbi', 'viterbi', *p, ys))


@ob('C11', 'reference', 'viterbi through prefix minima')
def vit_lemma_prefix(h):
    o, p, ys = hmm(h)
    h.same(h.spec('viterbi', 'par_fwbw', *p, ys), h.spec('viterbi', 'viterbi', *p, ys))


@ob('C11', 'reference', 'viterbi max-product path')
def vit_lemma_maxproduct(h):
    o, p, ys = hmm(h)
    h.same(h.spec('viterbi', 'par_fwbwfw', *p, ys), h.spec('viterbi', 'viterbi', *p, ys))
