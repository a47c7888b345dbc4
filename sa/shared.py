"""Obligations that decide more than one property.

An operation anchored by one property often carries part of another: the
blocks of the continuous problem are integration steps (C17), the generated
trajectories are tracking references (C16), the transformed backward pass is
the general form of the backward pass (C02).  Such obligations are decided
once and counted for both."""
from . import obl

SHARED = (
    # (counted for, decided under, target contains, name contains)
    ('C17', 'C07', '', ''),
    ('C17', 'C08', '_init', ''),
    ('C17', 'C12', 'fun_and_con', ''),
    ('C16', 'C18', 'model_np.py:', ''),
    ('C18', 'C16', 'genData', ''),
    ('C16', 'C15', 'model_np.py:', ''),
    ('C16', 'C15', 'model_tf.py:', ''),
    ('C15', 'C16', 'nonlinear_model', ''),
    ('C02', 'C05', 'seqTransformedBackwardPass', ''),
    ('C02', 'C05', 'lqt_gen_to_canon', ''),
    ('C02', 'C05', 'lqt_canon_to_gen', ''),
    ('C02', 'C05', 'lqt_seq_backwardpass', ''),
    ('C15', 'C04', 'seqSimulation', ''),
)

def apply():
    for i, (props, target, name, f) in enumerate(obl.REG):
        more = [c for c, d, tg, nm in SHARED if d in props and c not in props and tg in target and nm in name]
        if more:
            obl.REG[i] = (props + tuple(dict.fromkeys(more)), target, name, f)
