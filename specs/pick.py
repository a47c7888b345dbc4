"""Reordering of reference results."""


def columns(elems, which):
    """k-th components of a list of tuples, stacked, for k in which."""
    return tuple([[e[k] for e in elems] for k in which])


def order(parts, which):
    return tuple([parts[k] for k in which])


def batch_combine(e1, e2):
    from specs.lqt import combine_abcej
    parts = [combine_abcej(*[x[j] for x in e1], *[x[j] for x in e2]) for j in range(len(e1[0]))]
    return tuple([[p[k] for p in parts] for k in (0, 1, 2, 3, 4)])


def batch_combine_f(e1, e2):
    from specs.lqt import combine_fc
    parts = [combine_fc(e1[0][j], e1[1][j], e2[0][j], e2[1][j]) for j in range(len(e1[0]))]
    return [p[0] for p in parts], [p[1] for p in parts]


def append(xs, x):
    return [xs[k] for k in range(len(xs))] + [x]
