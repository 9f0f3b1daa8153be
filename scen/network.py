"""S23: contraction of labelled tensor networks."""
import itertools
import numpy as np
from vt.env import scenario

# name: (labels per tensor, dimension of every label)
NETS = {
    'product': ([[-1, 1], [1, -2]], {1: 3}),
    'matrix element': ([[1], [1, 2], [2]], {1: 3, 2: 2}),
    'chain of three': ([[-1, 1, -4], [1, -2, 2], [2, -3]], {1: 3, 2: 2}),
    'two bonds at once': ([[-2, 1, 2], [2, 1, -1]], {1: 2, 2: 3}),
    'layer': ([[1, 3, -1], [1, -2, 2], [3, -4, 4], [2, 4, -3]], {1: 2, 2: 3, 3: 2, 4: 2}),
    'triangle': ([[1, 2, -1], [2, 3, -2], [3, 1]], {1: 2, 2: 3, 3: 2}),
    'trace': ([[1, 1]], {1: 3}),
    'partial trace': ([[-2, 1, -1, 1]], {1: 3}),
    'two traces': ([[1, -1, 2, 1, 2]], {1: 2, 2: 3}),
    'trace and product': ([[1, -1, 1, 2], [2, -2]], {1: 3, 2: 2}),
    'trace on the second': ([[2, -2], [-1, 1, 2, 1]], {1: 3, 2: 2}),
    'disconnected': ([[-1, 1], [1], [2, -2], [2]], {1: 2, 2: 3}),
    'disconnected with gaps': ([[-1, 1], [1, -2], [-3, 3], [3]], {1: 3, 3: 2}),
    'two scalars with gaps': ([[2], [2], [5, 1], [5, 1]], {2: 2, 5: 3, 1: 2}),
    'three parts with gaps': ([[-1, 2], [2], [4, -2], [4], [7], [7, -3]], {2: 2, 4: 3, 7: 2}),
    'outer': ([[-3, -1], [-2]], {}),
    'three scalars': ([[1], [1], [2], [2], [3, 3]], {1: 2, 2: 3, 3: 2}),
    'permutation only': ([[-3, -1, -2]], {}),
    'scalar times tensor': ([[], [-2, -1]], {}),
    'gaps in labels': ([[-5, 7], [7, 3], [3, -2]], {7: 2, 3: 3}),
    'unit bonds': ([[-1, 1], [1, 2], [2, 3, -2], [3]], {1: 1, 2: 2, 3: 1}),
    'square with legs': ([[1, 2, -1], [2, 3, -2], [3, 4, -3], [4, 1, -4]], {1: 2, 2: 2, 3: 2, 4: 2}),
}
OPEN = {-1: 2, -2: 3, -3: 2, -4: 1, -5: 2}


def reference(E, labels, ts, out):
    """explicit sum over all values of the positive labels"""
    dims = {}
    for l, t in zip(labels, ts):
        for x, n in zip(l, np.shape(t)):
            dims[x] = n
    pos = [x for x in dims if x > 0]
    res = np.zeros([dims[x] for x in out], dtype=object if E.symbolic else complex)
    for ov in itertools.product(*[range(dims[x]) for x in out]):
        acc = 0
        for iv in itertools.product(*[range(dims[x]) for x in pos]):
            v = dict(zip(out, ov))
            v.update(zip(pos, iv))
            term = 1
            for l, t in zip(labels, ts):
                term = term * t[tuple(v[x] for x in l)]
            acc = acc + term
        res[ov] = acc
    return res


def network(E, net):
    labels, dims = NETS[net]
    dims = {**OPEN, **dims}
    return labels, [E.tensor('T%d' % k, [dims[x] for x in l]) for k, l in enumerate(labels)]


@scenario('S23', params=[dict(net=n) for n in NETS])
def contraction(E, net):
    """default order, every explicit order, every order of the open legs; arguments are left alone"""
    labels, ts = network(E, net)
    before = [np.array(t) for t in ts]
    pos, neg = sorted({x for l in labels for x in l if x > 0}), sorted({x for l in labels for x in l if x < 0}, reverse=True)
    ref = reference(E, labels, ts, neg)
    f = E.ncon.ncon
    E.eq('default', f(ts, labels), ref)
    E.eq('tuples', f(tuple(ts), tuple(tuple(l) for l in labels)), ref)
    E.eq('unchecked', f(ts, labels, check_indices=False), ref)
    for order in itertools.permutations(pos):
        o = list(order)
        E.eq('order %s' % (order,), f(ts, labels, order=o), ref)
        E.true('order list left alone', o == list(order))
    E.eq('order as a tuple', f(ts, labels, order=tuple(pos)), ref)
    for fo in itertools.permutations(neg):
        w = list(fo)
        E.eq('open legs %s' % (fo,), f(ts, labels, forder=w), np.transpose(ref, [neg.index(x) for x in fo]))
        E.true('leg list left alone', w == list(fo))
    for k in range(1, len(labels)):                       # the order of the tensors does not matter
        p = list(range(k, len(labels))) + list(range(k))
        E.eq('tensors rotated by %d' % k, f([ts[i] for i in p], [labels[i] for i in p]), ref)
    if len(ts) == 1:
        E.eq('a single tensor', f(ts[0], labels[0]), ref)
    E.true('labels left alone', labels == NETS[net][0])
    for t, b in zip(ts, before):
        E.eq('tensor left alone', t, b)


BAD = {
    'too few label lists': ([(2, 2), (2, 2)], [[-1, -2]]),
    'too many labels': ([(2, 2), (2, 2)], [[-1, 1], [1, -2, -3]]),
    'too few labels': ([(2, 2, 2), (2, 2)], [[-1, 1], [1, -2]]),
    'label once': ([(2, 2), (2, 2)], [[-1, 1], [2, -2]]),
    'label three times': ([(2, 2), (2, 2), (2, 2)], [[-1, 1], [1, 2], [1, 2]]),
    'label three times on one tensor': ([(2, 2, 2), (2, 2)], [[1, 1, 1], [-1, -2]]),
    'open label twice': ([(2, 2), (2, 2)], [[-1, 1], [1, -1]]),
    'dimensions': ([(2, 3), (2, 3)], [[-1, 1], [1, -2]]),
    'dimensions in a trace': ([(2, 3)], [[1, 1]]),
    'dimension one is not stretched': ([(2, 1), (2, 3)], [[-1, 1], [1, -2]]),
    'label zero': ([(2, 2), (2, 2)], [[-1, 0], [0, -2]]),
    'order misses a label': ([(2, 2), (2, 2), (2, 2)], [[-1, 1], [1, 2], [2, -2]], [1]),
    'order has an unknown label': ([(2, 2), (2, 2)], [[-1, 1], [1, -2]], [1, 2]),
    'open order misses a leg': ([(2, 2), (2, 2)], [[-1, 1], [1, -2]], [1], [-1]),
    'open order has an unknown leg': ([(2, 2), (2, 2)], [[-1, 1], [1, -2]], [1], [-1, -2, -3]),
    'open order repeats a leg': ([(2, 2), (2, 2)], [[-1, 1], [1, -2]], [1], [-1, -1]),
    'order misses a trace': ([(2, 2, 2), (2, 2)], [[2, 2, 1], [1, -1]], [1]),
    'open leg named in the order': ([(2, 2), (2, 2)], [[-1, 1], [1, -2]], [1, -1]),
}


@scenario('S23', params=[dict(bad=b) for b in BAD], con_repeat=1)
def rejected(E, bad):
    """inconsistent networks raise instead of returning a value"""
    shapes, labels, *more = BAD[bad]
    ts = [E.tensor('T%d' % k, s) for k, s in enumerate(shapes)]
    kw = dict(zip(('order', 'forder'), more))
    E.raises(bad, lambda: E.ncon.ncon(ts, labels, **kw))
    E.eq('tensors left alone', ts[0], E.tensor('T0', shapes[0]))
