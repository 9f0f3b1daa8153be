"""S35: constructors and element-wise operations of states."""
import numpy as np
from vt.env import scenario
from . import oracle as o
from .engines import patched, proportional
from .gauge import placed
from .dmrg import left_isometric


@scenario('S35', params=[dict(d=d, obc=b, cplx=c) for d, b in (([2, 2], True), ([2, 3, 2], True), ([3], False), ([2, 3], False), ([1, 2, 2], True), ([2, 2, 2], False)) for c in ('all', 'one', 'none')])
def product(E, d, obc, cplx):
    """a product state has exactly the given local states"""
    N = len(d)
    loc = [E.tensor('s%d' % n, (d[n],), real=cplx == 'none' or (cplx == 'one' and n != N - 1)) for n in range(N)]
    if E.symbolic:
        for v in loc:
            E.assume(np.linalg.norm(v) >= 0.1)       # shorter vectors are refused
    before = [np.array(x) for x in loc]
    mps = E.mps.MPS.productState(loc, obc)
    E.true('length', len(mps) == N and mps.pos == N)
    E.true('boundary', mps._obc == obc and mps.obc == obc)
    E.true('dimensions', list(mps.d) == d and list(mps.D) == [1] * (N + 1))
    want = before[0]
    for x in before[1:]:
        want = np.tensordot(want, x, axes=0)
    E.eq('amplitudes', o.mps_state(mps), want)
    for n in range(N):
        E.eq('local state %d' % n, mps[n][0, 0, :], before[n])
        E.eq('argument %d unchanged' % n, loc[n], before[n])
    if not E.symbolic:
        E.true('type', mps.dtype == np.result_type(*loc))
    mps[0][0, 0, 0] = 7.0
    E.eq('independent of the arguments', loc[0], before[0])


SHAPES = [dict(N=2, D=2, d=2), dict(N=3, D=1, d=[2, 1, 3]), dict(N=3, D=2, d=[2, 2, 1])]


@scenario('S35', params=[dict(s, kind='random', dt='f') for s in SHAPES] + [dict(SHAPES[0], kind='random', dt='c')] + [dict(SHAPES[0], kind=k, dt='f') for k in ('ones', 'list')] + [dict(SHAPES[1], kind='list', dt='f')] +
          [dict(N=2, D=2, d=2, kind='random', dt='c', shift=0.25, scaling=2.0)],
          mode='fresh', thorough=[dict(SHAPES[1], kind='random', dt='c'), dict(N=3, D=2, d=2, kind='random', dt='f')], con_dtypes=('f',))
def chain(E, N, D, d, kind, dt, shift=0.5, scaling=0.5):
    """random, uniform and given open chains: the drawn (given) tensors up to the norm, in canonical form"""
    dl = [d] * N if isinstance(d, int) else d
    dims = [1] + [D] * (N - 1) + [1]
    shapes = [(dims[n], dims[n + 1], dl[n]) for n in range(N)]
    draws = []

    def draw(shape):
        draws.append(E.tensor('u%d' % len(draws), shape, real=True))
        return draws[-1].copy()
    M = E.mps.MPS
    if kind == 'random':
        with patched((np.random, 'random_sample', draw)):
            mps = M.random(N, D, d, True, scaling=scaling, shift=shift, dtype=complex if dt == 'c' else float)
        E.true('one draw per tensor and part', [x.shape for x in draws] == [s for s in shapes for _ in range(2 if dt == 'c' else 1)])
        if dt == 'c':
            ts = [(draws[2 * n] - shift + 1j * (draws[2 * n + 1] - shift)) * scaling for n in range(N)]
        else:
            ts = [(x - shift) * scaling for x in draws]
    elif kind == 'ones':
        mps = M.ones(N, D, d, True)
        ts = [np.ones(s) for s in shapes]
    else:
        ts = [E.tensor('A%d' % n, s) for n, s in enumerate(shapes)]
        keep = [np.array(t) for t in ts]
        mps = M.fromList(ts)
        for n in range(N):
            E.eq('argument %d unchanged' % n, ts[n], keep[n])
    E.true('centre at the right end', mps.pos == N and len(mps) == N)
    E.true('open', bool(mps._obc) and mps.D[0] == 1 and mps.D[-1] == 1)
    E.true('dimensions', list(mps.d) == dl and all(x <= y for x, y in zip(mps.D, dims)))
    if kind != 'list':
        E.true('bond cap', mps.Dmax >= D)
    E.eq('norm recorded', mps._Z, 1)
    for n in range(N - 1):
        left_isometric(E, 'tensor %d' % n, mps[n])
    proportional(E, 'state', o.mps_state(mps), o.chain_state(ts))
    if not E.symbolic:
        E.eq('normalised', np.linalg.norm(o.mps_state(mps).ravel()), 1.0)
        E.true('type', mps.dtype == (complex if dt == 'c' else float))


@scenario('S35', params=[dict(N=n, D=D, d=d, dt=t, obc=b) for n, D, d, b in ((2, 2, 2, True), (4, 3, [2, 1, 3, 2], True), (1, 2, 3, False), (3, 2, [2, 3, 1], False)) for t in ('f', 'c')], con_dtypes=('f',))
def initializer(E, N, D, d, dt, obc):
    """lists of drawn tensors: shapes, boundary, offset and scale"""
    draws = []
    sc, sh = E.scalar('scale', real=True), E.scalar('shift', real=True)

    def draw(shape):
        draws.append(E.tensor('u%d' % len(draws), shape, real=True))
        return draws[-1].copy()
    dl = [d] * N if isinstance(d, int) else d
    dims = ([1] + [D] * (N - 1) + [1]) if obc else [D] * (N + 1)
    tp = complex if dt == 'c' else float
    for nm, f in (('initializer', lambda: E.mf.MPSinitializer(draw, N, D, d, obc=obc, dtype=tp, scale=sc, shift=sh)),
                  ('MPSinit', lambda: E.mf.MPSinit(N, D, dl, obc=obc, dtype=tp, scale=sc, shift=sh))):
        del draws[:]
        with patched((np.random, 'random_sample', draw)):
            ts = f()
        E.true(nm + ': length', len(ts) == N and len(draws) == N * (2 if dt == 'c' else 1))
        for n, t in enumerate(ts):
            E.true(nm + ': shape %d' % n, np.shape(t) == (dims[n], dims[n + 1], dl[n]))
            E.eq(nm + ': tensor %d' % n, t, (draws[n] - sh) * sc if dt == 'f' else (draws[2 * n] - sh + 1j * (draws[2 * n + 1] - sh)) * sc)


@scenario('S35', params=[dict(d=[2, 2], D=[1, 2, 1], pos=p) for p in (0, 1, 2)] + [dict(d=[2, 3, 1], D=[2, 1, 2, 2], pos=1)])
def elementwise(E, d, D, pos):
    """real part, imaginary part and sign act on every tensor; the operand is left alone"""
    m = placed(E, d, D, pos)
    ts = [np.array(t) for t in m._tensors]
    for nm, f, g in (('real', lambda: m.real(), np.real), ('imag', lambda: m.imag(), np.imag), ('plus', lambda: +m, lambda x: x)):
        r = f()
        for n in range(len(d)):
            E.eq('%s of tensor %d' % (nm, n), r[n], g(ts[n]))
            E.eq('%s leaves tensor %d alone' % (nm, n), m[n], ts[n])
        E.true(nm + ': centre', r.pos == pos)


@scenario('S35', params=[dict(D=D) for D in ([1, 2, 1], [1, 2, 2, 1], [2, 2], [2, 1, 2], [1, 1])], thorough=[dict(D=[1, 2, 4, 2, 1])], mode='fresh')
def finegrain(E, D):
    """splitting every site in two: an empty site becomes two empty ones, a particle the even superposition"""
    N = len(D) - 1
    ts = E.mps_tensors('A', [2] * N, D)
    before = [np.array(t) for t in ts]
    fine = E.mf.FinegrainDolfi(ts)
    E.true('length', len(fine) == 2 * N and all(np.shape(t)[2] == 2 for t in fine))
    E.true('outer bonds', np.shape(fine[0])[0] == D[0] and np.shape(fine[-1])[1] == D[-1])
    for n in range(N):
        E.eq('argument %d unchanged' % n, ts[n], before[n])
        T = np.zeros((2, 2, 2))
        T[0, 0, 0] = 1.0
        T[1, 0, 1] = T[1, 1, 0] = 1.0 / np.sqrt(2.0)
        l, r = fine[2 * n], fine[2 * n + 1]
        E.true('bonds %d' % n, np.shape(l)[0] == D[n] and np.shape(r)[1] == D[n + 1] and np.shape(l)[1] == np.shape(r)[0])
        got = np.transpose(np.tensordot(l, r, ([1], [0])), (0, 2, 1, 3))
        E.eq('pair %d' % n, got, np.tensordot(before[n], T, ([2], [0])))
