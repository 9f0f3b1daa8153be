"""S22: infinite DMRG."""
import copy
import numpy as np
from vt.env import scenario
from . import oracle as o
from .gauge import build
from .engines import patched, mpo_tensors, proportional
from .dmrg import solvers, left_isometric, right_isometric, env_left, env_right


def cell(E, d, D, M, pos=None, connector=True):
    """arbitrary unit cell, connector and boundary blocks"""
    N = len(d)
    W = [E.tensor('W%d' % n, (M, M, d[n], d[n])) for n in range(N)]
    mps, ts = build(E, d, D)
    mps._obc = False
    if connector:
        mps._connector = E.tensor('X', (D[-1], D[0]))
    if pos is not None:
        mps.position(pos)
    return W, mps, E.tensor('lb', (D[0], D[0], M)), E.tensor('rb', (D[-1], D[-1], M))


def engine(E, mps, W, lb, rb):
    with patched((E.mf, 'getBoundaryHams', lambda m, w, regauge=False: (lb, rb, None, None, 0.0, 0.0))):
        return E.en.IDMRGengine(mps, W, 'unused')


def check_update(E, eng, do_update, nm=''):
    """the update of the engine against an independent reconstruction from its state just before"""
    N = len(eng.mps)
    h = N // 2
    m = copy.deepcopy(eng.mps)
    W = [np.array(w) for w in eng._mpo]
    lb, rb, X = np.array(eng._lb), np.array(eng._rb), np.array(m._connector)
    m.__position__(N)
    A, lamR = [np.array(t) for t in m._tensors], np.array(m._mat)
    m.__position__(h)
    lamC = np.array(m._mat)
    B = [np.array(t) for t in m._tensors]
    m.__position__(0)
    C, lamL = [np.array(t) for t in m._tensors], np.array(m._mat)
    do_update()
    new = eng.mps
    nb = env_left(A[:h], W[:h], lb)
    E.eq(nm + 'left boundary block is the block grown by the left half', eng._lb, nb)
    nr = env_right(B[h:], W[h:], rb)
    E.eq(nm + 'right boundary block is the block grown by the right half', eng._rb, nr)
    V = W[h:] + W[:h]
    for n in range(N):
        E.eq(nm + 'operator %d' % n, eng._mpo[n], V[n])
    # guess for the new cell: right half (left orthogonal), centre lamR X lamL, left half (right orthogonal)
    left = o.contract_chain(A[h:])
    mid = np.dot(np.dot(lamR, X), lamL)
    want = np.tensordot(np.tensordot(left, mid, axes=([left.ndim - 1], [0])), o.contract_chain(C[:h]), axes=([left.ndim - 1], [0]))
    E.true(nm + 'centre', new.pos == 0)
    proportional(E, nm + 'state of the new cell', o.contract_chain(o.mps_tensors(new)), want)
    E.eq(nm + 'connector', np.dot(new._connector, lamC), np.eye(lamC.shape[0]))
    for n in range(N):
        right_isometric(E, nm + 'frame %d' % n, new._tensors[n])
    T = list(new._tensors)
    E.eq(nm + 'left block list', eng._L[0], nb)
    for j in range(N + 1):
        E.eq(nm + 'right block %d' % j, eng._R[j], env_right(T[N - j:], V[N - j:], nr))
    return V, nb, nr


@scenario('S22', params=[dict(d=[2, 2], D=[2, 2, 2], M=2, real=True), dict(d=[2, 2], D=[2, 2, 2], M=1, pos=1, real=True), dict(d=[2, 2], D=[1, 2, 1], M=1, pos=1), dict(d=[2, 3], D=[1, 2, 1], M=2, pos=0), dict(d=[2, 2, 2, 2], D=[1, 1, 1, 1, 1], M=2), dict(d=[2, 2, 2], D=[1, 1, 1, 1], M=2), dict(d=[2, 2, 2], D=[1, 2, 1, 1], M=1, real=True), dict(d=[2, 2, 2], D=[1, 1, 2, 1], M=1, pos=2)],
          thorough=[dict(d=[2, 2], D=[2, 3, 2], M=2), dict(d=[2, 2], D=[2, 2, 2], M=2), dict(d=[2, 2], D=[2, 2, 2], M=1, pos=1)], mode='fresh')
def update(E, d, D, M, pos=None):
    W, mps, lb, rb = cell(E, d, D, M, pos)
    eng = engine(E, mps, W, lb, rb)
    check_update(E, eng, lambda: eng.__update__(False))


@scenario('S22', params=[dict(d=[2, 2], D=[1, 2, 1], M=2)], thorough=[dict(d=[2, 2], D=[2, 2, 2], M=1)], mode='fresh')
def two_updates(E, d, D, M):
    """the second growth step uses what the first one stored"""
    W, mps, lb, rb = cell(E, d, D, M)
    eng = engine(E, mps, W, lb, rb)
    check_update(E, eng, lambda: eng.__update__(False), 'first: ')
    check_update(E, eng, lambda: eng.__update__(False), 'second: ')


@scenario('S22', params=[dict(Nmax=0, NUC=1, two=False), dict(Nmax=1, NUC=1, two=False), dict(Nmax=1, NUC=2, two=True), dict(Nmax=3, NUC=1, two=True, rg=2), dict(Nmax=4, NUC=1, two=False, rg=2),
                         dict(Nmax=2, NUC=1, two=False, cp=1)], mode='fresh')
def schedule(E, Nmax, NUC, two, rg=0, cp=None):
    """sweeps on the current cell followed by one update, and the documented regauging steps; numbers for the state"""
    d, D, M = [2, 2], [1, 1, 1], 2
    W, mps, lb, rb = cell(E, d, D, M, connector=False)
    mps._D = 1
    log = []
    saved = []
    cls = E.en.IDMRGengine
    old = cls.__update__

    def upd(self, regauge=False):
        log.append(('update', bool(regauge)))
        if not regauge:
            check_update(E, self, lambda: old(self, False), 'update %d: ' % len(log))
        return 1
    k = [0]

    def record(gen, x, ops):
        log.append('solve')
        k[0] += 1
        y = E.tensor('y', np.shape(x))
        r = E.tensor('r%d' % k[0], np.shape(x))
        if not E.symbolic:
            r = r / np.linalg.norm(r)
        return 0.5 * k[0], r
    with patched((cls, '__update__', upd)), solvers(E, record, []):
        eng = engine(E, mps, W, lb, rb)
        eng._mps.save = lambda f: saved.append(len(log))
        kw = dict(truncation=1e-30) if two else {}
        f = eng.simulateTwoSite if two else eng.simulate
        if two and E.symbolic:
            kw['truncation'] = -1.0
        if two:
            kw['numvecs'] = 1
        f(Nmax=Nmax, NUC=NUC, Econv=1e-3, solver='LAN', cp=cp, regaugestep=rg, **kw)
    want = []
    per = 1 if two else 2
    for it in range(Nmax + 1):
        want += ['solve'] * (per * NUC) + [('update', rg > 0 and it > 0 and it % rg == 0)]
    E.true('sweeps and updates', log == want)
    E.true('state left normalised', eng.mps._Z == 1.0)
    for it in range(1, Nmax + 1):
        if cp and it % cp == 0:                    # after the update of that iteration, before the next sweep
            E.true('checkpoint of iteration %d' % it, it * (per * NUC + 1) + per * NUC + 1 in saved)
    E.true('no checkpoint unless asked', bool(cp) or not saved)
    if cp:
        E.true('checkpoints', len(saved) >= Nmax)


@scenario('S22', params=[dict(pos=p, rg=g) for p in (0, 2) for g in (False,)] + [dict(pos=0, rg=False, d=[2], D=[2, 2]), dict(pos=1, rg=False, d=[2], D=[2, 2])], mode='fresh')
def boundary_blocks(E, pos, rg, d=(2, 2), D=(2, 2, 2)):
    """both boundary blocks and both densities come from the matching gauge of the same state, for every centre"""
    d, D = list(d), list(D)
    N = len(d)
    W = [E.tensor('W%d' % n, (2, 2, d[n], d[n])) for n in range(N)]
    mps, ts = build(E, d, D)
    mps._obc = False
    for p in (0, N, pos):                          # canonical form around the centre, as the class promises
        mps.position(p)
    before = o.contract_chain(o.mps_tensors(mps))
    h = {1: E.herm('hl', D[0]), -1: E.herm('hr', D[-1])}
    if not E.symbolic:
        h = {k: v @ v + np.eye(len(v)) for k, v in h.items()}
    calls = []

    def tmeigs(tensors, direction, numeig=1, init=None, **kw):
        t = [np.array(x) for x in tensors]
        calls.append(('eigs', direction, t))
        return 1.0, np.reshape(h[direction] * E.unit('u%d' % direction), (-1, 1)), 1

    def steady(tensors, mpo, f0, ldens, rdens, direction, **kw):
        t = [np.array(x) for x in tensors]
        calls.append(('env', direction, t, [np.array(x) for x in ldens], [np.array(x) for x in rdens], mpo))
        return E.tensor('env%d' % direction, (D[0], D[0], 2)), E.scalar('h%d' % direction)
    with patched((E.mf, 'UnitcellTMeigs', tmeigs), (E.mf, 'computeUCsteadyStateHamiltonianGMRES', steady)):
        r = E.mf.getBoundaryHams(mps, W)
    E.true('six results', len(r) == 6)
    lb, rb, lbound, rbound, hl, hr = r
    E.eq('left block', lb, E.tensor('env1', (D[0], D[0], 2)))
    E.eq('right block', rb, E.tensor('env-1', (D[0], D[0], 2)))
    E.eq('left energy', hl, E.scalar('h1'))
    E.eq('right energy', hr, E.scalar('h-1'))
    for nm, x, s in (('left', lbound, 1), ('right', rbound, -1)):
        E.eq(nm + ' density', x * np.trace(h[s]), h[s])
    envs = {c[1]: c for c in calls if c[0] == 'env'}
    eigs = {c[1]: c for c in calls if c[0] == 'eigs'}
    E.true('one problem per side', len(envs) == 2 and len(eigs) == 2 and len(calls) == 4)
    for s, iso, nm in ((1, left_isometric, 'left'), (-1, right_isometric, 'right')):
        _, _, t, ld, rd, mpo = envs[s]
        for n in range(N):
            iso(E, nm + ' problem: tensor %d' % n, t[n])
            E.eq(nm + ' problem: operator %d' % n, mpo[n], W[n])
            E.eq('eigenproblem of the same tensors', eigs[-s][2][n], t[n])
        # the fixed direction has identities, the other one the computed density
        a, b = (ld, rd) if s == 1 else (rd, ld)
        x = rbound if s == 1 else lbound
        for n in range(N + 1):
            E.eq(nm + ' problem: trivial density %d' % n, a[n], np.eye(D[n]))
        cur = x
        if s == 1:
            E.eq(nm + ' problem: density', b[N], cur)
            for n in range(N - 1, -1, -1):
                cur = np.tensordot(np.tensordot(t[n], cur, axes=([1], [0])), np.conj(t[n]), axes=([1, 2], [2, 1]))
                E.eq(nm + ' problem: density %d' % n, b[n], cur)
        else:
            E.eq(nm + ' problem: density', b[0], cur)
            for n in range(N):
                cur = np.tensordot(np.tensordot(cur, t[n], axes=([0], [0])), np.conj(t[n]), axes=([0, 2], [0, 2]))
                E.eq(nm + ' problem: density %d' % n, b[n + 1], cur)
    proportional(E, 'state unchanged', o.contract_chain(o.mps_tensors(mps)), before)


def dense_energy(ts, W):
    """energy per unit cell of the infinite state, by dense transfer matrices: every bond and every on-site term once"""
    N = len(ts)

    def lay(A, O):
        return np.einsum('abs,st,cdt->acbd', A, O, np.conj(A)).reshape(A.shape[0] ** 2, -1)
    d = [t.shape[2] for t in ts]
    T = np.eye(ts[0].shape[0] ** 2)
    for A, k in zip(ts, d):
        T = T @ lay(A, np.eye(k))
    w, v = np.linalg.eig(T)
    x, u = np.linalg.eig(T.T)
    lam, r, l = w[np.argmax(abs(w))], v[:, np.argmax(abs(w))], u[:, np.argmax(abs(x))]
    tot = 0
    for b in range(N):
        first, second = W[(b - 1) % N][-1], W[b][:, 0]
        for k in range(1, W[b].shape[0]):             # bond terms, and the local term of site b (last operator index)
            vec = l
            for s in range(2 * N):
                O = first[k] if s == N + b - 1 else second[k] if s == N + b else np.eye(d[s % N])
                vec = vec @ lay(ts[s % N], O)
            tot += vec @ r / (l @ r) / lam ** 2
    return tot


@scenario('S22', params=[dict(N=N, model=m, pos=p) for N in (1, 2, 4) for m in ('TFI', 'XXZ') for p in (0, 1)], sym=False, tol=1e-6)
def boundary_energies(E, N, model, pos):
    """both boundary blocks of a regauged cell carry the exact energy of the state, and are stationary"""
    J, B, K = [np.array([E.scalar('%s%d' % (x, n), real=True) for n in range(N)]) for x in 'JBK']
    ham = E.H.TFI(J, B, False) if model == 'TFI' else E.H.XXZ(J, K, B, False)
    W = [np.asarray(ham[n]) for n in range(N)]
    ts = E.mps_tensors('A', [2] * N, [3] * (N + 1))
    m = E.mps.MPS([np.array(t) for t in ts])
    m._obc = False
    m.resetZ()
    m.regauge('left')
    e = dense_energy([np.array(t) for t in m.tensors], W)
    m.position(pos)
    lb, rb, lbound, rbound, hl, hr = E.mf.getBoundaryHams(m, ham, regauge=True)
    E.eq('left energy', hl, e)
    E.eq('right energy', hr, e)
