"""S20, S21: single-site and two-site DMRG."""
import numpy as np
from vt.env import scenario
from . import oracle as o
from .gauge import build
from .blocks import ein, layer
from .engines import patched, effective, site_effective, mpo_tensors, ones3, proportional


def solvers(E, record, out):
    """the three local eigensolvers: record(generator, start tensor) -> (energy, tensor)"""
    def solve(name):
        def f(L, mpo, R, mps0, *a, **k):
            out.append(name)
            return record(lambda y: E.mf.HAproductSingleSite(L, mpo, R, np.ravel(y)), mps0, (L, mpo, R))
        return f
    return patched(*[(E.mf, n, solve(n)) for n in ('eigsh', 'lanczos', 'lobpcg')])


NAMES = {'AR': 'eigsh', 'LAN': 'lanczos', 'LOBPCG': 'lobpcg'}


def left_isometric(E, label, t):
    x = np.reshape(np.transpose(t, (0, 2, 1)), (-1, t.shape[1]))
    E.eq(label, np.dot(np.transpose(np.conj(x)), x), np.eye(t.shape[1]))


def right_isometric(E, label, t):
    x = np.reshape(t, (t.shape[0], -1))
    E.eq(label, np.dot(x, np.transpose(np.conj(x))), np.eye(t.shape[0]))


def chain(E, N, D, d, open_ends, M=2, pos=None, hermitian=False):
    """engine on an arbitrary state; open_ends: boundary blocks given by the caller"""
    W = mpo_tensors(E, N, d, M)
    mps, ts = build(E, d, D)
    if pos is not None and pos != N:
        mps.position(pos)
    if open_ends:
        lb, rb = E.tensor('lb', (D[0], D[0], 1)), E.tensor('rb', (D[-1], D[-1], 1))
        eng = E.en.DMRGengine(mps, W, 'unused', lb, rb)
    else:
        lb = rb = ones3(E)
        eng = E.en.DMRGengine(mps, W, 'unused')
    return W, mps, ts, eng, lb, rb


def merge(A, x):
    """site tensor A[l,m,s] on the left of x[m, rest...] -> [l, s, rest...]"""
    return np.tensordot(np.transpose(A, (0, 2, 1)), x, axes=([2], [0]))


class Watch:
    """follows a run of the engine call by call.  Each call of the solver is compared with the exact projected
    problem of the current frame, its start with the state the previous call left"""
    def __init__(self, E, eng, W, D, d, lb, rb, thr=None, cap=None, numbers=False):
        self.E, self.eng, self.W, self.D, self.d, self.lb, self.rb, self.thr, self.cap = E, eng, W, D, d, lb, rb, thr, cap
        self.numbers = numbers
        self.k, self.energies, self.expect, self.prev = 0, [], [], None
        self.N = len(d)

    def schedule(self, two):
        N = self.N
        if two:
            return [(2, n) for n in range(N - 2)] + [(2, n) for n in range(N - 2, -1, -1)]
        return [(1, n) for n in range(N - 1)] + [(1, n) for n in range(N - 1, 0, -1)]

    def record(self, gen, x, ops):
        E, k, N = self.E, self.k, self.N
        self.k += 1
        w, n = self.expect[(k - self.base) % len(self.expect)]
        nm = 'sites %d..%d (call %d)' % (n, n + w - 1, k)
        T, W = list(self.eng._mps._tensors), self.W
        L, mpo, R = ops
        y = E.tensor('y', np.shape(x))
        shp = (T[n].shape[0],) + tuple(self.d[n:n + w]) + (T[n + w - 1].shape[1],)
        tall = np.transpose(np.reshape(y, (shp[0], shp[-1]) + shp[1:-1]), (0,) + tuple(range(2, w + 2)) + (1,)) if y.size == int(np.prod(shp)) else None
        if tall is None:
            E.true(nm + ' optimised next', False)
            return E.scalar('e%d' % k, real=True), E.tensor('r%d' % k, np.shape(x))
        want = effective((T[:n], W[:n]), (T[n + w:], W[n + w:]), [W[j] for j in range(n, n + w)], tall, self.lb, self.rb)
        got = np.reshape(gen(y), (shp[0], shp[-1]) + shp[1:-1])
        E.eq('local problem of ' + nm, np.transpose(got, (0,) + tuple(range(2, w + 2)) + (1,)), want)
        for j in range(n):
            left_isometric(E, 'left frame of ' + nm, T[j])
        for j in range(n + w, N):
            right_isometric(E, 'right frame of ' + nm, T[j])
        xt = np.transpose(np.reshape(x, (shp[0], shp[-1]) + shp[1:-1]), (0,) + tuple(range(2, w + 2)) + (1,))
        self.continuity(nm, n, w, xt)
        e = 0.25 * k if self.numbers else E.scalar('e%d' % k, real=True)
        self.energies.append(e)
        r = E.tensor('r%d' % k, np.shape(x))
        if not E.symbolic:
            r = r / np.linalg.norm(r)
        rt = np.transpose(np.reshape(r, (shp[0], shp[-1]) + shp[1:-1]), (0,) + tuple(range(2, w + 2)) + (1,))
        self.prev = (n, w, rt, T, w == 2 or None)
        if w == 2:
            a = np.reshape(rt, (shp[0] * shp[1], -1))
            U, S, V = np.linalg.svd(a, full_matrices=False)
            E.assume(S[0] > self.thr)
            self.svd = (U, S, V, shp)
        return e, r

    def spliced(self, K):
        U, S, V, shp = self.svd
        s = S[:K]
        return np.reshape(np.dot(U[:, :K] * s[None, :], V[:K]), shp), s

    def kept(self, nm, K):
        """the number of values kept is the documented one"""
        E, (U, S, V, shp) = self.E, self.svd
        E.true(nm + ': cap', K <= self.cap)
        E.true(nm + ': at least one', K >= 1)
        for j in range(K):
            E.true(nm + ': kept value above the threshold', S[j] > self.thr)
        if K < len(S) and K < self.cap:
            E.true(nm + ': dropped value below the threshold', S[K] <= self.thr)

    def last(self, T, nm):
        """the state the previous call must have left on its sites"""
        n, w, rt, _, svd = self.prev
        if svd is None:
            return rt
        K = T[n].shape[1]
        self.kept('truncation before ' + nm, K)
        return self.spliced(K)[0]

    def widen(self, x, n, w, a, b, T):
        for j in range(n - 1, a - 1, -1):
            x = merge(T[j], x)
        for j in range(n + w, b):
            x = np.tensordot(x, np.transpose(T[j], (0, 2, 1)), axes=([x.ndim - 1], [0]))
        return x

    def continuity(self, nm, n, w, x):
        """x is the current wave function on sites n..n+w-1; frames from the engine's tensors"""
        if self.prev is None:
            return
        T = list(self.eng._mps._tensors)
        pn, pw, _, pT, _ = self.prev
        a, b = min(n, pn), max(n + w, pn + pw)
        proportional(self.E, 'start of %s is the state left by the previous one' % nm, self.widen(x, n, w, a, b, T),
                     self.widen(self.last(T, nm), pn, pw, a, b, pT))

    def final(self):
        mps = self.eng._mps
        n, w, rt, pT, _ = self.prev
        old = self.widen(self.last(list(mps._tensors), 'the end'), n, w, 0, self.N, pT)
        proportional(self.E, 'final state', o.contract_chain(o.mps_tensors(mps)), old)

    def run(self, two, Nmax, solver, econv, **kw):
        E, eng = self.E, self.eng
        self.expect = self.schedule(two)
        self.base = self.k
        start = len(self.energies)
        names, saves = [], []
        eng._mps.save = lambda f: saves.append((f, self.k - self.base))
        with solvers(E, self.record, names):
            if two:
                e = eng.simulateTwoSite(Nmax=Nmax, Econv=econv, solver=solver, truncation=self.thr, **kw)
            else:
                e = eng.simulate(Nmax=Nmax, Econv=econv, solver=solver, **kw)
        per = len(self.expect)
        got = self.energies[start:]
        E.true('requested solver', set(names) == {NAMES[solver]})
        E.true('whole sweeps', len(got) % per == 0)
        n = len(got) // per
        E.true('at most the allowed sweeps', 1 <= n <= Nmax)
        ends = got[per - 1::per]
        E.eq('energy returned', e, got[-1])
        cp = kw.get('cp')
        E.true('checkpoint after every %s sweeps' % cp, [k for f, k in saves if f == 'unused_dmrg_cp'] == [per * j for j in range(1, n + 1) if cp and j % cp == 0])
        for j in range(n):
            dif = ends[j] - (ends[j - 1] if j else 100000.0)
            dist = abs(dif)
            if j < n - 1:
                E.true('sweep %d not converged' % j, dist >= econv)
            elif n < Nmax:
                E.true('stopped because converged', dist < econv)
        self.final()


SS = [dict(N=2, D=[1, 2, 1], solver=s) for s in ('AR', 'LAN', 'LOBPCG')] + [
    dict(N=3, D=[1, 2, 2, 1], solver='AR'), dict(N=2, D=[2, 2, 1], solver='LAN'), dict(N=2, D=[1, 2, 1], solver='AR', d=[1, 3]),
    dict(N=2, D=[1, 2, 1], solver='LAN', Nmax=2), dict(N=2, D=[1, 1, 1], solver='LAN', Nmax=3, cp=2), dict(N=2, D=[1, 1, 1], solver='LAN', Nmax=2, cp=1), dict(N=3, D=[1, 2, 2, 1], solver='LAN', pos=1)]


@scenario('S20', params=SS, thorough=[dict(N=4, D=[1, 2, 2, 2, 1], solver='AR'), dict(N=3, D=[2, 2, 2, 2], solver='LAN'), dict(N=3, D=[1, 2, 2, 1], solver='LAN', Nmax=2)],
          mode='fresh')
def single_site(E, N, D, solver, d=None, Nmax=1, pos=None, cp=None):
    d = d or [2] * N
    W, mps, ts, eng, lb, rb = chain(E, N, D, d, D[0] > 1 or D[-1] > 1, pos=pos)
    w = Watch(E, eng, W, D, d, lb, rb)
    w.prev = None
    w.run(False, Nmax, solver, E.scalar('econv', pos=True), cp=cp)


@scenario('S21', params=[dict(N=2, D=[1, 2, 1], cap=2), dict(N=2, D=[1, 2, 1], cap=1, solver='LAN'), dict(N=3, D=[1, 2, 2, 1], cap=2), dict(N=3, D=[1, 2, 2, 1], cap=1, solver='LOBPCG'),
                         dict(N=2, D=[2, 1, 1], cap=2), dict(N=2, D=[1, 1, 2], cap=3, Nmax=2), dict(N=2, D=[1, 2, 1], cap=2, d=[2, 3]), dict(N=2, D=[1, 2, 1], cap=2, Nmax=2), dict(N=2, D=[1, 1, 1], cap=1, Nmax=2, cp=1), dict(N=2, D=[1, 1, 1], cap=1, Nmax=3, cp=2)], mode='fresh',
          thorough=[dict(N=4, D=[1, 2, 2, 2, 1], cap=2), dict(N=2, D=[2, 1, 2], cap=3)])
def two_site(E, N, D, cap, solver='AR', d=None, Nmax=1, cp=None):
    d = d or [2] * N
    W, mps, ts, eng, lb, rb = chain(E, N, D, d, D[0] > 1 or D[-1] > 1)
    mps._D = cap
    w = Watch(E, eng, W, D, d, lb, rb, thr=E.scalar('thr', pos=True) if E.symbolic else E.scalar('thr', lo=0.05, hi=0.45), cap=cap, numbers=N > 2 or D[-1] > 1)
    w.run(True, Nmax, solver, 0.125 if w.numbers else E.scalar('econv', pos=True), cp=cp)


@scenario('S20', params=[dict(N=2, D=[1, 2, 1], seq=q) for q in (['1', '1'], ['1', 'p0', '1'], ['p2', 'p0', '1'], ['u', '1'], ['1', 'u', '1'])] + [dict(N=3, D=[1, 2, 1, 1], seq=['p3', 'p1', '1'])],
          thorough=[dict(N=3, D=[1, 2, 2, 1], seq=['p3', 'p1', '1', 'u', 'p2', '1'])], mode='fresh')
def histories(E, N, D, seq):
    """several runs, moves of the centre and updates of the engine in any order"""
    run_history(E, N, D, seq)


@scenario('S21', params=[dict(N=2, D=[1, 2, 1], seq=q) for q in (['1', '2'], ['2', '1'], ['2', '2'], ['p1', '2'], ['2', 'u', 'p2', '2'])] + [dict(N=3, D=[1, 1, 1, 1], seq=['1', '2'], cap=1)],
          thorough=[dict(N=3, D=[1, 2, 2, 1], seq=['1', '2', '1'])], mode='fresh')
def histories_two(E, N, D, seq, cap=2):
    run_history(E, N, D, seq, cap)


def run_history(E, N, D, seq, cap=2):
    d = [2] * N
    W, mps, ts, eng, lb, rb = chain(E, N, D, d, False)
    mps._D = cap
    w = Watch(E, eng, W, D, d, lb, rb, thr=E.scalar('thr', pos=True) if E.symbolic else E.scalar('thr', lo=0.05, hi=0.45), cap=cap, numbers=True)
    for x in seq:
        if x == 'u':
            eng.update()
            E.true('centre after update', eng.mps.pos == 0)
        elif x[0] == 'p':
            eng.position(int(x[1:]))
            E.true('centre', eng.mps.pos == int(x[1:]))
        else:
            if w.prev is not None:
                # whatever happened in between left the state alone: continue from the current one
                w.prev = (0, N, o.contract_chain(o.mps_tensors(eng.mps)), list(eng.mps._tensors), None)
            w.run(x == '2', 1, 'LAN', 0.125, cp=None)


def env_left(ts, W, lb):
    """exact left block: [ket, bra, operator]"""
    E = np.asarray(lb)
    for A, w in zip(ts, W):
        x = np.tensordot(E, A, axes=([0], [0]))                # bra m ket' s
        x = np.tensordot(x, np.asarray(w), axes=([1, 3], [0, 2]))   # bra ket' m' s'
        E = np.transpose(np.tensordot(x, np.conj(A), axes=([0, 3], [0, 2])), (0, 2, 1))
    return E


def env_right(ts, W, rb):
    E = np.asarray(rb)
    for A, w in zip(reversed(ts), reversed(W)):
        x = np.tensordot(A, E, axes=([1], [0]))                # ket s bra m
        x = np.tensordot(x, np.asarray(w), axes=([1, 3], [2, 1]))   # ket bra m' s'
        E = np.transpose(np.tensordot(x, np.conj(A), axes=([1, 3], [1, 2])), (0, 2, 1))
    return E


@scenario('S20', params=[dict(N=2, D=[1, 2, 1], moves=q) for q in (['p0', 'p2', 'p1'], ['p1', 'u', 'p2'], ['u', 'p1', 't', 'p2'], ['t', 'p0'])] + [dict(N=3, D=[1, 2, 1, 1], moves=['p2', 'p3', 'p1'])],
          thorough=[dict(N=3, D=[1, 2, 2, 1], moves=['p2', 't', 'p3', 'u', 'p1'])], mode='fresh')
def environments(E, N, D, moves):
    """cached blocks left and right of the centre are the exact blocks of the current tensors after any moves"""
    d = [2] * N
    W, mps, ts, eng, lb, rb = chain(E, N, D, d, False)
    for k, x in enumerate(moves):
        if x == 'u':
            eng.update()
        elif x == 't':
            eng.truncateMPS(truncation_threshold=-1.0)   # keep every value: the cut itself is S04
        else:
            eng.position(int(x[1:]))
        T, p = list(eng.mps._tensors), eng.mps.pos
        E.true('centre %d' % k, p == (int(x[1:]) if x[0] == 'p' else 0))
        for j in range(p + 1):
            E.eq('left block %d after move %d' % (j, k), eng._L[j], env_left(T[:j], W[:j], lb))
        for j in range(N - p + 1):
            E.eq('right block of %d sites after move %d' % (j, k), eng._R[j], env_right(T[N - j:], W[N - j:], rb))


WR = [dict(solver=s, n=n) for s in ('eigsh', 'lobpcg') for n in (1, 2)] + [dict(solver=s, n=n, ret=r) for s, n, r in (('eigsh', 2, 2), ('eigsh', 3, 2), ('eigsh', 2, 3), ('lobpcg', 2, 2), ('bond', 1, 1), ('bond', 2, 1), ('bond', 3, 2), ('bond', 2, 3))]


@scenario('S20', params=WR + [dict(solver='bond', n=2, ret=1, side='left')])
def solver_wrappers(E, solver, n, ret=1, side='right'):
    """operator, start vector and selection of the lowest pairs in the wrappers of the library solvers"""
    bond = solver == 'bond'
    L, R, W = E.tensor('L', (2, 2, 1)), E.tensor('R', (2, 2, 1) if bond else (1, 1, 2)), E.tensor('W', (1, 1, 2, 2) if bond else (1, 2, 2, 2))
    x, y = E.tensor('x', (2, 2) if bond else (2, 1, 2)), E.tensor('y', (4,))
    A = E.tensor('A', (2, 2, 2))
    e = np.array([E.scalar('e%d' % i, real=True) for i in range(n)])
    v = E.tensor('v', (4, n))
    seen = {}

    def eigsh(A, k=6, which='LM', v0=None, **kw):
        seen.update(gen=A.matvec(y), k=k, which=which, v0=v0, shape=A.shape)
        return e, v

    def lobpcg(A, X, B=None, M=None, Y=None, tol=None, maxiter=None, largest=True, **kw):
        seen.update(gen=A.matvec(y), k=X.shape[1], which='SA' if not largest else 'LA', v0=X[:, 0], shape=A.shape)
        return e[:X.shape[1]], v[:, :X.shape[1]]
    with patched((E.mf.sp.sparse.linalg, 'eigsh', eigsh), (E.mf.sp.sparse.linalg, 'lobpcg', lobpcg)):
        if solver == 'eigsh':
            out = E.mf.eigsh(L, W, R, x, 1e-6, n, 10, ret)
        elif bond:
            out = E.mf.eigshbond(L, W, A, R, x, side, 1e-6, n, 10, ret)
        else:
            out = E.mf.lobpcg(L, W, R, x, 1e-6, ret)
            n = ret
    E.true('size', seen['shape'] == (4, 4) and seen['k'] == n and seen['which'] == 'SA')
    E.eq('start', seen['v0'], np.ravel(x))
    Y = np.reshape(y, x.shape)
    if not bond:
        want = np.transpose(effective(([], []), ([], []), [W], np.transpose(Y, (0, 2, 1)), L, R), (0, 2, 1))
    elif side == 'right':                       # the site belongs to the block on the left of the bond
        want = ein('abm,ac,cdm->bd', layer(E, L, A, W, A, 1), Y, R)
    else:
        want = ein('abm,ac,cdm->bd', L, Y, layer(E, R, A, W, A, -1))
    E.eq('operator', seen['gen'], np.ravel(want))
    vals, vecs = out if ret > 1 else ([out[0]], [out[1]])
    ret = min(ret, n)
    E.true('number returned', len(vals) == ret and len(vecs) == ret and all(np.shape(q) == x.shape for q in vecs))
    picked = []
    for i in range(ret):
        if E.symbolic:
            j = [k for k in range(n) if all((p - q).iszero() for p, q in zip(np.ravel(vecs[i]), v[:, k]))]
        else:
            j = [k for k in range(n) if np.allclose(np.ravel(vecs[i]), v[:, k])]
        E.true('one of the vectors', len(j) == 1 and j[0] not in picked)
        picked += j[:1]
        E.eq('the pair belongs together', vals[i], e[j[0]] if j else 0)
        if i:
            E.true('ascending', vals[i - 1] <= vals[i])
    for k in range(n):
        if k not in picked:
            E.true('lowest', vals[-1] <= e[k])


@scenario('S20', params=[dict(bond=b, n=n, side=sd) for b, sd in ((False, None), (True, 'left'), (True, 'right')) for n in (1, 2)])
def krylov_wrappers(E, bond, n, side):
    """the Krylov solver gets the effective operator and the start tensor, and its pairs come back as tensors"""
    L, R, W = E.tensor('L', (2, 2, 1)), E.tensor('R', (2, 2, 1) if bond else (1, 1, 2)), E.tensor('W', (1, 1, 2, 2) if bond else (1, 2, 2, 2))
    x, y, A = E.tensor('x', (2, 2) if bond else (2, 1, 2)), E.tensor('y', (4,)), E.tensor('A', (2, 2, 2))
    e = [E.scalar('e%d' % i, real=True) for i in range(n)]
    v = [E.tensor('v%d' % i, (4,)) for i in range(n)]
    seen = {}

    class Engine(object):
        def __init__(self, matvec, vecvec, zeros_initializer, Ndiag, ncv, numeig, delta, deltaEta):
            seen.update(gen=matvec(y), Ndiag=Ndiag, ncv=ncv, numeig=numeig, delta=delta, deltaEta=deltaEta)

        def __simulate__(self, initialstate, verbose=False, **kw):
            seen.update(start=np.array(initialstate))
            return list(e), list(v), True
    with patched((E.mf.lanEn, 'LanczosEngine', Engine)):
        if bond:
            out = E.mf.lanczosbond(L, W, A, R, x, side, Ndiag=3, nmax=7, numeig=n, delta=1e-3, deltaEta=1e-4)
        else:
            out = E.mf.lanczos(L, W, R, x, Ndiag=3, nmax=7, numeig=n, delta=1e-3, deltaEta=1e-4)
    Y = np.reshape(y, x.shape)
    if not bond:
        want = ein('abm,acs,mnst,cdn->bdt', L, Y, W, R)
    elif side == 'right':
        want = ein('abm,ac,cdm->bd', layer(E, L, A, W, A, 1), Y, R)
    else:
        want = ein('abm,ac,cdm->bd', L, Y, layer(E, R, A, W, A, -1))
    E.eq('operator', seen['gen'], np.ravel(want))
    E.eq('start', seen['start'], np.ravel(x))
    E.true('settings', [seen[k] for k in ('Ndiag', 'ncv', 'numeig', 'delta', 'deltaEta')] == [3, 7, n, 1e-3, 1e-4])
    vals, vecs = out if n > 1 else ([out[0]], [out[1]])
    E.true('number', len(vals) == n and len(vecs) == n)
    for i in range(n):
        E.eq('value', vals[i], e[i])
        E.eq('vector', vecs[i], np.reshape(v[i], x.shape))


@scenario('S20', params=[dict(solver=s, two=t, N=N) for s in ('AR', 'LAN', 'LOBPCG') for t in (False, True) for N in (3, 4)], sym=False, tol=1e-6, con_dtypes=('c',))
def ground_state(E, solver, two, N):
    """the assembled optimiser with the library solvers finds the exact ground state of small chains"""
    J = np.array([1 + 0.2 * E.scalar('J%d' % n, real=True) for n in range(N)])
    B = np.array([E.scalar('B%d' % n, real=True) for n in range(N)])
    ham = E.H.XXZ(J[:-1], J[1:], B, True)
    H = o.kron_matrix(o.mpo_dense([np.asarray(ham[n]) for n in range(N)]))
    w, u = np.linalg.eigh(H)
    import os, shutil, tempfile
    cwd, tmp = os.getcwd(), tempfile.mkdtemp()
    os.chdir(tmp)
    try:
        mps = E.mps.MPS.random(N, 8, 2, obc=True, scaling=0.5, dtype=complex)
        mps._D = 8
        mps.regauge(gauge='right')
        eng = E.en.DMRGengine(mps, ham, 'run')
        f = eng.simulateTwoSite if two else eng.simulate
        e = f(Nmax=30, Econv=1e-10, tol=1e-10, cp=1, solver=solver, landelta=1e-12, landeltaEta=1e-12, ncv=6)
        E.eq('energy', e, w[0])
        psi = o.mps_state(eng.mps).ravel()
        E.eq('norm', np.linalg.norm(psi), 1.0)
        E.eq('energy of the state', np.real(np.vdot(psi, H.T @ psi)), w[0])
        sz = [np.diag([-0.5, 0.5])] * N
        E.eq('local expectation values right after the run', eng.measureLocal(sz), [np.real(np.vdot(psi, o.op_on(np.reshape(psi, [2] * N), sz[n], n).ravel())) for n in range(N)])
        back = E.mps.MPS.random(N, 2, 2, obc=True)
        back.load('run_dmrg_cp')
        chi = o.mps_state(back, Z=False).ravel()
        E.eq('checkpoint', abs(np.vdot(chi, psi)), np.linalg.norm(chi))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
