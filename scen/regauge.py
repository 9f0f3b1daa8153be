"""S27: regauging infinite states."""
import numpy as np
from vt.env import scenario
from . import oracle as o
from .blocks import ein
from .engines import patched, proportional
from .dmrg import left_isometric, right_isometric


class Density:
    """a positive density u diag(q^2) u+ of unit trace together with its factors (every such matrix, every eigenbasis)"""
    def __init__(self, E, name, D, kind='general'):
        self.D = D
        rot = np.array([[0.6, 0.8j], [0.8j, 0.6]]) if kind == 'rot' else None
        self.u = E.isometry(name + 'u', D, D) if kind == 'general' else E.const(np.eye(D) if rot is None else rot if name == 'l' else rot.conj())
        self.q = np.array([E.scalar('%sq%d' % (name, i), pos=True, lo=0.05, hi=1.0) for i in range(D)])
        E.ctx.hyp_zero(sum(x * x for x in self.q) - 1)
        self.e = self.q * self.q
        self.mat = np.dot(self.u * self.e, E.dag(self.u))
        self.half = np.dot(self.u * self.q, E.dag(self.u))               # hermitian square root
        self.ihalf = np.dot(self.u * (1 / self.q), E.dag(self.u))
        self.y, self.iy = self.u * self.q, np.dot(np.diag(1 / self.q), E.dag(self.u))


def _zero(x):
    return x.iszero() if hasattr(x, 'iszero') else x == 0


def same(a, b):
    a, b = np.ravel(a), np.ravel(b)
    return a.size == b.size and all(_zero(x - y) for x, y in zip(a, b))


def known(E, *dens):
    from vt import solve

    def f(low):
        for d in dens:
            if same(low, d.mat):
                return d.e.copy(), d.u.copy()
        for d in dens:
            m = np.ravel(low - d.mat)
            if len(m) == d.D * d.D and solve.prove_eq(E.ctx, [(x, 0) for x in m], timeout_ms=20000)[0] == 'unsat':
                return d.e.copy(), d.u.copy()
        return None
    E.hook('eigh_known', f)


def eigenpairs(E, A, w, l, r, c, calls):
    """the transfer-matrix eigensolver: dominant value w^2 and the densities, with arbitrary scale and phase"""
    def f(tensor, direction, numeig=6, **kw):
        t = tensor
        calls.append((direction, np.array(t)))
        if same(t, A):
            eta = w * w
        elif same(t, A / w):
            eta = 1.0 + 0 * w
        else:
            E.true('eigenvectors of another tensor', False)
            eta = 1.0 + 0 * w
        m = (l if direction > 0 else r).mat
        return eta, np.reshape(m * c[direction], m.size), numeig
    return f


def scales(E):
    return {1: E.scalar('cl'), -1: E.scalar('cr')}


def qleft(E, name, Dl, Dr, d):
    return np.transpose(np.reshape(E.isometry(name, Dl * d, Dr), (Dl, d, Dr)), (0, 2, 1))


def qright(E, name, Dl, Dr, d):
    return np.conj(np.transpose(qleft(E, name, Dr, Dl, d), (1, 0, 2)))


@scenario('S27', params=[dict(D=1, d=2, gauge=g) for g in ('left', 'right')] + [dict(D=2, d=d, gauge=g) for g in ('left', 'right') for d in (1, 2)], mode='fresh', tol=1e-6)
def one_side(E, D, d, gauge):
    """left and right gauge of one tensor, for every tensor with a full-rank dominant eigenvector"""
    left = gauge == 'left'
    if E.symbolic:
        s = Density(E, 'l' if left else 'r', D)
        w = E.scalar('w', pos=True)
        if left:
            A = w * ein('ka,kms,bm->abs', s.iy, qleft(E, 'Q', D, D, d), s.y)
        else:
            A = w * ein('ak,kms,mb->abs', s.y, qright(E, 'Q', D, D, d), s.iy)
        known(E, s)
        calls = []
        before = np.array(A)
        with patched((E.mf, 'TMeigs', eigenpairs(E, A.copy(), w, s, s, scales(E), calls))):
            out, y = E.mf.regauge(A, gauge=gauge)
        E.true('one eigenvector', [x[0] for x in calls] == [1 if left else -1])
    else:
        D = D + 2
        A = E.tensor('A', (D, D, d + 1))
        before = np.array(A)
        out, y = E.mf.regauge(A, gauge=gauge, numeig=3, ncv=min(8, D * D))
        w = 0
    E.eq('tensor left alone', A, before)
    if left:
        left_isometric(E, 'orthonormal', out)
        a, b = ein('ak,acs->kcs', y, before), ein('kms,cm->kcs', out, y)
    else:
        right_isometric(E, 'orthonormal', out)
        a, b = ein('acs,ck->aks', before, y), ein('ak,kms->ams', y, out)
    if E.symbolic:
        E.eq('gauge transformation', a, w * b)
    else:
        proportional(E, 'gauge transformation', a, b)
        E.true('invertible', np.linalg.svd(y)[1][-1] > 1e-9)


def proportional_to_one(E, label, G):
    n = len(G)
    for i in range(n):
        for j in range(n):
            if i != j:
                E.eq(label + ' %d%d' % (i, j), G[i, j], 0)
        E.eq(label + ' %d' % i, G[i, i], G[0, 0])
    E.eq(label + ' trace', np.trace(G), n)


def invariants(E, label, T, A, w):
    """the same state: traces over one and two sites (gauge invariant) agree up to the scale"""
    one, two = np.trace(T), np.einsum('abs,bat->st', T, T)
    E.eq(label + ' (one site)', w * one, np.trace(A))
    E.eq(label + ' (two sites)', w * w * two, np.einsum('abs,bat->st', A, A))


@scenario('S27', params=[dict(D=D, d=2, kind=k, left=s) for s in (True, False) for D, k in ((1, 'diag'), (2, 'diag'), (2, 'rot'))], mode='fresh', tol=1e-5, con_repeat=1)
def canonical(E, D, d, kind, left):
    """symmetric gauge of one tensor: Schmidt values and both orthonormality relations"""
    if E.symbolic:
        n = 'Q'
        E.hook('simplify_terms', 6000)
        L, R = Density(E, 'l', D, kind), Density(E, 'r', D, kind)
        w = E.scalar('w', pos=True)
        yt, iyt = np.transpose(L.half), np.transpose(L.ihalf)
        # every tensor with this left (right) density, and the other density
        if left:
            A = w * ein('ka,ams,mb->kbs', iyt, qleft(E, n, D, D, d), yt)
        else:
            A = w * ein('ka,ams,mb->kbs', R.half, qright(E, n, D, D, d), R.ihalf)
        other = L if not left else R
        t = np.array(A / w)
        if D > 1:
            T = ein('ac,ams,cbs->mb', other.mat, t, E.conj(t)) if other is L else ein('ams,bcs,mc->ab', t, E.conj(t), other.mat)
            for x in np.ravel(T - other.mat):
                E.ctx.hyp_zero(x)
        known(E, L, R)
        ph = np.array([E.unit('p%d' % i) for i in range(D)])
        u, s, v = R.u, L.q * R.q, E.dag(R.u)
        for i in range(D - 1):
            E.assume(s[i] >= s[i + 1])

        def svd(a):
            if same(a, np.dot(u * s, v)) or same(a, np.dot(yt, R.half)):
                return u * ph, s.copy(), np.dot(np.diag(E.conj(ph)), v)
        E.hook('svd_known', svd)
        E.hook('sqrt_known', [1 / np.linalg.norm(s)])
        calls = []
        with patched((E.mf, 'TMeigs', eigenpairs(E, A.copy(), w, L, R, scales(E), calls))):
            gamma, lam, rest = E.mf.regauge(A.copy(), gauge='symmetric')
        E.true('both eigenvectors', sorted({x[0] for x in calls}) == [-1, 1])
        for i in range(D):
            for j in range(D):
                E.eq('Schmidt values', lam[i] * s[j], lam[j] * s[i])
    else:
        D = D + 2
        A = E.tensor('A', (D, D, d + 1))
        before = np.array(A)
        gamma, lam, rest = E.mf.regauge(A, gauge='symmetric', numeig=3, ncv=min(8, D * D))
        E.eq('tensor left alone', A, before)
        w = np.sqrt(np.max(np.abs(np.linalg.eigvals(np.einsum('abs,cds->acbd', A, np.conj(A)).reshape(D * D, D * D)))))
        for i in range(D - 1):
            E.ge('descending', lam[i], lam[i + 1])
    E.eq('normalised', sum(x * x for x in lam), 1)
    E.eq('nothing discarded', rest, 0)
    Lam = np.diag(lam)
    a, b = ein('lm,mrs->lrs', Lam, gamma), ein('lms,mr->lrs', gamma, Lam)
    if left or not E.symbolic:
        proportional_to_one(E, 'left orthonormal', ein('ams,bms->ab', np.transpose(a,(1,0,2)), E.conj(np.transpose(a,(1,0,2)))))
        invariants(E, 'same state', a, A, w)
    if not left or not E.symbolic:
        proportional_to_one(E, 'right orthonormal', ein('ams,bms->ab', b, E.conj(b)))
        invariants(E, 'same state', b, A, w)


def lower(E, name, D):
    """an invertible matrix (unit lower times positive diagonal) and its inverse"""
    g = np.array([E.scalar('%s%d' % (name, i), pos=True, lo=0.3, hi=2.0) for i in range(D)])
    low = E.const(np.eye(D))
    inv = E.const(np.eye(D))
    if D == 2:
        h = E.scalar(name + 'h')
        low[1, 0], inv[1, 0] = h, -h
    return low * g, np.dot(np.diag(1 / g), inv)


def cell_eigenpairs(E, cell, w, l, r, c, calls):
    def f(mps, direction, numeig=1, **kw):
        calls.append(direction)
        N = len(cell)
        t = [np.asarray(x) for x in mps]
        if len(t) == N and all(same(x, y) for x, y in zip(t, cell)):
            eta = w ** (2 * N)
        elif len(t) == N and all(same(x, y / w) for x, y in zip(t, cell)):
            eta = 1.0 + 0 * w
        else:
            E.true('eigenvectors of another unit cell', False)
            eta = 1.0 + 0 * w
        m = (l if direction > 0 else r).mat
        return eta, np.reshape(m * c[direction], m.size), numeig
    return f


def chain(ts):
    a = ts[0]
    for t in ts[1:]:
        a = ein('abs,bct->acst', a, t)
        a = np.reshape(a, a.shape[:2] + (-1,))
    return a


@scenario('S27', params=[dict(D=D, d=d, N=N, gauge=g) for N, D, d in ((1, 1, 2), (1, 2, 2), (2, 1, 2), (2, 2, 1), (2, 2, 2)) for g in ('left', 'right')] +
          [dict(D=D, d=2, N=2, gauge=g, inner=m) for D, m in ((1, 2), (2, 1)) for g in ('left', 'right')], mode='fresh', tol=1e-6)
def unit_cell(E, D, d, N, gauge, kind='rot', inner=None):
    """left and right gauge of a unit cell in place"""
    left = gauge == 'left'
    M = inner or D
    if E.symbolic:
        s = Density(E, 'l' if left else 'r', D, kind if D > 1 else 'diag')
        w = E.scalar('w', pos=True)
        G, iG = lower(E, 'g', M)
        dims = [D] + [M] * (N - 1) + [D]
        Q = [(qleft if left else qright)(E, 'Q%d' % n, dims[n], dims[n + 1], d) for n in range(N)]
        if left:
            a, b, cell = s.iy, s.y, [q for q in Q]
        else:
            a, b, cell = s.y, s.iy, [q for q in Q]
        cell[0] = ein('ka,kms->ams', a, cell[0]) if left else ein('ak,kms->ams', a, cell[0])
        if N == 2 and max(D, M) > 1:
            cell[0], cell[1] = ein('ams,mb->abs', cell[0], G), ein('ka,ams->kms', iG, cell[1])
        cell[-1] = ein('kms,bm->kbs', cell[-1], b) if left else ein('kms,mb->kbs', cell[-1], b)
        cell = [w * t for t in cell]
        before = [np.array(t) for t in cell]
        known(E, s)
        E.hook('sqrt_known', lambda: [1 / z for z in E.ctx.atoms('nrm#')[-1:]] + [1 + 0 * w])
        calls = []
        work = [np.array(t) for t in cell]
        with patched((E.mf, 'UnitcellTMeigs', cell_eigenpairs(E, before, w, s, s, scales(E), calls))):
            lam = E.mf.regaugeIMPS(work, gauge)
        E.true('one eigenvector', calls == [1 if left else -1])
    else:
        D = D + 2
        dims = [D] + [M + (2 if inner else D - M)] * (N - 1) + [D]
        work = [E.tensor('A%d' % n, (dims[n], dims[n + 1], d + 1)) for n in range(N)]
        before = [np.array(t) for t in work]
        lam = E.mf.regaugeIMPS(work, gauge, ncv=min(8, D * D))
        w = 1.0
    for t in work:
        (left_isometric if left else right_isometric)(E, 'orthonormal', t)
    E.eq('no centre', lam, np.eye(D) / np.sqrt(D))
    a, b = chain(work), chain(before)
    if not E.symbolic:
        w = np.sqrt(np.max(np.abs(np.linalg.eigvals(np.einsum('abs,cds->acbd', b, np.conj(b)).reshape(D * D, D * D)))))
        E.eq('same state (one cell)', w * np.trace(a), np.trace(b))
    else:
        E.eq('same state (one cell)', w ** N * np.trace(a), np.trace(b))


@scenario('S27', params=[dict(D=D, d=d, N=N, kind=k) for N, D, d, k in ((1, 1, 2, 'diag'), (1, 2, 2, 'diag'), (2, 1, 2, 'diag'), (2, 2, 1, 'diag'))],
          thorough=[dict(D=2, d=2, N=1, kind='rot')], mode='fresh', tol=1e-5)
def symmetric_cell(E, D, d, N, kind):
    """symmetric gauge of a unit cell in place, nothing truncated"""
    if E.symbolic:
        L, R = Density(E, 'l', D, kind), Density(E, 'r', D, kind)
        w = E.scalar('w', pos=True)
        yt, iyt = np.transpose(L.half), np.transpose(L.ihalf)
        cell = [qleft(E, 'Q%d' % n, D, D, d) for n in range(N)]
        t = chain(cell)
        core = ein('ka,ams,mb->kbs', iyt, t, yt)
        T = ein('ams,bcs,mc->ab', core, E.conj(core), R.mat)
        if D > 1:
            for x in np.ravel(T - R.mat):
                E.ctx.hyp_zero(x)
        cell[0] = ein('ka,ams->kms', iyt, cell[0])
        if N == 2 and D > 1:
            G, iG = lower(E, 'g', D)
            cell[0], cell[1] = ein('ams,mb->abs', cell[0], G), ein('ka,ams->kms', iG, cell[1])
        cell[-1] = ein('kms,mb->kbs', cell[-1], yt)
        cell = [w * x for x in cell]
        known(E, L, R)
        ph = np.array([E.unit('p%d' % i) for i in range(D)])
        u, s, v = R.u, L.q * R.q, E.dag(R.u)
        for i in range(D - 1):
            E.assume(s[i] >= s[i + 1])

        def svd(a):
            if same(a, np.dot(u * s, v)) or same(a, np.dot(yt, R.half)):
                return u * ph, s.copy(), np.dot(np.diag(E.conj(ph)), v)
        E.hook('svd_known', svd)
        n = np.linalg.norm(s)
        for x in s:
            E.assume(x / n >= 1e-12)
        E.hook('sqrt_known', lambda: [1 / (z * n) for z in E.ctx.atoms('nrm#')[-1:]] + [1 / n])
        calls = []
        before = [np.array(x) for x in cell]
        work = [np.array(x) for x in cell]
        with patched((E.mf, 'UnitcellTMeigs', cell_eigenpairs(E, before, w, L, R, scales(E), calls))):
            mat = E.mf.regaugeIMPS(work, 'symmetric')
        E.true('both eigenvectors', sorted(calls) == [-1, 1])
        scale = w ** N
    else:
        D = D + 2
        work = [E.tensor('A%d' % n, (D, D, d + 1)) for n in range(N)]
        before = [np.array(x) for x in work]
        mat = E.mf.regaugeIMPS(work, 'symmetric', ncv=min(8, D * D))
        b = chain(before)
        scale = np.sqrt(np.max(np.abs(np.linalg.eigvals(np.einsum('abs,cds->acbd', b, np.conj(b)).reshape(D * D, D * D)))))
        for i in range(D - 1):
            E.ge('descending', mat[i, i], mat[i + 1, i + 1])
    lam = np.diag(mat)
    E.eq('diagonal', mat, np.diag(lam))
    E.eq('normalised', sum(x * x for x in lam), 1)
    if E.symbolic:
        for i in range(D):
            E.eq('Schmidt values', lam[i] * s[0], lam[0] * s[i])
    for x in work:
        left_isometric(E, 'left orthonormal', x)
    a, b = chain(work), chain(before)
    if E.symbolic:
        S = np.dot(E.dag(u * ph), yt)
        E.eq('gauge transformation', ein('ka,ams->kms', S, b), scale * ein('kas,am->kms', a, S))
    if N == 1 or not E.symbolic:
        E.eq('right fixed point', ein('ams,bms->ab', a * np.reshape(lam, (1, D, 1)), E.conj(a) * np.reshape(lam, (1, D, 1))), np.diag(lam * lam))
    E.eq('same state (one cell)', scale * np.trace(a), np.trace(b))


@scenario('S27', params=[dict(N=N, pos=p, gauge=g, how=h) for N, p in ((1, 0), (1, 1), (2, 0), (2, 1), (2, 2)) for g, h in (('left', 'regauge'), ('right', 'regauge'), ('symmetric', 'regauge'), ('symmetric', 'truncate'))])
def state_object(E, N, pos, gauge, how):
    """MPS.regauge / MPS.truncate: the centre and the connector are part of the state, and the bookkeeping afterwards"""
    D = [2, 3, 2][:N] + [2]
    ts = [E.tensor('A%d' % n, (D[n], D[n + 1], 2)) for n in range(N)]
    mat, con = E.tensor('C', (D[pos], D[pos])), E.tensor('K', (2, 2))
    m = E.mps.MPS([t.copy() for t in ts], obc=False) if False else E.mps.MPS([t.copy() for t in ts])
    m._obc = False
    m._mat, m._connector, m._position = mat.copy(), con.copy(), pos
    m._schmidt_thresh, m._D = 1e-7, 9
    full = [t for t in ts]
    if pos < N:
        full[pos] = ein('ab,bcs->acs', mat, full[pos])
    else:
        full[-1] = ein('abs,bc->acs', full[-1], mat)
    cell = ein('abs,bc->acs', chain(full), con)
    out = [E.tensor('B%d' % n, (D[n], D[n + 1], 2)) for n in range(N)]
    lam = np.array([E.scalar('s%d' % i, pos=True, lo=0.2, hi=1.0) for i in range(2)])
    seen = []

    def regaugeIMPS(mps, gauge, ldens=None, rdens=None, truncate=1e-16, D=None, **kw):
        seen.append((gauge, truncate, D, chain(list(mps))))
        for n in range(N):
            mps[n] = out[n]
        return np.diag(lam)
    with patched((E.mf, 'regaugeIMPS', regaugeIMPS)):
        if how == 'regauge':
            m.regauge(gauge)
        else:
            m.truncate(schmidt_thresh=1e-5, D=4)
    E.true('once', len(seen) == 1 and seen[0][0] == gauge)
    E.eq('truncation', seen[0][1], 1e-7 if how == 'regauge' else 1e-5)
    E.eq('bond dimension', seen[0][2], 9 if how == 'regauge' else 4)
    E.eq('whole state (one cell)', np.trace(seen[0][3]), np.trace(cell))
    E.eq('whole state (two cells)', np.einsum('abs,bat->st', seen[0][3], seen[0][3]) if not E.symbolic else ein('abs,bat->st', seen[0][3], seen[0][3]),
         np.einsum('abs,bat->st', cell, cell) if not E.symbolic else ein('abs,bat->st', cell, cell))
    E.true('position', m._position == (0 if gauge == 'right' else N))
    E.eq('Schmidt values', m._mat, np.diag(lam))
    E.eq('connector', np.dot(m._mat, m._connector), np.eye(2))
    for n in range(N):
        E.eq('tensors', m._tensors[n], out[n])
