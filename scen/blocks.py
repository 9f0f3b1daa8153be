"""S09, S10: environment blocks and effective-Hamiltonian products."""
import numpy as np
from vt.env import scenario
from . import oracle as o
from .gauge import build, placed


def ein(expr, *ops):
    """index-by-index reference contraction, two operands at a time"""
    ins, out = expr.split('->')
    ins = ins.split(',')
    cur, ca = ins[0], np.asarray(ops[0])
    for k in range(1, len(ins)):
        rest = set(out).union(*[set(x) for x in ins[k + 1:]]) if ins[k + 1:] else set(out)
        keep = ''.join(dict.fromkeys(c for c in cur + ins[k] if c in rest))
        ca = np.einsum(cur + ',' + ins[k] + '->' + keep, ca, np.asarray(ops[k]))
        cur = keep
    return np.einsum(cur + '->' + out, ca)


def layer(E, Ein, A, W, B, direction):
    if direction > 0:
        return ein('abm,acs,mnst,bdt->cdn', Ein, A, W, E.conj(B))
    return ein('cdn,acs,mnst,bdt->abm', Ein, A, W, E.conj(B))


def elayer(E, Ein, A, B, direction):
    if direction > 0:
        return ein('abm,acs,bds->cdm', Ein, A, E.conj(B))
    return ein('cdm,acs,bds->abm', Ein, A, E.conj(B))


DIMS = [dict(a=2, c=3, b=1, d=2, m=2, n=3, s=2, t=3), dict(a=1, c=2, b=2, d=2, m=3, n=2, s=2, t=2), dict(a=2, c=2, b=2, d=2, m=2, n=2, s=2, t=2),
        dict(a=3, c=2, b=2, d=1, m=1, n=2, s=3, t=2)]


@scenario('S09', params=[dict(q, direction=dr) for q in DIMS for dr in (1, -1)])
def add_layer(E, a, c, b, d, m, n, s, t, direction):
    A, B, W = E.tensor('A', (a, c, s)), E.tensor('B', (b, d, t)), E.tensor('W', (m, n, s, t))
    X = E.tensor('X', (a, b, m) if direction > 0 else (c, d, n))
    k = [np.array(x) for x in (A, B, W, X)]
    E.eq('layer', E.mf.addLayer(X, A, W, B, direction), layer(E, X, A, W, B, direction))
    for x, y, nm in zip((A, B, W, X), k, 'ABWX'):
        E.eq('argument %s unchanged' % nm, x, y)


@scenario('S09', params=[dict(a=q['a'], c=q['c'], b=q['b'], d=q['d'], m=q['m'], s=q['s'], direction=dr) for q in DIMS for dr in (1, -1)])
def add_overlap_layer(E, a, c, b, d, m, s, direction):
    A, B = E.tensor('A', (a, c, s)), E.tensor('B', (b, d, s))
    X = E.tensor('X', (a, b, m) if direction > 0 else (c, d, m))
    E.eq('layer', E.mf.addELayer(X, A, B, direction), elayer(E, X, A, B, direction))


@scenario('S09', params=[dict(q, direction=dr) for q in DIMS for dr in (1, -1)])
def start_layer(E, a, c, b, d, m, n, s, t, direction):
    """the block started from a boundary matrix and a boundary operator equals growing the boundary block"""
    m, n = (1, n) if direction > 0 else (m, 1)
    A, B, W = E.tensor('A', (a, c, s)), E.tensor('B', (b, d, t)), E.tensor('W', (m, n, s, t))
    x = E.tensor('x', (a, b) if direction > 0 else (c, d))
    X = np.reshape(x, x.shape + (1,))
    E.eq('started block', E.mf.initializeLayer(A, x, B, W, direction), layer(E, X, A, W, B, direction))


CH = [dict(d=[2, 2], D=[1, 2, 1], D2=[1, 3, 1], M=[1, 2, 1]), dict(d=[2, 3, 2], D=[1, 2, 2, 1], D2=[1, 1, 2, 1], M=[1, 2, 3, 1]),
      dict(d=[2, 2, 2], D=[1, 2, 3, 1], D2=[1, 2, 1, 1], M=[2, 1, 2, 2]), dict(d=[3, 2], D=[2, 1, 2], D2=[1, 2, 3], M=[1, 2, 2])]


@scenario('S09', params=CH, thorough=[dict(d=[2, 2, 2, 2], D=[1, 2, 2, 2, 1], D2=[1, 2, 3, 2, 1], M=[1, 2, 2, 2, 1])])
def chain_blocks(E, d, D, D2, M):
    """at every cut: left-grown and right-grown blocks close to the same exact matrix element <bra|O|ket>"""
    N = len(d)
    ket, bra = E.mps_tensors('A', d, D), E.mps_tensors('B', d, D2)
    W = [E.tensor('W%d' % n, (M[n], M[n + 1], d[n], d[n])) for n in range(N)]
    lb, rb = E.tensor('L', (D[0], D2[0], M[0])), E.tensor('R', (D[N], D2[N], M[N]))
    ref = lb
    for n in range(N):
        ref = layer(E, ref, ket[n], W[n], bra[n], 1)
    val = ein('abm,abm->', ref, rb)
    if D[0] == D2[0] == D[N] == D2[N] == M[0] == M[N] == 1:
        psi, phi = o.chain_state(ket), o.chain_state(bra)
        E.eq('reference is the dense matrix element', val, lb[0, 0, 0] * rb[0, 0, 0] * o.inner(phi, o.apply_op(o.mpo_dense(W), psi)))
    L = [lb]
    for n in range(N):
        L.append(E.mf.addLayer(L[-1], ket[n], W[n], bra[n], 1))
    R = [rb]
    for n in range(N - 1, -1, -1):
        R.append(E.mf.addLayer(R[-1], ket[n], W[n], bra[n], -1))
    for cut in range(N + 1):
        E.eq('cut %d' % cut, ein('abm,abm->', L[cut], R[N - cut]), val)
    E.eq('contractMPO from the left', E.mf.contractMPO(ket, bra, W, lb, 0, N - 1, 1), L[N])
    E.eq('contractMPO from the right', E.mf.contractMPO(ket, bra, W, rb, 0, N - 1, -1), R[N])
    if N > 2:
        E.eq('contractMPO over the inner sites, left', E.mf.contractMPO(ket, bra, W, L[1], 1, N - 2, 1), L[N - 1])
        E.eq('contractMPO over the inner sites, right', E.mf.contractMPO(ket, bra, W, R[1], 1, N - 2, -1), R[N - 1])


@scenario('S09', params=CH)
def chain_overlap_blocks(E, d, D, D2, M):
    N = len(d)
    ket, bra = E.mps_tensors('A', d, D), E.mps_tensors('B', d, D2)
    lb, rb = E.tensor('L', (D[0], D2[0], M[0])), E.tensor('R', (D[N], D2[N], M[0]))
    k = np.array(lb), np.array(rb)
    L = [lb]
    for n in range(N):
        L.append(elayer(E, L[-1], ket[n], bra[n], 1))
    R = [rb]
    for n in range(N - 1, -1, -1):
        R.append(elayer(E, R[-1], ket[n], bra[n], -1))
    for s1 in range(N):
        for s2 in range(s1, N):
            E.eq('left %d..%d' % (s1, s2), E.mf.contractE(ket, bra, L[s1], s1, s2, 1), L[s2 + 1])
            E.eq('right %d..%d' % (s1, s2), E.mf.contractE(ket, bra, R[N - 1 - s2], s1, s2, -1), R[N - s1])
    E.eq('left start unchanged', lb, k[0])
    E.eq('right start unchanged', rb, k[1])


@scenario('S09', params=[dict(p, obj=ob) for p in CH for ob in (False, True)])
def block_lists(E, d, D, D2, M, obj):
    N = len(d)
    A = E.mps_tensors('A', d, D)
    W = [E.tensor('W%d' % n, (M[n], M[n + 1], d[n], d[n])) for n in range(N)]
    lb, rb = E.tensor('L', (D[0], D[0], M[0])), E.tensor('R', (D[N], D[N], M[N]))
    if obj:
        mps, mpo = E.mps.MPS(A), E.H.MPO.fromlist(W)
    else:
        mps, mpo = A, W
    L = [lb]
    for n in range(N):
        L.append(layer(E, L[-1], A[n], W[n], A[n], 1))
    R = [rb]
    for n in range(N - 1, -1, -1):
        R.append(layer(E, R[-1], A[n], W[n], A[n], -1))
    gl, gr = E.mf.getL(mps, mpo, lb), E.mf.getR(mps, mpo, rb)
    E.true('one left block per site', len(gl) == N)
    E.true('one right block per site', len(gr) == N)
    for n in range(N):
        E.eq('left block %d' % n, gl[n], L[n + 1])
        E.eq('right block %d' % n, gr[n], R[n + 1])
    E.eq('left block of the unit cell', E.mf.getUCL(mps, mpo, lb), L[N])
    E.eq('right block of the unit cell', E.mf.getUCR(mps, mpo, rb), R[N])


@scenario('S09', params=[dict(d=[2], D=[2, 2]), dict(d=[2, 3], D=[2, 1, 2]), dict(d=[2, 2, 2], D=[1, 2, 2, 1]), dict(d=[2, 2], D=[2, 3, 1])])
def densities(E, d, D):
    N = len(d)
    A = E.mps_tensors('A', d, D)
    for direction in (1, -1):
        k = D[0] if direction > 0 else D[N]
        x = E.tensor('x%d' % direction, (k, k))
        x0 = np.array(x)
        dens = E.mf.computeDensity(x, A, direction)
        E.true('one density per bond', len(dens) == N + 1)
        ref = np.reshape(x, (k, k, 1))
        order = range(N) if direction > 0 else range(N - 1, -1, -1)
        E.eq('start', dens[0 if direction > 0 else N], x)
        for n in order:
            ref = elayer(E, ref, A[n], A[n], direction)
            E.eq('direction %d bond %d' % (direction, n), dens[n + 1 if direction > 0 else n], ref[:, :, 0])
        E.eq('initial density unchanged', x, x0)


@scenario('S09', params=[dict(d=[2], D=[2, 2], M=[2, 2]), dict(d=[2, 3], D=[2, 1, 2], M=[2, 3, 2]), dict(d=[2, 2, 2], D=[1, 2, 2, 1], M=[2, 2, 2, 2])])
def projected_lists(E, d, D, M):
    """blocks with the component along the steady state removed after every site"""
    N = len(d)
    A = E.mps_tensors('A', d, D)
    W = [E.tensor('W%d' % n, (M[n], M[n + 1], d[n], d[n])) for n in range(N)]
    lb, rb = E.tensor('L', (D[0], D[0], M[0])), E.tensor('R', (D[N], D[N], M[N]))
    ld = [E.tensor('l%d' % n, (D[n], D[n])) for n in range(N + 1)]
    rd = [E.tensor('r%d' % n, (D[n], D[n])) for n in range(N + 1)]
    gl, gr = E.mf.getLprojected(A, W, lb, ld, rd), E.mf.getRprojected(A, W, rb, ld, rd)
    cur = lb
    for n in range(N):
        cur = np.array(layer(E, cur, A[n], W[n], A[n], 1))
        x = cur[:, :, 0]
        cur[:, :, 0] = x - ein('ab,ab->', x, rd[n + 1]) * ld[n + 1]
        E.eq('left %d' % n, gl[n], cur)
    cur = rb
    for k in range(N):
        n = N - 1 - k
        cur = np.array(layer(E, cur, A[n], W[n], A[n], -1))
        x = cur[:, :, -1]
        cur[:, :, -1] = x - ein('ab,ab->', x, ld[n]) * rd[n]
        E.eq('right %d' % k, gr[k], cur)


@scenario('S09', params=[dict(N=2, i=1), dict(N=4, i=2), dict(N=3, i=1), dict(N=3, i=0), dict(N=4, i=3)])
def cut_and_patch(E, N, i):
    W = [E.tensor('W%d' % n, (2, 2, 2, 2)) for n in range(N)]
    k = [np.array(w) for w in W]
    E.mf.patchmpo(W, i)
    E.true('length', len(W) == N)
    for n in range(N):
        E.eq('block %d' % n, W[n], k[(n + i) % N])


# ------------------------------------------------------------------ S10
SQ = [dict(a=2, c=3, m=2, n=3, s=2), dict(a=1, c=2, m=2, n=1, s=3), dict(a=3, c=1, m=1, n=2, s=2), dict(a=2, c=2, m=3, n=3, s=2)]


def proj(E, L, W, R, x):
    return ein('abm,acs,mnst,cdn->bdt', L, x, W, R)


@scenario('S10', params=SQ)
def one_site_products(E, a, c, m, n, s):
    L, R, W, x = E.tensor('L', (a, a, m)), E.tensor('R', (c, c, n)), E.tensor('W', (m, n, s, s)), E.tensor('x', (a, c, s))
    ref = proj(E, L, W, R, x)
    E.eq('vector form', E.mf.HAproductSingleSite(L, W, R, np.reshape(x, a * c * s)), np.reshape(ref, a * c * s))
    E.eq('tensor form', E.mf.HAproductSingleSiteMPS(L, W, R, x), ref)
    E.eq('contraction form', E.mf.contractionH(L, x, W, R), ref)
    E.eq('gradient', np.reshape(E.mf.gradient(L, W, R, x), (a, c, s)), ref)
    if s == 2:
        E.eq('applyHsingleSite', E.mf.applyHsingleSite(L, W, R, x), ref)


@scenario('S10', params=[dict(a=2, b=3, c=2, d=1, m=2, n=3, s=2, t=3), dict(a=1, b=2, c=3, d=2, m=3, n=1, s=3, t=2)])
def one_site_unequal(E, a, b, c, d, m, n, s, t):
    """bra and ket frames of different size"""
    L, R, W, x = E.tensor('L', (a, b, m)), E.tensor('R', (c, d, n)), E.tensor('W', (m, n, s, t)), E.tensor('x', (a, c, s))
    ref = proj(E, L, W, R, x)
    E.eq('tensor form', E.mf.HAproductSingleSiteMPS(L, W, R, x), ref)
    E.eq('contraction form', E.mf.contractionH(L, x, W, R), ref)
    y = E.tensor('y', (a, c))
    R2 = E.tensor('R2', (c, d, m))
    E.eq('bond matrix form', E.mf.HAproductBondMatrix(L, R2, y), ein('abm,ac,cdm->bd', L, y, R2))
    E.eq('overlap product', E.mf.contractionE(E.tensor('L3', (a, b, n)), x, R), ein('abm,acs,cdm->bds', E.tensor('L3', (a, b, n)), x, R))


@scenario('S10', params=SQ)
def bond_products(E, a, c, m, n, s):
    L, R, x = E.tensor('L', (c, c, n)), E.tensor('R', (c, c, n)), E.tensor('x', (c, c))
    ref = ein('abm,ac,cdm->bd', L, x, R)
    E.eq('vector form', E.mf.HAproductBond(L, R, np.reshape(x, c * c)), np.reshape(ref, c * c))
    E.eq('matrix form', E.mf.HAproductBondMatrix(L, R, x), ref)
    E.eq('applyHbond', E.mf.applyHbond(L, R, x), ref)


@scenario('S10', params=[dict(p, side=sd) for p in SQ for sd in ('left', 'right')])
def zero_site_products(E, a, c, m, n, s, side):
    """bond product with one site absorbed in the block, at unequal bond dimensions"""
    L, R, W, A = E.tensor('L', (a, a, m)), E.tensor('R', (c, c, n)), E.tensor('W', (m, n, s, s)), E.tensor('A', (a, c, s))
    if side == 'right':
        L1 = layer(E, L, A, W, A, 1)
        x = E.tensor('x', (c, c))
        ref = ein('abm,ac,cdm->bd', L1, x, R)
    else:
        R1 = layer(E, R, A, W, A, -1)
        x = E.tensor('x', (a, a))
        ref = ein('abm,ac,cdm->bd', L, x, R1)
    E.eq('vector form', E.mf.HAproductZeroSite(L, W, A, R, side, np.reshape(x, x.size)), np.reshape(ref, ref.size))
    E.eq('matrix form', E.mf.HAproductZeroSiteMat(L, W, A, R, side, x), ref)


def hermitian_case(E, N, n, d, D, M):
    """blocks of a Hermitian operator: real symmetric-in-(in,out) MPO conjugate-paired, from two copies O + O^dagger"""
    W0 = [E.tensor('W%d' % k, (M[k], M[k + 1], d[k], d[k])) for k in range(N)]
    W = []
    for k in range(N):
        w = W0[k]
        wd = np.transpose(E.conj(w), (0, 1, 3, 2))
        l = w.shape[0] * (1 if k == 0 else 2)
        r = w.shape[1] * (1 if k == N - 1 else 2)
        big = np.zeros((l, r, d[k], d[k]), dtype=w.dtype)
        if k == 0:
            big[:, :w.shape[1]] = w
            big[:, w.shape[1]:] = wd
        elif k == N - 1:
            big[:w.shape[0]] = w
            big[w.shape[0]:] = wd
        else:
            big[:w.shape[0], :w.shape[1]] = w
            big[w.shape[0]:, w.shape[1]:] = wd
        W.append(big)
    return W


HC = [dict(N=2, n=0, d=[2, 2], D=[1, 2, 1], M=[1, 1, 1]), dict(N=3, n=1, d=[2, 2, 2], D=[1, 2, 2, 1], M=[1, 1, 1, 1]),
      dict(N=3, n=2, d=[2, 3, 2], D=[1, 2, 2, 1], M=[1, 1, 1, 1])]


@scenario('S10', params=HC)
def projected_operator(E, N, n, d, D, M):
    """the one-site product is the dense operator projected on the frame of the other tensors, and Hermitian with it"""
    W = hermitian_case(E, N, n, d, D, M)
    A = E.mps_tensors('A', d, D)
    H = o.mpo_dense(W)
    one = np.ones((1, 1, 1))
    L = one
    for k in range(n):
        L = E.mf.addLayer(L, A[k], W[k], A[k], 1)
    R = one
    for k in range(N - 1, n, -1):
        R = E.mf.addLayer(R, A[k], W[k], A[k], -1)
    x, y = E.tensor('x', A[n].shape), E.tensor('y', A[n].shape)
    Hx = E.mf.HAproductSingleSite(L, W[n], R, np.reshape(x, x.size))
    Hy = E.mf.HAproductSingleSite(L, W[n], R, np.reshape(y, y.size))
    vx, vy = o.chain_state(A[:n] + [x] + A[n + 1:]), o.chain_state(A[:n] + [y] + A[n + 1:])
    E.eq('projection', o.inner(y, Hx), o.inner(vy, o.apply_op(H, vx)))
    E.eq('Hermitian', o.inner(y, Hx), o.inner(Hy, x))


@scenario('S10', params=[dict(N=2, n=0, d=[2, 2], D=[1, 2, 1], M=[1, 2, 1]), dict(N=3, n=1, d=[2, 2, 2], D=[1, 2, 2, 1], M=[1, 2, 1, 1]), dict(N=3, n=0, d=[2, 2, 2], D=[1, 2, 1, 1], M=[1, 1, 2, 1])])
def projected_bond(E, N, n, d, D, M):
    """the bond products are the dense operator projected on the frame of all site tensors"""
    W = [E.tensor('W%d' % k, (M[k], M[k + 1], d[k], d[k])) for k in range(N)]
    A = E.mps_tensors('A', d, D)
    H = o.mpo_dense(W)
    L = np.ones((1, 1, 1))
    for k in range(n + 1):
        Lp, L = L, E.mf.addLayer(L, A[k], W[k], A[k], 1)
    R = np.ones((1, 1, 1))
    for k in range(N - 1, n, -1):
        Rp, R = R, E.mf.addLayer(R, A[k], W[k], A[k], -1)
    c = D[n + 1]
    x, y = E.tensor('x', (c, c)), E.tensor('y', (c, c))

    def dense(z):
        t = list(A)
        t[n] = np.transpose(np.tensordot(A[n], z, axes=([1], [0])), (0, 2, 1))
        return o.chain_state(t)
    ref = o.inner(dense(y), o.apply_op(H, dense(x)))
    E.eq('bond', o.inner(y, E.mf.HAproductBond(L, R, np.reshape(x, c * c))), ref)
    E.eq('zero site, site on the left', o.inner(y, E.mf.HAproductZeroSite(Lp, W[n], A[n], R, 'right', np.reshape(x, c * c))), ref)
    E.eq('zero site, site on the right', o.inner(y, E.mf.HAproductZeroSite(L, W[n + 1], A[n + 1], Rp, 'left', np.reshape(x, c * c))), ref)
