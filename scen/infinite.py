"""S11, S28: transfer operators and linear problems of infinite environments."""
import numpy as np
from vt.env import scenario
from . import oracle as o
from .engines import patched
from .blocks import ein, layer, elayer


def tm(E, direction, U, L, x):
    """(x| E  or  E |x) with the ket on leg 0"""
    if direction > 0:
        return ein('ab,acs,bds->cd', x, U, E.conj(L))
    return ein('cd,acs,bds->ab', x, U, E.conj(L))


TD = [dict(D1=2, D2=3, d=2, direction=dr) for dr in (1, -1)] + [dict(D1=2, D2=2, d=2, direction=dr) for dr in (1, -1)] + \
     [dict(D1=3, D2=1, d=3, direction=dr) for dr in (1, -1)] + [dict(D1=1, D2=2, d=2, direction=dr) for dr in (1, -1)]


@scenario('S11', params=TD)
def single_transfer(E, D1, D2, d, direction):
    A = E.tensor('A', (D1, D2, d))
    k, q = (D1, D2) if direction > 0 else (D2, D1)
    x = E.tensor('x', (k, k))
    ref = np.reshape(tm(E, direction, A, A, x), q * q)
    E.eq('tensor', E.mf.TransferOperator(direction, A, np.reshape(x, k * k)), ref)
    E.eq('single-site object', E.mf.TransferOperator(direction, E.mps.MPS([A]), np.reshape(x, k * k)), ref)
    E.eq('unit cell of one', E.mf.UnitcellTransferOperator(direction, [A], np.reshape(x, k * k)), ref)


MD = [dict(U1=2, U2=3, L1=1, L2=2, d=2), dict(U1=2, U2=2, L1=3, L2=1, d=2), dict(U1=1, U2=2, L1=2, L2=2, d=3)]


@scenario('S11', params=[dict(q, direction=dr) for q in MD for dr in (1, -1)])
def mixed_transfer(E, U1, U2, L1, L2, d, direction):
    U, L = E.tensor('U', (U1, U2, d)), E.tensor('L', (L1, L2, d))
    s, t = ((U1, L1), U2 * L2) if direction > 0 else ((U2, L2), U1 * L1)
    x = E.tensor('x', s)
    v = np.reshape(x, x.size)
    ref = np.reshape(tm(E, direction, U, L, x), t)
    mu, ml = E.mps.MPS([U]), E.mps.MPS([L])
    E.eq('tensors', E.mf.MixedTransferOperator(direction, U, L, v), ref)
    E.eq('objects', E.mf.MixedTransferOperator(direction, mu, ml, v), ref)
    E.eq('object above', E.mf.MixedTransferOperator(direction, mu, L, v), ref)
    E.eq('object below', E.mf.MixedTransferOperator(direction, U, ml, v), ref)
    E.eq('deprecated name, lower tensor first', E.mf.GeneralizedMatrixVectorProduct(direction, L, U, v), ref)


UC = [dict(d=[2, 2], D=[2, 3, 2]), dict(d=[2, 3], D=[2, 1, 3]), dict(d=[2, 2, 2], D=[2, 1, 2, 2])]


@scenario('S11', params=[dict(q, direction=dr, obj=ob) for q in UC for dr in (1, -1) for ob in (False, True)])
def unit_cell(E, d, D, direction, obj):
    N = len(d)
    A, B = E.mps_tensors('A', d, D), E.mps_tensors('B', d, [x + 1 if i % 2 else x for i, x in enumerate(D)])
    k = D[0] if direction > 0 else D[N]
    x = E.tensor('x', (k, k))
    x0 = np.array(x)
    ref = x
    for n in (range(N) if direction > 0 else range(N - 1, -1, -1)):
        ref = tm(E, direction, A[n], A[n], ref)
    v = np.reshape(x, k * k)
    E.eq('unit cell', E.mf.UnitcellTransferOperator(direction, E.mps.MPS(A) if obj else A, v), np.reshape(ref, ref.size))
    E.eq('vector unchanged', x, x0)
    y = E.tensor('y', (A[0].shape[0], B[0].shape[0]) if direction > 0 else (A[-1].shape[1], B[-1].shape[1]))
    ref = y
    for n in (range(N) if direction > 0 else range(N - 1, -1, -1)):
        ref = tm(E, direction, A[n], B[n], ref)
    E.eq('mixed unit cell', E.mf.MixedUnitcellTransferOperator(direction, E.mps.MPS(A) if obj else A, E.mps.MPS(B) if obj else B, np.reshape(y, y.size)),
         np.reshape(ref, ref.size))


@scenario('S11', params=[dict(d=[2], D=[2, 3]), dict(d=[2, 2], D=[2, 3, 2]), dict(d=[2, 3], D=[1, 2, 2])])
def duality(E, d, D):
    """(x|E applied to y equals x applied to E|y), and a unit cell is the product of its parts"""
    N = len(d)
    A = E.mps_tensors('A', d, D)
    x, y = E.tensor('x', (D[0], D[0])), E.tensor('y', (D[N], D[N]))
    l = E.mf.UnitcellTransferOperator(1, A, np.reshape(x, x.size))
    r = E.mf.UnitcellTransferOperator(-1, A, np.reshape(y, y.size))
    E.eq('duality', np.dot(l, np.reshape(y, y.size)), np.dot(np.reshape(x, x.size), r))
    B = E.tensor('B', (A[0].shape[0] + 1, A[0].shape[1], d[0]))
    u = E.tensor('u', (D[0], D[0] + 1))
    w = E.tensor('w', (D[1], D[1]))
    l = E.mf.MixedTransferOperator(1, A[0], B, np.reshape(u, u.size))
    r = E.mf.MixedTransferOperator(-1, A[0], B, np.reshape(w, w.size))
    E.eq('mixed duality', np.dot(l, np.reshape(w, w.size)), np.dot(np.reshape(u, u.size), r))


def projector(x, other, out):
    """(x|r)(l| or |r)(l|x)"""
    return ein('ab,ab->', x, other) * out


@scenario('S11', params=[dict(D=2, d=2, direction=dr) for dr in (1, -1)] + [dict(D=3, d=1, direction=dr) for dr in (1, -1)])
def projected_transfer(E, D, d, direction):
    A, l, r, x = E.tensor('A', (D, D, d)), E.tensor('l', (D, D)), E.tensor('r', (D, D)), E.tensor('x', (D, D))
    v = np.reshape(x, D * D)
    p = projector(x, r, l) if direction > 0 else projector(x, l, r)
    ref = tm(E, direction, A, A, x) - p
    E.eq('transfer minus projector', E.mf.pseudoTransferOperator(A, r, l, direction, v), np.reshape(ref, D * D))
    ref1 = x - tm(E, direction, A, A, x) + p
    E.eq('one minus transfer plus projector', E.mf.OneMinusPseudoTransferOperator(A, A, r, l, direction, 0.0, v), np.reshape(ref1, D * D))
    ld, rd = [l, l], [r, r]
    E.eq('unit cell form', E.mf.pseudoUnitcellTransferOperator(direction, [A], ld, rd, v), np.reshape(ref, D * D))
    E.eq('one minus, unit cell form', E.mf.OneMinusPseudoUnitcellTransferOperator(direction, [A], ld, rd, v), np.reshape(ref1, D * D))


@scenario('S11', params=[dict(d=[2, 2], D=[2, 3, 2], direction=dr) for dr in (1, -1)] + [dict(d=[2, 3, 2], D=[2, 1, 2, 2], direction=dr) for dr in (1, -1)])
def projected_unit_cell(E, d, D, direction):
    N = len(d)
    A = E.mps_tensors('A', d, D)
    ld, rd = [E.tensor('l%d' % n, (D[n], D[n])) for n in range(N + 1)], [E.tensor('r%d' % n, (D[n], D[n])) for n in range(N + 1)]
    x = E.tensor('x', (D[0], D[0]))
    ref = x
    for n in (range(N) if direction > 0 else range(N - 1, -1, -1)):
        ref = tm(E, direction, A[n], A[n], ref)
    p = projector(x, rd[N], ld[N]) if direction > 0 else projector(x, ld[0], rd[0])
    v = np.reshape(x, x.size)
    E.eq('transfer minus projector', E.mf.pseudoUnitcellTransferOperator(direction, A, ld, rd, v), np.reshape(ref - p, x.size))
    E.eq('one minus transfer plus projector', E.mf.OneMinusPseudoUnitcellTransferOperator(direction, A, ld, rd, v), np.reshape(x - ref + p, x.size))


MOM = [0.0, 0.7, -0.7, 2.5, -3.0]


@scenario('S11', params=[dict(U=2, L=2, d=2, direction=dr, k=k) for dr in (1, -1) for k in MOM] + [dict(U=2, L=3, d=2, direction=dr, k=k) for dr in (1, -1) for k in (0.0, -0.4)])
def momentum_transfer(E, U, L, d, direction, k):
    A, B, l, r, x = E.tensor('A', (U, U, d)), E.tensor('B', (L, L, d)), E.tensor('l', (U, L)), E.tensor('r', (U, L)), E.tensor('x', (U, L))
    t = tm(E, direction, A, B, x)
    if k == 0.0:
        ref = x - t + (projector(x, r, l) if direction > 0 else projector(x, l, r))
    else:
        ref = x - t * complex(np.exp(1j * k))
    E.eq('operator', E.mf.OneMinusPseudoTransferOperator(A, B, r, l, direction, k, np.reshape(x, U * L)), np.reshape(ref, U * L))


# ------------------------------------------------------------------ S28

EW = [dict(form=f, d=d, D=D, direction=dr, n=n) for dr in (1, -1) for f, d, D, n in
      (('tensor', [2], [2, 2], 2), ('tensor', [2], [2, 2], 1), ('list', [2, 2], [2, 1, 2], 2), ('list', [2], [2, 2], 1), ('object', [2, 2], [2, 3, 2], 2), ('mixed', [2, 2], [2, 1, 2], 2), ('mixed', [2], [2, 2], 1))]


@scenario('S11', params=EW)
def eigen_wrappers(E, form, d, D, direction, n):
    """operator, size, start vector and choice of the dominant pair in the wrappers of the library eigensolver"""
    A = E.mps_tensors('A', d, D)
    B = E.mps_tensors('B', d, [2 * D[0] - 1] + [x + 1 for x in D[1:-1]] + [2 * D[0] - 1]) if form == 'mixed' else A
    s = (D[0], np.shape(B[0])[0])
    size = s[0] * s[1]
    e = np.array([E.scalar('e%d' % i, real=True) for i in range(n)])
    v, x0, y = E.tensor('v', (size, n)), E.tensor('x0', (size,)), E.tensor('y', s)
    seen = {}

    def eigs(A, k=6, which='LM', v0=None, **kw):
        seen.update(gen=A.matvec(np.reshape(y, size)), k=k, which=which, v0=v0, shape=A.shape)
        return e, v
    for x in e:
        E.assume(x != 0)
    with patched((E.mf.sp.sparse.linalg, 'eigs', eigs)):
        if form == 'tensor':
            eta, vec, num = E.mf.TMeigs(A[0], direction, n, x0)
        elif form == 'mixed':
            eta, vec, num = E.mf.MixedUnitcellTMeigs(B, A, direction, n, x0)
        else:
            eta, vec, num = E.mf.UnitcellTMeigs(E.mps.MPS(A) if form == 'object' else A, direction, n, x0)
    ref = y
    for i in (range(len(d)) if direction > 0 else range(len(d) - 1, -1, -1)):
        ref = tm(E, direction, A[i], B[i], ref)
    E.eq('operator', seen['gen'], np.reshape(ref, size))
    E.eq('start', seen['v0'], x0)
    E.true('size', tuple(seen['shape']) == (size, size) and seen['k'] == n == num)
    if E.symbolic:
        j = [k for k in range(n) if all((p - q).iszero() for p, q in zip(np.ravel(vec), v[:, k]))]
    else:
        j = [k for k in range(n) if np.allclose(np.ravel(vec), v[:, k])]
    E.true('one of the vectors', len(j) == 1)
    E.eq('the pair belongs together', eta, e[j[0]])
    for k in range(n):
        if form == 'mixed':
            E.true('largest modulus', e[k] * e[k] <= e[j[0]] * e[j[0]])
        else:
            E.true('largest', e[k] <= e[j[0]])


@scenario('S28', params=[dict(U=2, L=2, d=2, direction=dr, k=k, fn=fn) for dr in (1, -1) for k in (0.0, 0.7, -0.7) for fn in ('RENORMBLOCKHAMGMRES', 'TDVPGMRES')] +
          [dict(U=2, L=3, d=2, direction=dr, k=k, fn='RENORMBLOCKHAMGMRES') for dr in (1, -1) for k in (0.0, -0.4)] +
          [dict(U=3, L=1, d=2, direction=dr, k=0.0, fn='RENORMBLOCKHAMGMRES') for dr in (1, -1)], tol=1e-5)
def linear_problem(E, U, L, d, direction, k, fn):
    """the returned block solves the documented equation"""
    A, B, l, r = E.tensor('A', (U, U, d)) / 2, E.tensor('B', (L, L, d)) / 2, E.tensor('l', (U, L)), E.tensor('r', (U, L))
    ih = E.tensor('ih', (U, L))
    x = getattr(E.mf, fn)(A, B, r, l, np.reshape(ih, U * L), x0=None, tolerance=1e-9, maxiteration=30, direction=direction, momentum=k)
    E.true('shape', x.shape == (U, L))
    t = tm(E, direction, A, B, x)
    if k == 0.0:
        ref = x - t + (projector(x, r, l) if direction > 0 else projector(x, l, r))
    else:
        ref = x - t * complex(np.exp(1j * k))
    E.eq('equation', ref, ih)


@scenario('S28', params=[dict(d=[2], D=[2, 2], direction=dr) for dr in (1, -1)] + [dict(d=[2, 2], D=[2, 3, 2], direction=dr) for dr in (1, -1)], tol=1e-5)
def unit_cell_problem(E, d, D, direction):
    N = len(d)
    A = [a / 2 for a in E.mps_tensors('A', d, D)]
    ld, rd = [E.tensor('l%d' % n, (D[n], D[n])) for n in range(N + 1)], [E.tensor('r%d' % n, (D[n], D[n])) for n in range(N + 1)]
    ih = E.tensor('ih', (D[0], D[0]))
    x, info = E.mf.TDVPGMRESUC(A, ld, rd, np.reshape(ih, ih.size), np.zeros(ih.size), 1e-9, 30, datatype=E.dtype, direction=direction)
    x = np.reshape(x, ih.shape)
    t = x
    for n in (range(N) if direction > 0 else range(N - 1, -1, -1)):
        t = tm(E, direction, A[n], A[n], t)
    E.eq('equation', x - t + (projector(x, rd[N], ld[N]) if direction > 0 else projector(x, ld[0], rd[0])), ih)


def nn_mpo(E, N, d, M):
    """infinite-system operator in the documented block form (identity corners), arbitrary entries elsewhere"""
    W = []
    for n in range(N):
        w = np.zeros((M, M, d, d), dtype=E.dtype)
        w[0, 0] = np.eye(d)
        w[M - 1, M - 1] = np.eye(d)
        w[M - 1, 0] = E.tensor('h%d' % n, (d, d))
        for k in range(1, M - 1):
            w[M - 1, k] = E.tensor('a%d_%d' % (n, k), (d, d))
            w[k, 0] = E.tensor('b%d_%d' % (n, k), (d, d))
        W.append(w)
    return W


@scenario('S28', params=[dict(N=1, d=2, D=2, M=3, direction=dr) for dr in (1, -1)] + [dict(N=2, d=1, D=2, M=3, direction=dr) for dr in (1, -1)] + [dict(N=2, d=2, D=1, M=3, direction=dr) for dr in (1, -1)], tol=1e-5)
def steady_state(E, N, d, D, M, direction):
    """infinite environment of a unit cell: energy and linear problem in the documented form (isometric cell, dens on the other side)"""
    A = [E.tensor('A%d' % n, (D, D, d)) / 2 for n in range(N)]
    W = nn_mpo(E, N, d, M)
    mpo = E.H.MPO.fromlist(W)
    mpo._dtype = complex
    one = np.eye(D)
    dens = E.tensor('dens', (D, D))
    if direction > 0:
        ld, rd = [one] * (N + 1), [dens] * (N + 1)
    else:
        ld, rd = [dens] * (N + 1), [one] * (N + 1)
    X, h = E.mf.computeUCsteadyStateHamiltonianGMRES(A, mpo, np.zeros(D * D), ld, rd, direction, 1e-9, 30)
    # own contraction: all terms of one cell, and the bond terms connecting it to the neighbouring cell; every
    # on-site term belongs to exactly one cell
    bd = np.eye(D)
    if direction > 0:
        w = np.array(W[N - 1][M - 1:M])
        w[0, 0] = w[0, 0] * 0
        blk = layer(E, np.reshape(bd, (D, D, 1)), A[N - 1], w, A[N - 1], 1)
        for n in range(N):
            blk = layer(E, blk, A[n], W[n], A[n], 1)
        special = 0
    else:
        w = np.array(W[0][:, 0:1])
        w[M - 1, 0] = w[M - 1, 0] * 0
        blk = layer(E, np.reshape(bd, (D, D, 1)), A[0], w, A[0], -1)
        for n in range(N - 1, -1, -1):
            blk = layer(E, blk, A[n], W[n], A[n], -1)
        special = M - 1
    e = ein('ab,ab->', blk[:, :, special], dens)
    E.eq('energy of the cell', h, e)
    x = X[:, :, special]
    t = x
    for n in (range(N) if direction > 0 else range(N - 1, -1, -1)):
        t = tm(E, direction, A[n], A[n], t)
    E.eq('equation', x - t + ein('ab,ab->', x, dens) * one, blk[:, :, special] - e * one)
    for k in range(M):
        if k != special:
            E.eq('other operator index %d' % k, X[:, :, k], blk[:, :, k])
