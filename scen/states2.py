"""S04, S12, S17, S25, S26: truncation, operators and gates on states, copies, canonical form."""
import os, tempfile, shutil
import numpy as np
from vt.env import scenario
from . import oracle as o
from .gauge import build, placed, canonical, normalise, left_iso, right_iso


def svd(M):
    return np.linalg.svd(M, full_matrices=False)


def nrm2(E, s):
    r = 0
    for x in s:
        r = r + x * x
    return r


# ------------------------------------------------------------------ S04
TR = [dict(shape=s, direction=dr, D=D, th=th) for s, dr in (((2, 3, 2), 1), ((2, 2, 2), 1), ((3, 2, 2), -1), ((2, 2, 3), -1), ((1, 2, 2), 1))
      for D in (None, 1, 2, 3) for th in (False, True)]


def check_truncation(E, S, k, D, thr):
    """k is exactly the documented number of kept values"""
    n = len(S)
    cap = n if D is None else min(D, n)
    E.true('never more than the cap', k <= cap)
    if thr is None:
        E.true('nothing below the cap is dropped', k == cap)
        return
    for i in range(k):
        E.true('kept value %d is above the threshold' % i, S[i] > thr)
    for i in range(k, cap):
        E.true('value %d is dropped only because it is not above the threshold' % i, S[i] <= thr)


@scenario('S04', params=TR)
def truncating_split(E, shape, direction, D, th):
    t = E.tensor('t', shape)
    l1, l2, d = shape
    M = np.reshape(np.transpose(t, (2, 0, 1)), (d * l1, l2)) if direction > 0 else np.reshape(t, (l1, d * l2))
    U, S, V = svd(M)
    kw = {}
    if th:
        kw['thresh'] = E.scalar('thr', lo=0.01, hi=2)
        E.assume(S[0] > kw['thresh'])
    r = E.mf.prepareTruncate(t, direction, D=D, **kw)
    if direction > 0:
        out, s, v, Z = r
        u = np.reshape(np.transpose(out, (2, 0, 1)), (d * l1, out.shape[1]))
    else:
        u, s, out, Z = r
        v = np.reshape(out, (out.shape[0], d * l2))
    k = len(s)
    E.true('factors agree on the kept number', u.shape[1] == k and v.shape[0] == k)
    check_truncation(E, S, k, D, kw.get('thresh'))
    n = E.sqrt(nrm2(E, S[:k]))
    E.eq('kept are the largest, renormalised', s * n, S[:k])
    E.eq('kept have unit norm', nrm2(E, s), 1)
    E.eq('kept part of the tensor', u.dot(np.diag(s)).dot(v) * n, U[:, :k].dot(np.diag(S[:k])).dot(V[:k]))
    E.eq('reported norm', Z * Z, nrm2(E, S))
    if k == len(S):
        E.eq('nothing dropped: exact', u.dot(np.diag(s)).dot(v) * Z, M)


@scenario('S04', mode='fresh', params=[dict(shape=s, direction=dr, D=D) for s, dr in (((2, 2, 2), 1), ((2, 2, 2), -1), ((2, 3, 2), 1)) for D in (1, 2)])
def truncating_split_isometry(E, shape, direction, D):
    t = E.tensor('t', shape)
    l1, l2, d = shape
    r = E.mf.prepareTruncate(t, direction, D=D)
    if direction > 0:
        out, s, v, Z = r
        u = np.reshape(np.transpose(out, (2, 0, 1)), (d * l1, out.shape[1]))
    else:
        u, s, out, Z = r
        v = np.reshape(out, (out.shape[0], d * l2))
    k = len(s)
    E.eq('left isometry', E.dag(u).dot(u), np.eye(k))
    E.eq('right isometry', v.dot(E.dag(v)), np.eye(k))
    E.eq('recorded norm', Z * Z, E.fro2(t))


GT = [dict(d=[2, 2], D=[1, 2, 1], pos=1, site=0), dict(d=[2, 3], D=[1, 2, 1], pos=0, site=0), dict(d=[2, 2, 2], D=[1, 2, 2, 1], pos=3, site=0),
      dict(d=[2, 2, 2], D=[1, 2, 2, 1], pos=1, site=1), dict(d=[2, 3, 2], D=[1, 2, 3, 1], pos=2, site=1)]


def two_site_matrix(m, gate, site):
    """independent contraction of the two-site tensor the gate acts on (state m has its centre at site+1)"""
    a = np.transpose(np.tensordot(np.array(m[site]), m._mat, axes=([1], [0])), (0, 2, 1))
    th = np.tensordot(a, np.array(m[site + 1]), axes=([1], [0]))            # Dl,d1,Dr,d2
    th = np.tensordot(th, gate, axes=([1, 3], [0, 1]))                       # Dl,Dr,o1,o2
    th = np.transpose(th, (0, 2, 3, 1))                                      # Dl,o1,o2,Dr
    return th


def gate_case(E, d, D, pos, site, Dmax, thr):
    m = placed(E, d, D, pos)
    g = E.tensor('g', (d[site], d[site + 1], d[site], d[site + 1]))
    psi = o.mps_state(m)
    c = m.copy()
    c.position(site + 1)
    th = two_site_matrix(c, g, site)
    s4 = th.shape
    U, S, V = svd(np.reshape(th, (s4[0] * s4[1], s4[2] * s4[3])))
    kw = {}
    if Dmax is not None:
        kw['Dmax'] = Dmax
    if thr is not None:
        kw['thresh'] = thr
        E.assume(S[0] > thr)
    else:
        thr = 1e-16
        E.assume(S[len(S) - 1] > 1e-10)
    tw, k = m.applyTwoSiteGate(g, site, **kw)
    return m, c, g, psi, U, S, V, tw, k, s4, thr


@scenario('S04', params=[dict(p, Dmax=Dm, th=th) for p in GT for Dm in (None, 1, 2) for th in (False, True)], timeout=60)
def two_site_truncation(E, d, D, pos, site, Dmax, th):
    thr = E.scalar('thr', lo=0.01, hi=2) if th else None
    m, c, g, psi, U, S, V, tw, k, s4, thr = gate_case(E, d, D, pos, site, Dmax, thr)
    check_truncation(E, S, k, Dmax, thr)
    E.eq('reported truncated weight', tw, nrm2(E, S[k:]))
    n = E.sqrt(nrm2(E, S[:k]))
    E.eq('kept Schmidt values', np.diag(m._mat) * n, S[:k])
    E.eq('centre is diagonal', m._mat, np.diag(np.diag(m._mat)))
    E.true('bond dimension', m[site].shape[1] == k and m[site + 1].shape[0] == k)
    T = U[:, :k].dot(np.diag(S[:k])).dot(V[:k])
    a = np.reshape(np.transpose(np.array(m[site]), (0, 2, 1)), (s4[0] * s4[1], k))
    b = np.reshape(np.transpose(np.array(m[site + 1]), (0, 2, 1)), (k, s4[2] * s4[3]))
    E.eq('kept part', a.dot(m._mat).dot(b) * n, T)
    E.true('centre', m.pos == site + 1)
    for x in range(len(d)):
        if x not in (site, site + 1):
            E.eq('tensor %d untouched' % x, m[x], c[x])


@scenario('S04', params=[dict(d=[2, 2], Ds=[1, 2, 1], cap=2), dict(d=[2, 2], Ds=[1, 2, 1], cap=1), dict(d=[2, 3, 2], Ds=[1, 2, 2, 1], cap=2),
                         dict(d=[2, 2, 2], Ds=[1, 2, 2, 1], cap=1)])
def chain_truncation(E, d, Ds, cap):
    """truncateMPS on a list: bonds respect the cap; exact (up to scale) when nothing is dropped"""
    ts = E.mps_tensors('A', d, Ds)
    psi = o.chain_state(ts)
    work = [np.array(t) for t in ts]
    lams = E.mf.truncateMPS(work, cap)
    for n in range(len(d) - 1):
        E.true('bond %d respects the cap' % n, work[n].shape[1] <= cap and len(lams[n]) <= cap and work[n].shape[1] == work[n + 1].shape[0])
        E.eq('Schmidt values at bond %d are normalised' % n, nrm2(E, lams[n]), 1)
        for i in range(len(lams[n]) - 1):
            E.ge('Schmidt values at bond %d descend' % n, lams[n][i], lams[n][i + 1])
    if cap >= max(Ds):
        phi = o.chain_state(work)
        a, b = phi.ravel(), psi.ravel()
        for i in range(1, len(a)):
            E.eq('proportional to the original, entry %d' % i, a[i] * b[0], a[0] * b[i])


@scenario('S04', params=[dict(d=[2, 2], Ds=[1, 2, 1], cap=2, pos=0), dict(d=[2, 2], Ds=[1, 2, 1], cap=1, pos=1), dict(d=[2, 3, 2], Ds=[1, 2, 2, 1], cap=2, pos=3),
                         dict(d=[2, 2, 2], Ds=[1, 2, 2, 1], cap=1, pos=1)], timeout=60)
def object_truncation(E, d, Ds, cap, pos):
    m = placed(E, d, Ds, pos)
    psi = o.mps_state(m)
    m.truncate(1e-16, D=cap)
    E.true('centre', m.pos == 0)
    for n in range(len(d) - 1):
        E.true('bond %d respects the cap' % n, m[n].shape[1] <= cap and m[n].shape[1] == m[n + 1].shape[0])
    if cap >= max(Ds):
        E.eq('nothing dropped: same state', o.mps_state(m), psi)


@scenario('S04', params=[dict(d=[2, 2], Ds=[1, 2, 1], a=0, b=1, cap=1), dict(d=[2, 2, 2], Ds=[1, 2, 2, 1], a=0, b=2, cap=1), dict(d=[2, 2], Ds=[1, 2, 1], a=2, b=1, cap=1),
                         dict(d=[2, 3, 2], Ds=[1, 2, 2, 1], a=3, b=1, cap=2), dict(d=[2, 3], Ds=[1, 2, 1], a=0, b=2, cap=2)], timeout=60)
def capped_move(E, d, Ds, a, b, cap):
    """moving the centre with a cap: every swept bond respects it; if the cap does not bite the state is unchanged"""
    m = placed(E, d, Ds, a)
    psi = o.mps_state(m)
    m.position(b, D=cap)
    E.true('centre', m.pos == b)
    lo, hi = min(a, b), max(a, b)
    for n in range(lo, hi):
        bond = n + 1 if b > a else n
        dim = m[n].shape[1] if b > a else m[n].shape[0]
        E.true('bond %d respects the cap' % bond, dim <= cap)
    if cap >= max(Ds):
        E.eq('cap does not bite: same state', o.mps_state(m), psi)


@scenario('S04', mode='fresh', real=True, con_dtypes=('f',), params=[dict(d=[2, 2], D=[1, 2, 1], pos=0), dict(d=[2, 3], D=[1, 2, 1], pos=2)])
def schmidt_values(E, d, D, pos):
    """getSchmidt: second and fourth moments equal those of the exact reduced density matrix"""
    m = canonical(E, d, D, pos, unit=True, Z=False)
    psi = o.mps_state(m)
    s = m.getSchmidt(1)
    rho = psi.dot(np.transpose(np.conj(psi)))
    E.eq('sum of squares', nrm2(E, s), np.trace(rho))
    q = s * s
    E.eq('sum of fourth powers', nrm2(E, q), np.trace(rho.dot(rho)))
    for i in range(len(s) - 1):
        E.ge('descending', s[i], s[i + 1])


# ------------------------------------------------------------------ S12
MP = [dict(d=[2, 2], D=[1, 2, 1], M=[1, 2, 1], pos=2), dict(d=[2, 2], D=[1, 2, 1], M=[1, 3, 1], pos=0), dict(d=[2, 3], D=[1, 2, 1], M=[1, 2, 1], pos=1),
      dict(d=[2, 3, 2], D=[1, 2, 2, 1], M=[1, 2, 2, 1], pos=3), dict(d=[2, 2, 2], D=[1, 2, 1, 1], M=[1, 2, 3, 1], pos=1)]


def rand_mpo(E, d, M, name='W', dout=None):
    return [E.tensor('%s%d' % (name, n), (M[n], M[n + 1], d[n], (dout or d)[n])) for n in range(len(d))]


@scenario('S12', params=MP)
def apply_mpo_object(E, d, D, M, pos):
    m = placed(E, d, D, pos)
    psi = o.mps_state(m)
    W = rand_mpo(E, d, M)
    H = o.mpo_dense(W)
    keep = [np.array(w) for w in W]
    m.applyMPO(W)
    E.eq('state', o.mps_state(m), o.apply_op(H, psi))
    m.position(1)
    E.eq('state after moving the centre', o.mps_state(m), o.apply_op(H, psi))
    for n in range(len(d)):
        E.eq('operator %d unchanged' % n, W[n], keep[n])


@scenario('S12', params=[dict(d=[2, 2], D=[1, 2, 1], M=[1, 2, 1], pos=1), dict(d=[2, 2], D=[1, 2, 1], M=[1, 2, 1], pos=2)])
def apply_mpo_twice(E, d, D, M, pos):
    m = placed(E, d, D, pos)
    psi = o.mps_state(m)
    W, X = rand_mpo(E, d, M), rand_mpo(E, d, [1, 1, 1], 'X')
    m.applyMPO(W)
    m.applyMPO(X)
    E.eq('product of two operators', o.mps_state(m), o.apply_op(o.mpo_dense(X), o.apply_op(o.mpo_dense(W), psi)))


@scenario('S12', params=[dict(p, inplace=i) for p in MP[:4] for i in (False, True)])
def apply_mpo_list(E, d, D, M, pos, inplace):
    ts = E.mps_tensors('A', d, D)
    psi = o.chain_state(ts)
    W = rand_mpo(E, d, M)
    work = [np.array(t) for t in ts]
    r = E.mf.applyMPO(work, W, inplace=inplace)
    E.eq('state', o.chain_state(r), o.apply_op(o.mpo_dense(W), psi))
    if inplace:
        E.eq('overwritten', o.chain_state(work), o.apply_op(o.mpo_dense(W), psi))
    else:
        E.eq('argument untouched', o.chain_state(work), psi)


@scenario('S12', params=[dict(d=[2, 2], D=[1, 2, 1], M=[1, 2, 1], dout=[3, 2])])
def apply_mpo_changes_local_dimension(E, d, D, M, dout):
    ts = E.mps_tensors('A', d, D)
    W = rand_mpo(E, d, M, dout=dout)
    N = len(d)
    out = np.asarray(W[0])[0]
    H = o.mpo_dense(W)
    r = E.mf.applyMPO([np.array(t) for t in ts], W)
    E.eq('state', o.chain_state(r), np.tensordot(o.chain_state(ts), H, axes=(list(range(N)), list(range(N)))))


@scenario('S12', params=[dict(cls='XXZ', N=2), dict(cls='XXZ', N=3), dict(cls='TFI', N=3)])
def apply_hamiltonian_object(E, cls, N):
    """operator objects of the library, not only lists of blocks"""
    if cls == 'XXZ':
        mpo = E.H.XXZ(np.array([E.scalar('j%d' % n, real=True) for n in range(N - 1)]), np.array([E.scalar('k%d' % n, real=True) for n in range(N - 1)]),
                      np.array([E.scalar('b%d' % n, real=True) for n in range(N)]), True)
    else:
        mpo = E.H.TFI(np.array([E.scalar('j%d' % n, real=True) for n in range(N - 1)]), np.array([E.scalar('b%d' % n, real=True) for n in range(N)]), True)
    m = placed(E, [2] * N, [1] + [2] * (N - 1) + [1], 1)
    psi = o.mps_state(m)
    H = o.mpo_dense([np.array(mpo[n]) for n in range(N)])
    m.applyMPO(mpo)
    E.eq('state', o.mps_state(m), o.apply_op(H, psi))


# ------------------------------------------------------------------ S17
@scenario('S17', params=[dict(p) for p in GT] + [dict(d=[2, 2, 2, 2], D=[1, 2, 2, 2, 1], pos=0, site=1)], timeout=60)
def two_site_gate(E, d, D, pos, site):
    m, c, g, psi, U, S, V, tw, k, s4, thr = gate_case(E, d, D, pos, site, None, None)
    E.true('no value dropped', k == len(S))
    E.eq('gate on the state (renormalised)', o.mps_state(m) * E.sqrt(nrm2(E, S)), o.two_site(psi, g, site))
    E.eq('no truncated weight', tw, 0)
    E.true('centre', m.pos == site + 1)
    E.true('reported bond dimension', k == m[site].shape[1])


@scenario('S17', params=[dict(d=[2, 2], D=[1, 2, 1], pos=p, site=s) for p in (0, 1, 2) for s in (0, 1)] +
                        [dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=p, site=s) for p, s in ((0, 1), (3, 0), (2, 2), (1, 1))])
def one_site_gate(E, d, D, pos, site):
    m = placed(E, d, D, pos)
    psi = o.mps_state(m)
    g = E.tensor('g', (d[site], d[site]))
    m.applyOneSiteGate(g, site)
    E.eq('gate on the state', o.mps_state(m), o.op_on(psi, g, site))
    E.true('centre', m.pos == site + 1)
    c = placed(E, d, D, pos)
    c.applyOneSiteGate(g, site, preserve_position=False)
    E.eq('gate on the state without moving the centre', o.mps_state(c), o.op_on(psi, g, site))
    E.true('centre untouched', c.pos == pos)


@scenario('S17', params=[dict(d=[2, 2, 2], D=[1, 2, 2, 1], pos=0, sites=[0, 2]), dict(d=[2, 3], D=[1, 2, 1], pos=2, sites=[1, 0, 0])])
def one_site_gates_in_sequence(E, d, D, pos, sites):
    m = placed(E, d, D, pos)
    psi = o.mps_state(m)
    for n, s in enumerate(sites):
        g = E.tensor('g%d' % n, (d[s], d[s]))
        m.applyOneSiteGate(g, s)
        psi = o.op_on(psi, g, s)
        E.eq('after gate %d' % n, o.mps_state(m), psi)


@scenario('S17', params=[dict(d=[2, 2], D=[1, 2, 1], pos=1), dict(d=[2, 2, 2], D=[1, 2, 1, 1], pos=0)], timeout=60)
def gates_then_move(E, d, D, pos):
    """a two-site gate, a centre move and a one-site gate"""
    m, c, g, psi, U, S, V, tw, k, s4, thr = gate_case(E, d, D, pos, 0, None, None)
    n = E.sqrt(nrm2(E, S))
    ref = o.two_site(psi, g, 0)
    m.position(len(d))
    E.eq('after moving', o.mps_state(m) * n, ref)
    h = E.tensor('h', (d[0], d[0]))
    m.applyOneSiteGate(h, 0)
    E.eq('after a one-site gate', o.mps_state(m) * n, o.op_on(ref, h, 0))


# ------------------------------------------------------------------ S25
ST = [dict(d=[2, 2], D=[1, 2, 1], pos=p) for p in (0, 1, 2)] + [dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=1)]


def meta(m):
    return (m._N, m._D, m._obc, list(m._d), m._position, m._schmidt_thresh, m._r_thresh)


def same(E, tag, a, tensors, mat, conn, Z, mt, gam, lam):
    E.true(tag + ': bookkeeping', meta(a) == mt)
    for n, t in enumerate(tensors):
        E.eq(tag + ': tensor %d' % n, a[n], t)
    E.eq(tag + ': centre matrix', a._mat, mat)
    E.eq(tag + ': connector', a._connector, conn)
    E.eq(tag + ': norm', a._Z, Z)
    E.true(tag + ': canonical data present', len(a._gamma) == len(gam) and len(a._lambda) == len(lam))
    for n, t in enumerate(gam):
        E.eq(tag + ': gamma %d' % n, a._gamma[n], t)
    for n, t in enumerate(lam):
        E.eq(tag + ': lambda %d' % n, a._lambda[n], t)


def full_state(E, d, D, pos, obc=True):
    m = placed(E, d, D, pos)
    m._gamma = [E.tensor('G%d' % n, (D[n], D[n + 1], d[n])) for n in range(len(d))]
    m._lambda = [E.tensor('L%d' % n, (D[n],)) for n in range(len(d) + 1)]
    m._connector = E.tensor('con', (D[-1], D[-1]))
    m._obc = obc
    m._D = 7
    m._schmidt_thresh = 1e-9
    m._r_thresh = 1e-12
    return m


def snapshot(m):
    return ([np.array(t) for t in m.tensors], np.array(m._mat), np.array(m._connector), m._Z, meta(m), [np.array(t) for t in m._gamma],
            [np.array(t) for t in m._lambda])


def scramble(E, m):
    """modify everything reachable, in place and through methods"""
    for n in range(len(m)):
        m._tensors[n] *= 2
        m._gamma[n] *= 3
    m._mat *= 5
    m._connector *= 7
    for l in m._lambda:
        l *= 2
    m._d[0] = 99
    m._Z = m._Z * 3
    m._position = 0
    m._gamma.append(1)
    m._lambda.append(1)
    m._tensors.append(1)
    m._obc = not m._obc
    m._D = 1


@scenario('S25', params=[dict(p, obc=b) for p in ST for b in (True, False)])
def copy_is_faithful_and_independent(E, d, D, pos, obc):
    m = full_state(E, d, D, pos, obc)
    snap = snapshot(m)
    c = m.copy()
    same(E, 'copy', c, *snap)
    scramble(E, c)
    same(E, 'original after changing the copy', m, *snap)
    m2 = full_state(E, d, D, pos, obc)
    c2 = m2.copy()
    scramble(E, m2)
    same(E, 'copy after changing the original', c2, *snap)


@scenario('S25', params=[dict(p, obc=b) for p in ST for b in (True, False)])
def save_and_load(E, d, D, pos, obc):
    m = full_state(E, d, D, pos, obc)
    snap = snapshot(m)
    t = tempfile.mkdtemp(prefix='vt_io_')
    try:
        m.save(os.path.join(t, 'x'))
        n = E.mps.MPS([E.tensor('o%d' % k, (1, 1, 2)) for k in range(3)])
        n.load(os.path.join(t, 'x'))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    same(E, 'loaded', n, *snap)
    scramble(E, m)
    same(E, 'loaded after changing the original', n, *snap)


@scenario('S25', params=[dict(d=[2, 2], D=[1, 2, 1], pos=1), dict(d=[2, 3], D=[1, 2, 1], pos=0)])
def operations_on_copies(E, d, D, pos):
    """gates and moves on a copy leave the original alone and vice versa"""
    m = placed(E, d, D, pos)
    psi = o.mps_state(m)
    c = m.copy()
    g = E.tensor('g', (d[0], d[0]))
    c.applyOneSiteGate(g, 0, preserve_position=False)
    c.position(2)
    E.eq('original unchanged', o.mps_state(m), psi)
    E.true('original centre', m.pos == pos)
    m.position(0)
    m.applyOneSiteGate(g, 0, preserve_position=False)
    E.eq('copy unchanged', o.mps_state(c), o.op_on(psi, g, 0))
    t = m.tensors[0] if False else m.tolist()[0]
    t *= 2
    E.eq('tolist does not alias', o.mps_state(m), o.op_on(psi, g, 0))


@scenario('S25', params=[dict(d=[2, 2], D=[1, 2, 1]), dict(d=[2, 3, 2], D=[1, 2, 2, 1])])
def construction_copies_input(E, d, D):
    ts = E.mps_tensors('A', d, D)
    ref = [np.array(t) for t in ts]
    m = E.mps.MPS(ts)
    for t in ts:
        t *= 2
    for n in range(len(d)):
        E.eq('tensor %d independent of the argument' % n, m[n], ref[n])
    x = E.tensor('X', (D[0], D[1], d[0]))
    m[0] = x
    y = np.array(x)
    x *= 3
    E.eq('assignment copies', m[0], y)


@scenario('S25', params=[dict(d=[2, 2], D=[1, 2, 1], mat=False), dict(d=[2, 3], D=[1, 2, 1], mat=False)])
def from_list(E, d, D, mat):
    """fromList: the normalised version of the given chain"""
    ts = E.mps_tensors('A', d, D)
    psi = o.chain_state(ts)
    m = E.mps.MPS.fromList([np.array(t) for t in ts])
    a, b = o.mps_state(m).ravel(), psi.ravel()
    for i in range(1, len(a)):
        E.eq('proportional to the input, entry %d' % i, a[i] * b[0], a[0] * b[i])
    E.true('centre at the right end', m.pos == len(d))


@scenario('S25', params=[dict(ds=[2, 2]), dict(ds=[2, 3, 2])])
def product_state(E, ds):
    loc = [E.tensor('v%d' % n, (x,)) for n, x in enumerate(ds)]
    for v in loc:
        E.assume(np.linalg.norm(v) > 0.01)
    m = E.mps.MPS.productState(loc, True)
    ref = loc[0]
    for v in loc[1:]:
        ref = np.tensordot(ref, v, axes=0)
    E.eq('amplitudes', o.mps_state(m), ref)


# ------------------------------------------------------------------ S26
CF = [dict(d=[2, 2], D=[1, 2, 1], pos=p) for p in (0, 1, 2)] + [dict(d=[2, 3], D=[1, 2, 1], pos=0), dict(d=[2, 2, 2], D=[1, 2, 2, 1], pos=3),
                                                              dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=1)]


def gl_state(G, L, left=True):
    ts = []
    for n in range(len(G)):
        ts.append(np.tensordot(np.diag(np.asarray(L[n])), np.asarray(G[n]), axes=([1], [0])))
    ts[-1] = np.transpose(np.tensordot(ts[-1], np.diag(np.asarray(L[-1])), axes=([1], [0])), (0, 2, 1))
    return o.chain_state(ts)


@scenario('S26', params=[dict(p, obj=ob) for p in CF for ob in (True, False)], timeout=60)
def canonical_form_is_the_state(E, d, D, pos, obj):
    m = placed(E, d, D, pos)
    if obj:
        psi = o.mps_state(m)
        m.canonize()
        G, L = m._gamma, m._lambda
        E.eq('state untouched', o.mps_state(m), psi)
    else:
        ts = [np.array(t) for t in m.tensors]
        psi = o.chain_state(ts)
        G, L = E.mf.canonizeMPS(ts)
        E.eq('argument untouched', o.chain_state(ts), psi)
    E.true('lengths', len(G) == len(d) and len(L) == len(d) + 1)
    a, b = gl_state(G, L).ravel(), psi.ravel()
    for i in range(1, len(a)):
        E.eq('proportional to the original, entry %d' % i, a[i] * b[0], a[0] * b[i])
    E.eq('left boundary value', L[0], np.ones(1))
    E.eq('right boundary value', L[-1], np.ones(1))
    for n in range(1, len(d)):
        for i in range(len(L[n]) - 1):
            E.ge('Schmidt values %d descend' % n, L[n][i], L[n][i + 1])


@scenario('S26', mode='fresh', params=[dict(d=[2, 2], D=[1, 2, 1], pos=1), dict(d=[2, 3], D=[1, 2, 1], pos=2), dict(d=[2, 2, 2], D=[1, 1, 2, 1], pos=0)], timeout=60)
def canonical_form_orthonormal(E, d, D, pos):
    m = placed(E, d, D, pos)
    m.canonize()
    G, L = m._gamma, m._lambda
    N = len(d)
    for n in range(N):
        b = np.transpose(np.tensordot(G[n], np.diag(L[n + 1]), axes=([1], [0])), (0, 2, 1))
        E.eq('right orthonormal at %d' % n, np.tensordot(b, np.conj(b), axes=([1, 2], [1, 2])), np.eye(b.shape[0]))
    for n in range(1, N):
        E.eq('Schmidt values %d normalised' % n, nrm2(E, L[n]), 1)
    for n in range(N):
        a = np.tensordot(np.diag(L[n]), G[n], axes=([1], [0]))
        E.eq('left orthonormal at %d' % n, np.tensordot(np.conj(a), a, axes=([0, 2], [0, 2])), np.eye(a.shape[1]))
