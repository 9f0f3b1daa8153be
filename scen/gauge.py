"""S01/S02: moving the orthogonality centre, orthonormality, recorded norm."""
import numpy as np
from vt.env import scenario
from . import oracle as o


def build(E, d, D, name='A', start=None):
    """an MPS object with arbitrary tensors and a centre at the right end (as the constructor leaves it)"""
    ts = E.mps_tensors(name, d, D)
    m = E.mps.MPS(ts)
    m.resetZ()
    return m, ts


def placed(E, d, D, pos, name='A', Z=True):
    """MPS object with arbitrary tensors, arbitrary centre matrix at bond pos and arbitrary recorded norm"""
    ts = E.mps_tensors(name, d, D)
    m = E.mps.MPS(ts)
    m._mat = E.tensor(name + 'C', (D[pos], D[pos]))
    m._position = pos
    m._Z = E.scalar(name + 'Z') if Z else 1.0
    return m


def left_iso(E, name, Dl, Dr, d):
    q = E.isometry(name, Dl * d, Dr)
    return np.transpose(np.reshape(q, (Dl, d, Dr)), (0, 2, 1))


def right_iso(E, name, Dl, Dr, d):
    q = E.isometry(name, Dr * d, Dl)
    return np.transpose(np.reshape(q, (Dr, d, Dl)), (2, 0, 1))


def canonical(E, d, D, pos, name='A', Z=True, unit=False):
    """MPS object in the canonical form the class promises: left isometries, centre matrix, right isometries"""
    ts = [left_iso(E, '%sL%d' % (name, n), D[n], D[n + 1], d[n]) if n < pos else right_iso(E, '%sR%d' % (name, n), D[n], D[n + 1], d[n])
          for n in range(len(d))]
    m = E.mps.MPS(ts)
    m._mat = E.tensor(name + 'C', (D[pos], D[pos]))
    if unit:
        normalise(E, m)
    m._position = pos
    m._Z = E.scalar(name + 'Z') if Z else 1.0
    return m


def normalise(E, m):
    """class invariant: the centre matrix has unit norm (1x1 at the ends: a phase)"""
    if E.symbolic:
        E.ctx.hyp_zero(E.fro2(m._mat) - 1)
    else:
        m._mat = m._mat / np.linalg.norm(m._mat)


PATHS = [
    dict(d=[2, 2], D=[1, 2, 1], path=[0]),
    dict(d=[2, 2], D=[1, 3, 1], path=[1, 0, 2]),
    dict(d=[2, 3], D=[1, 2, 1], path=[0, 2]),
    dict(d=[2, 3, 2], D=[1, 2, 3, 1], path=[0]),
    dict(d=[2, 3, 2], D=[1, 2, 2, 1], path=[2, 1]),
    dict(d=[2, 2, 2], D=[1, 2, 2, 1], path=[1, 2]),
    dict(d=[3], D=[1, 1], path=[0, 1]),
]


@scenario('S01', params=PATHS)
def position_preserves_state(E, d, D, path):
    m, ts = build(E, d, D)
    ref = o.chain_state(ts)
    E.eq('initial state', o.mps_state(m), ref)
    for b in path:
        m.position(b)
        E.true('centre bond is the requested one', m.pos == b)
        E.eq('state after moving centre to bond %d' % b, o.mps_state(m), ref)


@scenario('S01', params=[
    dict(d=[2, 2], D=[1, 2, 1], pos=1, path=[0]),
    dict(d=[2, 2], D=[1, 2, 1], pos=1, path=[2]),
    dict(d=[2, 2], D=[1, 2, 1], pos=0, path=[1, 1]),
    dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=1, path=[3]),
    dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=2, path=[0]),
    dict(d=[3, 2, 2], D=[1, 2, 2, 1], pos=1, path=[2]),
    dict(d=[2, 2, 2, 2], D=[1, 2, 2, 2, 1], pos=2, path=[1, 3]),
], thorough=[
    dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=0, path=[3, 1]),
    dict(d=[2, 2, 2, 2], D=[1, 2, 2, 2, 1], pos=2, path=[0]),
    dict(d=[2, 2, 2, 2], D=[1, 2, 2, 2, 1], pos=2, path=[4]),
])
def position_from_any_centre(E, d, D, pos, path):
    """arbitrary centre matrix and recorded norm at any bond; several moves"""
    m = placed(E, d, D, pos)
    ref = o.mps_state(m)
    for b in path:
        m.position(b)
        E.true('centre bond is the requested one', m.pos == b)
        E.eq('state after moving centre to bond %d' % b, o.mps_state(m), ref)
    E.eq('bond dimensions never grow', np.array([int(a <= b) for a, b in zip(m.D, D)]), np.ones(len(D)))


@scenario('S01', params=[
    dict(d=[2, 2], D=[1, 2, 1], pos=1, path=[0]),
    dict(d=[2, 2], D=[1, 2, 1], pos=0, path=[2]),
    dict(d=[2, 3], D=[1, 2, 1], pos=2, path=[1]),
    dict(d=[2, 2], D=[1, 3, 1], pos=2, path=[1, 0]),
])
def position_with_svd(E, d, D, pos, path):
    """centre moves through the SVD branch (bond cap passed, nothing exceeds it)"""
    m = placed(E, d, D, pos)
    ref = o.mps_state(m)
    for b in path:
        m.position(b, D=16)
        E.true('centre bond is the requested one', m.pos == b)
        E.eq('state after SVD move to bond %d' % b, o.mps_state(m), ref)


@scenario('S01', params=[dict(d=[2, 2], D=[1, 2, 1], pos=0), dict(d=[2, 2], D=[1, 2, 1], pos=1), dict(d=[2, 3], D=[1, 2, 1], pos=2),
                         dict(d=[2, 2, 2], D=[1, 2, 3, 1], pos=3), dict(d=[2, 2, 2], D=[1, 2, 3, 1], pos=1)])
def merging_the_centre(E, d, D, pos):
    """tensor(site), tolist() and absorbing the centre matrix represent the same state"""
    m = placed(E, d, D, pos)
    ref = o.mps_state(m, Z=False)
    E.eq('tolist', o.chain_state(m.tolist()), ref)
    ts = [np.array(t) for t in m.tensors]
    if pos < len(d):
        t2 = list(ts)
        t2[pos] = m.tensor(pos)
        E.eq('tensor(centre site)', o.chain_state(t2), ref)
    if pos > 0:
        t2 = list(ts)
        t2[pos - 1] = m.tensor(pos - 1)
        E.eq('tensor(site left of centre)', o.chain_state(t2), ref)
    E.eq('reading tensors does not change the state', o.mps_state(m, Z=False), ref)
    for site in [n for n in (pos - 1, pos) if 0 <= n < len(d)]:
        c = m.__copy__()
        t = c.tensor(site, clear=True)
        E.eq('tensor(%d, clear) is the tensor' % site, t, m.tensor(site))
        E.eq('the site tensor itself stays', c.tensors[site], m.tensors[site])
        E.eq('cleared centre is a unit multiple of the identity', np.array(c._mat) * E.sqrt(D[pos]), np.eye(D[pos]))
    for direction in (1, -1):
        c = m.__copy__()
        c.__absorbCenterMatrix__(direction)
        E.eq('absorbed centre, direction %d' % direction, o.chain_state(c.tensors), ref)
        E.eq('state after absorbing', o.mps_state(c, Z=False), ref)


@scenario('S01', params=[dict(d=[2, 2], D=[1, 2, 1], ortho='QR', direction=1), dict(d=[2, 3], D=[1, 2, 1], ortho='QR', direction=-1),
                         dict(d=[2, 2, 2], D=[1, 2, 2, 1], ortho='QR', direction=1), dict(d=[2, 2, 2], D=[1, 2, 2, 1], ortho='QR', direction=-1),
                         dict(d=[2, 2], D=[1, 2, 1], ortho='SVD', direction=1), dict(d=[2, 2], D=[1, 2, 1], ortho='SVD', direction=-1)])
def orthonormalize_lists(E, d, D, ortho, direction):
    """list version: tensors swept over the whole chain, returned matrix times tensors is the state"""
    ts = E.mps_tensors('A', d, D)
    ref = o.chain_state(ts)
    lst = [np.array(t) for t in ts]
    f = E.mf.orthonormalizeQR if ortho == 'QR' else E.mf.orthonormalizeSVD
    r = f(lst, direction, 0, len(d) - 1)
    if direction > 0:
        # the sweep leaves norms of intermediate steps in the scalar of r
        lst[-1] = np.transpose(np.tensordot(lst[-1], r, axes=([1], [0])), (0, 2, 1))
    else:
        lst[0] = np.tensordot(r, lst[0], axes=([1], [0]))
    E.eq('list sweep', o.chain_state(lst), ref)


# ----------------------------------------------------------------- S02
def check_iso(E, m, pos, lo=0, hi=None):
    hi = len(m) if hi is None else hi
    for n in range(lo, hi):
        A = np.asarray(m[n])
        if n < pos:
            g = np.tensordot(A, np.conj(A), axes=([0, 2], [0, 2]))
            E.eq('site %d left-orthonormal' % n, g, np.eye(g.shape[0]))
        else:
            g = np.tensordot(A, np.conj(A), axes=([1, 2], [1, 2]))
            E.eq('site %d right-orthonormal' % n, g, np.eye(g.shape[0]))


@scenario('S02', mode='fresh', params=[
    dict(d=[2, 2], D=[1, 2, 1], path=[0]),
    dict(d=[2, 3], D=[1, 2, 1], path=[0, 1]),
    dict(d=[2, 3], D=[1, 2, 1], path=[0, 2]),
    dict(d=[3, 2], D=[1, 3, 1], path=[0, 2]),
    dict(d=[2, 3, 2], D=[1, 2, 2, 1], path=[0, 3]),
    dict(d=[2, 2, 2], D=[1, 2, 2, 1], path=[0, 1, 2]),
    dict(d=[2, 2, 2, 3], D=[1, 2, 3, 2, 1], path=[0, 2]),
    dict(d=[2, 2], D=[1, 2, 1], path=[0, 1], D_arg=16),
    dict(d=[2, 3, 2], D=[1, 2, 2, 1], path=[0, 2], D_arg=16),
])
def sweeps_orthonormalize(E, d, D, path, D_arg=None):
    m, ts = build(E, d, D)
    for b in path:
        m.position(b, D=D_arg)
        E.eq('centre matrix has unit norm at %d' % b, E.fro2(m._mat), 1)
    check_iso(E, m, path[-1])


@scenario('S02', mode='fresh', params=[
    dict(d=[2, 2], D=[1, 2, 1], pos=1, to=0), dict(d=[2, 2], D=[1, 2, 1], pos=1, to=2), dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=0, to=2),
    dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=3, to=1), dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=2, to=1), dict(d=[2, 3, 2], D=[1, 2, 2, 1], pos=1, to=2)])
def canonical_stays_canonical(E, d, D, pos, to):
    """from any canonical form, moving the centre keeps all tensors isometric on the right side"""
    m = canonical(E, d, D, pos)
    m.position(to)
    E.eq('centre matrix has unit norm', E.fro2(m._mat), 1)
    check_iso(E, m, to)


@scenario('S02', mode='fresh', params=[
    dict(d=[2, 2], D=[1, 2, 1], pos=0, to=1), dict(d=[2, 2], D=[1, 2, 1], pos=2, to=1), dict(d=[2, 3], D=[1, 2, 1], pos=1, to=2),
    dict(d=[2, 3], D=[1, 2, 1], pos=1, to=0), dict(d=[2, 2, 2], D=[1, 2, 2, 1], pos=1, to=2), dict(d=[2, 2, 2], D=[1, 2, 2, 1], pos=2, to=1)])
def recorded_norm_is_the_norm(E, d, D, pos, to):
    """|Z|^2 of the unit-norm centre form equals the squared norm of the represented state"""
    m = canonical(E, d, D, pos)
    n0 = m._Z * np.conj(m._Z) * E.fro2(m._mat)
    m.position(to)
    E.eq('norm carried by Z', m._Z * np.conj(m._Z), n0)


@scenario('S02', mode='fresh', params=[dict(d=[2, 2], D=[1, 2, 1], direction=1), dict(d=[2, 2], D=[1, 2, 1], direction=-1),
                                       dict(d=[2, 3], D=[1, 2, 1], direction=1), dict(d=[2, 3], D=[1, 2, 1], direction=-1)])
def ortho_check_reports_deviation(E, d, D, direction):
    """the reported deviation is zero exactly on isometries: it equals the Frobenius norm of A^dag A - 1"""
    m, ts = build(E, d, D)
    for n in range(len(d)):
        A = ts[n]
        ax = ([0, 2], [0, 2]) if direction > 0 else ([1, 2], [1, 2])
        g = np.tensordot(A, np.conj(A), axes=ax)
        g = g - np.eye(g.shape[0])
        r = m.ortho(n, direction)
        E.eq('deviation^2 at site %d' % n, r * r, E.fro2(g))
        r = E.mf.check_normalization(A, 'l' if direction > 0 else 'r')
        E.eq('list check at site %d' % n, r * r, E.fro2(g))
