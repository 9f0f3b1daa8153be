"""S03: tensor factorisations (QR / SVD, both directions)."""
import numpy as np
from vt.env import scenario
from . import oracle as o

SH = [(1, 2, 2), (2, 2, 2), (2, 1, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (1, 4, 2), (2, 2, 1), (1, 1, 3)]


def join(direction, out, mat):
    if direction > 0:
        return np.transpose(np.tensordot(out, mat, axes=([1], [0])), (0, 2, 1))
    return np.tensordot(mat, out, axes=([1], [0]))


def gram(direction, out):
    ax = ([0, 2], [0, 2]) if direction > 0 else ([1, 2], [1, 2])
    return np.tensordot(np.conj(out), out, axes=ax)


@scenario('S03', params=[dict(shape=list(s), direction=d, fixphase=f) for s in SH for d in (1, -1) for f in (None,)] +
                        [dict(shape=list(s), direction=d, fixphase=f) for s in SH[:4] for d in (1, -1) for f in ('q', 'r')])
def prepare_tensor_product(E, shape, direction, fixphase):
    A = E.tensor('A', shape)
    keep = np.array(A)
    out, r, Z = E.mf.prepareTensor(A, direction, fixphase)
    E.eq('product is the input', join(direction, out, r) * Z, keep)
    E.eq('input not modified', A, keep)


@scenario('S03', mode='fresh', params=[dict(shape=list(s), direction=d, fixphase=f) for s in SH for d in (1, -1) for f in (None,)] +
                                      [dict(shape=list(s), direction=d, fixphase=f) for s in SH[:3] for d in (1, -1) for f in ('q', 'r')])
def prepare_tensor_isometry(E, shape, direction, fixphase):
    A = E.tensor('A', shape)
    out, r, Z = E.mf.prepareTensor(A, direction, fixphase)
    g = gram(direction, out)
    E.eq('isometry', g, np.eye(g.shape[0]))
    E.eq('remainder has unit norm', E.fro2(r), 1)
    E.eq('Z is the norm', Z * Z, E.fro2(A))
    if fixphase:
        l1, l2, d = shape
        if direction > 0:
            q = np.reshape(np.transpose(out, (2, 0, 1)), (d * l1, out.shape[1]))
        else:
            q = np.conj(np.transpose(np.reshape(out, (out.shape[0], l2 * d), order='F')))
            r = np.conj(np.transpose(r))
        x = np.diag(q if fixphase == 'q' else r)
        E.eq('diagonal of %s is real' % fixphase, x, np.conj(x))


@scenario('S03', params=[dict(shape=list(s), direction=d, fixphase=f) for s in SH[:6] for d in (1, -1) for f in (False,)] +
                        [dict(shape=list(s), direction=d, fixphase=True) for s in SH[:3] for d in (1, -1)])
def prepare_tensor_svd_product(E, shape, direction, fixphase):
    A = E.tensor('A', shape)
    keep = np.array(A)
    out, s, v, Z = E.mf.prepareTensorSVD(A, direction, fixphase)
    S = np.diag(s)
    mat = np.dot(S, v) if direction > 0 else np.dot(v, S)
    E.eq('product is the input', join(direction, out, mat) * Z, keep)
    E.eq('input not modified', A, keep)


@scenario('S03', mode='fresh', params=[dict(shape=list(s), direction=d, fixphase=f) for s in SH[:6] for d in (1, -1) for f in (False,)] +
                                      [dict(shape=list(s), direction=d, fixphase=True) for s in SH[:2] for d in (1, -1)])
def prepare_tensor_svd_isometry(E, shape, direction, fixphase):
    A = E.tensor('A', shape)
    out, s, v, Z = E.mf.prepareTensorSVD(A, direction, fixphase)
    g = gram(direction, out)
    E.eq('isometry', g, np.eye(g.shape[0]))
    g = np.dot(v, np.conj(np.transpose(v))) if direction > 0 else np.dot(np.conj(np.transpose(v)), v)
    E.eq('other factor is an isometry', g, np.eye(g.shape[0]))
    E.eq('spectrum has unit norm', E.fro2(s), 1)
    E.eq('Z is the norm', Z * Z, E.fro2(A))
    if fixphase:
        l1, l2, d = shape
        x = np.diag(np.reshape(np.transpose(out, (2, 0, 1)), (d * l1, out.shape[1]))) if direction > 0 else np.diag(np.reshape(out, (out.shape[0], -1)))
        E.eq('diagonal of the isometry is real', x, np.conj(x))


@scenario('S03', params=[dict(shape=list(s), direction=d, D=D) for s in SH[:6] for d in (1, -1) for D in (None, 9)])
def prepare_truncate_product(E, shape, direction, D):
    A = E.tensor('A', shape)
    keep = np.array(A)
    a, s, b, Z = E.mf.prepareTruncate(A, direction, D=D)
    out, v = (a, b) if direction > 0 else (b, a)
    S = np.diag(s)
    mat = np.dot(S, v) if direction > 0 else np.dot(v, S)
    E.eq('product is the input', join(direction, out, mat) * Z, keep)
    E.eq('input not modified', A, keep)


@scenario('S03', mode='fresh', params=[dict(shape=list(s), direction=d, D=D) for s in SH[:6] for d in (1, -1) for D in (None, 9)])
def prepare_truncate_isometry(E, shape, direction, D):
    A = E.tensor('A', shape)
    a, s, b, Z = E.mf.prepareTruncate(A, direction, D=D)
    out, v = (a, b) if direction > 0 else (b, a)
    g = gram(direction, out)
    E.eq('isometry', g, np.eye(g.shape[0]))
    g = np.dot(v, np.conj(np.transpose(v))) if direction > 0 else np.dot(np.conj(np.transpose(v)), v)
    E.eq('other factor is an isometry', g, np.eye(g.shape[0]))
    E.eq('spectrum has unit norm', E.fro2(s), 1)
    E.eq('Z is the norm', Z * Z, E.fro2(A))


@scenario('S03', params=[dict(m=2, n=2), dict(m=3, n=2), dict(m=2, n=3)])
def matrix_svd(E, m, n):
    A = E.tensor('A', (m, n))
    u, s, v = E.mf.svd(A)
    E.eq('product', np.dot(np.dot(u, np.diag(s)), v), A)


@scenario('S03', real=True, params=[dict(m=2, n=2, fix='q'), dict(m=2, n=2, fix='r'), dict(m=3, n=2, fix='r'), dict(m=3, n=2, fix='q')])
def matrix_qr(E, m, n, fix):
    A = E.tensor('A', (m, n))
    q, r = E.mf.qr(A, fix)
    E.eq('product', np.dot(q, r), A)
    x = np.diag(q if fix == 'q' else r)
    for i in range(len(x)):
        E.ge('diagonal %d is not negative' % i, x[i], 0)


@scenario('S03', mode='fresh', real=True, params=[dict(m=2, n=2, fix='q'), dict(m=3, n=2, fix='r')])
def matrix_qr_isometry(E, m, n, fix):
    A = E.tensor('A', (m, n))
    q, r = E.mf.qr(A, fix)
    E.eq('isometry', np.dot(np.conj(np.transpose(q)), q), np.eye(q.shape[1]))


@scenario('S03', sym=True, con_repeat=1, params=[dict()])
def matrix_qr_zero_diagonal(E):
    """an exactly representable matrix whose orthogonal factor has a zero diagonal"""
    for A in ([[0.0, 1.0], [1.0, 0.0]], [[1.0, 0.0], [0.0, 0.0]], [[2.0, 0.0], [0.0, 0.0], [0.0, 0.0]]):
        for fix in ('q', 'r'):
            q, r = E.mf.qr(np.array(A), fix)
            E.eq('product %s' % fix, np.dot(q, r), np.array(A))
            E.eq('isometry %s' % fix, np.dot(np.transpose(q), q), np.eye(2))


@scenario('S03', params=[dict(D=2, direction=1), dict(D=2, direction=-1)])
def prepare_tensor_fix_a0(E, D, direction):
    """continuum gauge: A = out.mat (resp. mat.out) times the recorded matrix, up to the overall norm"""
    A = E.tensor('A', (D, D, 2))
    out, mat = E.mf.prepareTensorfixA0(A, direction)
    B = join(direction, out, mat)
    x, y = np.ravel(B), np.ravel(A)
    E.eq('proportional to the input', np.outer(x, y), np.outer(y, x))
