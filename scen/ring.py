"""S36: effective problems of a translation-invariant ring."""
import numpy as np
from vt.env import scenario
from . import oracle as o
from .uniform import nn_mpo


def word(A, n):
    """product of n equal tensors: legs left, right, all physical indices merged"""
    t = A
    for _ in range(n - 1):
        x = np.tensordot(t, A, ([1], [0]))                       # l, phys, r, s
        t = np.reshape(np.transpose(x, (0, 2, 1, 3)), (A.shape[0], A.shape[1], -1))
    return t


def ring_apply(psi, h, a, b):
    """sum over the sites of the on-site term and over the bonds, the closing one included, of the two-site terms"""
    N = psi.ndim
    out = 0
    for n in range(N):
        out = out + o.op_on(psi, h, n)
        for x, y in zip(a, b):
            out = out + o.op_on(o.op_on(psi, x, n), y, (n + 1) % N)
    return out


def fixed(shape, kind):
    """fixed coefficients with no symmetry"""
    n = int(np.prod(shape))
    v = np.array([((7 * i * i + 3 * i + 2) % 11 - 5) / 4.0 for i in range(n)])
    if kind == 'c':
        v = v + 1j * np.array([((5 * i * i + i + 1) % 7 - 3) / 4.0 for i in range(n)])
    return np.reshape(v, shape)


@scenario('S36', params=[dict(N=3, D=1, free="A"), dict(N=3, D=2, free="W"), dict(N=4, D=1, free="A"), dict(N=5, D=1, free='A'), dict(N=4, D=2, free='A real'), dict(N=4, D=2, free='W'), dict(N=5, D=2, free='W'),
                         dict(N=6, D=1, free='W')],
          thorough=[dict(N=6, D=2, free='W'), dict(N=5, D=2, free='W', d=2, M=4), dict(N=4, D=2, free='W', d=3)])
def ring(E, N, D, free, d=2, M=3):
    """site and bond problems of a ring of N equal tensors: the exact Hamiltonian and norm around one open place"""
    if free == 'W':
        A = fixed((D, D, d), 'c')
        W, h, a, b = nn_mpo(E, d, M)
        A = E.const(A) if E.symbolic else A.astype(complex)
    else:
        A = E.tensor('A', (D, D, d), real=free != 'A')
        ops = [fixed((d, d), 'f') + k * np.diag(np.arange(1, d + 1)) for k in range(1 + 2 * (M - 2))]
        h, a, b = ops[0], ops[1:M - 1], ops[M - 1:]
        W = np.zeros((M, M, d, d))
        W[0, 0] = W[-1, -1] = np.eye(d)
        W[-1, 0] = h
        for k in range(M - 2):
            W[-1, k + 1], W[k + 1, 0] = a[k], b[k]
    x, C = E.tensor('x', (D, D, d)), E.tensor('C', (D, D))
    mps = E.mps.MPS([np.array(A)])
    mps._obc = False
    eng = E.en.PeriodicMPSengine(mps, E.H.MPO.fromlist([np.array(W)]), N, 'unused')
    H, Nn, Henv, Hb, Nb, Hbenv = eng.getHeffNeff()
    E.eq('state left alone', mps[0], A)
    env = np.conj(word(A, N - 1)) if not E.symbolic else E.conj(word(A, N - 1))
    # one open site: Tr(A^(N-1) x)
    psi = np.tensordot(word(A, N - 1), x, ([1, 0], [0, 1]))
    G = np.reshape(ring_apply(np.reshape(psi, [d] * N), h, a, b), (-1, d))
    E.eq('site: Hamiltonian', np.reshape(E.en.matvec(H, Henv, np.array(W), np.ravel(x)), (D, D, d)), np.transpose(np.tensordot(env, G, ([2], [0])), (1, 0, 2)))
    E.eq('site: norm', np.reshape(E.en.gram(Nn, np.reshape(np.eye(d), (1, 1, d, d)), np.ravel(x)), (D, D, d)), np.transpose(np.tensordot(env, np.reshape(psi, (-1, d)), ([2], [0])), (1, 0, 2)))
    # one open bond: Tr(A^N C)
    full = word(A, N)
    env = E.conj(full)
    psi = np.tensordot(full, C, ([1, 0], [0, 1]))
    G = np.ravel(ring_apply(np.reshape(psi, [d] * N), h, a, b))
    E.eq('bond: Hamiltonian', np.reshape(E.en.matvecbond(Hb, np.ravel(C)), (D, D)) + np.reshape(E.en.matvecbond(Hbenv, np.ravel(C)), (D, D)), np.transpose(np.tensordot(env, G, ([2], [0]))))
    E.eq('bond: norm', np.reshape(E.en.grambond(Nb, np.ravel(C)), (D, D)), np.transpose(np.tensordot(env, np.ravel(psi), ([2], [0]))))
