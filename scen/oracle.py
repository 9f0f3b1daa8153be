"""Textbook reference computations on dense vectors/operators (independent of
the repository).  Works for numeric and for symbolic (object) arrays."""
import itertools
import numpy as np


def contract_chain(tensors):
    """open chain of (Dl,Dr,d) tensors -> array [Dl, s1..sN, Dr]"""
    out = np.transpose(np.asarray(tensors[0]), (0, 2, 1))
    for t in tensors[1:]:
        t = np.asarray(t)
        out = np.tensordot(out, np.transpose(t, (0, 2, 1)), axes=([out.ndim - 1], [0]))
    return out


def chain_state(tensors):
    """dense vector of an open chain with boundary dimension 1"""
    a = contract_chain(tensors)
    return a.reshape(a.shape[1:-1])


def mps_tensors(mps):
    """tensors of an MPS object with the centre matrix merged in (own code)"""
    ts = [np.array(mps[n], copy=True) for n in range(len(mps))]
    p, m = mps.pos, np.asarray(mps._mat)
    if p < len(ts):
        ts[p] = np.tensordot(m, ts[p], axes=([1], [0]))
    else:
        ts[p - 1] = np.transpose(np.tensordot(ts[p - 1], m, axes=([1], [0])), (0, 2, 1))
    return ts


def mps_state(mps, Z=True):
    v = chain_state(mps_tensors(mps))
    return v * mps._Z if Z else v


def inner(a, b):
    """sum conj(a)*b"""
    a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
    s = 0
    for x, y in zip(a, b):
        s = s + np.conj(x) * y
    return s


def op_on(psi, op, n):
    """(O psi)_{..s'..} = sum_s psi_{..s..} op[s,s'] (first index: ket)"""
    r = np.tensordot(psi, np.asarray(op), axes=([n], [0]))
    return np.moveaxis(r, -1, n)


def expect(psi, ops):
    """sum psi_s op[s,s'] conj(psi_s') for {site: op}"""
    phi = psi
    for n, o in ops.items():
        phi = op_on(phi, o, n)
    return inner(psi, phi)


def two_site(psi, gate, n):
    """gate[in1,in2,out1,out2] on sites n,n+1"""
    r = np.tensordot(psi, np.asarray(gate), axes=([n, n + 1], [0, 1]))
    return np.moveaxis(r, [-2, -1], [n, n + 1])


def mpo_dense(ws, row=0, col=0):
    """product of (Ml,Mr,din,dout) blocks with boundary row/col -> [in1..inN,out1..outN]"""
    out = np.asarray(ws[0])[row]                       # Mr,din,dout
    out = np.moveaxis(out, 0, -1)                      # din,dout,Mr
    for w in ws[1:]:
        out = np.tensordot(out, np.asarray(w), axes=([out.ndim - 1], [0]))   # ..., Mr,din,dout
        out = np.moveaxis(out, -3, -1)
    out = out[..., col]
    N = len(ws)
    perm = list(range(0, 2 * N, 2)) + list(range(1, 2 * N, 2))
    return np.transpose(out, perm)


def embed(ops, ds):
    """tensor product operator {site: op} on local dims ds -> [in..., out...]"""
    N = len(ds)
    out = None
    for n in range(N):
        o = np.asarray(ops[n]) if n in ops else np.array([[1 if i == j else 0 for j in range(ds[n])] for i in range(ds[n])], dtype=object)
        out = o if out is None else np.tensordot(out, o, axes=0)
    perm = list(range(0, 2 * N, 2)) + list(range(1, 2 * N, 2))
    return np.transpose(out, perm)


def apply_op(H, psi):
    """H[in...,out...] on psi"""
    N = psi.ndim
    return np.tensordot(psi, H, axes=(list(range(N)), list(range(N))))


def kron_matrix(H):
    N = H.ndim // 2
    d = 1
    for n in range(N):
        d *= H.shape[n]
    return H.reshape(d, d)
