"""S24: Krylov iterations."""
import numpy as np
from vt.env import scenario
from .engines import patched


def operator(E, n, diag, real=None):
    if diag:
        a = np.array([E.scalar('a%d' % i, real=True) for i in range(n)])
        return np.diag(a) if not E.symbolic else np.array([[a[i] if i == j else 0 * a[i] for j in range(n)] for i in range(n)], dtype=object)
    return E.herm('A', n, real=real)


def start(E, n, real=None):
    return E.tensor('x', (n,), real=real)


def nozero(shape, dtype=None):
    return np.zeros(shape, dtype=dtype)


def check_basis(E, lan, A):
    """orthonormal basis, exact projected matrix.  Symbolically the off-diagonal entries are decided by the recurrence
    (A v_j minus its components along the basis is T[j+1,j] v_{j+1}), which with orthonormality is the same statement."""
    V = lan._vecs
    T = lan._Heff
    n = len(V)
    E.true('projection has one row per vector', np.shape(T) == (n, n))
    for i in range(n):
        for j in range(i + 1):
            E.eq('basis vectors %d %d' % (j, i), np.sum(np.conj(V[j]) * V[i]), 1 if i == j else 0)
    for j in range(n):
        Av = np.dot(A, V[j])
        E.eq('projected operator %d %d' % (j, j), T[j, j], np.sum(np.conj(V[j]) * Av))
        for i in range(n):
            if not E.symbolic:
                E.eq('projected operator %d %d' % (i, j), T[i, j], np.sum(np.conj(V[i]) * Av))
            elif abs(i - j) == 1:
                E.eq('projected operator hermitian %d %d' % (i, j), T[i, j], np.conj(T[j, i]))
            elif i != j:
                E.eq('projected operator %d %d' % (i, j), T[i, j], 0)
        if j + 1 < n:
            E.eq('recurrence %d' % j, V[j + 1] * T[j + 1, j], Av - T[j, j] * V[j] - (T[j - 1, j] * V[j - 1] if j else 0))
    return V, T


BAS = [dict(n=2, k=1, ro=r, diag=dg) for r in (False, True) for dg in (False, True)] + [dict(n=3, k=1, ro=False, diag=False), dict(n=3, k=2, ro=False, diag=True)]


def no_eigh(E, log, n=8):
    """eigenvalues and eigenvectors as arbitrary values: what is returned must be the stated combination"""
    def f(a, *x, **y):
        m = a.shape[0]
        w = np.array([E.scalar('w%d_%d' % (m, i), real=True) for i in range(m)], dtype=object)
        u = E.tensor('u%d' % m, (m, m))
        log.append((np.array(a, copy=True), w, u))
        return w.copy(), u.copy()
    return patched((np.linalg, 'eigh', f)) if E.symbolic else patched()


@scenario('S24', params=BAS, thorough=[dict(n=4, k=2, ro=False, diag=True)], timeout=200)
def basis(E, n, k, ro, diag):
    """orthonormal basis and exact projected matrix for every Hermitian operator and start vector"""
    A, x = operator(E, n, diag), start(E, n)
    keep = np.array(x, copy=True)
    delta = E.scalar('delta', lo=1e-12, hi=0.5) if E.symbolic else 1e-9
    log = []
    with no_eigh(E, log):
        lan = E.lan.LanczosEngine(lambda v: np.dot(A, v), np.dot, nozero, Ndiag=100, ncv=k, numeig=1, delta=delta, deltaEta=1e-12)
        eta, states, conv = lan.__simulate__(x.copy(), reortho=ro)
    if not lan._vecs:
        return                                     # every vector is shorter than the user's delta
    V, T = check_basis(E, lan, A)
    E.true('as many vectors as asked for unless the space is exhausted', len(V) == min(k + 1, n) or len(V) < k + 1)
    nrm = E.sqrt(np.sum(np.conj(keep) * keep))
    E.eq('first vector', V[0] * nrm, keep)
    if E.symbolic:
        a, w, u = log[-1]
        E.eq('the projected matrix is diagonalised', a, T)
    else:
        w, u = np.linalg.eigh(T)
    E.eq('eigenvalues', eta, w[:1])
    s = sum(V[i] * u[i, 0] for i in range(len(V)))
    m = E.sqrt(np.sum(np.conj(s) * s)) if not E.symbolic else None
    if E.symbolic:
        for j in (0, n - 1):
            E.eq('returned vector', states[0] * s[j], s * states[0][j])
    else:
        E.eq('returned vector', states[0], s / m)


@scenario('S24', params=[dict(n=2, numeig=2, ndiag=1), dict(n=3, numeig=2, ndiag=2), dict(n=3, numeig=3, ndiag=1)], max_paths=40)
def eigenpairs(E, n, numeig, ndiag):
    """several eigenpairs, with the convergence test running"""
    A, x = operator(E, n, True), start(E, n)
    log = []
    with no_eigh(E, log):
        lan = E.lan.LanczosEngine(lambda v: np.dot(A, v), np.dot, nozero, Ndiag=ndiag, ncv=max(n - 1, numeig) if not E.symbolic else n - 1 if n - 1 >= numeig else numeig,
                                  numeig=numeig, delta=1e-9, deltaEta=1e-11 if not E.symbolic else E.scalar('de', pos=True))
        if E.symbolic:
            lan._ncv = n - 1                       # stay inside the space: exhaustion is the delta branch
        eta, states, conv = lan.__simulate__(x.copy())
    V, T = lan._vecs, lan._Heff
    m = min(numeig, len(V))
    E.true('number of eigenvalues', len(eta) == m and len(states) == m)
    if E.symbolic:
        a, w, u = log[-1]
        E.eq('the projected matrix is diagonalised', a, T)
        for q in range(m):
            E.eq('eigenvalue %d' % q, eta[q], w[q])
            s = sum(V[i] * u[i, q] for i in range(len(V)))
            E.eq('returned vector %d' % q, states[q] * s[0], s * states[q][0])
    else:
        ex = np.linalg.eigvalsh(A)
        E.eq('eigenvalues', eta, ex[:m])
        for q in range(m):
            E.eq('eigenvector %d' % q, np.dot(A, states[q]), ex[q] * states[q])


@scenario('S24', params=[dict(n=n, k=k, dg=dg) for n, k, dg in ((2, 1, False), (3, 1, True), (1, 1, False))], thorough=[dict(n=3, k=2, dg=True)], timeout=200)
def time_step(E, n, k, dg):
    """the step is |x| sum_n v_n exp(dt T)[n,0] with the projected matrix T, for every vector and step"""
    A, x = operator(E, n, dg), start(E, n)
    dt = E.scalar('dt') if E.symbolic else 0.3 * E.scalar('dt')
    keep = np.array(x, copy=True)
    delta = E.scalar('delta', lo=1e-12, hi=0.5) if E.symbolic else 1e-10
    lan = E.lan.LanczosTimeEvolution(lambda v: np.dot(A, v), np.dot, nozero, ncv=k, delta=delta)
    log = []
    with no_eigh(E, log):
        out = lan.__doStep__(x, dt)
    E.eq('argument unchanged', x, keep)
    V, T = lan._vecs, lan._Heff
    if E.symbolic:
        from vt.stubs import akey
        G = [(a, m) for name, a, m in E.ctx.__dict__.get('uf_log', []) if name == 'expm']
        if not G:
            E.true('exponential of the projected matrix is used', False)
            return
        E.eq('exponent', G[-1][0], dt * T)
        U = G[-1][1]
    else:
        import scipy.linalg as sl
        U = sl.expm(dt * T)
        if k >= n - 1:
            E.eq('exact when the space is complete', out, sl.expm(dt * A) @ keep)
        E.eq('norm for a phase step', np.linalg.norm(E.lan.LanczosTimeEvolution(lambda v: np.dot(A, v), np.dot, nozero, ncv=k).__doStep__(x, -0.2j)), np.linalg.norm(x))
    nrm = E.sqrt(np.sum(np.conj(keep) * keep))
    E.eq('combination', out, nrm * sum(V[i] * U[i, 0] for i in range(len(V))))
    check_basis(E, lan, A)


@scenario('S24', params=[dict(n=5, a=a, x=x, t=t) for a in ('f', 'c') for x in ('f', 'c') for t in ('f', 'c', 'i')], sym=False, con_dtypes=('c',))
def number_types(E, n, a, x, t):
    """every combination of real/complex operator, vector and step gives the exact exponential"""
    import scipy.linalg as sl
    A = E.herm('A', n, real=a == 'f')
    v = E.tensor('x', (n,), real=x == 'f')
    dt = {'f': -0.3, 'c': -0.3j, 'i': -1}[t]
    lan = E.lan.LanczosTimeEvolution(lambda y: np.dot(A, y), np.dot, np.zeros, ncv=n - 1)
    E.eq('exact', lan.__doStep__(v, dt), sl.expm(dt * A) @ v)
    if t == 'f':
        lan = E.lan.LanczosEngine(lambda y: np.dot(A, y), np.dot, np.zeros, Ndiag=1, ncv=n - 1, numeig=2, delta=1e-10, deltaEta=1e-12)
        eta, st, c = lan.__simulate__(v, reortho=True)
        for q in range(2):
            E.eq('eigenpair %d' % q, np.dot(A, st[q]), eta[q] * st[q])
