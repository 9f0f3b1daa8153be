"""S13-S16: the operators built by Hamiltonians.py against explicit sums of
embedded local operators, with symbolic site-dependent couplings."""
import numpy as np
from vt.env import scenario
from . import oracle as o

I2 = np.array([[1, 0], [0, 1]])
SX, ISY, SZ = np.array([[0, 1], [1, 0]]), np.array([[0, 1], [-1, 0]]), np.array([[1, 0], [0, -1]])     # ISY = i sigma_y (real)
SP = np.array([[0, 0], [1, 0]])          # raises index 0 (down) -> index 1 (up), as used by the repository's spin basis
SM = SP.T


def dense(W, row=0, col=0):
    return o.kron_matrix(o.mpo_dense([np.asarray(w) for w in W], row=row, col=col))


def kron(*ms):
    r = np.asarray(ms[0])
    for m in ms[1:]:
        r = np.kron(r, np.asarray(m)) if r.dtype != object and np.asarray(m).dtype != object else okron(r, np.asarray(m))
    return r


def okron(a, b):
    return np.tensordot(a, b, axes=0).transpose(0, 2, 1, 3).reshape(a.shape[0] * b.shape[0], a.shape[1] * b.shape[1])


def term(ops, ds):
    return o.kron_matrix(o.embed(ops, ds))


def total(terms, ds):
    """sum coeff * (tensor product of the given local operators)"""
    n = int(np.prod(ds))
    H = np.zeros((n, n), dtype=object)
    for c, ops in terms:
        H = H + term(ops, ds) * c
    return H


def couplings(E, name, n):
    return [E.scalar('%s%d' % (name, i), real=True) for i in range(n)]


def chain_forms(W, N):
    """(periodic/infinite form) closed to a chain by the standard boundary vectors: last row, first column"""
    return dense(W, row=-1, col=0)


LEN = [dict(N=2, obc=True), dict(N=3, obc=True), dict(N=4, obc=True), dict(N=1, obc=False), dict(N=3, obc=False)]
LENT = [dict(N=5, obc=True), dict(N=6, obc=True), dict(N=4, obc=False), dict(N=5, obc=False)]


def closed(E, ham, N, obc):
    """matrix of the chain and shape checks.  infinite-form blocks: every block is square; a chain of N blocks is closed
    with the last row and the first column, so that the couplings of the last site do not appear"""
    W = [np.asarray(ham[n]) for n in range(N)]
    if hasattr(ham, '__len__'):
        E.true('one block per site', len(ham) == N)
    if obc:
        E.true('trivial boundary dimensions', W[0].shape[0] == 1 and W[-1].shape[1] == 1)
        for a, b in zip(W, W[1:]):
            E.true('adjacent dimensions agree', a.shape[1] == b.shape[0])
        return dense(W)
    M = W[0].shape[0]
    E.true('square blocks', all(w.shape[:2] == (M, M) for w in W))
    return dense(W, row=-1, col=0)


def ring_next(E, ham, N, bondterms, ds):
    """infinite form: the bond from the last block into a repeated first block carries the couplings of the last site"""
    W = [np.asarray(ham[n]) for n in range(N)]
    return dense(W + [W[0]], row=-1, col=0)


def check_chain(E, build, nbond, onsite, bond, d, N, obc):
    """onsite(n): list of (coeff, op); bond(n): list of (coeff, left op, right op)"""
    ham = build()
    ds = [d] * N
    t = [(c, {n: op}) for n in range(N) for c, op in onsite(n)]
    tb = [(c, {n: a, n + 1: b}) for n in range(N - 1) for c, a, b in bond(n)]
    E.eq('Hamiltonian of the chain', closed(E, ham, N, obc), total(t + tb, ds))
    if not obc:
        ext = [(c, {n % (N + 1): op}) for n in range(N) for c, op in onsite(n)] + [(c, {N: op}) for c, op in onsite(0)]
        extb = [(c, {n: a, n + 1: b}) for n in range(N) for c, a, b in bond(n)]
        E.eq('unit cell followed by the first site of the next one', ring_next(E, ham, N, None, None), total(ext + extb, [d] * (N + 1)))
        if hasattr(ham, '__len__'):
            E.true('length', len(ham) == N)
    return ham


# ------------------------------------------------------------------------ S13
@scenario('S13', params=LEN, thorough=LENT, con_dtypes=('f',), real=True)
def xxz(E, N, obc):
    nb = N - 1 if obc else N
    Jz, Jxy, Bz = couplings(E, 'Jz', nb), couplings(E, 'Jxy', nb), couplings(E, 'B', N)
    k = [list(x) for x in (Jz, Jxy, Bz)]
    h = 0.5
    check_chain(E, lambda: E.H.XXZ(Jz, Jxy, Bz, obc=obc), nb, lambda n: [(Bz[n] * -h, SZ)],
                lambda n: [(Jz[n] * 0.25, SZ, SZ), (Jxy[n] * h, SP, SM), (Jxy[n] * h, SM, SP)], 2, N, obc)
    for a, b in zip(k, (Jz, Jxy, Bz)):
        E.eq('parameters unchanged', a, b)


@scenario('S13', params=LEN, thorough=LENT, con_dtypes=('f',), real=True)
def xxz_flipped(E, N, obc):
    """every second spin rotated about x: J (sx sx - sy sy - Delta sz sz)"""
    if obc and N == 1:
        return
    nb = N - 1 if obc else N
    D, J = couplings(E, 'D', nb), couplings(E, 'J', nb)
    check_chain(E, lambda: E.H.XXZflipped(D, J, obc=obc), nb, lambda n: [],
                lambda n: [(J[n], SX, SX), (J[n], ISY, ISY), (D[n] * J[n] * -1, SZ, SZ)], 2, N, obc)


@scenario('S13', params=LEN, thorough=LENT, con_dtypes=('f',), real=True)
def tfi(E, N, obc):
    nb = N - 1 if obc else N
    Jx, Bz = couplings(E, 'J', nb), couplings(E, 'B', N)
    check_chain(E, lambda: E.H.TFI(Jx, Bz, obc=obc), nb, lambda n: [(Bz[n] * -1, SZ)], lambda n: [(Jx[n], SX, SX)], 2, N, obc)


@scenario('S13', params=LEN, thorough=LENT, con_dtypes=('f',), real=True)
def tfi_2(E, N, obc):
    nb = N - 1 if obc else N
    Jz, Bx = couplings(E, 'J', nb), couplings(E, 'B', N)
    check_chain(E, lambda: E.H.TFI_2(Jz, Bx, obc=obc), nb, lambda n: [(Bx[n], SX)], lambda n: [(Jz[n], SZ, SZ)], 2, N, obc)


@scenario('S13', params=[dict(N=2, obc=True), dict(N=3, obc=True), dict(N=1, obc=False), dict(N=2, obc=False)], thorough=[dict(N=4, obc=True), dict(N=3, obc=False)], con_dtypes=('f',), real=True)
def two_leg(E, N, obc):
    """two spins per site: J sigma.sigma and tau.tau along the legs, w (sx + tx) + chi sx tx per site"""
    nb = N - 1 if obc else N
    J, w, chi = couplings(E, 'J', nb), couplings(E, 'w', N), couplings(E, 'c', N)
    sg, ta = [kron(x, I2) for x in (SX, ISY, SZ)], [kron(I2, x) for x in (SX, ISY, SZ)]
    check_chain(E, lambda: E.H.JessHamiltonian(J, w, chi, obc=obc), nb,
                lambda n: [(w[n], sg[0] + ta[0]), (chi[n], kron(SX, SX))],
                lambda n: [(J[n] * s, x[i], x[i]) for x in (sg, ta) for i, s in ((0, 1), (1, -1), (2, 1))], 4, N, obc)


@scenario('S13', con_dtypes=('f',), real=True)
def length_checks(E):
    E.raises('bond couplings of the wrong length are rejected', lambda: E.H.JessHamiltonian([1., 1.], [1., 1.], [1., 1.], obc=True), ValueError)
    E.raises('bond couplings of the wrong length are rejected (periodic)', lambda: E.H.XXZ([1.], [1., 1.], [1., 1.], obc=False), AssertionError)


@scenario('S13', con_dtypes=('f',), real=True)
def generic_operator(E):
    """an operator made from a list of blocks behaves as the list, is independent of it, and reports its type"""
    W = [E.tensor('W0', (1, 2, 2, 2)), E.tensor('W1', (2, 2, 3, 3)), E.tensor('W2', (2, 1, 2, 2))]
    k = [np.array(w) for w in W]
    a = E.H.MPO(W)
    b = E.H.MPO.fromlist(W)
    c = E.H.MPO.fromMPO(a)
    a.dtype
    for w in W:
        w[...] = 0
    for x in (a, b, c):
        E.true('length', len(x) == 3)
        for n in range(3):
            E.eq('block %d' % n, x[n], k[n])
    b[1] = k[1] * 2
    E.eq('block replaced', b[1], k[1] * 2)
    E.eq('other operator unchanged', a[1], k[1])


# ------------------------------------------------------------------------ S14
def jw(ops, N, parity, d):
    """matrix of a product of fermionic local operators given as [(site, matrix)], in the order written, string to the left"""
    M = None
    for n, a in ops:
        x = term({**{k: parity for k in range(n)}, n: a}, [d] * N)
        M = x if M is None else M.dot(x)
    return M


FC = np.array([[0, 1], [0, 0]])
FP = np.array([[1, 0], [0, -1]])
FERM = [dict(N=2, obc=True), dict(N=3, obc=True), dict(N=4, obc=True), dict(N=1, obc=False), dict(N=3, obc=False)]


def ferm_chain(E, ham, N, obc, d, onsite, hop, dens, parity):
    """hop(n): [(coefficient, c)]: coefficient * (c+_n c_{n+1} + h.c.); dens(n): [(coefficient, n_n operator, n_{n+1} operator)]"""
    def H(M, wrap):
        r = np.zeros((d ** M, d ** M), dtype=object)
        for n in range(M):
            for c, op in onsite(n % N):
                r = r + term({n: op}, [d] * M) * c
        for n in range(M - 1):
            for t, c in hop(n):
                r = r + (jw([(n, c.T), (n + 1, c)], M, parity, d) + jw([(n + 1, c.T), (n, c)], M, parity, d)) * t
            for v, a, b in dens(n):
                r = r + term({n: a, n + 1: b}, [d] * M) * v
        return r
    E.eq('Hamiltonian of the chain', closed(E, ham, N, obc), H(N, False))
    if not obc:
        E.eq('unit cell followed by the first site of the next one', ring_next(E, ham, N, None, None), H(N + 1, True))


@scenario('S14', params=FERM, thorough=[dict(N=5, obc=True), dict(N=4, obc=False)], con_dtypes=('f',), real=True)
def spinless(E, N, obc):
    nb = N - 1 if obc else N
    V, t, mu = couplings(E, 'V', nb), couplings(E, 't', nb), couplings(E, 'mu', N)
    num = FC.T.dot(FC)
    ham = E.H.SpinlessFermions(V, t, mu, obc)
    ferm_chain(E, ham, N, obc, 2, lambda n: [(mu[n], num)], lambda n: [(t[n] * -1, FC)], lambda n: [(V[n], num, num)], FP)


@scenario('S14', params=[dict(N=2, obc=True), dict(N=3, obc=True), dict(N=1, obc=False), dict(N=2, obc=False)], thorough=[dict(N=4, obc=True), dict(N=3, obc=False)], con_dtypes=('f',), real=True)
def hubbard(E, N, obc):
    nb = N - 1 if obc else N
    U, mu, md = couplings(E, 'U', N), couplings(E, 'mu', N), couplings(E, 'md', N)
    tu, td = couplings(E, 'tu', nb), couplings(E, 'td', nb)
    cd, cu = kron(FC, I2), kron(FP, FC)
    nd, nu = cd.T.dot(cd), cu.T.dot(cu)
    ham = E.H.HubbardChain(U, tu, td, mu, md, obc)
    ferm_chain(E, ham, N, obc, 4, lambda n: [(U[n], nu.dot(nd)), (mu[n], nu), (md[n], nd)], lambda n: [(tu[n] * -1, cu), (td[n] * -1, cd)],
               lambda n: [], kron(FP, FP))


@scenario('S14', params=[dict(N=2), dict(N=3)], con_dtypes=('f',), real=True)
def conserved(E, N):
    """the particle numbers commute with the operator for all couplings"""
    V, t, mu = couplings(E, 'V', N - 1), couplings(E, 't', N - 1), couplings(E, 'mu', N)
    H = closed(E, E.H.SpinlessFermions(V, t, mu, True), N, True)
    num = sum(term({n: FC.T.dot(FC)}, [2] * N) for n in range(N))
    E.eq('number conserved', H.dot(num), num.dot(H))
    E.eq('hermitian', H, np.transpose(H))
    U, mu, md = couplings(E, 'U', N), couplings(E, 'mu', N), couplings(E, 'md', N)
    tu, td = couplings(E, 'tu', N - 1), couplings(E, 'td', N - 1)
    H = closed(E, E.H.HubbardChain(U, tu, td, mu, md, True), N, True)
    E.eq('hermitian (two species)', H, np.transpose(H))
    for nm, a in (('up', kron(I2, FC.T.dot(FC))), ('down', kron(FC.T.dot(FC), I2))):
        num = sum(term({n: a}, [4] * N) for n in range(N))
        E.eq('number conserved (%s)' % nm, H.dot(num), num.dot(H))


# ------------------------------------------------------------------------ S15
def boson(E, d):
    c = np.zeros((d, d), dtype=object)
    for n in range(1, d):
        c[n - 1, n] = E.sqrt(n)
    return c, c.T.copy()


def hop(E, d, a):
    c, cd = boson(E, d)
    return [(a, c, cd), (a, cd, c)]


CUT = [dict(N=2, d=3), dict(N=3, d=2)]


def infinite_list(E, W, N, d, onsite, bond, shape=None):
    W = [np.asarray(w) for w in W]
    E.true('one block per site', len(W) == N)
    t = [(c, {n: op}) for n in range(N) for c, op in onsite(n)] + [(c, {n: a, n + 1: b}) for n in range(N - 1) for c, a, b in bond(n)]
    E.eq('operator of the chain', dense(W, row=-1, col=0), total(t, [d] * N))
    return W


def phi_ops(E, d):
    c, cd = boson(E, d)
    q = cd.dot(cd).dot(cd).dot(cd) + 4 * cd.dot(cd).dot(cd).dot(c) + 6 * cd.dot(cd).dot(c).dot(c) + 4 * cd.dot(c).dot(c).dot(c) + c.dot(c).dot(c).dot(c)
    return c, cd, cd.dot(c), c.dot(c) + cd.dot(cd), q


PHI = [dict(v=v, N=N, d=d, obc=obc) for v in (1, 2, 3, 4) for N, d, obc in ((3, 2, False), (2, 3, True), (3, 3, False))]


@scenario('S15', params=PHI, thorough=[dict(v=v, N=2, d=5, obc=True) for v in (1, 2, 3, 4)], con_dtypes=('f',), real=True, mode='param')
def phi_four(E, v, N, d, obc):
    """the four discretisations of the normal-ordered phi^4 field theory"""
    mu, g = E.scalar('mu', real=True), E.scalar('g', real=True)
    nu, dx = E.scalar('nu', pos=True), E.scalar('dx', pos=True)
    c, cd, num, pair, quart = phi_ops(E, d)
    one = np.eye(d, dtype=int)
    k = 1 / (dx * dx)
    s, t = mu * mu + nu * nu, mu * mu - nu * nu
    W = [E.H.PhiFourmpo, E.H.PhiFourmpo2, E.H.PhiFourmpo3, E.H.PhiFourmpo4][v - 1](mu, nu, g, N, dx, d, obc=obc)
    if v == 1:
        on = lambda n: [(g / (96 * nu * nu * dx), quart)]
        A, B, h = s / (8 * nu) + k / (2 * nu), t / (16 * nu), k / (2 * nu)
    elif v == 2:
        on = lambda n: [(g / (96 * nu * dx), quart)]
        A, B, h = s / 4 + k, t / 8, k
    elif v == 3:
        on = lambda n: [(g / (96 * nu * dx), quart), (s / 2, num), (t / 4, pair)]
        A, B, h = k, None, k
    else:
        on = lambda n: [(g / (96 * nu * dx), quart), (s / 2 + 2 * k, num), (t / 4, pair)]
        A, B, h = None, None, k
    def bond(n):
        r = hop(E, d, -h)
        if A is not None:
            r += [(A, num, one), (A, one, num)]
        if B is not None:
            r += [(B, pair, one), (B, one, pair)]
        return r
    W = infinite_list(E, W, N, d, on, bond)
    if obc:
        E.true('open boundary dimensions', W[0].shape[0] == 1 and W[-1].shape[1] == 1)
    else:
        E.true('square blocks', all(w.shape[0] == w.shape[1] == W[0].shape[0] for w in W))


@scenario('S15', params=[dict(d=2), dict(d=3)], con_dtypes=('f',), real=True)
def phi_four_two_sites(E, d):
    mu, g = E.scalar('mu', real=True), E.scalar('g', real=True)
    nu, dx = E.scalar('nu', pos=True), E.scalar('dx', pos=True)
    c, cd, num, pair, quart = phi_ops(E, d)
    k = 1 / (dx * dx)
    on = lambda n: [(g / (192 * nu * dx), quart), ((mu * mu + nu * nu) / 4 + k, num), ((mu * mu - nu * nu) / 8, pair)]
    W = infinite_list(E, E.H.TwoSitePhiFourMPO(mu, nu, g, dx, d), 2, d, on, lambda n: hop(E, d, -k))
    E.true('open boundary dimensions', W[0].shape[0] == 1 and W[-1].shape[1] == 1)


LLP = [dict(v=v, N=N, d=d) for v in (0, 1, 2, 3) for N, d in ((2, 3), (3, 2), (1, 3))]


@scenario('S15', params=LLP, thorough=[dict(v=v, N=3, d=3) for v in (0, 1, 2, 3)], con_dtypes=('f',), real=True)
def lieb_liniger_bulk(E, v, N, d):
    """uniform discretised Bose gas, four placements of the local terms"""
    mu, g = E.scalar('mu', real=True), E.scalar('g', real=True)
    m, dx = E.scalar('m', pos=True), E.scalar('dx', pos=True)
    c, cd = boson(E, d)
    num, one = cd.dot(c), np.eye(d, dtype=int)
    k = 1 / (2 * m * dx * dx)
    W = [E.H.LiebLinigermpo, E.H.LiebLinigermpo1, E.H.LiebLinigermpo2, E.H.LiebLinigermpo3][v](mu, g, m, N, dx, d)
    inter = cd.dot(cd).dot(c).dot(c)
    on = [[(mu + 2 * k, num), (g / dx, inter)], [(g / dx, inter)], [], [(mu, num)]][v]
    A = [None, mu / 2 + k, mu / 2 + k, k][v]
    B = [None, None, g / dx, g / dx][v]

    def bond(n):
        r = hop(E, d, -k)
        if A is not None:
            r += [(A, num, one), (A, one, num)]
        if B is not None:
            r += [(B, num, num)]
        return r
    W = infinite_list(E, W, N, d, lambda n: on, bond)
    E.true('square blocks', all(w.shape[0] == w.shape[1] == W[0].shape[0] for w in W))


PLL = [dict(N=2, obc=True), dict(N=3, obc=True), dict(N=3, obc=False), dict(N=2, obc=False)]


@scenario('S15', params=PLL, thorough=[dict(N=4, obc=True)], con_dtypes=('f',), real=True)
def projected_lieb_liniger(E, N, obc):
    """hard-core Bose gas on a grid: projected kinetic energy, nearest-neighbour contact interaction"""
    mu, g = couplings(E, 'mu', N), E.scalar('g', real=True)
    m, dx = E.scalar('m', pos=True), E.scalar('dx', pos=True)
    k = 1 / (2 * m * dx * dx)
    num = FC.T.dot(FC)
    pr = I2 - num
    W = E.H.projectedLiebLinigermpo(mu, g, m, N, dx, obc)
    infinite_list(E, W, N, 2, lambda n: [(mu[n] / 2 if obc and n in (0, N - 1) else mu[n], num)],
                  lambda n: hop(E, 2, -k) + [(g / dx, num, num)] + ([(k, num, pr), (k, pr, num)]))


@scenario('S15', params=[dict(q, d=d) for q in PLL for d in (2, 3)], con_dtypes=('f',), real=True)
def projected_lieb_liniger_2(E, N, obc, d):
    mu, g = couplings(E, 'mu', N), E.scalar('g', real=True)
    m, dx = E.scalar('m', pos=True), E.scalar('dx', pos=True)
    k = 1 / (2 * m * dx * dx)
    c, cd = boson(E, d)
    num = cd.dot(c)
    pr = np.diag([1] + [0] * (d - 1))
    W = E.H.projectedLiebLinigermpo2(mu, g, m, N, d, dx, obc)
    infinite_list(E, W, N, d, lambda n: [(mu[n], num), (g / dx, cd.dot(cd).dot(c).dot(c))], lambda n: hop(E, d, -k) + [(k, num, pr), (k, pr, num)])


@scenario('S15', params=PLL, thorough=[dict(N=4, obc=True), dict(N=4, obc=False)], con_dtypes=('f',), real=True)
def projected_lieb_liniger_3(E, N, obc):
    """non-uniform grid; the step of a bond is the mean of the two cell sizes"""
    mu, g = couplings(E, 'mu', N), E.scalar('g', real=True)
    m = E.scalar('m', pos=True)
    r = [E.scalar('r%d' % n, pos=True) for n in range(N)]     # square roots of the cell sizes
    dx = [x * x for x in r]
    num = FC.T.dot(FC)
    pr = I2 - num
    W = E.H.projectedLiebLinigermpo3(mu, g, m, dx, obc)

    def bond(n):
        w = (dx[n] + dx[(n + 1) % N]) / 2
        k = 1 / (2 * m * w)
        i, j = 1 / dx[n], 1 / dx[(n + 1) % N]
        h = -k / (r[n] * r[(n + 1) % N])
        return [(k * i, num, pr), (k * j, pr, num), (h, FC, FC.T), (h, FC.T, FC), (w * g * i * j, num, num), (mu[n] / 2, num, I2), (mu[(n + 1) % N] / 2, I2, num)]
    W = infinite_list(E, W, N, 2, lambda n: [], bond)
    if obc:
        E.true('open boundary dimensions', W[0].shape[0] == 1 and W[-1].shape[1] == 1)


@scenario('S15', params=[dict(d=2), dict(d=3)], con_dtypes=('f',), real=True)
def lieb_liniger_local(E, d):
    mu, g = couplings(E, 'mu', 2), E.scalar('g', real=True)
    m, dx = E.scalar('m', pos=True), E.scalar('dx', pos=True)
    k = 1 / (2 * m * dx * dx)
    c, cd = boson(E, d)
    W = E.H.LocalLiebLinigermpo(mu, g, m, dx, d)
    infinite_list(E, W, 2, d, lambda n: [(mu[n] / 2 + k, cd.dot(c)), (g / (2 * dx), cd.dot(cd).dot(c).dot(c))], lambda n: hop(E, d, -k))


@scenario('S15', params=[dict(N=4, site=2, d=2), dict(N=5, site=2, d=2), dict(N=5, site=3, d=2), dict(N=4, site=2, d=3)], con_dtypes=('f',), real=True)
def energy_density(E, N, site, d):
    """kinetic and interaction energy density at one site"""
    mu, g = couplings(E, 'mu', N), E.scalar('g', real=True)
    m, dx = E.scalar('m', pos=True), E.scalar('dx', pos=True)
    k = 1 / (2 * m * dx * dx)
    c, cd = boson(E, d)
    W = [np.asarray(w) for w in E.H.LiebLinigerEdens(mu, g, m, dx, d, N, site)]
    E.true('one block per site', len(W) == N)
    if len(W) == N:
        E.eq('operator', dense(W), total([(2 * k, {site: cd.dot(c)}), (g / dx, {site: cd.dot(cd).dot(c).dot(c)}), (-k, {site - 1: c, site: cd}),
                                          (-k, {site: cd, site + 1: c})], [d] * N))


@scenario('S15', con_dtypes=('f',), real=True)
def homogeneous(E):
    g, m = E.scalar('g', real=True), E.scalar('m', pos=True)
    num = FC.T.dot(FC)
    pr = I2 - num
    k = 1 / (2 * m)
    W = E.H.HomogeneousLiebLinigermpo(g, m)
    E.true('left, centre and right block', len(W) == 3)
    bond = lambda n: hop(E, 2, -k) + [(k, pr, num), (k, num, pr), (g, num, num)]
    infinite_list(E, W, 3, 2, lambda n: [], bond)
    infinite_list(E, [W[0], W[1], W[1], W[2]], 4, 2, lambda n: [], bond)


@scenario('S15', params=[dict(N=2, d=2), dict(N=3, d=2)], con_dtypes=('f',), real=True)
def two_unit_cells(E, N, d):
    """operators on two neighbouring unit cells for the excitation ansatz: half of the energy of each cell plus the full link"""
    mu, g = couplings(E, 'mu', N), E.scalar('g', real=True)
    m, dx = E.scalar('m', pos=True), E.scalar('dx', pos=True)
    k = 1 / (4 * m * dx * dx)
    c, cd = boson(E, d)
    L, R = E.H.UnitcellExLiebLinigermpo(mu, g, m, N, dx, d)
    E.true('two cells', len(L) == N and len(R) == N)
    infinite_list(E, L + R, 2 * N, d, lambda n: [(mu[n % N] / 2 + 2 * k, cd.dot(c)), (g / (2 * dx), cd.dot(cd).dot(c).dot(c))],
                  lambda n: hop(E, d, -k * (2 if n == N - 1 else 1)))


@scenario('S15', params=[dict(N=2), dict(N=3)], con_dtypes=('f',), real=True)
def projected_two_unit_cells(E, N):
    mu, g = couplings(E, 'mu', N), E.scalar('g', real=True)
    m, dx = E.scalar('m', pos=True), E.scalar('dx', pos=True)
    k = 1 / (2 * m * dx * dx)
    num = FC.T.dot(FC)
    pr = I2 - num
    L, R = E.H.projectedUnitcellExLiebLinigermpo(mu, g, m, N, dx)
    E.true('two cells', len(L) == N and len(R) == N)
    infinite_list(E, L + R, 2 * N, 2, lambda n: [(mu[n % N], num)], lambda n: hop(E, 2, -k) + [(k, num, pr), (k, pr, num), (g / dx, num, num)])


# ------------------------------------------------------------------------ S16
def exponent(E, G, d1, d2):
    """the matrix A with G = exp(A)"""
    G = np.asarray(G)
    E.eq('gate shape', np.array(G.shape), np.array((d1, d2, d1, d2)))
    G = G.reshape(d1 * d2, d1 * d2)
    if not E.symbolic:
        import scipy.linalg as sl
        return sl.logm(G)
    from vt.stubs import akey
    for name, a, m in reversed(E.ctx.__dict__.get('uf_log', [])):
        if name == 'expm' and m.shape == G.shape and akey(m) == akey(G):
            return a
    from vt.sym import EncodeError
    raise EncodeError('gate is not a recorded matrix exponential')


def generic_nn(E, N, d, M):
    """nearest-neighbour operator in the standard form with arbitrary local and bond operators"""
    W = []
    for n in range(N):
        w = np.zeros((M, M, d[n], d[n]), dtype=object if E.symbolic else complex)
        one = np.eye(d[n], dtype=int)
        w[0, 0], w[M - 1, M - 1] = one, one
        w[M - 1, 0] = E.tensor('h%d' % n, (d[n], d[n]))
        for k in range(1, M - 1):
            w[k, 0] = E.tensor('r%d_%d' % (n, k), (d[n], d[n]))
            w[M - 1, k] = E.tensor('l%d_%d' % (n, k), (d[n], d[n]))
        W.append(w[M - 1:] if n == 0 else (w[:, :1] if n == N - 1 else w))
    return W


def gates_of(E, ham, ds, tau, t2):
    """the generators of all bond gates, embedded and summed"""
    N = len(ds)
    tot = np.zeros((int(np.prod(ds)),) * 2, dtype=object)
    for n in range(N - 1):
        a = exponent(E, ham.twoSiteGate(n, n + 1, tau), ds[n], ds[n + 1])
        b = exponent(E, ham.twoSiteGate(n, n + 1, t2), ds[n], ds[n + 1])
        c = exponent(E, ham.twoSiteGate(n + 1, n, tau), ds[n], ds[n + 1])
        E.eq('generator of bond %d is proportional to the step' % n, a * t2, b * tau)
        E.eq('order of the sites is irrelevant (bond %d)' % n, a, c)
        x = np.asarray(a)
        l = int(np.prod(ds[:n]))
        r = int(np.prod(ds[n + 2:]))
        tot = tot + okron(okron(np.eye(l, dtype=int).astype(object), x.astype(object)), np.eye(r, dtype=int).astype(object))
    return tot


@scenario('S16', params=[dict(d=[2, 2], M=3), dict(d=[2, 3], M=2), dict(d=[2, 3, 2], M=3), dict(d=[2, 2, 2, 2], M=4), dict(d=[2] * 5, M=3), dict(d=[2, 2, 2, 1, 2, 2], M=3)], thorough=[dict(d=[2, 2, 3, 2, 2], M=3), dict(d=[2] * 7, M=3)], tol=1e-5)
def generic_gates(E, d, M):
    N = len(d)
    ham = E.H.MPO(generic_nn(E, N, d, M))
    k = [np.array(ham[n]) for n in range(N)]
    tau, t2 = (E.scalar('tau'), E.scalar('t2')) if E.symbolic else (E.scalar('tau') * 0.1, E.scalar('t2') * 0.1)
    E.eq('local terms add up to the operator', gates_of(E, ham, d, tau, t2), dense([ham[n] for n in range(N)]) * tau)
    for n in range(N):
        E.eq('block %d unchanged' % n, ham[n], k[n])


@scenario('S16', params=[dict(N=2), dict(N=3), dict(N=4), dict(N=5)], thorough=[dict(N=6)], con_dtypes=('f',), tol=1e-5)
def model_gates(E, N):
    """every named nearest-neighbour model"""
    tau, t2 = (E.scalar('tau'), E.scalar('t2')) if E.symbolic else (0.07, 0.05)
    c = lambda nm, n: couplings(E, nm, n)
    for nm, h, d in (('xxz', E.H.XXZ(c('Jz', N - 1), c('Jxy', N - 1), c('B', N)), 2), ('tfi', E.H.TFI(c('J', N - 1), c('b', N)), 2),
                     ('spinless', E.H.SpinlessFermions(c('V', N - 1), c('hop', N - 1), c('m', N), True), 2)):
        E.eq('local terms add up to the operator (%s)' % nm, gates_of(E, h, [d] * N, tau, t2), dense([h[n] for n in range(N)]) * tau)
