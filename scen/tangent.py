"""S33: tangent-space updates of a uniform state."""
import numpy as np
from vt.env import scenario
from .blocks import ein
from .engines import patched
from .regauge import Density, same


def bond_operator(W0, W1):
    """[in1, in2, out1, out2] of a two-site operator product"""
    return ein('aij,akl->ikjl', W0[0], W1[:, 0])


def numbers(E, D, d):
    """a unitary whose first D columns are a left-isometric tensor with diagonal right density q^2 (rows ordered (s, a))"""
    rot = [[0.6, 0.8j], [0.8j, 0.6]]
    u, w = np.eye(d, dtype=complex), np.eye(d, dtype=complex)
    u[:2, :2] = rot
    w[-2:, -2:] = rot
    one = E.const(u) if d == 2 else np.dot(E.const(u), E.const(w))
    if D == 1:
        return one, np.array([1.0])
    # columns: moves of a Markov chain with stationary weights 0.64, 0.36; then a rotation of the physical index
    Q = np.zeros((4, 4))
    Q[0, 0], Q[3, 0] = 0.8, 0.6            # from 0: stay (s=0) or to 1 (s=1)
    Q[2, 1], Q[1, 1] = 0.8, 0.6            # from 1: to 0 (s=1) or stay (s=0)
    Q[0, 2], Q[3, 2] = -0.6, 0.8
    Q[2, 3], Q[1, 3] = -0.6, 0.8
    return np.dot(np.kron(one, E.const(np.eye(2))), E.const(Q)), np.array([0.8, 0.6])


class Uniform:
    """left-isometric tensor A with complement V; density r of unit trace, fixed by the right transfer operator"""
    def __init__(self, E, D, d, kind):
        self.E, self.D, self.d = E, D, d
        n = D * d
        if E.symbolic and kind == 'number':
            Q, q = numbers(E, D, d)
            q = E.const(q)
            self.r, self.half, self.ihalf = np.diag(q * q), np.diag(q), np.diag(1 / q)
            self.Am, self.Vm = Q[:, :D], Q[:, D:]
        elif E.symbolic:
            Q = E.isometry('Q', n, n)                 # rows ordered (s, a)
            self.Am, self.Vm = Q[:, :D], Q[:, D:]
            s = Density(E, 'r', D, kind)
            self.r, self.half, self.ihalf = s.mat, s.half, s.ihalf
        else:
            X = E.tensor('Q', (n, D))
            self.Am = np.linalg.qr(X)[0]
        self.A = np.transpose(np.reshape(self.Am, (d, D, D)), (1, 2, 0))
        if E.symbolic and kind == 'number':
            pass
        elif E.symbolic:
            T = ein('ams,bcs,mc->ab', self.A, E.conj(self.A), self.r)
            if D > 1:
                for x in np.ravel(T - self.r):
                    E.ctx.hyp_zero(x)
        else:
            T = np.einsum('abs,cds->acbd', self.A, np.conj(self.A)).reshape(D * D, D * D)
            w, v = np.linalg.eig(T)
            r = v[:, np.argmax(np.abs(w))].reshape(D, D)
            r = r / np.trace(r)
            self.r = np.real(r) if E.kind == 'f' else (r + r.conj().T) / 2

    def project(self, F):
        """[a, b, s] -> (1 - A A+) F on the (site, left) index"""
        E, D, d = self.E, self.D, self.d
        Fm = np.reshape(np.transpose(F, (2, 0, 1)), (d * D, -1))
        P = np.dot(self.Vm, E.dag(self.Vm)) if E.symbolic else np.eye(d * D) - np.dot(self.Am, np.conj(self.Am.T))
        return np.transpose(np.reshape(np.dot(P, Fm), (d, D, -1)), (1, 2, 0))


def action(E, A, h, r, env):
    """derivative of the energy with respect to the conjugate tensor: the site is the right one, the left one,
    or to the right of the two (through the environment).  [bra left, bra right, s], ket density r on the right"""
    c = E.conj(A)
    AA = ein('abs,bct->acst', A, A)
    HA = ein('acst,stpq->acpq', AA, h)
    F1 = ein('acpq,xyq,cy->axp', HA, c, r)
    F2 = ein('acpq,axp,cy->xyq', HA, c, r)
    F3 = ein('ax,abs,by->xys', env, A, r)
    return F1 + F2 + F3


@scenario('S33', params=[dict(D=1, d=2, M=1), dict(D=1, d=2, M=2, kind='number'), dict(D=1, d=3, M=1, kind='number'), dict(D=2, d=2, M=1, kind='number')],
          thorough=[dict(D=1, d=3, M=1), dict(D=2, d=2, M=2, kind='number')],
          mode='fresh', tol=1e-5, con_repeat=2)
def update(E, D, d, M, kind='diag'):
    """the update is the projected action, orthogonal to the state, and its norm is the residual norm"""
    if not E.symbolic:
        D += 1
    u = Uniform(E, D, d, kind)
    A, r = u.A, u.r
    W = [E.tensor('W0', (1, M, d, d)), E.tensor('W1', (M, 1, d, d))]
    h = bond_operator(*W)
    if not E.symbolic:
        h = h + np.conj(np.transpose(h, (2, 3, 0, 1)))
        m = h.transpose(0, 2, 1, 3).reshape(d * d, d * d)
        W = [np.transpose(np.reshape(m, (1, d, d, d * d)), (0, 3, 1, 2)), np.reshape(np.eye(d * d), (d * d, 1, d, d))]
        if E.kind == 'f':
            W = [np.real(x) for x in W]
    K = E.tensor('K', (D, D))
    calls = []

    def env(tensorU, tensorL, r_, l_, inhom, x0=None, tolerance=1e-10, maxiteration=2000, direction=1, momentum=0.0):
        calls.append((tensorU, tensorL, r_, l_, inhom, direction, momentum))
        return K
    import scipy.linalg as sl
    orig = sl.sqrtm
    pinv = np.linalg.pinv
    c = 0.5
    patches = [(E.mf, 'TDVPGMRES', env), (E.mf, 'RENORMBLOCKHAMGMRES', env)]
    if E.symbolic:
        ph = np.array([E.unit('p%d' % i) for i in range(d * D)])
        Q = np.hstack([u.Am, u.Vm])
        S = np.array([1.0] * D + [c] * ((d - 1) * D))

        def svd(a):
            if a.shape == Q.shape and same(a, Q * S):
                return Q * ph, E.const(S), np.diag(E.conj(ph))
        E.hook('svd_known', svd)
        patches += [(np.random, 'rand', lambda *sh: u.Vm * (c / 0.0001) if sh == u.Vm.shape else E.tensor('rand', sh)),
                    (sl, 'sqrtm', lambda a, *k, **kw: u.half if same(a, r) else orig(a, *k, **kw)),
                    (np.linalg, 'pinv', lambda a, *k, **kw: u.ihalf if same(a, u.half) else pinv(a, *k, **kw))]
    hidden = E.symbolic and kind != 'number'
    if hidden:                                        # the squared norm as a polynomial of every entry is too large
        td = np.tensordot

        def tensordot(a, b, axes=2):
            if np.ndim(a) == 2 and isinstance(axes, tuple) and [list(x) for x in axes] == [[0, 1]] * 2:
                if same(b, E.conj(a)):
                    return E.scalar('norm2', pos=True)
            return td(a, b, axes)
        patches.append((np, 'tensordot', tensordot))
    before = np.array(A)
    with patched(*patches):
        out, energy, norm, k = E.mf.TDVPupdate(r, A, W)
    E.eq('tensor left alone', A, before)
    HA = ein('abs,bct,stpq->acpq', A, A, h)
    lb = ein('acpq,axp,xyq->cy', HA, E.conj(A), E.conj(A))
    e = ein('cy,cy->', lb, r)
    E.eq('energy', energy, e)
    E.true('one environment', len(calls) == 1)
    tU, tL, r_, l_, inhom, direction, momentum = calls[0]
    E.eq('environment of the state', tU, A)
    E.eq('environment of the state (bra)', tL, A)
    E.eq('right density', r_, r)
    E.eq('left density', l_, np.eye(D))
    E.eq('source', np.reshape(inhom, (D, D)), lb - e * np.eye(D))
    E.true('left environment', direction > 0 and momentum == 0)
    E.eq('environment returned', np.reshape(k, (D, D)), K)
    F = u.project(action(E, A, h, r, K))
    E.eq('orthogonal to the state', ein('abs,acs->bc', E.conj(A), out), np.zeros((D, D)))
    E.eq('projected action', ein('abs,bc->acs', out, r), F)
    if not hidden:
        E.eq('norm', norm * norm, ein('abs,acs,bc->', out, E.conj(out), r))


@scenario('S33', params=[dict(D=2, d=2, M=1), dict(D=2, d=2, M=2), dict(D=1, d=3, M=2), dict(D=3, d=2, M=1)])
def products(E, D, d, M):
    """nearest-neighbour action on a centre tensor: in the tangent space, and on the open site"""
    A, B, C, V = E.tensor('A', (D, D, d)), E.tensor('B', (D, D, d)), E.tensor('C', (D, D, d)), E.tensor('V', (D, (d - 1) * D if d == 2 else D, d))
    W = [E.tensor('W0', (1, M, d, d)), E.tensor('W1', (M, 1, d, d))]
    h = bond_operator(*W)
    K, R = E.tensor('K', (D, D)), E.tensor('R', (D, D))
    CB = ein('acpq,axp->cqx', ein('abs,bct,stpq->acpq', C, B, h), E.conj(V))          # ket right end, second site, bra bond
    AC = ein('acpq,axp->cqx', ein('abs,bct,stpq->acpq', A, C, h), E.conj(A))
    want = ein('cqx,ycq->xy', CB, E.conj(B)) + ein('cqx,xyq->yc', AC, E.conj(V)) + ein('ax,abs,xys->yb', K, C, E.conj(V))
    E.eq('tangent space', E.mf.tangentSpaceHAproduct(K, A, B, C, V, W), want)
    open_site = ein('ab,acs->bcs', K, C) + ein('lcs,cr->lrs', C, R) + ein('acpq,axp->xcq', ein('abs,bct,stpq->acpq', A, C, h), E.conj(A)) \
        + ein('acpq,ycq->ayp', ein('abs,bct,stpq->acpq', C, B, h), E.conj(B))
    E.eq('open site', E.mf.LiebLinigerHAproduct(K, W, R, A, C, B), open_site)
