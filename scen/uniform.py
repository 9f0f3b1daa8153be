"""S29: optimisers for uniform infinite states."""
import numpy as np
from vt.env import scenario
from . import oracle as o
from .engines import patched, proportional
from .dmrg import left_isometric, right_isometric
from .blocks import ein


def nn_mpo(E, d, M, herm=False):
    """operator tensor of an arbitrary uniform Hamiltonian with on-site and nearest-neighbour terms"""
    W = np.zeros((M, M, d, d), dtype=object if E.symbolic else E.dtype)
    W[0, 0] = W[M - 1, M - 1] = np.eye(d)
    h = E.tensor('h', (d, d))
    W[M - 1, 0] = h
    a, b = [], []
    for k in range(1, M - 1):
        a.append(E.tensor('a%d' % k, (d, d)))
        b.append(E.tensor('b%d' % k, (d, d)))
        W[M - 1, k], W[k, 0] = a[-1], b[-1]
    return W, h, a, b


def bond_term(E, h, a, b):
    """two-site operator H2[in1, in2, out1, out2] with half of each on-site term"""
    d = h.shape[0]
    one = np.eye(d) if not E.symbolic else E.const(np.eye(d))
    H2 = ein('ac,bd->abcd', h, one) / 2 + ein('ac,bd->abcd', one, h) / 2
    for x, y in zip(a, b):
        H2 = H2 + ein('ac,bd->abcd', x, y)
    return H2


def exact_blocks(E, A, B, H2, h, a, b):
    """energy operators of the two sites next to the cut, straight from the Hamiltonian"""
    AA = ein('lms,mrt->lrst', A, A)
    BB = ein('lms,mrt->lrst', B, B)
    hl = ein('lrst,stuv,lquv->rq', AA, H2, E.conj(AA))
    hr = ein('lrst,stuv,qruv->lq', BB, H2, E.conj(BB))
    return hl, hr


def channels(E, A, B, h, a, b, K, Q):
    """what the half chains contribute: energy, identity (isometric tensors: one), open bond operators"""
    L0 = K + ein('lrs,st,lqt->rq', A, h, E.conj(A)) / 2
    R0 = Q + ein('lrs,st,qrt->lq', B, h, E.conj(B)) / 2
    one, eno = ein('lrs,lqs->rq', A, E.conj(A)), ein('lrs,qrs->lq', B, E.conj(B))
    return (L0, one, [ein('lrs,st,lqt->rq', A, p, E.conj(A)) for p in a]), (R0, eno, [ein('lrs,st,qrt->lq', B, q, E.conj(B)) for q in b])


def heff_site(E, A, B, h, a, b, K, Q, X):
    """(left half + on-site + bonds + right half) X, X[l, r, s]"""
    (L0, L1, La), (R0, R1, Rb) = channels(E, A, B, h, a, b, K, Q)
    XL, XR = ein('lq,lrs->qrs', L1, X), ein('lrs,rq->lqs', X, R1)
    y = ein('lq,lrs->qrs', L0, XR) + ein('lrs,rq->lqs', XL, R0) + ein('lrs,st->lrt', ein('lq,lrs->qrs', L1, XR), h)
    for k in range(len(a)):
        y = y + ein('lq,lrs,st->qrt', La[k], XR, b[k]) + ein('lrs,st,rq->lqt', XL, a[k], Rb[k])
    return y


def heff_bond(E, A, B, h, a, b, K, Q, C):
    """the same for a matrix to the right of one more left tensor"""
    (L0, L1, La), (R0, R1, Rb) = channels(E, A, B, h, a, b, K, Q)
    g0, g1 = tr_left(E, A, L0, None) + tr_left(E, A, L1, h), tr_left(E, A, L1, None)
    for k in range(len(a)):
        g0 = g0 + tr_left(E, A, La[k], b[k])
    y = ein('lq,lr,rp->qp', g0, C, R1) + ein('lq,lr,rp->qp', g1, C, R0)
    for k in range(len(a)):
        y = y + ein('lq,lr,rp->qp', tr_left(E, A, L1, a[k]), C, Rb[k])
    return y


def tr_left(E, A, x, op):
    """the left half grown by one site that carries op"""
    if op is None:
        return ein('lk,lrs,kqs->rq', x, A, E.conj(A))
    return ein('lk,lrs,st,kqt->rq', x, A, op, E.conj(A))


def vumps(E, D, d, M, svd, solver, nvec, it=1):
    """one iteration from an arbitrary left/right/centre triple; every solver result arbitrary"""
    E.hook('opaque_norm', 20000)
    W, h, a, b = nn_mpo(E, d, M)
    A0 = E.tensor('A0', (D, D, d))
    mpo = E.H.MPO.fromlist([W])
    with patched((E.mf, 'regauge', lambda *x, **k: None)):
        eng = E.en.VUMPSengine([A0], mpo, 'unused')
    A = np.transpose(np.reshape(E.isometry('QA', D * d, D), (D, d, D)), (0, 2, 1))
    B = np.reshape(E.dag(E.isometry('QB', D * d, D)), (D, D, d))
    eng._A, eng._B = A, B
    eng._mps[0] = AC = E.tensor('AC', (D, D, d))
    eng._mat = C = E.tensor('C', (D, D))
    eng._l = eng._r = E.tensor('old', (D, D))
    eng._tol = eng._artol = eng._artol_ = eng._lgmrestol = eng._landelta = 1e-10
    eng._svd, eng._solver, eng._arnumvecs, eng._numeig, eng._ncv, eng._Nmaxlgmres, eng._arncv, eng._Ndiag, eng._nmaxlan = svd, solver, nvec, 3, 30, 40, 20, 10, 100
    dens = {1: E.herm('dl', D), -1: E.herm('dr', D)}
    if not E.symbolic:
        dens = {k: np.dot(v, v) + np.eye(D) for k, v in dens.items()}
    K = {1: E.tensor('K', (D, D)), -1: E.tensor('Q', (D, D))}
    log = dict(eigs=[], gmres=[], site=None, bond=None)

    def tmeigs(t, direction, numeig=1, init=None, **k):
        log['eigs'].append((np.array(t), direction))
        return 1.0, np.reshape(dens[direction] * E.unit('u%d' % direction), D * D), numeig

    def gmres(U, L, r, l, inhom, x0=None, direction=1, momentum=0.0, **k):
        log['gmres'].append((direction, np.array(U), np.array(L), np.array(r), np.array(l), np.array(inhom), momentum))
        return np.array(K[direction])
    es = [E.scalar('e%d' % i, real=True) for i in range(3)]
    sv, bv = [E.tensor('s%d' % i, (D, D, d)) for i in range(3)], [E.tensor('b%d_' % i, (D, D)) for i in range(3)]
    yS, yB = E.tensor('yS', (D, D, d)), E.tensor('yB', (D, D))

    def site(L, mpo, R, x, *p, **k):
        n = k.get('numvecs_returned', k.get('numeig', p[3] if solver == 'LAN' and len(p) > 3 else 1))
        m = k.get('numvecs', n)
        log['site'] = (np.reshape(E.mf.HAproductSingleSite(L, mpo, R, np.ravel(yS)), (D, D, d)), np.array(x), n, m)
        return (es[0], sv[0]) if n == 1 else (es[:n], sv[:n])

    def bond(L, mpo, A_, R, x, position, *p, **k):
        n = k.get('numvecs_returned', k.get('numeig', p[2] if solver == 'LAN' and len(p) > 2 else 1))
        m = k.get('numvecs', n)
        log['bond'] = (np.reshape(E.mf.HAproductZeroSite(L, mpo, A_, R, position, np.ravel(yB)), (D, D)), np.array(x), n, m)
        return (es[0], bv[0]) if n == 1 else (es[:n], bv[:n])
    names = ('eigsh', 'eigshbond') if solver == 'AR' else ('lanczos', 'lanczosbond')
    with patched((E.mf, 'TMeigs', tmeigs), (E.mf, 'RENORMBLOCKHAMGMRES', gmres), (E.mf, names[0], site), (E.mf, names[1], bond)):
        out = eng.__doStep__()
    # fixed points
    E.true('one eigenproblem per side', sorted(x[1] for x in log['eigs']) == [-1, 1])
    for t, direction in log['eigs']:
        E.eq('fixed point of the right tensors', t, A if direction < 0 else B)
    l, r = dens[1], dens[-1]
    E.eq('left density', eng._l * np.trace(l), l)
    E.eq('right density', eng._r * np.trace(r), r)
    # energy and linear problems
    H2 = bond_term(E, h, a, b)
    hl, hr = exact_blocks(E, A, B, H2, h, a, b)
    el, er = ein('ab,ab->', hl, r), ein('ab,ab->', hr, l)
    E.eq('energy density', out[0] * np.trace(r), el)
    E.true('one linear problem per side', sorted(x[0] for x in log['gmres']) == [-1, 1])
    for direction, U, Lw, rr, ll, inhom, mom in log['gmres']:
        E.true('zero momentum', mom == 0)
        want, t, e, x = (hl, A, el, r) if direction > 0 else (hr, B, er, l)
        E.eq('inhomogeneity %d' % direction, inhom * np.trace(x), want * np.trace(x) - e * np.eye(D))
        E.eq('ket %d' % direction, U, t)
        E.eq('bra %d' % direction, Lw, t)
        E.eq('trivial density %d' % direction, ll if direction > 0 else rr, np.eye(D))
        other = rr if direction > 0 else ll
        # any normalised density projects the divergent part out; it only fixes the zero of energy
        E.eq('unit trace %d' % direction, np.trace(other), 1.0)
    # effective Hamiltonians
    got, x, n, m = log['site']
    E.eq('site start', x, AC)
    E.eq('site operator', got, heff_site(E, A, B, h, a, b, K[1], K[-1], yS))
    E.true('as many pairs computed as wanted (site)', n == nvec and m >= nvec)
    got, x, n, m = log['bond']
    E.eq('bond start', x, C)
    E.eq('bond operator', got, heff_bond(E, A, B, h, a, b, K[1], K[-1], yB))
    grad = heff_site(E, A, B, h, a, b, K[1], K[-1], AC) - ein('lms,mr->lrs', A, heff_bond(E, A, B, h, a, b, K[1], K[-1], C))
    E.norm_is('gradient norm', eng._gradnorm, grad)
    # new triple
    E.eq('new site tensor', eng._mps[0], sv[0])
    E.eq('new centre matrix', eng._mat, bv[0])
    if nvec > 1:
        E.eq('gap', eng._gap, es[1] - es[0])
    left_isometric(E, 'new left tensor', eng._A)
    right_isometric(E, 'new right tensor', eng._B)
    S, Z = sv[0], bv[0]
    Al = np.reshape(np.transpose(eng._A, (0, 2, 1)), (D * d, D))
    Br = np.reshape(eng._B, (D, D * d))
    Sl, Sr = np.reshape(np.transpose(S, (0, 2, 1)), (D * d, D)), np.reshape(S, (D, D * d))
    if svd:
        # the isometries closest to S Z+ and Z+ S: the overlaps are hermitian (positive)
        for nm, P in (('left', np.dot(E.dag(Al), np.dot(Sl, E.dag(Z)))), ('right', np.dot(np.dot(E.dag(Z), Sr), E.dag(Br)))):
            E.eq(nm + ' tensor is the closest one', P, E.dag(P))
    else:
        # polar decompositions: A = U(S) U(Z)+, B = U(Z)+ U(S)
        sp = E.en.sp
        u, p = sp.linalg.polar(Sl, side='right')
        z, q = sp.linalg.polar(Z, side='right')
        E.eq('left tensor is the closest one', np.dot(Al, z), u)
        u, p = sp.linalg.polar(Sr, side='left')
        z, q = sp.linalg.polar(Z, side='left')
        E.eq('right tensor is the closest one', np.dot(z, Br), u)


@scenario('S29', params=[dict(D=1, d=2, M=3, svd=s, solver=so, nvec=n) for s, so, n in ((False, 'AR', 1), (True, 'AR', 1), (False, 'LAN', 1), (True, 'AR', 2), (False, 'LAN', 2))] +
          [dict(D=2, d=2, M=2, svd=False, solver='AR', nvec=1), dict(D=2, d=1, M=3, svd=True, solver='AR', nvec=2), dict(D=2, d=2, M=3, svd=False, solver='LAN', nvec=1, real=True)],
          thorough=[dict(D=2, d=2, M=3, svd=False, solver='AR', nvec=2), dict(D=2, d=2, M=4, svd=True, solver='AR', nvec=1, real=True)], mode='fresh', tol=1e-6)
def iteration(E, D, d, M, svd, solver, nvec):
    """one iteration from an arbitrary left/right/centre triple; every solver result arbitrary"""
    vumps(E, D, d, M, svd, solver, nvec)


@scenario('S29', params=[dict(Nmax=n, obj=ob, nvec=v) for n, ob, v in ((1, False, 1), (3, True, 1), (4, False, 1), (2, True, 2))], real=True, con_repeat=6)
def vumps_run(E, Nmax, obj, nvec):
    """initial gauges, number of iterations, convergence test and result, for every history of gradient norms"""
    E.hook('printable', True)
    A0, D = E.tensor('A0', (2, 2, 2)), 2
    W, h, a, b = nn_mpo(E, 2, 2)
    before = np.array(A0)
    eng = E.en.VUMPSengine(E.mps.MPS([A0]) if obj else [A0], E.H.MPO.fromlist([W]), 'unused')
    eps = E.scalar('eps', lo=0.2, hi=0.8)
    g, e = [E.scalar('g%d' % i, lo=0.0, hi=1.0) for i in range(Nmax + 1)], [E.scalar('e%d' % i, real=True) for i in range(Nmax + 1)]
    Y = {'left': (E.tensor('A', (D, D, 2)), E.tensor('l', (D, D))), 'right': (E.tensor('B', (D, D, 2)), E.tensor('r', (D, D)))}
    log, tols = [], []

    def regauge(t, gauge, **k):
        log.append((gauge, np.array(t)))
        return Y[gauge]

    def step():
        n = len(tols)
        tols.append(eng._artol_)
        if n == 0:
            E.eq('left tensor', eng._A, Y['left'][0])
            E.eq('right tensor', eng._B, Y['right'][0])
            E.eq('centre matrix', eng._mat, np.eye(D))
        eng._gradnorm, eng._gap = g[n], 1.0
        return e[n], 0.0, 0.0
    with patched((E.mf, 'regauge', regauge), (E.en.VUMPSengine, '_VUMPSengine__doStep__' if hasattr(E.en.VUMPSengine, '_VUMPSengine__doStep__') else '__doStep__', lambda self: step())):
        out = eng.simulate(Nmax=Nmax, epsilon=eps, artol=1e-9, arnumvecs=nvec, checkpoint=0)
    E.true('one gauge each', sorted(x[0] for x in log) == ['left', 'right'])
    for gauge, t in log:
        E.eq('regauged tensor', t, before)
    n = 1
    while n < Nmax and not bool(g[n - 1] < eps):
        n += 1
    E.true('iterations', len(tols) == n)
    E.eq('result', out, e[n - 1])
    E.eq('input unchanged', A0, before)


def tfi_cell(E, model):
    J, B, K = [1 + 0.3 * E.scalar(x, real=True) for x in 'JBK']
    J, B, K = np.array([J]), np.array([2.2 * B]), np.array([0.3 * K])
    return E.H.TFI(J, B, False) if model == 'TFI' else E.H.XXZ(J, K, B, False)


@scenario('S29', params=[dict(model=m, solver=s, svd=v, obj=ob, nvec=n) for m, s, v, ob, n in (('TFI', 'AR', False, False, 1), ('TFI', 'AR', True, True, 1), ('TFI', 'LAN', False, True, 1), ('TFI', 'AR', False, False, 2))],
          sym=False, tol=1e-5, con_repeat=2)
def vumps_result(E, model, solver, svd, obj, nvec):
    """the assembled optimiser: the energy reported is that of the final state, which is stationary"""
    from .idmrg import dense_energy
    ham = tfi_cell(E, model)
    W = np.asarray(ham[0])
    A0 = E.tensor('A0', (3, 3, 2))
    eng = E.en.VUMPSengine(E.mps.MPS([A0]) if obj else [A0], ham, 'unused')
    e = eng.simulate(Nmax=60, epsilon=1e-8, artol=1e-12, arnumvecs=nvec, svd=svd, solver=solver, checkpoint=0, arncv=8, Ndiag=2, nmaxlan=40, landelta=1e-12)
    E.eq('energy of the left tensor', dense_energy([eng._A], [W]), e)
    E.eq('energy of the right tensor', dense_energy([eng._B], [W]), e)
    E.true('converged', eng._gradnorm < 1e-5)
    for i in range(3):                        # nearby states have no lower energy
        E.ge('lowest', dense_energy([eng._A + 0.02 * E.tensor('v%d' % i, (3, 3, 2))], [W]).real + 1e-6, np.real(e))


# ------------------------------------------------------------------ gradient optimiser
def gradient(E, D, d, M, it, history, real_step=0.1):
    """one step of the gradient optimiser: energy, gradient, step and the new tensor"""
    E.hook('opaque_norm', 20000)
    W, h, a, b = nn_mpo(E, d, M)
    t0 = E.tensor('t0', (D, D, d))
    alphas, thr = [0.07, 0.05], [0.5, 0.1]
    eng = E.en.HomogeneousIMPSengine(10, t0, W, 'unused', 0.1, alphas, thr, object if E.symbolic else E.dtype, normtol=0.25)
    G = E.tensor('G', (D, D, d))
    lam = E.descending('lam', D)
    eng._it = it
    old = E.scalar('gold', lo=0.1, hi=3.0)
    eng._normgradold = old
    if it > 1:
        eng._gradbackup, eng._tensorbackup, eng._lamold = E.tensor('gb', (D, D, d)), E.tensor('tb', (D, D, d)), E.descending('lamold', D)
    backup = (np.array(eng._gradbackup), np.array(eng._tensorbackup), np.array(eng._lamold)) if it > 1 else None
    K = {1: E.tensor('K', (D, D)), -1: E.tensor('Q', (D, D))}
    log = dict(gauge=[], gmres=[], step=None)

    def regauge(t, gauge, **k):
        log['gauge'].append((np.array(t), gauge))
        return np.array(G), np.array(lam), 0.0

    def gmres(U, L, r, l, inhom, x0=None, direction=1, momentum=0.0, **k):
        log['gmres'].append((direction, np.array(U), np.array(L), np.array(r), np.array(l), np.array(inhom), momentum))
        return np.array(K[direction])
    reject = history

    def newstep(**k):
        log['step'] = k
        return E.scalar('alpha', lo=0.01, hi=0.5), 1, 2, False, reject, False

    def truncate(t, direction, **k):
        log['raw'] = np.array(t)
        m = np.reshape(np.transpose(t, (0, 2, 1)), (D * d, D))
        q = E.tensor('q', (D, D, d))
        return q, E.descending('s', D), E.tensor('v', (D, D)), 1.0
    class Eps:                                # the threshold: compared only with the gradient norm
        def __lt__(self, x):
            return False
        __le__ = __lt__

        def __gt__(self, x):
            log['compared'] = x
            return history
        __ge__ = __gt__
    eng._epsilon = Eps()
    with patched((E.mf, 'regauge', regauge), (E.mf, 'RENORMBLOCKHAMGMRES', gmres), (E.mf, 'prepareTruncate', truncate), (E.utils, 'determineNewStepsize', newstep)):
        out = eng.__doGradStep__()
    Lam = np.diag(lam)
    A, B = ein('lm,mrs->lrs', Lam, G), ein('lms,mr->lrs', G, Lam)
    X = ein('lm,mrs->lrs', Lam, B)
    E.true('one regauging', len(log['gauge']) == 1 and log['gauge'][0][1] == 'symmetric')
    E.eq('regauged tensor', log['gauge'][0][0], t0)
    H2 = bond_term(E, h, a, b)
    hl, hr = exact_blocks(E, A, B, H2, h, a, b)
    # identity channel of the blocks: A+A and BB+ (isometric for a canonical pair)
    NA, NB = ein('lrs,lqs->rq', A, E.conj(A)), ein('lrs,qrs->lq', B, E.conj(B))
    el, er = sum(hl[i, i] * lam[i] * lam[i] for i in range(D)), sum(hr[i, i] * lam[i] * lam[i] for i in range(D))
    E.eq('energy density', out[0], el)
    E.true('one linear problem per side', sorted(x[0] for x in log['gmres']) == [-1, 1])
    for direction, U, L, r, l, inhom, mom in log['gmres']:
        want, t, e = (hl, A, el) if direction > 0 else (hr, B, er)
        E.true('zero momentum', mom == 0)
        E.eq('inhomogeneity %d' % direction, inhom, want - e * np.eye(D))
        E.eq('ket %d' % direction, U, t)
        E.eq('bra %d' % direction, L, t)
        E.eq('densities %d' % direction, r if direction > 0 else l, np.diag(lam * lam))
        E.eq('trivial density %d' % direction, l if direction > 0 else r, np.eye(D))
    grad = heff_site(E, A, B, h, a, b, K[1], K[-1], X) - 2 * el * X
    k = log['step']
    E.true('converged as the threshold says', bool(out[3]) is bool(history))
    if not reject:
        E.eq('gradient', eng._grad, grad)
    g2 = k['normxopt']
    E.eq('norm compared with the threshold', log['compared'], g2)
    if E.symbolic and D > 1:
        pass
    else:
        E.eq('squared gradient norm', g2, E.fro2(grad))
    E.true('controller arguments', k['it'] == it and k['alpha'] == 0.1 and list(k['alphas']) == alphas and list(k['nxdots']) == thr and k['normtol'] == 0.25 and k['factor'] == 2.0 and k['itreset'] == 10)
    E.eq('previous norm', k['normxoptold'], old)
    alpha = E.scalar('alpha', lo=0.01, hi=0.5)
    E.eq('step kept', eng._alpha_, alpha)
    if reject:
        gb, tb, lo = backup
        opt, lamu = tb - alpha * gb, lo
        E.eq('back to the last accepted gradient', eng._grad, gb)
        E.eq('back to the last accepted tensor', eng._tensor, tb)
        E.eq('norm to compare with unchanged', eng._normgradold, old)
    else:
        opt, lamu = X - alpha * grad, lam
        E.eq('norm to compare with', eng._normgradold, g2)
        E.eq('backup', eng._gradbackup, eng._grad)
        E.eq('backup of the tensor', eng._tensorbackup, X)
        E.eq('backup of the Schmidt values', eng._lamold, lam)
    for i in range(D):
        E.eq('stepped tensor', log['raw'][:, i, :] * lamu[i], opt[:, i, :])
    q, s, v = E.tensor('q', (D, D, d)), E.descending('s', D), E.tensor('v', (D, D))
    new = ein('lms,m,mr->lrs', q, s, v)
    n2 = sum(x * x for x in s)
    E.eq('new tensor', eng._mps * E.sqrt(n2), new)
    return eng, log


@scenario('S29', params=[dict(D=1, d=2, M=3, it=1, history=False), dict(D=1, d=2, M=3, it=3, history=True), dict(D=2, d=1, M=3, it=2, history=False), dict(D=2, d=2, M=2, it=1, history=False, real=True),
                         dict(D=2, d=2, M=2, it=5, history=True, real=True)], thorough=[dict(D=2, d=2, M=3, it=2, history=False, real=True)], mode='fresh')
def gradient_step(E, D, d, M, it, history):
    """for every tensor, Schmidt values, environments and controller decision"""
    gradient(E, D, d, M, it, history)
