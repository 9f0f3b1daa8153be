"""S18, S19: time evolution engines."""
import os, copy, tempfile, shutil
import numpy as np
from vt.env import scenario
from . import oracle as o
from .gauge import build, placed


# ------------------------------------------------------------------------ S18
# A product of bond gates g_n(tau) = exp(tau h_n) with arbitrary h_n is a word
# over (bond, step).  Words are compared in the free partially commutative
# group: letters on non-adjacent... bonds that share no site commute, steps on
# the same bond add.  For generic h_n two words denote the same operator
# exactly when their normal forms agree, and the steps in it are compared by
# the solver for all values of the time step.
def normal_form(word):
    out = []                                   # layers: [(bond, step)]
    for n, tau in word:
        j = len(out) - 1
        while j >= 0 and abs(out[j][0] - n) > 1:
            j -= 1
        if j >= 0 and out[j][0] == n:
            out[j] = (n, out[j][1] + tau)
        else:
            out.append((n, tau))
    res = []                                   # lexicographic normal form
    rest = list(out)
    while rest:
        best = None
        for i, (n, t) in enumerate(rest):
            if all(abs(m - n) > 1 for m, _ in rest[:i]) and (best is None or n < rest[best][0]):
                best = i
        res.append(rest.pop(best))
    return res


def trotter(N, dt):
    """one documented step: even half step, odd step, even half step"""
    ev = [(n, dt * 0.5) for n in range(0, N - 1, 2)]
    return ev + [(n, dt) for n in range(1, N - 1, 2)] + ev


class Gates:
    """stands for exp(tau h_n) with arbitrary bond generators"""
    def __init__(self, base, E, N):
        self.__dict__.update(tensors=base, N=N, log=[])

    def __getitem__(self, n):
        return self.tensors[n]

    def __len__(self):
        return len(self.tensors)

    def twoSiteGate(self, m, n, tau):
        assert abs(m - n) == 1
        return Gate(min(m, n), tau)

    def __deepcopy__(self, memo):
        return self


class Gate:
    def __init__(self, n, tau):
        self.n, self.tau, self.shape = n, tau, (2, 2, 2, 2)


def word_mps(E, tensors, weights):
    """a state that records the gates applied to it (their action on real states is S17)"""
    class WordMPS(E.mps.MPS):
        def __applyTwoSiteGate__(self, gate, site, Dmax=None, thresh=1E-16):
            self.word.append((gate.n, gate.tau))
            self.at.append((gate.n, site))
            self.caps.append((Dmax, thresh))
            w = weights[len(self.word) - 1]
            return w, 1 + (len(self.word) * 7) % 5

        def __deepcopy__(self, memo):
            new = WordMPS(copy.deepcopy(self._tensors))
            new.resetZ()
            new.word, new.at, new.caps = list(self.word), list(self.at), list(self.caps)
            return new
    m = WordMPS(tensors)
    m.resetZ()
    m.word, m.at, m.caps = [], [], []
    return m


def product_tensors(N, one=1):
    return [np.reshape(np.array([1, 0]) if n % 2 else np.array([0, 1]), (1, 1, 2)) * 1.0 for n in range(N)]


def trivial_mpo(E, N):
    return [np.reshape(np.eye(2), (1, 1, 2, 2)) for n in range(N)]


TEBD = [dict(N=N, calls=c, cp=cp) for N, c, cp in (
    (2, [1, 2], None), (3, [1], None), (3, [2, 1], 1), (4, [3], None), (4, [4], 2), (5, [2, 2], None), (5, [3], 1), (6, [1, 0, 2], None),
    (6, [4], 1), (7, [3], 2), (4, [0], None), (5, [5], 3))]


@scenario('S18', params=TEBD, thorough=[dict(N=9, calls=[4, 3], cp=3), dict(N=10, calls=[6], cp=1)])
def schedule(E, N, calls, cp):
    t = [E.scalar('t%d' % k, pos=True) for k in range(len(calls))]
    s = [E.scalar('s%d' % k, real=True) for k in range(len(calls))]
    tot = sum(calls) * 4 * N + 8
    w = [E.scalar('w%d' % i, real=True) for i in range(tot)]
    mps = word_mps(E, product_tensors(N), w)
    eng = E.en.TimeEvolutionEngine(mps, Gates(trivial_mpo(E, N), E, N), 'unused')
    saved = []
    eng.save = lambda fn: saved.append((fn, list(eng._mps.word), eng.time, eng.truncatedWeight))
    thr = E.scalar('thresh', pos=True)
    ref, steps, time = [], 0, 0
    done = {}
    for k, n in enumerate(calls):
        dt = s[k] - 1j * t[k]
        before = len(saved)
        r = eng.doTEBD(dt, n, 7, thr, verbose=0, cp=cp)
        base, t0 = list(ref), time
        for i in range(n):
            ref = ref + trotter(N, dt)
            time = time + t[k]
        steps += n
        E.eq('returned time', r[1], time)
        E.eq('reported time', eng.time, time)
        for fn, word, tm, tw in saved[before:]:
            hit = False
            for i in range(n + 1):
                b = list(base)
                for _ in range(i):
                    b = b + trotter(N, dt)
                a, b = normal_form(word), normal_form(b)
                if [x for x, _ in a] == [x for x, _ in b]:
                    hit = True
                    E.eq('saved state is the state after complete steps', [y for _, y in a], [y for _, y in b])
                    E.eq('saved time belongs to it', tm, t0 + t[k] * i)
                    break
            E.true('saved state is the state after complete steps (bonds)', hit)
        E.true('number of completed steps', eng.iteration == steps)
        a, b = normal_form(eng._mps.word), normal_form(ref)
        E.eq('bonds of the product', np.array([x for x, _ in a]), np.array([x for x, _ in b]))
        E.eq('steps of the product', [y for _, y in a], [y for _, y in b])
        tw = 0
        for i in range(len(eng._mps.word)):
            tw = tw + w[i]
        E.eq('returned truncated weight', r[0], tw)
        E.eq('reported truncated weight', eng.truncatedWeight, tw)
    for (n, site), (D, th) in zip(eng._mps.at, eng._mps.caps):
        E.true('gate of bond %d acts there' % n, n == site)
        E.true('bond cap handed on', D == 7)
        E.eq('threshold handed on', th, thr)
    if cp:
        want = sum(1 for i in range(steps) if i > 0 and i % cp == 0)
        E.true('checkpoints written', len(saved) == want)
    E.true('caller keeps its state', len(mps.word) == 0)
    eng.reset()
    E.eq('reset', np.array([eng.time, eng.truncatedWeight, eng.iteration], dtype=object), np.array([0, 0, 0]))


@scenario('S18', params=[dict(N=N, v=v, cp=cp) for N in (3, 4) for v in (0, 1, 2) for cp in (None, 1, 2)])
def verbosity(E, N, v, cp):
    """the product, the time and the weight for every verbosity level (numbers for what is printed)"""
    w = [0.5 ** 4 * (i % 7) for i in range(200)]
    eng = E.en.TimeEvolutionEngine(word_mps(E, product_tensors(N), w), Gates(trivial_mpo(E, N), E, N), 'unused')
    eng.save = lambda fn: None
    dt = 0.25 - 0.125j
    r = eng.doTEBD(dt, 3, 7, 0.5, verbose=v, cp=cp)
    ref = trotter(N, dt) * 3
    a, b = normal_form(eng._mps.word), normal_form(ref)
    E.eq('bonds', np.array([x for x, _ in a]), np.array([x for x, _ in b]))
    E.eq('steps', [y for _, y in a], [y for _, y in b])
    E.eq('time', np.array([r[1], eng.time]), np.array([0.375, 0.375]))
    E.eq('weight', np.array([r[0], eng.truncatedWeight]), np.full(2, sum(w[:len(eng._mps.word)])))


def nn_mpo(E, N):
    """transverse Ising with symbolic fields in the standard nearest-neighbour form"""
    J = np.array([E.scalar('J%d' % n, real=True) for n in range(N - 1)])
    B = np.array([E.scalar('B%d' % n, real=True) for n in range(N)])
    return J, B


@scenario('S18', params=[dict(N=N, calls=c, cp=cp, v=v, im=im) for N, c, cp, v, im in (
    (2, [2], None, 0, True), (3, [1, 2], 1, 1, True), (4, [2, 1], None, 0, False), (4, [4], 1, 0, True), (5, [3], 2, 1, True))], sym=False, tol=1e-9)
def real_run(E, N, calls, cp, v, im):
    """the whole engine on real states (validates the word encoding)"""
    import scipy.linalg as sl
    Jz, Jxy, B = [np.array([E.scalar('%s%d' % (x, n), real=True) for n in range(N)]) for x in ('Jz', 'Jxy', 'B')]
    ham = E.H.XXZ(Jz[:-1], Jxy[:-1], B, True)
    ts = E.mps_tensors('A', [2] * N, [1] + [min(2 ** n, 2 ** (N - n)) for n in range(1, N)] + [1])
    m = E.mps.MPS([t.astype(complex) for t in ts])
    m.resetZ()
    psi = o.mps_state(m)
    psi = psi / np.linalg.norm(psi.ravel())
    cwd, tmp = os.getcwd(), tempfile.mkdtemp()
    os.chdir(tmp)
    try:
        eng = E.en.TimeEvolutionEngine.TEBD(m, ham, 'run')
        dt = -1j * 0.1 if im else 0.1
        x = psi
        n_ = 0
        for n in calls:
            r = eng.doTEBD(dt, n, 100, 1e-14, verbose=v, cp=cp, keep_cp=True)
            for _ in range(n):
                for b, tau in trotter(N, dt):
                    x = o.two_site(x, ham.twoSiteGate(b, b + 1, tau), b)
                n_ += 1
                f = 'run_tebd_cp%d' % (n_ - 1)
                if cp and n_ > 1 and (n_ - 1) % cp == 0:
                    c = eng.load(f)
                    y = o.mps_state(c._mps, Z=False)
                    E.eq('checkpoint %d' % n_, y, x / np.linalg.norm(x.ravel()))
            y = o.mps_state(eng._mps)
            E.eq('state', y, x / np.linalg.norm(x.ravel()))
        E.eq('time', eng.time, 0.1 * n_ if im else 0)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


@scenario('S25', params=[dict(kind=k, N=4, calls=c, cp=cp, keep=keep) for k in ('tebd', 'tdvp') for c, cp in (([5], 1), ([4], 2), ([5], 2), ([7], 3), ([2, 3], 2)) for keep in (False, True)])
def retention(E, kind, N, calls, cp, keep):
    """which checkpoints a run leaves behind, with every moment a crash could strike: one is always there"""
    w = [E.scalar('w%d' % i, real=True) for i in range(200)]
    tmp, cwd = tempfile.mkdtemp(), os.getcwd()
    if kind == 'tebd':
        eng = E.en.TimeEvolutionEngine(word_mps(E, product_tensors(N), w), Gates(trivial_mpo(E, N), E, N), 'run')
    else:
        m = E.mps.MPS(product_tensors(N))
        m.resetZ()
        eng = E.en.TimeEvolutionEngine(m, trivial_mpo(E, N), 'run')
    names = lambda: sorted(int(f[len('run_%s_cp' % kind):-len('.pickle')]) for f in os.listdir(tmp))
    written, before = [], [0]

    def save(fn):
        before.append(len(names()))
        written.append(int(fn[len('run_%s_cp' % kind):]))
        with open(os.path.join(tmp, os.path.basename(fn) + '.pickle'), 'w'):
            pass
    eng.save = save
    dt = E.scalar('s', real=True) - 1j * E.scalar('t', pos=True)
    os.chdir(tmp)
    try:
        done = 0
        for n in calls:
            start = len(written)
            had = names()
            if kind == 'tebd':
                eng.doTEBD(dt, n, 7, 0.5, verbose=0, cp=cp, keep_cp=keep)
            else:
                with integrators(E, lambda gen, x: x * 1.0):
                    eng.doTDVP(dt, n, solver='LAN', verbose=0, cp=cp, keep_cp=keep)
            due = [k for k in range(done + 1, done + n + 1) if k % cp == 0]
            new = written[start:]
            done += n
            E.true('one per interval', len(new) in (len(due), len([k for k in range(done - n, done) if k > 0 and k % cp == 0])))
            E.true('left behind', names() == sorted(set(had + (new if keep else new[-1:]))))
            E.true('at every moment one complete checkpoint', keep or all(b > 0 for b in before[start + 2:]))
        E.true('each under its own name', len(set(written)) == len(written))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------------ S19
def bound(orig, stub):
    """stub, called with its arguments named as in the replaced function's own signature: whether the
    code under test passes them by position or by keyword makes no difference to the stub"""
    import inspect
    if not (inspect.isfunction(orig) and inspect.isfunction(stub)):
        return stub
    try:
        sig, want = inspect.signature(orig), list(inspect.signature(stub).parameters.values())
    except (TypeError, ValueError):
        return stub
    fixed = [x.name for x in want if x.kind == x.POSITIONAL_OR_KEYWORD]
    if [x.kind for x in sig.parameters.values() if x.kind in (x.VAR_POSITIONAL, x.POSITIONAL_ONLY)] or not fixed:
        return stub
    rest = want[-1].kind == want[-1].VAR_KEYWORD
    names = list(sig.parameters)

    def call(*a, **k):
        try:
            got = dict(sig.bind(*a, **k).arguments)
        except TypeError:
            return stub(*a, **k)
        for x in [x for x in sig.parameters.values() if x.kind == x.VAR_KEYWORD]:
            got.update(got.pop(x.name, {}))
        out = {}
        for i, n in enumerate(fixed):           # same name first, else same position
            src = n if n in names else names[i] if i < len(names) and names[i] not in fixed else None
            if src in got:
                out[n] = got.pop(src)
        return stub(**out, **(got if rest else {}))
    return call


class patched:
    """temporarily replaces attributes of repository modules (integrators and eigensolvers) by recorders"""
    def __init__(self, *items):
        self.items = items

    def __enter__(self):
        self.old = [(m, n, getattr(m, n)) for m, n, _ in self.items]
        for m, n, v in self.items:
            setattr(m, n, bound(getattr(m, n), v))

    def __exit__(self, *a):
        for m, n, v in self.old:
            setattr(m, n, v)


def integrators(E, record):
    """the three integrators' documented contract: return the state after one step of dv/ds = A v.
    record(step*A as a function, start vector) -> end vector"""
    class Lan:
        def __init__(self, matvec, vecvec, zeros_initializer, ncv=10, delta=1E-10):
            self.mv = matvec

        def __doStep__(self, state, dt, verbose=False):
            mv = self.mv
            return record(lambda y: dt * mv(y), state)

    def gexpmv(A, v, t, anorm, *a, **k):
        return record(lambda y: t * A.matvec(y), v), True, 1, False, 1

    class Out:
        pass

    def ivp(fun, t_span, y0, method='RK45', **k):
        r = Out()
        if method in ('Radau', 'LSODA'):            # scipy: real systems only
            if E.symbolic:
                from vt.stubs import akey
                if akey(np.conj(y0)) != akey(y0):
                    raise ValueError('y0 is complex, but the chosen solver does not support integration in a complex domain.')
            elif np.iscomplexobj(y0):
                raise ValueError('y0 is complex, but the chosen solver does not support integration in a complex domain.')
            n = len(y0) // 2

            def gen(y):
                z = (t_span[1] - t_span[0]) * fun(t_span[0], np.concatenate([np.real(y), np.imag(y)]))
                return z[:n] + 1j * z[n:]
            x = record(gen, y0[:n] + 1j * y0[n:])
            r.y = np.stack([y0, np.concatenate([np.real(x), np.imag(x)])], 1)
            return r
        r.y = np.stack([y0, record(lambda y: (t_span[1] - t_span[0]) * fun(t_span[0], y), y0)], 1)
        return r
    return patched((E.lan, 'LanczosTimeEvolution', Lan), (E.sexpmv, 'gexpmv', gexpmv), (E.mf, 'solve_ivp', ivp))


def frame(tensors):
    """(D0, s..., D) product of (Dl,Dr,d) tensors; None for the empty product"""
    return o.contract_chain(tensors) if tensors else None


def effective(lefts, rights, mids, y, lb, rb):
    """exact projected operator applied to y[l, s..., r]: embed y between the frames, act with the
    operator, project back onto the frames.  mids: operator tensors of all sites of y; lefts/rights:
    (state tensors, operator tensors)"""
    psi = y
    L, R = frame(lefts[0]), frame(rights[0])
    nl, nm, nr = len(lefts[0]), len(mids), len(rights[0])
    if L is not None:
        psi = np.tensordot(L, psi, axes=([L.ndim - 1], [0]))
    if R is not None:
        psi = np.tensordot(psi, R, axes=([psi.ndim - 1], [0]))
    # psi[l0, s1..sN, rN]
    N = nl + nm + nr
    x = np.tensordot(lb, psi, axes=([0], [0]))                   # l', m, s.., r
    x = np.moveaxis(x, 1, -1)                                    # l', s.., r, m
    for w in list(lefts[1]) + list(mids) + list(rights[1]):
        x = np.tensordot(x, np.asarray(w), axes=([x.ndim - 1, 1], [0, 2]))   # l', s2.., r, .., M, s'
        # order kept as: l', remaining in, r, done out..., M, out
        x = np.swapaxes(x, -1, -2)                               # ..., out, M
    # x[l', r, out..., M]
    x = np.tensordot(x, rb, axes=([1, x.ndim - 1], [0, 2]))      # l', out..., r'
    if L is not None:
        x = np.tensordot(np.conj(L), x, axes=(list(range(nl + 1)), list(range(nl + 1))))
    if R is not None:
        k = x.ndim
        x = np.tensordot(x, np.conj(R), axes=(list(range(k - nr - 1, k)), list(range(1, nr + 2))))
    return x


def site_effective(ts, W, n, y, lb, rb):
    """y[l, r, s] at site n"""
    r = effective((ts[:n], W[:n]), (ts[n + 1:], W[n + 1:]), [W[n]], np.transpose(y, (0, 2, 1)), lb, rb)
    return np.transpose(r, (0, 2, 1))


def bond_effective(ts, W, n, y, lb, rb):
    """y[l, r] on the bond left of site n"""
    return effective((ts[:n], W[:n]), (ts[n:], W[n:]), [], y, lb, rb)


def ones3(E):
    a = np.ones((1, 1, 1), dtype=int)
    return a.astype(object) if E.symbolic else a * 1.0


def mpo_tensors(E, N, d, M):
    ms = [1] + [M] * (N - 1) + [1]
    return [E.tensor('W%d' % n, (ms[n], ms[n + 1], d[n], d[n])) for n in range(N)]


def proportional(E, label, a, b):
    """a and b are the same state (up to the normalisation)"""
    a, b = np.ravel(a), np.ravel(b)
    if a.size != b.size:
        E.true(label, False)
        return
    for j in {0, a.size - 1}:
        E.eq(label, a * b[j], b * a[j])
    E.true(label + ': not zero', any(not _iszero(x) for x in a))


def _iszero(x):
    return x.iszero() if hasattr(x, 'iszero') else x == 0


TD = [dict(N=2, D=[1, 2, 1], solver=s) for s in ('LAN', 'SEXPMV', 'RK45')] + [
    dict(N=3, D=[1, 2, 2, 1], solver='LAN'), dict(N=1, D=[1, 1], solver='RK45'), dict(N=3, D=[1, 1, 2, 1], solver='Radau'), dict(N=2, D=[1, 2, 1], solver='LSODA'),
    dict(N=2, D=[2, 2, 1], solver='LAN'), dict(N=2, D=[1, 2, 1], solver='LAN', d=[1, 2]),
    dict(N=2, D=[1, 2, 1], solver='RK45', steps=[2]), dict(N=2, D=[1, 2, 1], solver='RK45', steps=[1, 1], d=[2, 3])]


@scenario('S19', params=TD, thorough=[dict(N=3, D=[1, 2, 2, 1], solver=s) for s in ('SEXPMV', 'RK23', 'BDF', 'LSODA')] + [dict(N=4, D=[1, 2, 2, 2, 1], solver='RK45'), dict(N=3, D=[1, 2, 2, 1], solver='RK45', steps=[1, 2])],
          mode='fresh')
def sweep(E, N, D, solver, d=None, steps=(1,)):
    d = d or [2] * N
    M = 2
    W = mpo_tensors(E, N, d, M)
    mps, ts = build(E, d, D)
    mps._position = N
    trivial = D[0] == 1 and D[-1] == 1
    if trivial:
        lb = rb = ones3(E)
        eng = E.en.TimeEvolutionEngine(mps, W, 'unused')
    else:
        lb, rb = E.tensor('lb', (D[0], D[0], 1)), E.tensor('rb', (D[-1], D[-1], 1))
        eng = E.en.TimeEvolutionEngine(mps, W, 'unused', lb, rb)
    t, s = E.scalar('t', pos=True), E.scalar('s', real=True)
    dt = s - 1j * t if solver != 'LAN' else E.scalar('dt')
    if solver == 'SEXPMV' or solver in ('RK45', 'Radau'):
        dt = -1j * t
    half = dt * 0.5
    expect = []
    for n in range(N):
        expect.append(('site', n, dt if n == N - 1 else half))
        if n < N - 1:
            expect.append(('bond', n + 1, -half))
    for n in range(N - 2, -1, -1):
        expect += [('bond', n + 1, -half), ('site', n, half)]
    per = len(expect)
    expect = expect * sum(steps)
    calls = []
    prev = {}

    def record(gen, v):
        k = len(calls)
        calls.append(k)
        out = E.tensor('r%d' % k, np.shape(v))
        if not E.symbolic:
            out = out.astype(complex)
        if k >= len(expect):
            return out
        kind, n, tau = expect[k]
        T = list(eng._mps._tensors)
        nm = '%s %d (call %d)' % (kind, n, k)
        Dl = T[n - 1].shape[1] if n > 0 else D[0]
        if kind == 'site':
            shp = (Dl, T[n + 1].shape[0] if n < N - 1 else D[N], d[n])
        else:
            shp = (Dl, T[n].shape[0])
        y = E.tensor('y', (int(np.prod(shp)),))
        if np.size(v) != y.size:
            E.true(nm + ' evolved next', False)
            return out
        f = site_effective if kind == 'site' else bond_effective
        E.eq('generator of ' + nm, gen(y), tau * f(T, W, n, np.reshape(y, shp), lb, rb).ravel())
        # continuity: what is evolved is the result of the previous call
        x = np.reshape(v, shp)
        if prev:
            pk, pn, px = prev['kind'], prev['n'], prev['x']
            if kind == 'site' and k % per == 0:             # next step
                proportional(E, 'input of ' + nm, x, px)
            elif kind == 'bond' and k % per < 2 * N - 1:           # after site n-1, forward
                proportional(E, 'input of ' + nm, np.transpose(np.tensordot(T[n - 1], x, axes=([1], [0])), (0, 2, 1)), px)
            elif kind == 'site' and k % per < 2 * N - 1:          # after bond n, forward
                proportional(E, 'input of ' + nm, x, np.tensordot(px, prev['B'], axes=([1], [0])))
            elif kind == 'bond':                            # after site n, backward
                proportional(E, 'input of ' + nm, np.tensordot(x, T[n], axes=([1], [0])), px)
            else:                                           # after bond n+1, backward
                proportional(E, 'input of ' + nm, x, np.transpose(np.tensordot(prev['A'], px, axes=([1], [0])), (0, 2, 1)))
        prev.update(kind=kind, n=n, x=np.reshape(out, shp))
        if kind == 'bond':
            prev['B'], prev['A'] = T[n], T[n - 1]
        return out
    with integrators(E, record):
        for n in steps:
            eng.doTDVP(dt, n, solver=solver, verbose=0)
    E.true('every site and bond exactly as often as documented', len(calls) == len(expect))
    E.eq('elapsed time', eng.time, sum(steps) * (t if solver != 'LAN' else abs(np.imag(dt))))
    E.true('number of completed steps', eng.iteration == sum(steps))
    if prev:
        proportional(E, 'final state', o.mps_tensors(eng._mps)[0], prev['x'])


@scenario('S19', params=[dict(D=(1, 1), M=(1, 1)), dict(D=(2, 2), M=(2, 2)), dict(D=(1, 2), M=(2, 3)), dict(D=(3, 2), M=(1, 2))], thorough=[dict(D=(3, 3), M=(3, 2))])
def kernels(E, D, M):
    """every integrator of the local problem gets step times the exact effective operator"""
    L, R = E.tensor('L', (D[0], D[0], M[0])), E.tensor('R', (D[1], D[1], M[1]))
    W = E.tensor('W', tuple(M) + (2, 2))
    x = E.tensor('x', tuple(D) + (2,))
    L2, R2, c = E.tensor('L2', (D[0], D[0], M[1])), E.tensor('R2', (D[1], D[1], M[1])), E.tensor('c', tuple(D))
    y, z = E.tensor('y', (x.size,)), E.tensor('z', (c.size,))
    Hx = lambda v: np.transpose(effective(([], []), ([], []), [W], np.transpose(np.reshape(v, x.shape), (0, 2, 1)), L, R), (0, 2, 1)).ravel()
    Hc = lambda v: effective(([], []), ([], []), [], np.reshape(v, c.shape), L2, R2).ravel()
    got = []

    def record(gen, v):
        got.append((gen, v))
        return E.tensor('r%d' % len(got), np.shape(v))
    t, g = E.scalar('t', pos=True), E.scalar('g') + 0j
    tf = E.scalar('tf', real=True)
    mf = E.mf
    unit = E.unit('u')
    gc = unit * t + 0j if not E.symbolic else unit * t
    with integrators(E, record):
        todo = [('Lanczos', mf.evolveTensorLan, mf.evolveMatrixLan, g, g)]
        if not E.symbolic or not E.ctx.real:
            todo += [('Krylov', mf.evolveTensorSexpmv, mf.evolveMatrixSexpmv, gc, gc),
                     ('ODE, complex step', mf.evolveTensorsolve_ivp, mf.evolveMatrixsolve_ivp, gc, gc)]
        if not E.symbolic:
            todo += [('Krylov, real step', mf.evolveTensorSexpmv, mf.evolveMatrixSexpmv, tf, tf),
                     ('ODE, real step', mf.evolveTensorsolve_ivp, mf.evolveMatrixsolve_ivp, tf, -1j * tf)]
        for nm, f, h, tau, eff in todo:
            r = f(L, W, R, x, tau)
            gen, v = got[-1]
            E.eq(nm + ': start tensor', np.reshape(v, x.shape), x)
            E.eq(nm + ': tensor generator', gen(y), eff * Hx(y))
            E.eq(nm + ': result tensor', r, np.reshape(E.tensor('r%d' % len(got), (x.size,)), x.shape))
            r = h(L2, R2, c, tau)
            gen, v = got[-1]
            E.eq(nm + ': start matrix', np.reshape(v, c.shape), c)
            E.eq(nm + ': bond generator', gen(z), eff * Hc(z))
            E.eq(nm + ': result matrix', r, np.reshape(E.tensor('r%d' % len(got), (c.size,)), c.shape))


def expm_mul(f, n, v):
    import scipy.linalg as sl
    A = np.stack([np.ravel(f(e)) for e in np.eye(n, dtype=complex)], 1)
    return sl.expm(A) @ np.ravel(v)


@scenario('S19', params=[dict(N=N, solver=s, im=im) for N, s, im in ((2, 'LAN', True), (3, 'LAN', False), (3, 'RK45', True), (3, 'SEXPMV', True), (2, 'Radau', True), (2, 'LSODA', True), (2, 'BDF', True),
                                                                   (3, 'RK45', False), (3, 'DOP', True)) if s != 'DOP'], sym=False, tol=2e-4)
def real_run_tdvp(E, N, solver, im):
    """the engine on real input against an independent dense sweep"""
    J, B = np.array([E.scalar('J%d' % n, real=True) for n in range(N)]), np.array([E.scalar('B%d' % n, real=True) for n in range(N)])
    ham = E.H.XXZ(J[:-1], J[1:], B, True)
    W = [np.asarray(ham[n]) for n in range(N)]
    D = [1] + [2] * (N - 1) + [1]
    mps, _ = build(E, [2] * N, D)
    eng = E.en.TimeEvolutionEngine(mps, ham, 'unused')
    dt = -0.05j if im else -0.05
    eng.doTDVP(dt, 2, solver=solver, krylov_dim=16, verbose=1, rtol=1e-8, atol=1e-10)
    # oracle: right-canonical start
    ts = [np.array(x, dtype=complex) for x in o.mps_tensors(mps)]
    def split_r(x):
        q, r = np.linalg.qr(np.reshape(np.transpose(x, (0, 2, 1)), (-1, x.shape[1])))
        return np.transpose(np.reshape(q, (x.shape[0], x.shape[2], -1)), (0, 2, 1)), r
    def split_l(x):
        q, r = np.linalg.qr(np.reshape(x, (x.shape[0], -1)).T)
        return np.reshape(q.T, (-1,) + x.shape[1:]), r.T
    for n in range(N - 1, 0, -1):
        ts[n], r = split_l(ts[n])
        ts[n - 1] = np.transpose(np.tensordot(ts[n - 1], r, axes=([1], [0])), (0, 2, 1))
    lb = rb = np.ones((1, 1, 1))
    def ev_site(n, tau):
        x = ts[n]
        ts[n] = np.reshape(expm_mul(lambda y: tau * site_effective(ts, W, n, np.reshape(y, x.shape), lb, rb), x.size, x), x.shape)
    def ev_bond(n, c, tau):
        return np.reshape(expm_mul(lambda y: tau * bond_effective(ts, W, n, np.reshape(y, c.shape), lb, rb), c.size, c), c.shape)
    for _ in range(2):
        for n in range(N):
            ev_site(n, dt / 2)
            if n < N - 1:
                ts[n], c = split_r(ts[n])
                ts[n + 1] = np.tensordot(ev_bond(n + 1, c, -dt / 2), ts[n + 1], axes=([1], [0]))
        for n in range(N - 1, -1, -1):
            ev_site(n, dt / 2)
            if n > 0:
                ts[n], c = split_l(ts[n])
                ts[n - 1] = np.transpose(np.tensordot(ts[n - 1], ev_bond(n, c, -dt / 2), axes=([1], [0])), (0, 2, 1))
    a, b = o.mps_state(eng._mps).ravel(), o.chain_state(ts).ravel()
    E.eq('state', a, b / np.linalg.norm(b))
    E.eq('time', eng.time, 0.1 if im else 0.0)
