"""S30 bit helpers, S31 step control, S32 Wick expansions, S34 grid and matrix helpers."""
import itertools
import numpy as np
from vt.env import scenario
from .engines import patched


def shim(E):
    """the bit helpers on symbolic words"""
    if not E.symbolic:
        return patched()
    from vt import bits
    return patched((E.bb, 'np', bits.NP()))


def sel(E, w, pos):
    """bit pos of w, straight from the definition: floor(w / 2^pos) mod 2"""
    if E.symbolic:
        return (w >> pos) & 1
    return (int(w) >> int(pos)) & 1


@scenario('S30', con_repeat=12, con_dtypes=('f',))
def bits(E):
    """every word, every position, every other position"""
    if not E.symbolic and 'pos' not in E.values:
        b = E.word('b')
        pairs = [(int(E.word('pos')) % 64, int(E.word('q')) % 64)] + [(p, q) for p in (0, 31, 32, 62, 63) for q in (0, 32, 63)]
        for p, q in pairs:
            for w in (b, np.uint64(0), ~np.uint64(0)):
                one_word(E, w, np.uint64(p), np.uint64(q))
        return
    with shim(E):
        b, pos, q = E.word('b'), E.word('pos'), E.word('q')
        E.assume(pos < 64)
        E.assume(q < 64)
        one_word(E, b, pos, q)


def one_word(E, b, pos, q):
    bb = E.bb
    was, other = sel(E, b, pos), sel(E, b, q)
    differ = q != pos
    for nm, f, want in (('flip', bb.flipBit, 1 - int(was == 1)), ('set', bb.setBit, 1), ('unset', bb.unsetBit, 0)):
        r = f(b, pos)
        E.true(nm + ': the bit', sel(E, r, pos) == want)
        if E.symbolic:
            E.true(nm + ': every other bit', (sel(E, r, q) == other) | (q == pos))
        elif differ:
            E.true(nm + ': every other bit', sel(E, r, q) == other)
    g = bb.getBit(b, pos)
    E.true('get', was == g)
    E.true('get is 0 or 1', g in (0, 1))
    E.true('set and clear', sel(E, bb.unsetBit(bb.setBit(b, pos), pos), pos) == 0)
    E.true('flip twice', bb.flipBit(bb.flipBit(b, pos), pos) == b)


SIZES = [(n, k) for n in range(0, 9) for k in range(0, 10)] + [(64, 0), (64, 1), (64, 2), (64, 64), (64, 63), (63, 62), (54, 2), (60, 59), (53, 1), (64, 65)]


@scenario('S30', params=[dict(sizes=SIZES[i::6]) for i in range(6)], thorough=[dict(sizes=[(n, k)]) for n, k in ((24, 3), (20, 17), (40, 2), (64, 62), (14, 7))], con_dtypes=('f',), con_repeat=1)
def basis(E, sizes):
    """every word occurs exactly once exactly if it is admissible, in ascending order"""
    from math import comb
    for N, Nup in sizes:
        nm = 'N=%d Nup=%d ' % (N, Nup)
        with shim(E):
            B = list(E.bb.binarybasis(N, Nup))
        vals = [int(x) for x in B]
        E.true(nm + 'exact integers', all(x == int(x) for x in B) and all(not isinstance(x, float) for x in B))
        E.true(nm + 'ascending', all(vals[i] < vals[i + 1] for i in range(len(vals) - 1)))
        if E.symbolic:
            from vt import bits
            z3 = bits.z3
            w = E.word('w')
            adm = bits.popcount(w.t) == Nup
            if N < 64:
                adm = z3.And(adm, z3.LShR(w.t, N) == 0)
            if len(vals) <= 130:
                E.true(nm + 'exactly the admissible words', bits._sb(z3.Or(*[w.t == v for v in vals]) == adm))
        # long lists: distinct (ascending) admissible words, as many as there are
        E.true(nm + 'number of words', len(vals) == (comb(N, Nup) if Nup <= N else 0))
        E.true(nm + 'admissible words', all(bin(v).count('1') == Nup and v < 2 ** N for v in vals))


# ------------------------------------------------------------------ S31
CTL = [dict(it=it, depth=dp, warm=w, reset=r, ipd=k, itreset=m, n=n)
       for it, dp, w, r, k, m, n in ((1, 0, True, True, 0, 10, 2), (1, 1, False, True, 3, 4, 1), (2, 0, True, True, 0, 1, 2), (2, 0, False, True, 9, 10, 3), (2, 1, True, True, 0, 10, 3),
                                     (7, 2, False, True, 2, 1, 3), (7, 2, True, False, 9, 10, 2), (2, 1, False, False, 2, 4, 3), (3, 0, True, True, 0, 3, None), (3, 2, False, True, 1, 3, None),
                                     (3, 1, True, False, 2, 3, None), (9, 3, False, True, 0, 2, 4))]


def controller_oracle(E, alpha_, alpha, alphas, nx, g, gold, tol, warm, it, depth, factor, ipd, itreset, reset):
    if it > 1 and bool((g - gold) / g > tol):
        return alpha_ / factor, depth + 1, 0, False, True, warm
    if reset:
        ipd = 0
        depth = max(depth - 1, 0)
        reset = depth == 0
        if nx is None:
            step = alpha if warm else None
        else:
            k = 0
            while k < len(nx) and bool(g < nx[k]):
                k += 1
            step = alpha if k == 0 else alphas[k - 1]
            warm = warm and k == 0
        if step is not None:
            alpha_ = step
            for _ in range(depth):
                alpha_ = alpha_ / factor
    if not reset:
        ipd += 1
        reset = ipd % itreset == 0
    return alpha_, depth, ipd, reset, False, warm


@scenario('S31', params=CTL, real=True, con_repeat=20, max_paths=120)
def controller(E, it, depth, warm, reset, ipd, itreset, n):
    g, gold, factor = E.scalar('g', lo=0.2, hi=2.0), E.scalar('gold', lo=0.2, hi=2.0), E.scalar('factor', lo=1.1, hi=4.0)
    tol, alpha, alpha_ = E.scalar('tol', real=True, lo=0.05, hi=0.5), E.scalar('alpha', real=True), E.scalar('cur', real=True)
    if n is None:
        nx = alphas = None
    else:
        x = E.descending('thr', n)
        nx, alphas = [2 * x[i] for i in range(n)], [E.scalar('a%d' % i, real=True) for i in range(n)]
    got = E.utils.determineNewStepsize(alpha_, alpha, alphas, nx, g, gold, tol, warm, it, depth, factor, ipd, itreset, reset)
    want = controller_oracle(E, alpha_, alpha, alphas, nx, g, gold, tol, warm, it, depth, factor, ipd, itreset, reset)
    E.eq('step', got[0], want[0])
    for nm, a, b in zip(('depth', 'steps at this depth', 'reset', 'reject', 'warmup'), got[1:], want[1:]):
        E.true(nm, a == b)


@scenario('S31', params=[dict(n=3, steps=s, itreset=m) for s, m in ((2, 1), (3, 2))], thorough=[dict(n=2, steps=4, itreset=2)], real=True, con_repeat=10, max_paths=400)
def history(E, n, steps, itreset):
    """a whole history of gradient norms, with the state fed back as the engine does"""
    x = E.descending('thr', n)
    nx, alphas = [2 * x[i] for i in range(n)], [E.scalar('a%d' % i, real=True) for i in range(n)]
    alpha, factor, tol = E.scalar('alpha', real=True), 2.0, 0.25
    st = ost = (alpha, 0, 0, True, None, True)
    gold = 10.0
    for it in range(1, steps + 1):
        g = E.scalar('g%d' % it, lo=0.2, hi=2.0)
        a, dp, k, rs, _, wm = st
        st = E.utils.determineNewStepsize(a, alpha, alphas, nx, g, gold, tol, wm, it, dp, factor, k, itreset, rs)
        a, dp, k, rs, _, wm = ost
        ost = controller_oracle(E, a, alpha, alphas, nx, g, gold, tol, wm, it, dp, factor, k, itreset, rs)
        E.eq('step %d' % it, st[0], ost[0])
        E.true('state %d' % it, tuple(st[1:]) == tuple(ost[1:]))
        if not st[4]:
            gold = g


@scenario('S31', params=[dict(it=it, stde=s, sr=sr, do=do, ib=ib, cap=cap) for it, s, sr, do, ib, cap in
                         ((1, 0, 2, True, 0, 5), (1, 3, 2, False, 2, 5), (2, 0, 2, True, 0, 5), (2, 1, 2, True, 0, 5), (2, 2, 2, True, 0, 5), (5, 0, 2, False, 3, 5), (5, 0, 2, False, 5, 5), (5, 0, 0, False, 1, 5),
                          (5, 4, 2, False, 1, 5), (2, 2, 2, True, 5, 5), (3, 0, 0, True, 0, 0))] + [dict(it=2, stde=1, sr=2, do=True, ib=3, cap=5, upper=False)],
          real=True, con_repeat=20)
def conjugate(E, it, stde, sr, do, ib, cap, upper=True):
    """coefficient of the non-linear conjugate gradient, for every pair of gradient norms and window"""
    g, gold = E.scalar('g', lo=0.2, hi=2.0), E.scalar('gold', lo=0.2, hi=2.0)
    hi, lo, tol = E.scalar('hi', lo=0.2, hi=3.0), E.scalar('lo', lo=0.1, hi=1.0), E.scalar('tol', lo=0.05, hi=0.5)
    for m1 in (True, False):
        m2 = not m1
        got = E.utils.determineNonLinearCGBeta(hi if upper else None, lo, tol, cap, g, gold, it, stde, sr, do, ib, m1, m2)
        beta, wstde, wib, wdo, w1, w2 = 0, stde, ib, do, m1, m2
        if upper and bool(g < hi) and bool(lo < g):
            w1, w2 = (False, True) if m1 else (m1, m2)
            if it > 1 and bool((g - gold) / g <= tol) and bool(g * g <= gold * gold):
                beta = g * g / (gold * gold)
            if it == 1 or isinstance(beta, int):
                wstde, wdo, new = stde + 1, True, 0
            elif do and stde < sr:
                wstde, new = stde + 1, 0
            elif do:
                wstde, wdo, new = 0, False, beta
            else:
                new = beta
            if ib == cap:
                new, wib, wdo, wstde = 0, 0, True, 0
            wib = 0 if isinstance(new, int) else wib + 1
            beta = new
        else:
            w1, w2 = (True, False) if m2 else (m1, m2)
        E.eq('coefficient', got[0], beta)
        E.true('bookkeeping', tuple(got[1:]) == (wstde, wib, wdo, w1, w2))


# ------------------------------------------------------------------ S32
def sign(p):
    s = 1
    for i in range(len(p)):
        for j in range(i):
            if p[j] > p[i]:
                s = -s
    return s


@scenario('S32', params=[dict(n=n, rep=r, arr=a) for n in (1, 2, 3, 4) for r in (False, True) for a in ('list', 'array')], thorough=[dict(n=5, rep=False, arr='list')])
def wick(E, n, rep, arr):
    """<c+_{i1}..c+_{in} c_{j1}..c_{jn}> with <c+_i c_j> = M[i, j], creators and annihilators at any sites in any order"""
    L = 5
    M = E.tensor('M', (L, L))
    for i, j in (([3, 0, 4, 2, 1][:n], [1, 4, 0, 3, 2][:n]), ([0, 1, 2, 3, 4][:n], [0, 1, 2, 3, 4][:n])):
        if rep:
            i, j = [x // 2 for x in i], [x % 3 for x in j]
        f = b = 0
        for p in itertools.permutations(range(n)):
            t = 1
            for k in range(n):
                t = t * M[i[k], j[p[k]]]
            f, b = f + sign(p) * t, b + t
        f = f * (-1) ** (n * (n - 1) // 2)
        a, c = (list(i), list(j)) if arr == 'list' else (np.array(i), np.array(j))
        E.eq('fermions', E.utils.SFwick(M, a, c), f)
        E.eq('bosons', E.utils.SBwick(M, a, c), b)
        E.true('lists left alone', list(a) == list(i) and list(c) == list(j))


# ------------------------------------------------------------------ S34
@scenario('S34', params=[dict(n=n) for n in (1, 2)], thorough=[dict(n=3)], con_repeat=3)
def matrices(E, n):
    A, B, U = E.tensor('A', (n, n)), E.tensor('B', (n, n)), E.utils
    E.eq('commutator', U.comm(A, B), np.dot(A, B) - np.dot(B, A))
    E.eq('anticommutator', U.anticomm(A, B), np.dot(A, B) + np.dot(B, A))
    E.eq('hermitian conjugate', U.herm(A), E.dag(A))
    off = [A[i, j] for i in range(n) for j in range(n) if i != j]
    err = E.scalar('err', lo=0.2, hi=3.0)
    f, diff = U.isDiag(A, err)
    want = E.fro2(np.array(off)) if off else 0
    E.eq('off-diagonal weight', diff * diff, want)
    E.true('diagonal or not', (diff < err) if f else (diff >= err))
    E.true('weight is not negative', diff >= 0)
    D = np.zeros((n, n), dtype=A.dtype)
    for i in range(n):
        D[i, i] = A[i, i]
    E.true('diagonal matrices', bool(U.isDiag(D, 1e-8)[0]))
    P = np.zeros((n, n), dtype=object if E.symbolic else complex)
    for i in range(n):
        P[i, i] = E.unit('u%d' % i)
    if not E.symbolic:
        E.true('phases', U.isDiagUnitary(P)[0] == True)
    f, diff = U.isDiagUnitary(A, err)
    E.true('diagonal unitary or not', (diff < err) if f else (diff >= err))
    if n > 1:
        E.true('not a phase matrix', diff * diff + 1e-9 >= E.fro2(np.array(off)))


@scenario('S34', params=[dict(n=n) for n in (2, 3, 5)], real=True)
def cells(E, n):
    """cell widths of a grid: midpoints between neighbours and the two walls"""
    x0 = E.scalar('x0', real=True)
    d = [E.scalar('d%d' % i, pos=True) for i in range(n + 1)]
    x = [x0 + d[0]]
    for i in range(1, n):
        x.append(x[-1] + d[i])
    xN = x[-1] + d[n]
    dx = E.utils.computedx(x0, x if not E.symbolic else np.array(x, dtype=object), xN)
    edges = [x0] + [(x[i] + x[i + 1]) / 2 for i in range(n - 1)] + [xN]
    for i in range(n):
        E.eq('cell %d' % i, dx[i], edges[i + 1] - edges[i])


@scenario('S34', params=[dict(n=n) for n in (2, 3, 4, 5, 6)], thorough=[dict(n=9)], real=True, con_repeat=10)
def bracket(E, n):
    """the two neighbouring grid points around any position inside the grid"""
    g = [E.scalar('g0', real=True)]
    for i in range(1, n):
        g.append(g[-1] + E.scalar('d%d' % i, pos=True))
    t = E.scalar('t', lo=0.0, hi=1.0)
    p = g[0] + t * (g[-1] - g[0]) if not E.symbolic else E.scalar('p', real=True)
    E.assume(p >= g[0])
    E.assume(p <= g[-1])
    l, r = E.utils.bisectionGrid(np.array(g, dtype=object) if E.symbolic else np.array(g), p)
    E.true('neighbours', 0 <= l and r == l + 1 and r < n)
    E.true('left of it', g[int(l)] <= p)
    E.true('right of it', p <= g[int(r)])


@scenario('S34', params=[dict(up=u) for u in (True, False)], real=True, con_repeat=6)
def root(E, up):
    """a sign change is located to the requested accuracy, at most maxit halvings"""
    r, s = E.scalar('r', lo=-0.7, hi=0.9), (1 if up else -1)
    seen = []

    def fun(x):
        seen.append(x)
        return s * (x - r)
    tol = 0.15
    c = E.utils.bisection(fun, -1.0, 1.0, tol=tol)
    E.true('close to the root from below', c - r <= tol)
    E.true('close to the root from above', r - c <= tol)
    a, b, ok = E.utils.placeBraket(fun, 0.0, 0.0625, 0.25, 0.375)
    if ok:
        E.true('bracket', fun(a) * fun(b) <= 0)
    else:
        E.true('no bracket within the threshold', fun(a + 0.25) * fun(b - 0.25) > 0)


@scenario('S34', params=[dict(n=2), dict(n=3)], sym=False, con_repeat=4)
def match(E, n):
    """columns are reordered towards the reference columns"""
    q = E.isometry('U', n, n)
    for p in itertools.permutations(range(n)):
        V = q[:, list(p)] * np.array([E.unit('u%d' % i) for i in range(n)])
        W = E.utils.matchState(q, V)
        for i in range(n):
            E.eq('column', abs(np.dot(np.conj(q[:, i]), W[:, i])), 1.0)
