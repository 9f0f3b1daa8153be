"""Environment model: numpy/scipy entry points that compute non-polynomial
results are replaced, for symbolic arguments only, by nondeterministic values
constrained by their documented contract.  Everything else (tensordot, dot,
reshape, transpose, kron, trace, ...) is numpy's own code running on object
arrays.  install() runs before any repository module is imported."""
import sys, types, os
import numpy as np
from . import sym
from .sym import SymBool, Poly, P, ctx, is_sym, EncodeError, arr, Fraction

ORIG = {}


def on(*args):
    return sym.Ctx.cur is not None and any(is_sym(a) for a in args)


def active():
    return sym.Ctx.cur is not None


# ------------------------------------------------------------------ helpers
def obj(a):
    a = np.asarray(a)
    if a.dtype != object:
        a = a.astype(object)
    return np.array(a, dtype=object, subok=False)


def akey(a):
    a = obj(a)
    return (a.shape,) + tuple(P(x).key() for x in a.ravel())


def conjT(a):
    return np.transpose(arr(lambda i: P(a[i]).conjugate(), a.shape))


def mm(a, b):
    return np.dot(obj(a), obj(b))


def eye(n):
    return arr(lambda i: P(1 if i[0] == i[1] else 0), (n, n))


def freshmat(name, m, n, real=None):
    c = ctx()
    if real is None:
        real = c.real
    return arr(lambda i: c.fresh('%s[%d,%d]' % (name, i[0], i[1]), real=real), (m, n))


def hyp_mat(lhs, rhs, tag=''):
    c = ctx()
    for i in np.ndindex(*lhs.shape):
        c.hyp_zero(P(lhs[i]) - P(rhs[i]), tag)


def allzero(a):
    return all(P(x).iszero() for x in obj(a).ravel())


def is_const(a):
    return all(P(x).isconst() for x in obj(a).ravel())


def to_num(a):
    a = obj(a)
    out = np.empty(a.shape, dtype=complex)
    for i in np.ndindex(*a.shape):
        out[i] = complex(P(a[i]))
    if np.all(out.imag == 0):
        out = out.real.copy()
    return out


def upper(n, name, diagpos=False):
    c = ctx()

    def f(i):
        a, b = i
        if a > b:
            return P(0)
        if a == b:
            v = c.fresh('%s[%d,%d]' % (name, a, b), real=True if diagpos else c.real)
            if diagpos:
                c.assume_pos(v)
            else:
                c.nonzero.append(v)
            return v
        return c.fresh('%s[%d,%d]' % (name, a, b), real=c.real)
    return arr(f, (n, n))


def unit_lower(n, name):
    c = ctx()

    def f(i):
        a, b = i
        if a == b:
            return P(1)
        if a < b:
            return P(0)
        return c.fresh('%s[%d,%d]' % (name, a, b), real=c.real)
    return arr(f, (n, n))


def inv_upper(R):
    n = R.shape[0]
    X = arr(lambda i: P(0), (n, n))
    for j in range(n):
        X[j, j] = sym.inverse(R[j, j])
        for i in range(j - 1, -1, -1):
            s = P(0)
            for k in range(i + 1, j + 1):
                s = s + R[i, k] * X[k, j]
            X[i, j] = -(X[i, i] * s) if i != j else X[i, i]
    return X


def _inv_upper(R):
    n = R.shape[0]
    X = arr(lambda i: P(0), (n, n))
    for i in range(n):
        X[i, i] = sym.inverse(P(R[i, i]))
    for d in range(1, n):
        for i in range(n - d):
            j = i + d
            s = P(0)
            for k in range(i + 1, j + 1):
                s = s + P(R[i, k]) * X[k, j]
            X[i, j] = -(X[i, i] * s)
    return X


def generic_invertible(n, name):
    """(W, W^-1), W = L.U with unit lower L: a dense family of invertible matrices"""
    L = unit_lower(n, name + 'L')
    U = upper(n, name + 'U')
    W = mm(L, U)
    Li = np.transpose(_inv_upper(np.transpose(L)))
    Ui = _inv_upper(U)
    return W, mm(Ui, Li)


def fro2(a):
    s = P(0)
    for x in obj(a).ravel():
        x = P(x)
        s = s + x * x.conjugate()
    return s


# ------------------------------------------------------------------ numpy.linalg
def norm(x, ord=None, axis=None, keepdims=False):
    if not on(x):
        return ORIG['norm'](x, ord=ord, axis=axis, keepdims=keepdims)
    x = obj(x)
    if axis is not None or (ord not in (None, 'fro') and not (ord == 2 and x.ndim == 1)):
        if axis is not None and ord is None:
            ax = axis if isinstance(axis, tuple) else (axis,)
            sq = np.sum(arr(lambda i: P(x[i]) * P(x[i]).conjugate(), x.shape), axis=ax, keepdims=keepdims)
            return sym.sqrt(sq) if isinstance(sq, Poly) else arr(lambda i: sym.sqrt(sq[i]), sq.shape)
        raise EncodeError('norm ord=%r' % (ord,))
    c = ctx()
    lim = c.__dict__.get('opaque_norm')
    if lim is not None and sum(P(v).nterms() ** 2 for v in x.ravel()) > lim:
        # too large to square: an unknown positive number that remembers what it is the norm of
        k = ('opaque_norm', akey(x))
        if k not in c.cache:
            z = c.fresh('nrm', real=True)
            c.assume_pos(z)
            c.cache[k] = z
            c.__dict__.setdefault('norms_of', []).append((z, x.copy()))
        return c.cache[k]
    return posnorm(fro2(x))


def posnorm(q):
    c = ctx()
    if q.isconst():
        return sym.sqrt(q)
    ck = ('norm', q.key())
    if ck not in c.cache:
        q = sym.simplified(q)
        if q.isconst():
            c.cache[ck] = sym.sqrt(q)
            return c.cache[ck]
        ck2 = ('norm', q.key())
        if ck2 in c.cache:
            c.cache[ck] = c.cache[ck2]
            return c.cache[ck]
        z = c.cache.get(('sqrt', q.key()))
        if z is not None:
            c.assume_pos(z)
            c.cache[ck] = c.cache[ck2] = z
            return z
        z = sym.exact_sqrt(q)
        if z is not None:
            c.cache[ck] = c.cache[ck2] = z
            return z
        z = c.fresh('nrm', real=True)
        c.assume_pos(z)
        c.hyp_zero(z * z - q, 'norm')
        c.cache[ck] = c.cache[ck2] = z
        c.notes.add('norms that are divided by are assumed nonzero')
    return c.cache[ck]


def qr(a, mode='reduced', **kw):
    if not on(a):
        return ORIG['qr'](a, mode=mode, **kw)
    if mode not in ('reduced', 'economic'):
        raise EncodeError('qr mode')
    a = obj(a)
    c = ctx()
    ck = ('qr', akey(a))
    if ck in c.cache:
        q, r = c.cache[ck]
        return q.copy(), r.copy()
    c.counter += 1
    t = 'qr%d' % c.counter
    m, n = a.shape
    k = min(m, n)
    c.stats['qr'] = c.stats.get('qr', 0) + 1
    if c.mode == 'param':
        if m >= n:
            r = upper(n, t + 'R')
            q = mm(a, _inv_upper(r))
        else:
            q, qi = generic_invertible(m, t + 'Q')
            r = mm(qi, a)
        c.notes.add('QR: M=Q.R with R (or Q) an arbitrary invertible matrix')
    elif k == 1 and not allzero(a):
        ph = phase(t)
        if n == 1:
            z = posnorm(fro2(a))
            q = freshmat(t + 'q', m, 1)
            r = arr(lambda i: ph * z, (1, 1))
            unit_vector(q, a, ph.conjugate(), z)
        else:
            q = arr(lambda i: ph, (1, 1))
            r = arr(lambda i: ph.conjugate() * P(a[i]), (1, n))
        c.notes.add('QR of a single column or row: exact closed form up to a free phase')
    else:
        q = freshmat(t + 'q', m, k)
        r = arr(lambda i: P(0) if i[0] > i[1] else c.fresh('%sr[%d,%d]' % (t, i[0], i[1]), real=c.real), (k, n))
        hyp_mat(mm(conjT(q), q), eye(k))
        if m == k:
            hyp_mat(mm(q, conjT(q)), eye(k))
        hyp_mat(mm(q, r), a, 'prod')
        hyp_mat(mm(conjT(q), a), r, 'proj')
        # consequences: Frobenius norm is preserved, equal Gram matrices
        c.hyp_zero(fro2(r) - fro2(a), 'fro')
        if m >= n:
            hyp_mat(mm(conjT(r), r), mm(conjT(a), a), 'gram')
    c.cache[ck] = (q, r)
    return q.copy(), r.copy()


def phase(t):
    c = ctx()
    p = c.fresh(t + 'ph', real=c.real)
    c.hyp_zero(p * p.conjugate() - 1)
    return p


def unit_vector(q, a, ph, z):
    """q is the normalised version of a: q*z == ph*a, |q| = 1"""
    c = ctx()
    c.hyp_zero(fro2(q) - 1)
    x, y = q.ravel(), obj(a).ravel()
    for i in range(len(x)):
        c.hyp_zero(x[i] * z - ph * P(y[i]), 'prod')
        c.hyp_zero((x[i] * z - ph * P(y[i])).conjugate(), 'prod')
        for j in range(len(x)):
            c.hyp_zero(x[i] * x[j].conjugate() * z * z - P(y[i]) * P(y[j]).conjugate(), 'gram')
    s = P(0)
    for i in range(len(x)):
        s = s + x[i].conjugate() * P(y[i])
    c.hyp_zero(s * ph - z, 'proj')
    c.hyp_zero((s * ph - z).conjugate(), 'proj')


def canon_perm(a):
    """an order of rows and columns that depends on the entries only"""
    m, n = a.shape
    k = [[hash(P(a[i, j]).key()) for j in range(n)] for i in range(m)]
    rp = sorted(range(m), key=lambda i: (sorted(k[i]), i))
    cp = sorted(range(n), key=lambda j: ([k[i][j] for i in rp], j))
    return rp, cp


def svd(a, full_matrices=True, compute_uv=True, hermitian=False, **kw):
    if not on(a):
        return ORIG['svd'](a, full_matrices=full_matrices, compute_uv=compute_uv)
    a = obj(a)
    c = ctx()
    m, n = a.shape
    k = min(m, n)
    if 'svd_known' in c.__dict__ and compute_uv:                # the scenario built this matrix from its singular vectors
        r = c.svd_known(a)
        if r is not None:
            return r
    # singular values do not depend on the order of rows and columns or on transposition: share the factors
    # between arrangements of the same matrix, so that code that groups indices differently is compared, not assumed
    rp, cp = canon_perm(a)
    b = a[rp][:, cp]
    if (rp != list(range(m)) or cp != list(range(n))) and full_matrices is False:
        u, s, v = svd(b, full_matrices=False)
        ui, vi = u.copy(), v.copy()
        ui[rp] = u
        vi[:, cp] = v
        return (ui, s, vi) if compute_uv else s
    ck = ('svd', akey(a))
    if ck not in c.cache and ('svd', akey(np.transpose(a))) in c.cache:
        u, s, v = c.cache[('svd', akey(np.transpose(a)))]
        c.cache[ck] = (np.transpose(v).copy(), s, np.transpose(u).copy())
    if ck not in c.cache:
        c.counter += 1
        t = 'svd%d' % c.counter
        c.stats['svd'] = c.stats.get('svd', 0) + 1
        s = arr(lambda i: c.fresh('%ss[%d]' % (t, i[0]), real=True), (k,))
        if c.mode == 'param':
            for x in s:
                c.assume_pos(x)
            S = arr(lambda i: s[i[0]] if i[0] == i[1] else P(0), (k, k))
            Si = arr(lambda i: sym.inverse(s[i[0]]) if i[0] == i[1] else P(0), (k, k))
            if m >= n:
                v, vi = generic_invertible(n, t + 'V')
                u = mm(mm(a, vi), Si)
            else:
                u, ui = generic_invertible(m, t + 'U')
                v = mm(Si, mm(ui, a))
            for i in range(k - 1):
                c.assume_ge(s[i] - s[i + 1])
            c.notes.add('SVD: M=U.S.V with S and one of U,V an arbitrary invertible matrix')
        elif k == 1 and not allzero(a):
            ph = phase(t)
            z = posnorm(fro2(a))
            s = arr(lambda i: z, (1,))
            if n == 1:
                v = arr(lambda i: ph, (1, 1))
                u = freshmat(t + 'u', m, 1)
                unit_vector(u, a, ph.conjugate(), z)
            else:
                u = arr(lambda i: ph, (1, 1))
                v = freshmat(t + 'v', 1, n)
                unit_vector(v, a, ph.conjugate(), z)
            c.notes.add('SVD of a single column or row: exact closed form up to a free phase, nonzero norm')
        else:
            u = freshmat(t + 'u', m, k)
            v = freshmat(t + 'v', k, n)
            for i in range(k - 1):
                c.assume_ge(s[i] - s[i + 1])
            c.assume_ge(s[k - 1])
            S = arr(lambda i: s[i[0]] if i[0] == i[1] else P(0), (k, k))
            hyp_mat(mm(conjT(u), u), eye(k))
            hyp_mat(mm(v, conjT(v)), eye(k))
            if m == k:
                hyp_mat(mm(u, conjT(u)), eye(k))
            if n == k:
                hyp_mat(mm(conjT(v), v), eye(k))
            hyp_mat(mm(mm(u, S), v), a, 'prod')
            hyp_mat(mm(conjT(u), a), mm(S, v), 'proj')
            hyp_mat(mm(a, conjT(v)), mm(u, S), 'proj')
            c.hyp_zero(fro2(a) - fro2(s), 'fro')
            SS = mm(S, S)
            hyp_mat(mm(conjT(v), mm(SS, v)), mm(conjT(a), a), 'gram')
            hyp_mat(mm(u, mm(SS, conjT(u))), mm(a, conjT(a)), 'gram')
        c.cache[ck] = (u, s, v)
    u, s, v = c.cache[ck]
    if not compute_uv:
        return s.copy()
    if full_matrices and m != n:
        raise EncodeError('full_matrices svd of a rectangular matrix')
    return u.copy(), s.copy(), v.copy()


def eigh(a, UPLO='L', **kw):
    if not on(a):
        return ORIG['eigh'](a, UPLO=UPLO)
    a = obj(a)
    if is_const(a):
        return ORIG['eigh'](to_num(a).astype(complex if any(P(x).im for x in a.flat) else float), UPLO=UPLO)
    c = ctx()
    n = a.shape[0]
    # numpy reads one triangle only
    low = arr(lambda i: P(a[i]) if i[0] > i[1] else (P(a[i]).real if i[0] == i[1] else P(a[i[1], i[0]]).conjugate()), (n, n)) \
        if UPLO == 'L' else arr(lambda i: P(a[i]) if i[0] < i[1] else (P(a[i]).real if i[0] == i[1] else P(a[i[1], i[0]]).conjugate()), (n, n))
    ck = ('eigh', akey(low))
    if ck not in c.cache and 'eigh_known' in c.__dict__:       # the scenario built this matrix from its eigenvectors
        r = c.eigh_known(low)
        if r is not None:
            c.cache[ck] = r
    if ck not in c.cache:
        c.counter += 1
        t = 'eigh%d' % c.counter
        w = arr(lambda i: c.fresh('%sw[%d]' % (t, i[0]), real=True), (n,))
        for i in range(n - 1):
            c.assume_ge(w[i + 1] - w[i])
        W = arr(lambda i: w[i[0]] if i[0] == i[1] else P(0), (n, n))
        u = freshmat(t + 'u', n, n)
        hyp_mat(mm(conjT(u), u), eye(n))
        hyp_mat(mm(u, conjT(u)), eye(n))
        hyp_mat(mm(low, u), mm(u, W))
        hyp_mat(mm(mm(u, W), conjT(u)), low)
        c.hyp_zero(sum((w[i] for i in range(n)), P(0)) - sum((low[i, i] for i in range(n)), P(0)))
        c.cache[ck] = (w, u)
    w, u = c.cache[ck]
    return w.copy(), u.copy()


def inv(a, **kw):
    if not on(a):
        return ORIG['inv'](a)
    a = obj(a)
    if is_const(a) and False:
        return ORIG['inv'](to_num(a))
    n = a.shape[0]
    c = ctx()
    if all(P(a[i]).iszero() for i in np.ndindex(n, n) if i[0] > i[1]):
        return _inv_upper(a)
    if all(P(a[i]).iszero() for i in np.ndindex(n, n) if i[0] < i[1]):
        return np.transpose(_inv_upper(np.transpose(a)))
    if n == 2:
        d = P(a[0, 0]) * a[1, 1] - P(a[0, 1]) * a[1, 0]
        w = sym.inverse(d)
        out = arr(lambda i: P(0), (2, 2))
        out[0, 0] = a[1, 1] * w
        out[1, 1] = a[0, 0] * w
        out[0, 1] = -(a[0, 1] * w)
        out[1, 0] = -(a[1, 0] * w)
        return out
    ck = ('inv', akey(a))
    if ck not in c.cache:
        c.counter += 1
        w = freshmat('inv%d' % c.counter, n, n)
        hyp_mat(mm(a, w), eye(n))
        hyp_mat(mm(w, a), eye(n))
        c.cache[ck] = w
    return c.cache[ck].copy()


def pinv(a, *args, **kw):
    if not on(a):
        return ORIG['pinv'](a, *args, **kw)
    ctx().notes.add('pinv: arguments assumed to have full rank above the cutoff')
    return inv(a)


def solve(a, b, **kw):
    if not on(a, b):
        return ORIG['solve'](a, b, **kw)
    return mm(inv(a), b)


def eig(a, **kw):
    if not on(a):
        return ORIG['eig'](a, **kw)
    raise EncodeError('dense non-hermitian eig')


def uf_matrix(name, a, shape=None, herm=False):
    """uninterpreted matrix function (congruent in its argument)"""
    a = obj(a)
    c = ctx()
    ck = (name, akey(a))
    if ck not in c.cache:
        c.counter += 1
        t = '%s%d' % (name, c.counter)
        m = freshmat(t, a.shape[0], a.shape[1])
        c.cache[ck] = m
        c.__dict__.setdefault('uf_log', []).append((name, a.copy(), m))
        h = c.__dict__.get('on_' + name)
        if h:
            h(a, m)
    return c.cache[ck].copy()


def expm(a, *args, **kw):
    if not on(a):
        return ORIG['expm'](a, *args, **kw)
    a = obj(a)
    n = a.shape[0]
    if allzero(a):
        return eye(n)
    return uf_matrix('expm', a)


def sqrtm(a, *args, **kw):
    if not on(a):
        return ORIG['sqrtm'](a, *args, **kw)
    a = obj(a)
    n = a.shape[0]
    c = ctx()
    if all(P(a[i]).iszero() for i in np.ndindex(n, n) if i[0] != i[1]):
        return arr(lambda i: sym.sqrt(P(a[i])) if i[0] == i[1] else P(0), (n, n))
    ck = ('sqrtm', akey(a))
    new = ck not in c.cache
    w = uf_matrix('sqrtm', a)
    if new:
        hyp_mat(mm(w, w), a)
        if all((P(a[i]) - P(a[i[1], i[0]]).conjugate()).iszero() for i in np.ndindex(n, n)):
            hyp_mat(conjT(w), w)
    return w


def polar(a, side='right'):
    if not on(a):
        return ORIG['polar'](a, side=side)
    a = obj(a)
    m, n = a.shape
    c = ctx()
    ck = ('polar', side, akey(a))
    if ck not in c.cache:
        c.counter += 1
        t = 'polar%d' % c.counter
        u = freshmat(t + 'u', m, n)
        k = n if side == 'right' else m
        p = freshmat(t + 'p', k, k)
        hyp_mat(conjT(p), p)
        if side == 'right':
            hyp_mat(mm(u, p), a)
        else:
            hyp_mat(mm(p, u), a)
        if m >= n:
            hyp_mat(mm(conjT(u), u), eye(n))
        if m <= n:
            hyp_mat(mm(u, conjT(u)), eye(m))
        c.cache[ck] = (u, p)
    u, p = c.cache[ck]
    return u.copy(), p.copy()


# ------------------------------------------------------------------ namespace fixes
class FloatObj(np.ndarray):
    """stand-in for a float64 work array in symbolic mode: stores real parts"""

    realonly = True

    def __setitem__(self, k, v):
        if self.realonly and is_sym(v):
            if isinstance(v, Poly):
                v = v.real
            else:
                v = obj(v)
                v = arr(lambda i: P(v[i]).real, v.shape)
        if isinstance(v, np.ndarray) and v.size == 1 and v.ndim:
            kk = k if isinstance(k, tuple) else (k,)
            if len(kk) == self.ndim and all(isinstance(x, (int, np.integer)) for x in kk):
                v = v.reshape(-1)[0]       # numeric arrays store the scalar
        np.ndarray.__setitem__(self.view(np.ndarray), k, v)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        inputs = [i.view(np.ndarray) if isinstance(i, FloatObj) else i for i in inputs]
        out = kw.get('out')
        if out:
            kw['out'] = tuple(o.view(np.ndarray) if isinstance(o, FloatObj) else o for o in out)
        r = getattr(ufunc, method)(*inputs, **kw)
        if out and len(out) == 1:
            return out[0]
        return r

    def astype(self, dt, *a, **k):
        if dt in (float, np.float64, 'float64', 'float'):
            return self.copy()
        if dt in (complex, object, np.complex128, 'complex128', 'complex') or dt == np.dtype(object):
            return np.array(self.view(np.ndarray), dtype=object).view(CplxObj)
        return self.view(np.ndarray).astype(dt, *a, **k)


class CplxObj(FloatObj):
    """stand-in for a complex128 work array in symbolic mode"""
    realonly = False


def _ncon_type(x):
    return np.ndarray if isinstance(x, FloatObj) else type(x)


def prepare_module(m):
    """after import of a repository module: type() must see work arrays as plain arrays"""
    if m.__name__.startswith('lib.ncon'):
        m.__dict__['type'] = _ncon_type


def _sqrt(x, *a, **k):
    if active() and not a and not k:
        if isinstance(x, Poly):
            return sym.sqrt(x)
        if not isinstance(x, np.ndarray) and not isinstance(x, (list, tuple)):
            if isinstance(x, (complex, np.complexfloating)) and x.imag:
                return ORIG['sqrt'](x)
            r = sym.sqrt(P(x.real if isinstance(x, (complex, np.complexfloating)) else x))
            return float(r.constval()[0]) if r.isconst() else r
        x = np.asarray(x)
        if x.dtype.kind in 'if' and x.dtype != object:
            r = [sym.sqrt(P(v)) if v >= 0 else None for v in x.ravel().tolist()]
            if any(v is not None and not v.isconst() for v in r):
                out = np.empty(x.size, dtype=object)
                for i, v in enumerate(r):
                    out[i] = v
                return out.reshape(x.shape)
        if x.dtype == object:
            return arr(lambda i: sym.sqrt(P(x[i])), x.shape)
    return ORIG['sqrt'](x, *a, **k)


def _isscalar(x):
    return True if isinstance(x, Poly) else ORIG['isscalar'](x)


def _mk(name):
    o = getattr(np, name)
    ORIG[name] = o

    def f(*args, **kw):
        if active():
            dt = kw.get('dtype')
            if dt is None and name in ('zeros', 'ones', 'empty') and len(args) > 1:
                dt = args[1]
                args = args[:1] + args[2:]
            if dt is None or dt in (float, complex, np.float64, np.complex128, 'complex128', 'float64', 'complex', 'float') \
                    or (isinstance(dt, np.dtype) and dt.kind in 'fc'):
                isc = dt is not None and np.dtype(dt).kind == 'c'
                kw['dtype'] = int if name != 'empty' else float
                a = o(*args, **kw)
                b = np.empty(a.shape, dtype=object)
                for i in np.ndindex(*a.shape):
                    b[i] = int(a[i]) if name != 'empty' else 0
                return b.view(CplxObj if isc else FloatObj)
            kw['dtype'] = dt
        return o(*args, **kw)
    f.__name__ = name
    setattr(np, name, f)


def _real(x):
    if isinstance(x, Poly):
        return x.real
    if on(x):
        x = obj(x)
        return arr(lambda i: P(x[i]).real, x.shape) if x.ndim else P(x.item()).real
    return ORIG['real'](x)


def _imag(x):
    if isinstance(x, Poly):
        return x.imag
    if on(x):
        x = obj(x)
        return arr(lambda i: P(x[i]).imag, x.shape) if x.ndim else P(x.item()).imag
    return ORIG['imag'](x)


def _angle(x, *a, **k):
    if isinstance(x, Poly):
        return sym.angle(x)
    if on(x):
        x = obj(x)
        return arr(lambda i: sym.angle(P(x[i])), x.shape)
    return ORIG['angle'](x, *a, **k)


def _issubdtype(a, b):
    if active():
        if a is object or a is Poly or (isinstance(a, np.dtype) and a.kind == 'O'):
            a = float if sym.Ctx.cur.real else complex
        if b is object or (isinstance(b, np.dtype) and b.kind == 'O'):
            b = float if sym.Ctx.cur.real else complex
    return ORIG['issubdtype'](a, b)


def _iscomplexobj(x):
    if on(x):
        return not sym.Ctx.cur.real
    return ORIG['iscomplexobj'](x)


def _isrealobj(x):
    return not _iscomplexobj(x)


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if on(a, b):
        a, b = np.broadcast_arrays(obj(a), obj(b))
        return all(bool(P(x) == P(y)) for x, y in zip(a.ravel(), b.ravel()))
    return ORIG['allclose'](a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)


def _einsum(*args, **kw):
    if active() and any(is_sym(a) for a in args):
        kw.pop('optimize', None)
        ops = [obj(a) if isinstance(a, (np.ndarray, list)) and i % 1 == 0 and not isinstance(a, str) and _isarr(a) else a
               for i, a in enumerate(args)]
        return ORIG['einsum'](*ops, **kw)
    return ORIG['einsum'](*args, **kw)


def _isarr(a):
    return isinstance(a, np.ndarray)


def _rand(shape, name):
    c = ctx()
    c.counter += 1
    t = 'rnd%d' % c.counter
    c.notes.add('random numbers are arbitrary reals')
    if shape is None or shape == ():
        return c.fresh(t, real=True)
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    return arr(lambda i: c.fresh('%s%s' % (t, list(i)), real=True), tuple(int(x) for x in shape))


class LinOp:
    """scipy.sparse.linalg.LinearOperator: only shape/matvec are modelled"""

    def __new__(cls, *a, **k):
        if not active():
            return ORIG['LinearOperator'](*a, **k)
        return object.__new__(cls)

    def __init__(self, shape, matvec=None, rmatvec=None, matmat=None, dtype=None, **k):
        self.shape = tuple(shape)
        self._mv = matvec
        self.dtype = dtype

    def matvec(self, x):
        return self._mv(x)

    def dot(self, x):
        return self._mv(x)
    __call__ = __matmul__ = __mul__ = dot


def lgmres_contract(A, b, x0=None, **kw):
    """returns the exact solution of the linear system it is given"""
    c = ctx()
    b = obj(b)
    c.counter += 1
    x = arr(lambda i: c.fresh('lin%d[%d]' % (c.counter, i[0]), real=c.real), b.shape)
    hyp_mat(obj(A.matvec(x)).reshape(b.shape), b, 'lin')
    c.notes.add('lgmres returns the exact solution of the linear system it is given')
    return x, 0


def _solver_stub(name):
    def f(*args, **kw):
        if active():
            h = sym.Ctx.cur.__dict__.get('hook_' + name)
            if h is not None:
                return h(*args, **kw)
            if name == 'lgmres':
                return lgmres_contract(*args, **kw)
            if any(isinstance(a, LinOp) or is_sym(a) for a in args):
                raise EncodeError('no contract installed for ' + name)
        return ORIG[name](*args, **kw)
    f.__name__ = name
    return f


def _all(a, *args, **kw):
    if a is None:                      # numpy 1.x (the version the repository runs on) hands None back
        return None
    if active() and isinstance(a, np.ndarray) and a.dtype == object and not args and not kw and any(isinstance(x, Poly) for x in a.ravel()):
        fs = [('not', ('cmp', P(x), '==')) for x in a.ravel() if not P(x).isconst()]
        if any(P(x).iszero() for x in a.ravel()):
            return False
        return SymBool(('and',) + tuple(fs)) if fs else True
    return ORIG['all'](a, *args, **kw)


def _result_type(*a):
    if active():
        a = [np.dtype(object) if isinstance(x, Poly) or x is Poly else x for x in a]
    return ORIG['result_type'](*a)


def install():
    """patch numpy/scipy and the interpreter so that the repository imports"""
    import collections, collections.abc
    for n in ('Iterable', 'Mapping', 'Sequence', 'Callable'):
        if not hasattr(collections, n):
            setattr(collections, n, getattr(collections.abc, n))
    if 'matplotlib' not in sys.modules:
        class _Anything(types.ModuleType):
            __path__ = []

            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return lambda *a, **k: _Anything(n)

            def __call__(self, *a, **k):
                return self
        for n in ('matplotlib', 'matplotlib.pyplot'):
            sys.modules[n] = _Anything(n)
        sys.modules['matplotlib'].pyplot = sys.modules['matplotlib.pyplot']
    import scipy, scipy.linalg, scipy.sparse, scipy.sparse.linalg, scipy.integrate, scipy.interpolate, scipy.special
    scipy.linalg, scipy.integrate
    if not hasattr(np.linalg, 'linalg'):
        m = types.ModuleType('numpy.linalg.linalg')
        m.LinAlgError = np.linalg.LinAlgError
        np.linalg.linalg = m
        sys.modules['numpy.linalg.linalg'] = m
    for n, v in (('product', np.prod), ('complex_', np.complex128), ('float_', np.float64), ('bool8', np.bool_),
                 ('int_', np.int64), ('alltrue', np.all), ('in1d', getattr(np, 'isin', None)), ('float', float),
                 ('complex', complex), ('int', int), ('object', object)):
        try:
            if n not in np.__dict__:
                setattr(np, n, v)
        except Exception:
            pass
    L = np.linalg
    for n, f in (('norm', norm), ('qr', qr), ('svd', svd), ('eigh', eigh), ('inv', inv), ('pinv', pinv), ('solve', solve), ('eig', eig)):
        ORIG[n] = getattr(L, n)
        setattr(L, n, f)
    sl = scipy.linalg
    for n, f in (('expm', expm), ('sqrtm', sqrtm), ('polar', polar)):
        ORIG[n] = getattr(sl, n)
        setattr(sl, n, f)
    for n, f in (('norm', norm), ('qr', _sl_qr), ('svd', svd), ('eigh', _sl_eigh), ('inv', inv), ('pinv', pinv), ('solve', solve)):
        ORIG['sl_' + n] = getattr(sl, n)
        setattr(sl, n, f)
    for n, f in (('real', _real), ('imag', _imag), ('angle', _angle), ('issubdtype', _issubdtype), ('iscomplexobj', _iscomplexobj),
                 ('isrealobj', _isrealobj), ('sqrt', _sqrt), ('isscalar', _isscalar), ('allclose', _allclose), ('einsum', _einsum), ('all', _all), ('result_type', _result_type)):
        ORIG[n] = getattr(np, n)
        setattr(np, n, f)
    for n in ('zeros', 'ones', 'eye', 'identity', 'empty'):
        _mk(n)
    R = np.random
    for n in ('random_sample', 'rand', 'randn', 'random', 'uniform', 'normal'):
        ORIG['R' + n] = getattr(R, n)

    def mk_shape(n):
        def f(size=None, *a, **k):
            return _rand(size, n) if active() else ORIG['R' + n](size, *a, **k)
        return f

    def mk_dims(n):
        def f(*dims):
            return _rand(dims if dims else None, n) if active() else ORIG['R' + n](*dims)
        return f

    def mk_dist(n):
        def f(a=0.0, b=1.0, size=None):
            return _rand(size, n) if active() else ORIG['R' + n](a, b, size)
        return f
    R.random_sample = mk_shape('random_sample')
    R.random = mk_shape('random')
    R.rand = mk_dims('rand')
    R.randn = mk_dims('randn')
    R.uniform = mk_dist('uniform')
    R.normal = mk_dist('normal')
    ssl = scipy.sparse.linalg
    ORIG['LinearOperator'] = ssl.LinearOperator
    ssl.LinearOperator = LinOp
    for n in ('eigs', 'eigsh', 'lgmres', 'gmres', 'lobpcg', 'bicgstab', 'expm_multiply'):
        ORIG[n] = getattr(ssl, n)
        setattr(ssl, n, _solver_stub(n))
    ORIG['solve_ivp'] = scipy.integrate.solve_ivp
    scipy.integrate.solve_ivp = _solver_stub('solve_ivp')


def _sl_qr(a, overwrite_a=False, lwork=None, mode='full', **kw):
    if not on(a):
        return ORIG['sl_qr'](a, mode=mode, **kw)
    return qr(a, mode='reduced' if mode == 'economic' else mode)


def _sl_eigh(a, *args, **kw):
    if not on(a):
        return ORIG['sl_eigh'](a, *args, **kw)
    return eigh(a)
