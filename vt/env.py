"""Scenario environment.  A scenario is one function run twice: symbolically
(SymEnv, CPython + z3) to decide its goals for all inputs, and concretely
(ConEnv, the repository's own interpreter, real floats, no stubs) to validate
the encoding and to replay counterexamples."""
import os, sys, json, zlib, math, random, importlib
import numpy as np

SCEN = {}


class Skip(Exception):
    pass


def scenario(pid, params=None, thorough=None, mode='param', real=False, con_dtypes=('c', 'f'), tol=1e-7, con=True,
             sym=True, con_repeat=2, kf=None, max_paths=400, timeout=120):
    """register a scenario for property pid.  params: list of dicts run at both
    tiers; thorough: further dicts for the thorough tier."""
    def deco(f):
        SCEN.setdefault(pid, []).append(dict(pid=pid, name=f.__name__, f=f, params=params or [{}], thorough=thorough or [], mode=mode,
                                             real=real, con_dtypes=con_dtypes, tol=tol, con=con, sym=sym, con_repeat=con_repeat, kf=kf,
                                             max_paths=max_paths, timeout=timeout))
        return f
    return deco


def repo_path():
    return os.environ.get('VT_REPO', '/repo')


_SHORT = {'mps': 'lib.mpslib.mps', 'mf': 'lib.mpslib.mpsfunctions', 'en': 'lib.mpslib.engines', 'H': 'lib.mpslib.Hamiltonians',
          'lan': 'lib.Lanczos.LanczosEngine', 'ncon': 'lib.ncon', 'utils': 'lib.utils.utilities', 'bb': 'lib.utils.binaryoperations',
          'sexpmv': 'lib.mpslib.sexpmv'}


class Base:
    def __getattr__(self, n):
        if n in _SHORT:
            m = importlib.import_module(_SHORT[n])
            setattr(self, n, m)
            return m
        raise AttributeError(n)

    # derived inputs -------------------------------------------------------
    def mps_tensors(self, name, d, D, real=None):
        """d: list of local dims, D: list of N+1 bond dims"""
        return [self.tensor('%s%d' % (name, n), (D[n], D[n + 1], d[n]), real=real) for n in range(len(d))]

    def herm(self, name, n, real=None):
        a = self.tensor(name, (n, n), real=real)
        return a + np.transpose(self.conj(a))

    def conj(self, a):
        return np.conj(a)

    def dag(self, a):
        return np.transpose(np.conj(a))


class ConEnv(Base):
    symbolic = False

    def __init__(self, seed=1, dtype='c', values=None, tol=1e-7):
        self.seed = seed
        self.kind = dtype
        self.dtype = complex if dtype == 'c' else float
        self.values = values or {}
        self.tol = tol
        self.fails = []
        self.ngoals = 0
        self.outputs = {}
        self.scale = 1.0

    def _rng(self, name):
        return np.random.RandomState((zlib.crc32(name.encode()) * 7919 + self.seed * 104729) % (2 ** 31))

    def _val(self, name, default):
        if name in self.values:
            v = self.values[name]
            if isinstance(v, (list, tuple)):
                v = complex(v[0], v[1])
            return v
        return default

    def tensor(self, name, shape, real=None):
        shape = tuple(shape)
        r = self._rng(name)
        real = (self.kind == 'f') if real is None else (real or self.kind == 'f')
        a = r.uniform(-1, 1, size=shape)
        if not real:
            a = a + 1j * r.uniform(-1, 1, size=shape)
        if self.values:
            for i in np.ndindex(*shape):
                k = '%s[%s]' % (name, ','.join(map(str, i)))
                if k in self.values:
                    v = self._val(k, None)
                    a[i] = v if not real else np.real(v)
        return a

    def scalar(self, name, real=False, pos=False, lo=None, hi=None):
        r = self._rng(name)
        real = real or pos or lo is not None or hi is not None or self.kind == 'f'
        if pos or lo is not None:
            l = lo if lo is not None else 0.1
            h = hi if hi is not None else l + 1.5
            v = l + (h - l) * (0.1 + 0.8 * r.uniform(0, 1))
        elif hi is not None:
            v = hi - r.uniform(0.1, 1)
        else:
            v = r.uniform(-1, 1)
            if not real:
                v = v + 1j * r.uniform(-1, 1)
        v = self._val(name, v)
        return float(np.real(v)) if real else complex(v)

    def isometry(self, name, m, n):
        a = self.tensor(name, (m, n))
        q, r = np.linalg.qr(a)
        return q

    def word(self, name, bits=64):
        v = self.values.get(name)
        if v is None:
            r = self._rng(name)
            v = 0
            for _ in range(bits):
                v = 2 * v + r.randint(0, 2)
        return np.uint64(v)

    def unit(self, name):
        """unit modulus complex number"""
        if self.kind == 'f':
            return 1.0
        return np.exp(1j * self._rng(name).uniform(-3, 3))

    def descending(self, name, n):
        s = np.sort(self._rng(name).uniform(0.2, 1, size=n))[::-1].copy()
        w = [self.values.get('%s[%d]' % (name, i)) for i in range(n)]
        return s if None in w else np.array([float(x) for x in w])

    def const(self, a):
        return np.asarray(a)

    def zero_like(self):
        return 0.0

    def sqrt(self, x):
        return np.sqrt(x)

    def fro2(self, x):
        return float(np.sum(np.abs(np.asarray(x)) ** 2))

    def assume(self, cond):
        if not bool(cond):
            raise Skip('assumption')

    def eq(self, label, lhs, rhs, tol=None):
        self.ngoals += 1
        tol = tol or self.tol
        try:
            l, r = np.asarray(lhs), np.asarray(rhs)
            if l.dtype == object or r.dtype == object:
                l, r = l.astype(complex), r.astype(complex)
            if l.shape != r.shape:
                self.fails.append((label, 'shape %s != %s' % (l.shape, r.shape)))
                return
            if l.size == 0:
                return
            d = np.max(np.abs(l - r))
            s = 1.0 + max(np.max(np.abs(l)), np.max(np.abs(r)))
            if not (d <= tol * s):
                self.fails.append((label, 'difference %.3g (scale %.3g)' % (d, s)))
        except Exception as e:
            self.fails.append((label, 'uncomparable: %r' % (e,)))

    def norm_is(self, label, value, x):
        self.eq(label, value, np.linalg.norm(np.ravel(x)))

    def true(self, label, cond):
        self.ngoals += 1
        if not bool(cond):
            self.fails.append((label, 'false'))

    def ge(self, label, a, b):
        self.ngoals += 1
        if not (np.real(a) >= np.real(b) - self.tol * (1 + abs(a) + abs(b))):
            self.fails.append((label, '%r < %r' % (a, b)))

    def raises(self, label, fn, exc=Exception):
        self.ngoals += 1
        try:
            fn()
        except exc:
            return
        except Exception as e:
            self.fails.append((label, 'raised %r' % (e,)))
            return
        self.fails.append((label, 'did not raise'))

    def hook(self, name, fn):
        pass


def load_scenarios(pid=None):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'scen')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py') and not f.startswith('_') and f != 'oracle.py':
            importlib.import_module('scen.' + f[:-3])
    return SCEN.get(pid, []) if pid else SCEN
