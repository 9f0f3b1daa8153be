"""Symbolic value domain.

A symbolic scalar is a Laurent polynomial with exact Gaussian-rational
coefficients in the input variables of a scenario.  A complex input z owns two
formal indeterminates z and z~ (its complex conjugate); `conjugate()` swaps
them.  Monomials are packed into one Python integer (8 bit signed exponent per
indeterminate), so multiplying monomials is integer addition.

Values that leave this domain (norms, square roots, general quotients,
factorisations, matrix exponentials ...) become fresh indeterminates tied to
their arguments by recorded hypotheses; see Ctx.
"""
import fractions, numbers
import numpy as np

Fraction = fractions.Fraction
BITS = 8
HALF = 1 << (BITS - 1)
MASK = (1 << BITS) - 1


class EncodeError(Exception):
    """The real code left the fragment the encoder understands."""


class PathAbort(BaseException):
    """The current path is infeasible / cut."""


def _num(x):
    """exact rational of a real number"""
    if isinstance(x, bool) or isinstance(x, (np.bool_,)):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise EncodeError('non-finite constant %r' % (x,))
        f = Fraction(x)
        if f.denominator != 1 and f.denominator > (1 << 20):
            # decimal literals (0.1, 1E-3): read them as the decimal the source
            # shows; exact-binary values stay exact.
            g = Fraction(repr(x))
            if g.denominator < (1 << 45):
                f = g
        return f.numerator if f.denominator == 1 else f
    raise EncodeError('cannot read number %r' % (type(x),))


class Ctx:
    """All state of one symbolic execution of one path."""
    cur = None

    def __init__(self, mode='param', real=False):
        self.mode = mode
        self.real = real          # dtype answers for symbolic arrays: float
        self.names = []           # slot -> name
        self.slot = {}
        self.kind = []            # slot -> 'r' | 'c' | 'b'(conj twin)
        self.pairmask_lo = 0      # fields holding z (twin right above)
        self.bias = 0
        self.square = {}          # slot -> Poly value of var**2 (constants)
        self.hyps = []            # polys == 0
        self.hyptag = []          # parallel: kind of hypothesis (proof search only)
        self.ineqs = []           # (poly real, op) op in '>','>='
        self.nonzero = []         # polys assumed nonzero
        self.path = []            # SymBool decisions taken (expr, value)
        self.cache = {}           # congruence cache for uninterpreted functions
        self.prefix = []
        self.decisions = []
        self.goals = []
        self.counter = 0
        self.notes = set()
        self.inputs = {}          # name -> description of inputs
        self.feas = None          # feasibility oracle (solve module)
        self.simplify = None      # "is this poly 1 under the hypotheses" oracle (solve module)
        self.stats = {}

    # -- variables ---------------------------------------------------------
    def _new(self, name, kind):
        if name in self.slot:
            raise EncodeError('duplicate variable ' + name)
        s = len(self.names)
        self.names.append(name)
        self.kind.append(kind)
        self.slot[name] = s
        self.bias |= HALF << (BITS * s)
        return s

    def rvar(self, name):
        s = self._new(name, 'r')
        return Poly({1 << (BITS * s): 1})

    def cvar(self, name):
        s = self._new(name, 'c')
        self._new(name + '~', 'b')
        self.pairmask_lo |= MASK << (BITS * s)
        return Poly({1 << (BITS * s): 1})

    def atoms(self, prefix):
        return [Poly({1 << (BITS * s): 1}) for s, n in enumerate(self.names) if n.startswith(prefix)]

    def fresh(self, base, real=True):
        self.counter += 1
        n = '%s#%d' % (base, self.counter)
        return self.rvar(n) if real else self.cvar(n)

    def conj_mono(self, m):
        lo = self.pairmask_lo
        if not lo:
            return m
        b = m + self.bias
        hi = lo << BITS
        keep = b & ~(lo | hi)
        return (keep | ((b & lo) << BITS) | ((b & hi) >> BITS)) - self.bias

    def exps(self, m):
        """list of (slot, exponent)"""
        out = []
        b = m + self.bias
        x = b ^ self.bias
        while x:
            s = ((x & -x).bit_length() - 1) // BITS
            sh = BITS * s
            out.append((s, ((b >> sh) & MASK) - HALF))
            x = (x >> (sh + BITS)) << (sh + BITS)
        return out

    def mono(self, exps):
        m = 0
        for s, e in exps:
            m += e << (BITS * s)
        return m

    # -- assumptions -------------------------------------------------------
    def hyp_zero(self, p, tag=''):
        p = P(p)
        if not p.iszero():
            self.hyps.append(p)
            self.hyptag.append(tag)

    def assume_pos(self, p):
        self.ineqs.append((P(p), '>'))

    def assume_ge(self, p):
        self.ineqs.append((P(p), '>='))

    # -- branching ---------------------------------------------------------
    def decide(self, cond):
        """cond: formula tuple.  Returns the Boolean chosen for this path."""
        key = fkey(cond)
        for c, v in self.path:
            if fkey(c) == key:
                return v
        if cond[0] == 'cmp':                        # what the signs already decided say about this comparison
            kp, kn, signs = cond[1].key(), (-cond[1]).key(), {-1, 0, 1}
            for c, v in self.path:
                if c[0] == 'cmp':
                    k = c[1].key()
                    if k == kp or k == kn:
                        sg = 1 if k == kp else -1
                        signs = {x for x in signs if _holds(sg * x, c[2]) == v}
            if len({_holds(x, cond[2]) for x in signs}) == 1:
                return _holds(next(iter(signs)), cond[2])
        i = len(self.decisions)
        if i < len(self.prefix):
            v = self.prefix[i]
            if isinstance(v, tuple):
                v = v[0]
            self.decisions.append((v, None))
            self.path.append((cond, v))
            return v
        t = self.feas(self, cond, True)
        f = self.feas(self, cond, False)
        if not t and not f:
            raise PathAbort('infeasible')
        v = t
        self.decisions.append((v, bool(t and f)))
        self.path.append((cond, v))
        return v


def ctx():
    return Ctx.cur


# ---------------------------------------------------------------- formulas
# atoms:  ('cmp', poly, op)      op in '>', '>=', '==', real polynomials
#         ('not', f) ('and', f, g) ('or', f, g) ('const', bool)
def _holds(sign, op):
    return sign > 0 if op == '>' else sign >= 0 if op == '>=' else sign == 0


def fkey(f):
    if f[0] == 'cmp':
        return ('cmp', f[1].key(), f[2])
    if f[0] == 'const':
        return f
    if f[0] == 'z3':
        return ('z3', f[1].sexpr())
    return (f[0],) + tuple(fkey(x) for x in f[1:])


class SymBool:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        if self.f[0] == 'const':
            return self.f[1]
        return ctx().decide(self.f)

    def __and__(self, o):
        return SymBool(('and', self.f, _fb(o)))

    def __or__(self, o):
        return SymBool(('or', self.f, _fb(o)))

    def __invert__(self):
        return SymBool(('not', self.f))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    def __hash__(self):
        return hash(bool(self))
    __rand__ = __and__
    __ror__ = __or__


def _fb(o):
    if isinstance(o, SymBool):
        return o.f
    return ('const', bool(o))


def _cadd(d, k, v):
    o = d.get(k)
    if o is None:
        d[k] = v
    else:
        o = o + v
        if o:
            d[k] = o
        else:
            del d[k]


def _dadd(a, b, sign=1):
    if not b:
        return a
    if not a:
        return b if sign == 1 else {k: -v for k, v in b.items()}
    if sign == 1 and len(b) > len(a):
        a, b = b, a
    r = dict(a)
    for k, v in b.items():
        o = r.get(k)
        if o is None:
            r[k] = v if sign == 1 else -v
        else:
            o = o + v if sign == 1 else o - v
            if o:
                r[k] = o
            else:
                del r[k]
    return r


def _dmul(a, b):
    if not a or not b:
        return {}
    if len(a) < len(b):
        a, b = b, a
    if len(b) == 1:
        (kb, vb), = b.items()
        if vb == 1:
            return {k + kb: v for k, v in a.items()}
        return {k + kb: _norm(v * vb) for k, v in a.items()}
    r = {}
    get = r.get
    for kb, vb in b.items():
        for ka, va in a.items():
            k = ka + kb
            o = get(k)
            r[k] = va * vb if o is None else o + va * vb
    return {k: _norm(v) for k, v in r.items() if v}


def _norm(v):
    if type(v) is Fraction and v.denominator == 1:
        return v.numerator
    return v


MAXTERMS = 400000


class Poly:
    __slots__ = ('re', 'im')

    def __init__(self, re, im=None):
        self.re = re
        self.im = im if im else None

    # -- construction
    @staticmethod
    def const(x):
        if isinstance(x, (complex, np.complexfloating)):
            x = complex(x)
            r, i = _num(x.real), _num(x.imag)
            return Poly({0: r} if r else {}, {0: i} if i else None)
        r = _num(x)
        return Poly({0: r} if r else {})

    def iszero(self):
        return not self.re and not self.im

    def isconst(self):
        return all(k == 0 for k in self.re) and (self.im is None or all(k == 0 for k in self.im))

    def constval(self):
        r = self.re.get(0, 0)
        i = self.im.get(0, 0) if self.im else 0
        return r, i

    def nterms(self):
        return len(self.re) + (len(self.im) if self.im else 0)

    def key(self):
        return (frozenset(self.re.items()), frozenset(self.im.items()) if self.im else None)

    # -- arithmetic
    def __add__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = P(o)
        if self.im is None and o.im is None:
            return Poly(_dadd(self.re, o.re))
        return Poly(_dadd(self.re, o.re), _dadd(self.im or {}, o.im or {}))
    __radd__ = __add__

    def __sub__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = P(o)
        return Poly(_dadd(self.re, o.re, -1), _dadd(self.im or {}, o.im or {}, -1))

    def __rsub__(self, o):
        if not _isnum(o):
            return NotImplemented
        return P(o) - self

    def __neg__(self):
        return Poly({k: -v for k, v in self.re.items()}, {k: -v for k, v in self.im.items()} if self.im else None)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = P(o)
        if self.im is None and o.im is None:
            r = Poly(_dmul(self.re, o.re))
        else:
            si, oi = self.im or {}, o.im or {}
            r = Poly(_dadd(_dmul(self.re, o.re), _dmul(si, oi), -1),
                     _dadd(_dmul(self.re, oi), _dmul(si, o.re)))
        if r.nterms() > MAXTERMS:
            raise EncodeError('polynomial too large')
        c = ctx()
        if c is not None and c.square:
            r = _reduce_squares(c, r)
        return r
    __rmul__ = __mul__

    def __pow__(self, n):
        if isinstance(n, Poly):
            if not n.isconst():
                raise EncodeError('symbolic exponent')
            n = float(n.constval()[0])
        if isinstance(n, (float, np.floating)) and float(n) == int(n):
            n = int(n)
        if isinstance(n, (int, np.integer)):
            n = int(n)
            if n < 0:
                return (P(1) / self) ** (-n)
            r = P(1)
            for _ in range(n):
                r = r * self
            return r
        if n == 0.5:
            return self.sqrt()
        if n == -0.5:
            return P(1) / self.sqrt()
        if n == 0.25:
            return self.sqrt().sqrt()
        return uf('pow:%r' % (float(n),), [self], real=True, pos=True)

    def __truediv__(self, o):
        if not _isnum(o):
            return NotImplemented
        o = P(o)
        return self * inverse(o)

    def __rtruediv__(self, o):
        return P(o) * inverse(self)

    def conjugate(self):
        c = ctx()
        cm = c.conj_mono
        return Poly({cm(k): v for k, v in self.re.items()},
                    {cm(k): -v for k, v in self.im.items()} if self.im else None)
    conj = conjugate

    @property
    def real(self):
        c = self.conjugate()
        if c.re == self.re and c.im == self.im:
            return self
        return (self + c) * Fraction(1, 2)

    @property
    def imag(self):
        return (self - self.conjugate()) * Poly({}, {0: Fraction(-1, 2)})

    def isreal(self):
        c = self.conjugate()
        return c.re == self.re and (c.im or None) == (self.im or None)

    # numpy ufunc hooks on object arrays
    def sqrt(self):
        return sqrt(self)

    def exp(self):
        return uf_exp(self)

    def __abs__(self):
        return absval(self)

    def _cmp(self, o, op):
        if not _isnum(o):
            return NotImplemented
        o = P(o)
        if op in ('<', '<='):
            return o._cmp(self, '>' if op == '<' else '>=')
        d = self - o
        if op == '==':
            if d.iszero():
                return SymBool(('const', True))
            if d.isconst():
                return SymBool(('const', False))
            return SymBool(('cmp', d, '=='))
        if not d.isreal():
            raise EncodeError('ordering comparison of complex values')
        if d.isconst():
            v = d.constval()[0]
            return SymBool(('const', v > 0 if op == '>' else v >= 0))
        return SymBool(('cmp', d, op))

    def __gt__(self, o):
        return self._cmp(o, '>')

    def __ge__(self, o):
        return self._cmp(o, '>=')

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, '==')

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        r = self._cmp(o, '==')
        if r is NotImplemented:
            return r
        return SymBool(('const', not r.f[1])) if r.f[0] == 'const' else SymBool(('not', r.f))

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.isconst() and not self.constval()[1]:
            return float(self.constval()[0])
        if ctx().__dict__.get('printable'):
            return 0.0                          # scenario declares that floats are only printed
        raise EncodeError('float() of a symbolic value')

    def __complex__(self):
        if self.isconst():
            a, b = self.constval()
            return complex(float(a), float(b))
        raise EncodeError('complex() of a symbolic value')

    def __int__(self):
        if self.isconst() and not self.constval()[1]:
            return int(self.constval()[0])
        raise EncodeError('int() of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return pretty(self, 6)

    # used by %-formatting of floats
    def item(self):
        return self

    shape = ()
    ndim = 0

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def dot(self, o):
        return self * o

    def astype(self, dt):
        return self

    def __round__(self, n=None):
        raise EncodeError('round')

    def angle(self):
        return angle(self)


def _reduce_squares(c, p):
    out = None
    hit = False
    for d in (p.re, p.im or {}):
        for k in d:
            b = k + c.bias
            for s in c.square:
                e = ((b >> (BITS * s)) & MASK) - HALF
                if e >= 2 or e < 0:
                    hit = True
                    break
            if hit:
                break
        if hit:
            break
    if not hit:
        return p
    acc = P(0)
    for comp, d in (('re', p.re), ('im', p.im or {})):
        for k, v in d.items():
            b = k + c.bias
            fac = Fraction(1)
            for s, val in c.square.items():
                e = ((b >> (BITS * s)) & MASK) - HALF
                n, rem = divmod(e, 2)   # e = 2n+rem, rem in {0,1}
                if n:
                    fac *= Fraction(val) ** n
                    k -= (2 * n) << (BITS * s)
            t = {k: _norm(v * fac)}
            acc = acc + (Poly(t) if comp == 're' else Poly({}, t))
    return acc


def P(x):
    if type(x) is Poly:
        return x
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return P(x.item())
        if x.size == 1:
            return P(x.reshape(-1)[0])
        raise EncodeError('array where a scalar is expected')
    return Poly.const(x)


def _isnum(o):
    if type(o) is Poly:
        return True
    if isinstance(o, np.ndarray):
        return o.ndim == 0
    return isinstance(o, (numbers.Number, np.generic))


def tag_real(x):
    return P(x)


# ------------------------------------------------------- derived operations
def simplified(q):
    """a shorter polynomial the solver proves equal to q under the hypotheses (recorded as a lemma)"""
    c = ctx()
    if c.mode != 'fresh' or not c.hyps or c.simplify is None or q.isconst():
        return q
    ck = ('simp', q.key())
    if ck not in c.cache:
        r = c.simplify(c, q)
        c.cache[ck] = r
        if r is not q and q.nterms() == 1:
            c.hyp_zero(q - r, 'lemma')
            c.lead = getattr(c, 'lead', {})
            c.lead[(q - r).key()] = list(q.re)[0]
    return c.cache[ck]


def inverse(q):
    c = ctx()
    q = P(q)
    if q.iszero():
        raise ZeroDivisionError('symbolic division by zero')
    if q.isconst():
        a, b = q.constval()
        n = a * a + b * b
        return Poly({0: _norm(Fraction(a) / n)} if a else {}, {0: _norm(-Fraction(b) / n)} if b else None)
    if q.nterms() == 1 and not q.im:
        (k, v), = q.re.items()
        c.nonzero.append(q)
        r = Poly({-k: _norm(Fraction(1) / v)})
        if c.square:
            r = _reduce_squares(c, r)
        return r
    ck = ('inv', q.key())
    if ck in c.cache:
        return c.cache[ck]
    q2 = simplified(q)
    if q2.isconst() or q2.nterms() == 1:
        c.cache[ck] = inverse(q2)
        return c.cache[ck]
    # try up to a constant factor / conjugate
    r = q.isreal()
    w = c.fresh('inv', real=r)
    c.cache[ck] = w
    c.nonzero.append(q)
    c.hyp_zero(w * q - 1)
    if not r:
        qc = q.conjugate()
        c.cache[('inv', qc.key())] = w.conjugate()
        c.hyp_zero(w.conjugate() * qc - 1)
    return w


def _isqrt_fraction(f):
    f = Fraction(f)
    if f < 0:
        return None
    import math
    a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
    if a * a == f.numerator and b * b == f.denominator:
        return _norm(Fraction(a, b))
    return None


def sqrt(q):
    c = ctx()
    q = P(q)
    if q.isconst():
        a, b = q.constval()
        if b:
            raise EncodeError('sqrt of complex constant')
        if a < 0:
            return sqrt(-q) * Poly({}, {0: 1})
        r = _isqrt_fraction(a)
        if r is not None:
            return Poly({0: r} if r else {})
        return sqrt_const(a)
    if not q.isreal():
        return csqrt(q)
    # a perfect-square single monomial with even exponents of positive vars
    ck = ('sqrt', q.key())
    if ck in c.cache:
        return c.cache[ck]
    if ('norm', q.key()) in c.cache:
        return c.cache[('norm', q.key())]
    w = exact_sqrt(q)
    if w is not None:
        return w
    known = c.__dict__.get('sqrt_known', ())
    for v in (known() if callable(known) else known):                   # positive values the scenario expects; used only if proved
        from . import solve
        if solve.prove_eq(c, [(q, v * v)], timeout_ms=20000)[0] == 'unsat':
            c.cache[ck] = v
            return v
    # |x/|x|| = 1: q is the radicand of an earlier square root divided by its square
    defs = c.__dict__.setdefault('sqrt_defs', [])
    for s, d in defs:
        if d.nterms() == q.nterms() and (q * s * s).key() == d.key():
            return P(1)
    w = c.fresh('sqrt', real=True)
    defs.append((w, q))
    c.cache[ck] = w
    c.hyp_zero(w * w - q, 'norm')
    c.assume_ge(w)
    return w


def exact_sqrt(q):
    c = ctx()
    if q.nterms() == 1 and not q.im:
        (k, v), = q.re.items()
        r = _isqrt_fraction(v) if v > 0 else None
        ex = c.exps(k)
        if r is not None and all(e % 2 == 0 for _, e in ex) and all(
                s in getattr(c, 'posvars', ()) for s, _ in ex):
            return Poly({c.mono([(s, e // 2) for s, e in ex]): r})
    return None


def csqrt(q):
    c = ctx()
    ck = ('csqrt', q.key())
    if ck not in c.cache:
        w = c.fresh('csqrt', real=False)
        c.cache[ck] = w
        c.hyp_zero(w * w - q, 'norm')
        c.hyp_zero((w * w - q).conjugate())
    return c.cache[ck]


def sqrt_const(a):
    """square root of a positive rational: an algebraic constant."""
    c = ctx()
    a = Fraction(a)
    # sqrt(n/d) = sqrt(n*d)/d ; pull squares out of n*d
    n = a.numerator * a.denominator
    d = a.denominator
    out = 1
    f = 2
    m = n
    rest = 1
    while f * f <= m and f < 2000:
        e = 0
        while m % f == 0:
            m //= f
            e += 1
        out *= f ** (e // 2)
        if e % 2:
            rest *= f
        f += 1
    rest *= m
    if rest == 1:
        return Poly({0: _norm(Fraction(out, d))})
    # split rest into primes so that sqrt(6) == sqrt(2)*sqrt(3)
    res = Poly({0: _norm(Fraction(out, d))})
    f = 2
    primes = []
    m = rest
    while m > 1 and f < 2000:
        if m % f == 0:
            primes.append(f)
            m //= f
        else:
            f += 1
    if m > 1:
        primes.append(m)
    for p in primes:
        nm = 'sqrt(%d)' % p
        if nm not in c.slot:
            v = c.rvar(nm)
            c.square[c.slot[nm]] = p
            c.assume_pos(v)
        res = res * Poly({1 << (BITS * c.slot[nm]): 1})
    return res


def absval(q):
    c = ctx()
    q = P(q)
    if q.isconst():
        a, b = q.constval()
        return sqrt(Poly({0: _norm(a * a + b * b)})) if b else Poly({0: abs(a)} if a else {})
    if q.isreal():
        # fork on the sign: exact
        ck = ('sgn', q.key())
        if ck not in c.cache:
            if getattr(c, 'fork_abs', True):
                c.cache[ck] = q if bool(q >= 0) else -q
            else:
                w = c.fresh('abs', real=True)
                c.hyp_zero(w * w - q * q)
                c.assume_ge(w)
                c.cache[ck] = w
        return c.cache[ck]
    return sqrt(q * q.conjugate())


def angle(q):
    """arg(q): fresh real; exp(i arg(q)) * |q| = q is recorded."""
    c = ctx()
    q = P(q)
    ck = ('angle', q.key())
    if ck not in c.cache:
        a = c.fresh('angle', real=True)
        c.cache[ck] = a
        e = uf_exp(a * Poly({}, {0: 1}))
        c.hyp_zero(e * absval(q) - q)
        c.hyp_zero((e * absval(q) - q).conjugate())
    return c.cache[ck]


def uf_exp(q):
    """exp: uninterpreted, with exp(0)=1, exp(-x)=1/exp(x), exp(conj x)=conj exp(x)."""
    c = ctx()
    q = P(q)
    if q.iszero():
        return P(1)
    if q.isconst():
        a, b = q.constval()
        if a or not b:
            pass
    ck = ('exp', q.key())
    if ck in c.cache:
        return c.cache[ck]
    qc = q.conjugate()
    if qc.key() == q.key():
        e = c.fresh('exp', real=True)
        c.assume_pos(e)
        c.cache[ck] = e
        c.cache[('exp', (-q).key())] = inverse(e)
    else:
        e = c.fresh('exp', real=False)
        ec = e.conjugate()
        c.cache[ck] = e
        c.cache[('exp', qc.key())] = ec
        if (-q).key() == qc.key():           # purely imaginary argument
            c.hyp_zero(e * ec - 1)
        else:
            c.cache[('exp', (-q).key())] = inverse(e)
            c.cache[('exp', (-qc).key())] = inverse(ec)
    return c.cache[ck]


def uf(name, args, real=False, pos=False):
    c = ctx()
    ck = ('uf', name) + tuple(P(a).key() for a in args)
    if ck not in c.cache:
        w = c.fresh(name, real=real)
        c.cache[ck] = w
        if pos:
            c.assume_ge(w)
    return c.cache[ck]


# --------------------------------------------------------------- utilities
def pretty(p, n=8):
    c = ctx()
    out = []
    for d, suf in ((p.re, ''), (p.im or {}, '*i')):
        for k, v in list(d.items())[:n]:
            if c is None:
                out.append('%s*m%d%s' % (v, k % 9973, suf))
            else:
                out.append('%s%s%s' % (v, ''.join('*%s%s' % (c.names[s], '' if e == 1 else '^%d' % e) for s, e in c.exps(k)), suf))
    t = ' + '.join(out) if out else '0'
    if p.nterms() > len(out):
        t += ' + ... (%d terms)' % p.nterms()
    return t


def evaluate(p, val):
    """numeric value of p for val: slot -> complex (twins included)"""
    c = ctx()
    p = P(p)
    tot = 0
    for d, f in ((p.re, 1), (p.im or {}, 1j)):
        for k, v in d.items():
            t = (float(v)) * f
            for s, e in c.exps(k):
                t = t * val[s] ** e
            tot = tot + t
    return tot


def is_sym(x):
    """does x (array, list or scalar) contain symbolic values"""
    if isinstance(x, Poly):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    return False


def arr(f, shape):
    out = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
        out[i] = f(i)
    return out
