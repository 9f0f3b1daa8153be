"""64-bit words as z3 bit vectors (numpy.uint64 scalars of the repository's numpy)."""
import z3
from .sym import SymBool, EncodeError

BITS = 64


def _sb(t):
    t = z3.simplify(t)
    if z3.is_true(t) or z3.is_false(t):
        return SymBool(('const', z3.is_true(t)))
    return SymBool(('z3', t))


class Word:
    """numpy.uint64: wrapping arithmetic, shifts by 64 or more give 0"""
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = z3.simplify(t)

    def value(self):
        return self.t.as_long() if z3.is_bv_value(self.t) else None

    @staticmethod
    def of(x):
        if isinstance(x, Word):
            return x
        if isinstance(x, SymBool):
            x = int(x)
        if isinstance(x, float) and x != int(x):
            x = int(x)
        return Word(z3.BitVecVal(int(x) % (1 << BITS), BITS))

    def _bin(self, o, f, swap=False):
        if isinstance(o, (float, complex)):
            return NotImplemented
        o = Word.of(o)
        return Word(f(o.t, self.t) if swap else f(self.t, o.t))

    def __and__(self, o): return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__
    def __invert__(self): return Word(~self.t)
    def __lshift__(self, o): return self._bin(o, lambda a, b: a << b)
    def __rlshift__(self, o): return self._bin(o, lambda a, b: a << b, True)
    def __rshift__(self, o): return self._bin(o, z3.LShR)
    def __rrshift__(self, o): return self._bin(o, z3.LShR, True)
    def __mod__(self, o): return self._bin(o, z3.URem)
    def __floordiv__(self, o): return self._bin(o, z3.UDiv)

    def _arith(self, o, f, g):
        # a uint64 and a signed integer have no common integer type in this numpy: the result is a double
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            if self.value() is None:
                raise EncodeError('uint64 combined with a Python number is a double')
            return g(float(self.value()), float(o))
        return self._bin(o, f)

    def __add__(self, o): return self._arith(o, lambda a, b: a + b, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: b - a, lambda a, b: b - a)
    def __mul__(self, o): return self._arith(o, lambda a, b: a * b, lambda a, b: a * b)
    __rmul__ = __mul__

    def __eq__(self, o): return _sb(self.t == Word.of(o).t)
    def __ne__(self, o): return _sb(self.t != Word.of(o).t)
    def __gt__(self, o): return _sb(z3.UGT(self.t, Word.of(o).t))
    def __ge__(self, o): return _sb(z3.UGE(self.t, Word.of(o).t))
    def __lt__(self, o): return _sb(z3.ULT(self.t, Word.of(o).t))
    def __le__(self, o): return _sb(z3.ULE(self.t, Word.of(o).t))
    def __bool__(self): return bool(self != 0)

    def __int__(self):
        v = self.value()
        if v is not None:
            return v
        # only words with few possible values have a Python integer value: decide between them
        for k in (0, 1):
            if self == k:
                return k
        raise EncodeError('integer value of a symbolic word')
    __index__ = __int__
    def __hash__(self): return hash(self.t)
    def __repr__(self): return 'Word(%s)' % self.t


class Signed(Word):
    """numpy.int64 of a word: same bits, ordered and shifted with the sign"""

    @staticmethod
    def to(x):
        return Signed(Word.of(x).t)

    def __gt__(self, o): return _sb(self.t > Word.of(o).t)
    def __ge__(self, o): return _sb(self.t >= Word.of(o).t)
    def __lt__(self, o): return _sb(self.t < Word.of(o).t)
    def __le__(self, o): return _sb(self.t <= Word.of(o).t)
    def __hash__(self): return hash(self.t)
    def __eq__(self, o): return _sb(self.t == Word.of(o).t)

    def _bin(self, o, f, swap=False):
        if isinstance(o, Word) and not isinstance(o, Signed):
            raise TypeError('bitwise operation between signed and unsigned words')
        r = Word._bin(self, o, f, swap)
        return r if r is NotImplemented else Signed(r.t)

    def __rshift__(self, o): return self._bin(o, lambda a, b: a >> b)

    def _arith(self, o, f, g):
        if isinstance(o, Word) and not isinstance(o, Signed):
            raise EncodeError('signed and unsigned words combine to a double')
        return self._bin(o, f)

    def __int__(self):
        v = self.value()
        if v is not None:
            return v - (1 << BITS) if v >> (BITS - 1) else v
        return Word.__int__(self)
    __index__ = __int__


def popcount(t):
    n = t.size()
    return z3.Sum(*[z3.If(z3.Extract(i, i, t) == 1, 1, 0) for i in range(n)])


class NP:
    """the part of numpy the bit helpers use"""
    uint64 = staticmethod(Word.of)
    int64 = staticmethod(Signed.to)
    left_shift = staticmethod(lambda a, b: Word.of(a) << b)
    right_shift = staticmethod(lambda a, b: Word.of(a) >> b)
    bitwise_and = staticmethod(lambda a, b: Word.of(a) & b)
    bitwise_or = staticmethod(lambda a, b: Word.of(a) | b)
    bitwise_xor = staticmethod(lambda a, b: Word.of(a) ^ b)
    bitwise_not = invert = staticmethod(lambda a: ~Word.of(a))

    def __getattr__(self, n):
        import numpy
        return getattr(numpy, n)
