"""Symbolic stand-ins for Python's scalar values.

Each proxy reports the type it stands for through ``__class__``; truth values
are decided by the engine (path forking).  Integers are unbounded z3 Ints,
finite floats live on an exactly representable dyadic lattice (see DESIGN.md),
strings are sequences of symbolic code points with a concrete length per path.
"""
import math
from fractions import Fraction

import z3

from . import engine as eng
from .engine import Unsupported

HASH = 7919


def E():
    return eng.ENGINE


class OpaqueStr(str):
    """Text of a symbolic value inside a message (content not modelled)"""


class Sym(object):
    __slots__ = ()

    def __hash__(self):
        return HASH

    def __repr__(self):
        return OpaqueStr('<sym>')

    def __str__(self):
        return OpaqueStr('<sym>')

    def __format__(self, spec):
        return OpaqueStr('<sym>')

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, proto):
        raise Unsupported('pickling a symbolic value')


def is_sym(x):
    return issubclass(type(x), Sym)


def mkbool(expr):
    """SymBool, or a native bool when the expression is constant"""
    if expr is True or expr is False:
        return expr
    expr_s = E().simp(expr)
    if z3.is_true(expr_s):
        return True
    if z3.is_false(expr_s):
        return False
    return SymBool(expr)


def bexpr(x):
    """z3 Bool (or native bool) of a native/symbolic boolean"""
    if type(x) is SymBool:
        return x.e
    return bool(x)


def z_and(*xs):
    out = []
    for x in xs:
        x = bexpr(x)
        if x is True:
            continue
        if x is False:
            return False
        out.append(x)
    if not out:
        return True
    return mkbool(z3.And(*out)) if len(out) > 1 else mkbool(out[0])


def z_or(*xs):
    out = []
    for x in xs:
        x = bexpr(x)
        if x is False:
            continue
        if x is True:
            return True
        out.append(x)
    if not out:
        return False
    return mkbool(z3.Or(*out)) if len(out) > 1 else mkbool(out[0])


def z_not(x):
    x = bexpr(x)
    if x is True or x is False:
        return not x
    return mkbool(z3.Not(x))


# ---------------------------------------------------------------- numbers

def num_kind(x):
    """'i' / 'f' / None (not a real number) for natives and proxies"""
    t = type(x)
    if t is SymInt or t is SymBool or t is int or t is bool:
        return 'i'
    if t is SymFloat or t is float:
        return 'f'
    if t is complex or t is SymComplex:
        return 'c'
    if isinstance(x, int):
        return 'i'
    if isinstance(x, float):
        return 'f'
    return None


def iexpr(x):
    t = type(x)
    if t is SymInt:
        return x.e
    if t is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    return z3.IntVal(int(x))


def rexpr(x):
    """z3 Real of a finite number"""
    t = type(x)
    if t is SymFloat:
        return x.e
    if t is SymInt or t is SymBool:
        return z3.ToReal(iexpr(x))
    fr = Fraction(x)
    return z3.Q(fr.numerator, fr.denominator)


def nonfinite(x):
    return isinstance(x, float) and type(x) is not SymFloat and (
        math.isinf(x) or math.isnan(x))


def num_cmp(a, op, b):
    """Exact comparison of two real numbers, at least one symbolic"""
    if nonfinite(b):
        if math.isnan(b):
            return op == 'ne'
        big = b > 0
        return {'lt': big, 'le': big, 'gt': not big, 'ge': not big,
                'eq': False, 'ne': True}[op]
    if nonfinite(a):
        flip = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le',
                'eq': 'eq', 'ne': 'ne'}
        return num_cmp(b, flip[op], a)
    if num_kind(a) == 'i' and num_kind(b) == 'i':
        x, y = iexpr(a), iexpr(b)
    else:
        x, y = rexpr(a), rexpr(b)
    return mkbool({'lt': lambda: x < y, 'le': lambda: x <= y,
                   'gt': lambda: x > y, 'ge': lambda: x >= y,
                   'eq': lambda: x == y, 'ne': lambda: x != y}[op]())


class SymNum(Sym):
    __array_ufunc__ = None
    __slots__ = ()
    __hash__ = Sym.__hash__

    def _cmp(self, op, other):
        k = num_kind(other)
        if k is None:
            return NotImplemented
        if k == 'c':
            if op in ('eq', 'ne'):
                r = complex_eq(self, other)
                return r if op == 'eq' else z_not(r)
            return NotImplemented
        return num_cmp(self, op, other)

    def __eq__(self, other):
        return self._cmp('eq', other)

    def __ne__(self, other):
        return self._cmp('ne', other)

    def __lt__(self, other):
        return self._cmp('lt', other)

    def __le__(self, other):
        return self._cmp('le', other)

    def __gt__(self, other):
        return self._cmp('gt', other)

    def __ge__(self, other):
        return self._cmp('ge', other)

    def __add__(self, other):
        return num_bin('add', self, other)

    def __radd__(self, other):
        return num_bin('add', other, self)

    def __sub__(self, other):
        return num_bin('sub', self, other)

    def __rsub__(self, other):
        return num_bin('sub', other, self)

    def __mul__(self, other):
        return num_bin('mul', self, other)

    def __rmul__(self, other):
        return num_bin('mul', other, self)

    def __truediv__(self, other):
        return num_bin('truediv', self, other)

    def __rtruediv__(self, other):
        return num_bin('truediv', other, self)

    def __floordiv__(self, other):
        return num_bin('floordiv', self, other)

    def __rfloordiv__(self, other):
        return num_bin('floordiv', other, self)

    def __mod__(self, other):
        return num_bin('mod', self, other)

    def __rmod__(self, other):
        return num_bin('mod', other, self)

    def __pow__(self, other):
        return num_bin('pow', self, other)

    def __rpow__(self, other):
        return num_bin('pow', other, self)

    def __divmod__(self, other):
        return (self // other, self % other)

    def __rdivmod__(self, other):
        return (other // self, other % self)

    def __pos__(self):
        return num_bin('add', self, 0)

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__') or not hasattr(
                self.__class__, name):
            raise AttributeError("%r object has no attribute %r" % (
                self.__class__.__name__, name))
        return getattr(self.concrete('attribute %s' % name), name)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self


class SymBool(SymNum):
    __slots__ = ('e',)
    __hash__ = Sym.__hash__

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E().branch(self.e)

    def concrete(self, why='bool'):
        return E().branch(self.e)

    def __int__(self):
        return int(self.concrete())

    def __round__(self, ndigits=None):
        return int(self.concrete())

    def __float__(self):
        return float(self.concrete())

    def __index__(self):
        return int(self.concrete())

    def _cmp(self, op, other):
        if op in ('eq', 'ne') and (type(other) is SymBool or
                                   type(other) is bool):
            r = mkbool(self.e == (other.e if type(other) is SymBool
                                  else z3.BoolVal(other)))
            return r if op == 'eq' else z_not(r)
        return SymNum._cmp(self, op, other)

    def __and__(self, other):
        if type(other) is SymBool or type(other) is bool:
            return z_and(self, other)
        return int(self.concrete()) & other

    __rand__ = __and__

    def __or__(self, other):
        if type(other) is SymBool or type(other) is bool:
            return z_or(self, other)
        return int(self.concrete()) | other

    __ror__ = __or__

    def __xor__(self, other):
        if type(other) is SymBool or type(other) is bool:
            return z_not(self == other)
        return int(self.concrete()) ^ other

    __rxor__ = __xor__

    @property
    def real(self):
        return to_symint(self)

    def __neg__(self):
        return -to_symint(self)

    def __abs__(self):
        return to_symint(self)

    def __invert__(self):
        return ~to_symint(self)


def to_symint(x):
    return SymInt(iexpr(x))


class SymInt(SymNum):
    __slots__ = ('e',)
    __hash__ = Sym.__hash__

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return E().branch(self.e != 0)

    def concrete(self, why='int', limit=None, exact=False):
        return E().concretise(self.e, 'int: ' + why, limit, exact).as_long()

    def __int__(self):
        return self.concrete('__int__')

    def __float__(self):
        return float(self.concrete('__float__'))

    def __index__(self):
        return self.concrete('__index__')

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return SymInt(-self.e - 1)

    def __round__(self, ndigits=None):
        if ndigits is None or ndigits >= 0:
            return self
        return round(self.concrete('round'), ndigits)

    def __trunc__(self):
        return self

    def __floor__(self):
        return self

    def __ceil__(self):
        return self

    def __and__(self, other):
        return self.concrete('bitop') & other

    def __or__(self, other):
        return self.concrete('bitop') | other

    def __xor__(self, other):
        return self.concrete('bitop') ^ other

    def __rand__(self, other):
        return other & self.concrete('bitop')

    def __ror__(self, other):
        return other | self.concrete('bitop')

    def __rxor__(self, other):
        return other ^ self.concrete('bitop')

    def __lshift__(self, other):
        return self.concrete('bitop') << other

    def __rshift__(self, other):
        return self.concrete('bitop') >> other

    def __rlshift__(self, other):
        return other << self.concrete('bitop')

    def __rrshift__(self, other):
        return other >> self.concrete('bitop')

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def is_integer(self):
        return True


class SymFloat(SymNum):
    """A finite float  k * 2**-q  with |value| <= m  (exact in IEEE double
    whenever m * 2**q <= 2**53)"""
    __slots__ = ('e', 'q', 'm')
    __hash__ = Sym.__hash__

    def __init__(self, e, q, m):
        self.e = e
        self.q = q
        self.m = Fraction(m)

    @property
    def __class__(self):
        return float

    def __bool__(self):
        return E().branch(self.e != 0)

    def concrete(self, why='float', limit=None, exact=False):
        v = E().concretise(self.e, 'float: ' + why, limit, exact)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))

    def __float__(self):
        return self.concrete('__float__')

    def __int__(self):
        return int(self.concrete('__int__'))

    def __neg__(self):
        return SymFloat(-self.e, self.q, self.m)

    def __abs__(self):
        return SymFloat(z3.If(self.e >= 0, self.e, -self.e), self.q, self.m)

    def __round__(self, ndigits=None):
        if ndigits is not None:
            nd = int(ndigits)
            if 0 <= nd < 40:
                if self.q <= nd and self.q != APPROX:
                    return self         # as many decimals as binary places
                if E().rounded('round'):
                    # any number as near to it as the rounded one
                    r, half = E().fresh_real('round'), z3.Q(1, 2 * 10 ** nd)
                    E().assume(z3.And(r - self.e <= half,
                                      self.e - r <= half))
                    return SymFloat(r, APPROX, WIDE)
            return round(self.concrete('round'), ndigits)
        return SymFloat._half_even(self.e)

    @staticmethod
    def _half_even(e):
        fl = z3.ToInt(e)
        frac = e - z3.ToReal(fl)
        half = z3.Q(1, 2)
        return SymInt(z3.If(frac < half, fl,
                            z3.If(frac > half, fl + 1,
                                  z3.If(fl % 2 == 0, fl, fl + 1))))

    def __trunc__(self):
        return SymInt(z3.If(self.e >= 0, z3.ToInt(self.e),
                            -z3.ToInt(-self.e)))

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def is_integer(self):
        return mkbool(z3.IsInt(self.e))


# lattice exponent of real numbers that stand for rounded floats: arithmetic
# on them is exact and compared with a tolerance by the scenarios
APPROX = 10 ** 6
WIDE = Fraction(10) ** 300


def fits(q, m):
    return q <= 1000 and m * (1 << q) <= (1 << 53)


def int_to_float(x):
    """float(x) for a symbolic int: exact below 2**53, concretised above"""
    if type(x) is SymBool:
        return SymFloat(rexpr(x), 0, 1)
    lim = 1 << 53
    if E().branch(z3.And(x.e >= -lim, x.e <= lim)):
        return SymFloat(z3.ToReal(x.e), 0, lim)
    if E().rounded('float() of an int'):
        return SymFloat(z3.ToReal(x.e), APPROX, WIDE)
    return float(x.concrete('float() of int beyond 2**53'))


def lat(x):
    """(q, m) lattice parameters of a finite number, or None"""
    t = type(x)
    if t is SymFloat:
        return x.q, x.m
    fr = Fraction(x)
    q = fr.denominator.bit_length() - 1
    return q, abs(fr)


def to_float(x):
    """operand of a float operation"""
    if type(x) in (SymInt, SymBool):
        return int_to_float(x)
    if type(x) is SymFloat:
        return x
    return float(x)


def native(x, why='native'):
    return x.concrete(why) if is_sym(x) else x


_OPS = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b,
    'mul': lambda a, b: a * b, 'truediv': lambda a, b: a / b,
    'floordiv': lambda a, b: a // b, 'mod': lambda a, b: a % b,
    'pow': lambda a, b: a ** b,
}


ARRAY_OP = None         # numpy operands, see ndarray.py


def num_bin(op, a, b):
    ka, kb = num_kind(a), num_kind(b)
    if ka is None or kb is None:
        if ARRAY_OP is not None:
            got = ARRAY_OP(op, a, b)
            if got is not None:
                return got
        if op == 'mul' and isinstance(a, (list, tuple, str, bytes)):
            return a * b.concrete('sequence repeat')
        if op == 'mul' and isinstance(b, (list, tuple, str, bytes)):
            return a.concrete('sequence repeat') * b
        return NotImplemented
    if ka == 'c' or kb == 'c':
        return complex_bin(op, a, b)
    if ka == 'i' and kb == 'i' and op != 'truediv':
        x, y = iexpr(a), iexpr(b)
        if op == 'add':
            return SymInt(x + y)
        if op == 'sub':
            return SymInt(x - y)
        if op == 'mul':
            return SymInt(x * y)
        if op in ('floordiv', 'mod'):
            if E().branch(y == 0):
                raise ZeroDivisionError(
                    'integer division or modulo by zero')
            if not E().branch(y > 0):
                x, y = -x, -y
                if op == 'mod':
                    return SymInt(-(x % y))
            return SymInt(x / y) if op == 'floordiv' else SymInt(x % y)
        return _OPS[op](native(a, op), native(b, op))
    # float arithmetic
    a, b = to_float(a), to_float(b)
    if not is_sym(a) and not is_sym(b):
        return _OPS[op](a, b)
    for this, other, left in ((a, b, True), (b, a, False)):
        if not is_sym(this) and nonfinite(this):
            if op in ('add', 'sub'):
                return _OPS[op](this, 0.0) if left else _OPS[op](0.0, this)
            return _OPS[op](native(a, op), native(b, op))
    qa, ma = lat(a)
    qb, mb = lat(b)
    if op in ('add', 'sub', 'mul'):
        if op == 'mul':
            q, m = qa + qb, ma * mb
        else:
            q, m = max(qa, qb), ma + mb
        x, y = rexpr(a), rexpr(b)
        res = x + y if op == 'add' else x - y if op == 'sub' else x * y
        const = E().simp(res)
        if z3.is_rational_value(const):
            # IEEE: the correctly rounded exact result
            return float(Fraction(const.numerator_as_long(),
                                  const.denominator_as_long()))
        if q >= APPROX:
            return SymFloat(res, APPROX, WIDE)
        if fits(q, m):
            return SymFloat(res, q, m)
        if q < 1000:
            lim = Fraction(1 << 53, 1 << q)
            z = z3.Q(lim.numerator, lim.denominator)
            if E().branch(z3.And(res >= -z, res <= z)):
                return SymFloat(res, q, lim)
    elif op == 'truediv' and max(qa, qb) >= APPROX:
        y = rexpr(b)
        if E().branch(y == 0):
            raise ZeroDivisionError('float division by zero')
        return SymFloat(rexpr(a) / y, APPROX, WIDE)
    elif op == 'truediv' and not is_sym(b) and b != 0:
        fr = Fraction(1) / Fraction(b)
        if fr.denominator & (fr.denominator - 1) == 0:
            q = qa + fr.denominator.bit_length() - 1
            m = ma * abs(fr)
            if fits(q, m):
                return SymFloat(rexpr(a) * z3.Q(fr.numerator, fr.denominator),
                                q, m)
    if op in ('add', 'sub', 'mul') or op == 'truediv' and (
            is_sym(b) or b != 0):
        # besides some concrete values, consider the unrounded results
        if E().rounded('float ' + op):
            y = rexpr(b)
            if op == 'truediv' and is_sym(b) and E().branch(y == 0):
                raise ZeroDivisionError('float division by zero')
            x = rexpr(a)
            return SymFloat(x + y if op == 'add' else x - y if op == 'sub'
                            else x * y if op == 'mul' else x / y,
                            APPROX, WIDE)
    return _OPS[op](native(a, 'float ' + op), native(b, 'float ' + op))


def int_of_float(x):
    return x.__trunc__()


# ---------------------------------------------------------------- complex

class SymComplex(Sym):
    __slots__ = ('real', 'imag')
    __hash__ = Sym.__hash__

    def __init__(self, re, im):
        self.real = re
        self.imag = im

    @property
    def __class__(self):
        return complex

    def __eq__(self, other):
        if num_kind(other) is None:
            return NotImplemented
        return complex_eq(self, other)

    def __ne__(self, other):
        if num_kind(other) is None:
            return NotImplemented
        return z_not(complex_eq(self, other))

    def __bool__(self):
        return bool(z_or(self.real != 0, self.imag != 0))

    def __complex__(self):
        return self.concrete('__complex__')

    def __add__(self, o):
        return complex_bin('add', self, o)

    def __radd__(self, o):
        return complex_bin('add', o, self)

    def __sub__(self, o):
        return complex_bin('sub', self, o)

    def __rsub__(self, o):
        return complex_bin('sub', o, self)

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __abs__(self):
        return abs(self.concrete('abs(complex)'))

    def __mul__(self, o):
        return complex_bin('mul', self, o)

    __rmul__ = __mul__

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    def concrete(self, why='complex'):
        return complex(native(self.real, why), native(self.imag, why))


def cparts(x):
    if type(x) is SymComplex or isinstance(x, complex):
        return x.real, x.imag
    return to_float(x), 0.0


def complex_eq(a, b):
    (ar, ai), (br, bi) = cparts(a), cparts(b)
    return z_and(ar == br, ai == bi)


def complex_bin(op, a, b):
    if num_kind(a) is None or num_kind(b) is None:
        return NotImplemented
    if op in ('add', 'sub'):
        (ar, ai), (br, bi) = cparts(a), cparts(b)
        if op == 'add':
            return SymComplex(ar + br, ai + bi)
        return SymComplex(ar - br, ai - bi)
    return _OPS[op](native(a, op), native(b, op))


# ---------------------------------------------------------------- text tokens

def same_text(a, b):
    """Do two numbers of one kind have the same text?  (nan does)"""
    if a is b:
        return True
    if num_kind(a) == 'c':
        return z_and(same_text(a.real, b.real), same_text(a.imag, b.imag))
    if not is_sym(a) and not is_sym(b):
        return str(a) == str(b)
    return a == b


class SymNumStr(Sym):
    """str(x) of a symbolic number: an uninterpreted injective rendering with
    float(str(x)) == x, int(str(x)) == x, complex(str(x)) == x"""
    __slots__ = ('src',)
    __hash__ = Sym.__hash__

    def __init__(self, src):
        self.src = src

    @property
    def __class__(self):
        return str

    def concrete(self, why='numstr'):
        return str(native(self.src, 'text of a number'))

    def __eq__(self, other):
        if type(other) is SymNumStr:
            if num_kind(self.src) == num_kind(other.src):
                return same_text(self.src, other.src)
            return self.concrete() == other.concrete()
        if isinstance(other, str):
            return self.concrete() == native(other)
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else z_not(r)

    def __bool__(self):
        return True

    def __len__(self):
        return len(self.concrete('len'))

    def __iter__(self):
        return iter(self.concrete('iter'))

    def __getitem__(self, idx):
        return self.concrete('getitem')[idx]

    def __contains__(self, x):
        return native(x) in self.concrete('contains')

    def __add__(self, other):
        return self.concrete('add') + other

    def __radd__(self, other):
        return other + self.concrete('add')

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__') or not hasattr(
                '', name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self.concrete('attribute %s' % name), name)


class LazyStr(SymNumStr):
    """Text produced by formatting symbolic values; the content is computed
    (by concretising the operands) only when something looks at it"""
    __slots__ = ('make', 'nz')
    __hash__ = Sym.__hash__

    def __init__(self, make, nz=False):
        self.src = None
        self.make = make
        self.nz = nz                     # known to be non-empty

    def concrete(self, why='formatted text'):
        return self.make()

    def __eq__(self, other):
        if isinstance(other, str):
            return self.concrete() == (other.concrete() if is_sym(other)
                                       else other)
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else z_not(r)

    def __bool__(self):
        return self.nz or len(self.concrete()) > 0

    def __add__(self, other):
        if not isstr(other):
            return NotImplemented
        return LazyStr(lambda: self.concrete() + native(other),
                       nonempty(self) or nonempty(other))

    def __radd__(self, other):
        if not isstr(other):
            return NotImplemented
        return LazyStr(lambda: native(other) + self.concrete(),
                       nonempty(self) or nonempty(other))


def nonempty(x):
    t = type(x)
    if t is LazyStr:
        return x.nz
    if t is SymNumStr:
        return True
    return isinstance(x, str) and t is not LazyStr and len(x) > 0


# ---------------------------------------------------------------- strings

def ch(c):
    """element (int code point or z3 expr) -> z3 Int"""
    return z3.IntVal(c) if isinstance(c, int) else c


def ch_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ch(a) == ch(b)


def ch_in(a, lo, hi):
    if isinstance(a, int):
        return lo <= a <= hi
    return z3.And(a >= lo, a <= hi)


def decide(expr):
    return expr if isinstance(expr, bool) else E().branch(expr)


def mkstr(chars):
    chars = tuple(chars)
    if all(isinstance(c, int) for c in chars):
        return ''.join(map(chr, chars))
    return SymStr(chars)


def chars_of(s):
    if type(s) is SymStr:
        return s.chars
    if type(s) in (SymNumStr, LazyStr):
        s = s.concrete('string op')
    return tuple(map(ord, s))


def isstr(x):
    return isinstance(x, str)


WS = [(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680),
      (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f),
      (0x3000, 0x3000)]


def ch_space(c):
    if isinstance(c, int):
        return chr(c).isspace()
    return z3.Or(*[z3.And(c >= a, c <= b) for a, b in WS])


def ch_ascii_or_fix(c, why):
    """The element itself if ASCII on this path, else a concrete code point"""
    if isinstance(c, int):
        return c
    if E().branch(c < 128):
        return c
    return E().concretise(c, why, 64, True).as_long()


class SymStr(Sym):
    __slots__ = ('chars',)
    __hash__ = Sym.__hash__

    def __init__(self, chars):
        self.chars = tuple(chars)

    @property
    def __class__(self):
        return str

    def concrete(self, why='str'):
        out = []
        for c in self.chars:
            if not isinstance(c, int):
                c = E().concretise(c, 'str: ' + why).as_long()
            out.append(chr(c))
        return ''.join(out)

    # basic protocol
    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        return len(self.chars) > 0

    def __iter__(self):
        for c in self.chars:
            yield mkstr((c,))

    def __getitem__(self, idx):
        if isinstance(idx, slice):
            idx = slice(*[None if v is None else int(native(v, 'slice'))
                          for v in (idx.start, idx.stop, idx.step)])
            return mkstr(self.chars[idx])
        return mkstr((self.chars[int(native(idx, 'index'))],))

    def __eq__(self, other):
        if not isstr(other):
            return NotImplemented
        if type(other) in (SymNumStr, LazyStr):
            return other == self.concrete('compare')
        oc = chars_of(other)
        if len(oc) != len(self.chars):
            return False
        return z_and(*[mkbool(ch_eq(a, b)) for a, b in zip(self.chars, oc)])

    def __ne__(self, other):
        r = self.__eq__(other)
        return r if r is NotImplemented else z_not(r)

    def _less(self, oc, strict):
        mine = self.chars
        for a, b in zip(mine, oc):
            if decide(ch_eq(a, b)):
                continue
            return mkbool(ch(a) < ch(b))
        return len(mine) < len(oc) if strict else len(mine) <= len(oc)

    def __lt__(self, other):
        return self._less(chars_of(other), True) if isstr(other) \
            else NotImplemented

    def __le__(self, other):
        return self._less(chars_of(other), False) if isstr(other) \
            else NotImplemented

    def __gt__(self, other):
        r = self.__le__(other)
        return r if r is NotImplemented else z_not(r)

    def __ge__(self, other):
        r = self.__lt__(other)
        return r if r is NotImplemented else z_not(r)

    def __add__(self, other):
        if not isstr(other):
            return NotImplemented
        return mkstr(self.chars + chars_of(other))

    def __radd__(self, other):
        if not isstr(other):
            return NotImplemented
        return mkstr(chars_of(other) + self.chars)

    def __mul__(self, n):
        return mkstr(self.chars * int(native(n)))

    __rmul__ = __mul__

    def __mod__(self, args):
        return self.concrete('% format') % args

    def __contains__(self, sub):
        if not isstr(sub):
            raise TypeError("'in <string>' requires string as left operand, "
                            "not %s" % type(sub).__name__)
        return bool(self._contains(chars_of(sub)))

    def _contains(self, sub):
        n, k = len(self.chars), len(sub)
        return z_or(*[
            z_and(*[mkbool(ch_eq(self.chars[i + j], sub[j]))
                    for j in range(k)])
            for i in range(n - k + 1)])

    # searching
    def _match_at(self, sub, i):
        if i < 0 or i + len(sub) > len(self.chars):
            return False
        for j, c in enumerate(sub):
            if not decide(ch_eq(self.chars[i + j], c)):
                return False
        return True

    def _bounds(self, start, end):
        n = len(self.chars)
        return slice(start, end).indices(n)[:2]

    def find(self, sub, start=None, end=None):
        sub = chars_of(sub)
        lo, hi = self._bounds(start, end)
        for i in range(lo, hi - len(sub) + 1):
            if self._match_at(sub, i):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        sub = chars_of(sub)
        lo, hi = self._bounds(start, end)
        for i in range(hi - len(sub), lo - 1, -1):
            if self._match_at(sub, i):
                return i
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, sub, *a):
        r = self.rfind(sub, *a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        sub = chars_of(sub)
        lo, hi = self._bounds(*(list(a) + [None, None])[:2])
        if not sub:
            return hi - lo + 1
        n, i = 0, lo
        while i + len(sub) <= hi:
            if self._match_at(sub, i):
                n += 1
                i += len(sub)
            else:
                i += 1
        return n

    def startswith(self, prefix, *a):
        if isinstance(prefix, tuple):
            return z_or(*[self.startswith(p, *a) for p in prefix])
        if a:
            lo, hi = self._bounds(*(list(a) + [None, None])[:2])
            return mkstr(self.chars[lo:hi]).startswith(prefix)
        p = chars_of(prefix)
        if len(p) > len(self.chars):
            return False
        return z_and(*[mkbool(ch_eq(x, y)) for x, y in zip(self.chars, p)])

    def endswith(self, suffix, *a):
        if isinstance(suffix, tuple):
            return z_or(*[self.endswith(p, *a) for p in suffix])
        if a:
            lo, hi = self._bounds(*(list(a) + [None, None])[:2])
            return mkstr(self.chars[lo:hi]).endswith(suffix)
        p = chars_of(suffix)
        if len(p) > len(self.chars):
            return False
        if not p:
            return True
        return z_and(*[mkbool(ch_eq(x, y))
                       for x, y in zip(self.chars[-len(p):], p)])

    # case
    def _case(self, up):
        out = []
        for c in self.chars:
            c = ch_ascii_or_fix(c, 'case of non-ASCII')
            if isinstance(c, int):
                out.extend(map(ord, chr(c).upper() if up
                               else chr(c).lower()))
            elif up:
                out.append(z3.If(z3.And(c >= 97, c <= 122), c - 32, c))
            else:
                out.append(z3.If(z3.And(c >= 65, c <= 90), c + 32, c))
        return mkstr(out)

    def upper(self):
        return self._case(True)

    def lower(self):
        return self._case(False)

    def casefold(self):
        return mkstr(sum((chars_of(mkstr((c,)).lower())
                          if not isinstance(c, int)
                          else tuple(map(ord, chr(c).casefold()))
                          for c in (ch_ascii_or_fix(c, 'casefold')
                                    for c in self.chars)), ()))

    def swapcase(self):
        return mkstr(sum((chars_of(x.upper() if x.islower() else x.lower())
                          for x in self), ()))

    def capitalize(self):
        return self[:1].upper() + self[1:].lower()

    def title(self):
        return self.concrete('title').title()

    # stripping
    def _strip_pred(self, chars):
        if chars is None:
            return ch_space
        cs = chars_of(chars)

        def pred(c):
            eqs = [ch_eq(c, x) for x in cs]
            if any(e is True for e in eqs):
                return True
            eqs = [e for e in eqs if e is not False]
            return z3.Or(*eqs) if eqs else False
        return pred

    def lstrip(self, chars=None):
        pred = self._strip_pred(chars)
        i = 0
        while i < len(self.chars) and decide(pred(self.chars[i])):
            i += 1
        return mkstr(self.chars[i:])

    def rstrip(self, chars=None):
        pred = self._strip_pred(chars)
        i = len(self.chars)
        while i > 0 and decide(pred(self.chars[i - 1])):
            i -= 1
        return mkstr(self.chars[:i])

    def strip(self, chars=None):
        left = self.lstrip(chars)
        return left.rstrip(chars)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    # splitting
    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            out, cur = [], []
            i, n = 0, len(self.chars)
            while i < n:
                while i < n and decide(ch_space(self.chars[i])):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(mkstr(self.chars[i:]).rstrip())
                    return out
                j = i
                while j < n and not decide(ch_space(self.chars[j])):
                    j += 1
                out.append(mkstr(self.chars[i:j]))
                i = j
            return out
        sub = chars_of(sep)
        if not sub:
            raise ValueError('empty separator')
        out, last, i = [], 0, 0
        while i + len(sub) <= len(self.chars):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            if self._match_at(sub, i):
                out.append(mkstr(self.chars[last:i]))
                i += len(sub)
                last = i
            else:
                i += 1
        out.append(mkstr(self.chars[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.concrete('rsplit').rsplit(sep, maxsplit)
        sub = chars_of(sep)
        out, end, i = [], len(self.chars), len(self.chars) - len(sub)
        while i >= 0:
            if len(out) >= maxsplit:
                break
            if self._match_at(sub, i) and i + len(sub) <= end:
                out.append(mkstr(self.chars[i + len(sub):end]))
                end = i
                i -= len(sub)
            else:
                i -= 1
        out.append(mkstr(self.chars[:end]))
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, '', '')
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ('', '', self)
        return (self[:i], sep, self[i + len(sep):])

    def splitlines(self, keepends=False):
        return self.concrete('splitlines').splitlines(keepends)

    def replace(self, old, new, count=-1):
        old, new = chars_of(old), chars_of(new)
        if not old:
            return mkstr(map(ord, self.concrete('replace').replace(
                '', mkstr(new), count)))
        out, i, done = [], 0, 0
        while i < len(self.chars):
            if (count < 0 or done < count) and self._match_at(old, i):
                out.extend(new)
                i += len(old)
                done += 1
            else:
                out.append(self.chars[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        return self.concrete('translate').translate(table)

    def join(self, items):
        return join(self, items)

    def format(self, *args, **kwargs):
        return self.concrete('format').format(*args, **kwargs)

    def encode(self, *args, **kwargs):
        return self.concrete('encode').encode(*args, **kwargs)

    def zfill(self, width):
        pad = width - len(self)
        if pad <= 0:
            return self
        if self[:1] == '+' or self[:1] == '-':
            return self[:1] + '0' * pad + self[1:]
        return '0' * pad + self

    def ljust(self, width, fill=' '):
        return self + fill * max(0, width - len(self))

    def rjust(self, width, fill=' '):
        return fill * max(0, width - len(self)) + self

    def center(self, width, fill=' '):
        pad = max(0, width - len(self))
        left = pad // 2 + (pad & width & 1)
        return fill * left + self + fill * (pad - left)

    def expandtabs(self, tabsize=8):
        return self.concrete('expandtabs').expandtabs(tabsize)

    # classes
    def _all(self, pred):
        if not self.chars:
            return False
        return z_and(*[mkbool(pred(c)) for c in self.chars])

    def _fixed(self):
        return [ch_ascii_or_fix(c, 'class of non-ASCII') for c in self.chars]

    def _cls(self, name, *ranges):
        out = []
        for c in self._fixed():
            if isinstance(c, int):
                out.append(getattr(chr(c), name)())
            else:
                out.append(mkbool(z3.Or(*[z3.And(c >= a, c <= b)
                                          for a, b in ranges])))
        return z_and(*out) if out else False

    def isdigit(self):
        return self._cls('isdigit', (48, 57))

    def isdecimal(self):
        return self._cls('isdecimal', (48, 57))

    def isnumeric(self):
        return self._cls('isnumeric', (48, 57))

    def isalpha(self):
        return self._cls('isalpha', (65, 90), (97, 122))

    def isalnum(self):
        return self._cls('isalnum', (48, 57), (65, 90), (97, 122))

    def isspace(self):
        return self._cls('isspace', (9, 13), (28, 32))

    def isprintable(self):
        return self._cls('isprintable', (32, 126)) if self.chars else True

    def isascii(self):
        return z_and(*[mkbool(ch(c) < 128) for c in self.chars])

    def isupper(self):
        cased = [z3.And(ch(c) >= 65, ch(c) <= 90) for c in self._fixed()]
        low = [z3.And(ch(c) >= 97, ch(c) <= 122) for c in self._fixed()]
        return z_and(z_or(*[mkbool(x) for x in cased]),
                     *[z_not(mkbool(x)) for x in low])

    def islower(self):
        cased = [z3.And(ch(c) >= 97, ch(c) <= 122) for c in self._fixed()]
        up = [z3.And(ch(c) >= 65, ch(c) <= 90) for c in self._fixed()]
        return z_and(z_or(*[mkbool(x) for x in cased]),
                     *[z_not(mkbool(x)) for x in up])

    def isidentifier(self):
        return self.concrete('isidentifier').isidentifier()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if not hasattr('', name):
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self.concrete('attribute %s' % name), name)


def join(sep, items):
    items = list(items)
    out = []
    sep_c = chars_of(sep)
    for i, it in enumerate(items):
        if not isstr(it):
            raise TypeError('sequence item %d: expected str instance, '
                            '%s found' % (i, type(it).__name__))
        if i:
            out.extend(sep_c)
        if type(it) in (SymNumStr, LazyStr):
            return LazyStr(lambda: native(sep).join(
                native(x) for x in items), any(nonempty(x) for x in items))
        out.extend(chars_of(it))
    return mkstr(out)


# ------------------------------------------------- parsing numbers from text

def parse_int(s, base=10):
    """int(text, base) for a symbolic string -> int or SymInt; ValueError"""
    if type(s) is LazyStr:
        return int(s.concrete(), base)
    if type(s) is SymNumStr:
        if base == 10 and num_kind(s.src) == 'i':
            return s.src
        return int(s.concrete('int(text)'), base)
    err = ValueError('invalid literal for int() with base %d: <sym>' % base)
    s = s.strip()
    if not is_sym(s):
        return int(s, base)
    if base not in (10, 16, 8, 2):
        return int(s.concrete('int() base'), base)
    cs = list(s.chars)
    neg = False
    if cs and decide(ch_eq(cs[0], 45)):
        neg = True
        cs = cs[1:]
    elif cs and decide(ch_eq(cs[0], 43)):
        cs = cs[1:]
    prefixed = False
    if base != 10 and len(cs) >= 2 and decide(ch_eq(cs[0], 48)):
        letter = {16: 'xX', 8: 'oO', 2: 'bB'}[base]
        c = cs[1]
        if any(decide(ch_eq(c, ord(x))) for x in letter):
            cs = cs[2:]
            prefixed = True
    if not cs:
        raise err
    value = z3.IntVal(0)
    prev_us = not prefixed
    for i, c in enumerate(cs):
        if decide(ch_eq(c, 95)):
            if prev_us:
                raise err
            prev_us = True
            continue
        prev_us = False
        c = ch_ascii_or_fix(c, 'int(non-ASCII)')
        if isinstance(c, int):
            try:
                d = z3.IntVal(int(chr(c), base))
            except ValueError:
                raise err
        elif decide(ch_in(c, 48, 47 + min(base, 10))):
            d = c - 48
        elif base == 16 and decide(ch_in(c, 97, 102)):
            d = c - 87
        elif base == 16 and decide(ch_in(c, 65, 70)):
            d = c - 55
        else:
            raise err
        value = value * base + d
    if prev_us:
        raise err
    value = -value if neg else value
    simple = E().simp(value)
    if z3.is_int_value(simple):
        return simple.as_long()
    return SymInt(value)


def parse_float(s):
    """float(text) for a symbolic string (plain decimal notation is symbolic,
    everything else is concretised)"""
    if type(s) is LazyStr:
        return float(s.concrete())
    if type(s) is SymNumStr:
        k = num_kind(s.src)
        if k == 'f':
            return s.src
        if k == 'i':
            return int_to_float(s.src) if is_sym(s.src) else float(s.src)
        if k == 'c':
            raise ValueError('could not convert string to float: <sym>')
        return float(s.concrete('float(text)'))
    s = s.strip()
    if not is_sym(s):
        return float(s)
    err = ValueError('could not convert string to float: <sym>')
    cs = list(s.chars)
    body = cs[1:] if cs and (decide(ch_eq(cs[0], 45)) or
                             decide(ch_eq(cs[0], 43))) else cs
    if not body:
        raise err
    digits = [decide(ch_in(c, 48, 57)) for c in body]
    if all(digits):
        v = parse_int(s)
        return int_to_float(v) if is_sym(v) else float(v)
    # decide what matters for validity (which characters, not which digits)
    word = mkstr(body).lower() if not any(digits) else None
    if word is not None:
        for w in ('nan', 'inf', 'infinity'):
            if len(word) == len(w) and bool(word == w):
                return float(s.concrete('float(word)'))
    rep = []
    for c, d in zip(body, digits):
        if d:
            rep.append('1')
            continue
        c2 = ch_ascii_or_fix(c, 'float(non-ASCII)')
        if isinstance(c2, int):
            rep.append(chr(c2))
            continue
        for known in (46, 95, 101, 69, 43, 45):
            if decide(ch_eq(c2, known)):
                rep.append(chr(known))
                break
        else:
            raise err
    try:
        float(''.join(rep))
    except ValueError:
        raise err
    return float(s.concrete('float(exotic text)'))
