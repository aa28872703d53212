"""Model of numpy arrays (and of the vectormath classes built on them) whose
elements are symbolic numbers.

An array is a native index array into a buffer of elements, so that indexing,
reshaping, views and copies are numpy's own; only element arithmetic is
modelled.  Anything else is concretised (and counted) by the engine.
"""
from fractions import Fraction

import z3

from . import rt
from . import values as V
from .engine import Unsupported
from .values import (E, Sym, SymBool, SymComplex, SymFloat, SymInt, SymNumStr,
                     SymStr, is_sym,
                     mkbool, native, num_kind, rexpr, z_and, z_not, z_or)

import numpy as np

try:
    import vectormath as vmath
except ImportError:                                     # pragma: no cover
    vmath = None

KINDS = 'bifcUO'
DTYPES = {'U': np.dtype('U32'), 'O': np.dtype(object), 'b': np.dtype(bool), 'i': np.dtype(int), 'f': np.dtype(float),
          'c': np.dtype(complex)}


def elem_kind(x):
    t = type(x)
    if t in (bool, SymBool, np.bool_):
        return 'b'
    if t in (int, SymInt) or isinstance(x, np.signedinteger):
        return 'i'
    if t in (float, SymFloat) or isinstance(x, np.floating):
        return 'f'
    if t in (complex, SymComplex) or isinstance(x, np.complexfloating):
        return 'c'
    if t in (str, SymStr, SymNumStr):
        return 'U'
    return None


def plain(x):
    return x.item() if isinstance(x, np.generic) else x


def convert(x, kind):
    """An element as one of the given kind (astype)"""
    x = plain(x)
    if kind == 'O':
        return x
    if kind == 'U':
        return x if elem_kind(x) == 'U' else rt.s_str(x)
    if kind == 'c':
        return rt.s_complex(x) if is_sym(x) else complex(x)
    if kind == 'f':
        if elem_kind(x) == 'c':
            raise Unsupported('complex to float')
        return rt.s_float(x)
    if kind == 'i':
        if elem_kind(x) == 'f' and not is_sym(x) and (
                x != x or x in (float('inf'), float('-inf'))):
            raise Unsupported('nonfinite to int')
        return rt.s_int(x)
    if elem_kind(x) == 'f' and not is_sym(x):
        return bool(x)
    if type(x) is SymComplex:
        return z_or(x.real != 0, x.imag != 0)
    return rt.s_bool(x)


def ravel(idx):
    return [int(i) for i in idx.ravel()]


class SymArray(Sym):
    """numpy.ndarray (or a vector class) with symbolic elements"""
    __slots__ = ('cls', 'idx', 'buf', 'kind')
    __hash__ = None
    __array_ufunc__ = None

    def __init__(self, cls, idx, buf, kind):
        self.cls = cls
        self.idx = idx
        self.buf = buf
        self.kind = kind

    @property
    def __class__(self):
        return self.cls

    # -- shape and type
    @property
    def dtype(self):
        return DTYPES[self.kind]

    shape = property(lambda s: s.idx.shape)
    ndim = property(lambda s: s.idx.ndim)
    size = property(lambda s: s.idx.size)

    def __len__(self):
        return len(self.idx)

    def __bool__(self):
        if self.size != 1:
            if self.size:
                raise ValueError('The truth value of an array with more than '
                                 'one element is ambiguous. Use a.any() or '
                                 'a.all()')
            return False
        return bool(convert(self.elems()[0], 'b'))

    def elems(self):
        return [self.buf[i] for i in ravel(self.idx)]

    def concrete(self, why='array', limit=None, exact=False):
        """A native copy"""
        vals = [native(x, why) for x in self.elems()]
        arr = np.array(vals, dtype=self.dtype).reshape(self.shape)
        return arr if self.cls is np.ndarray else arr.view(self.cls)

    def new(self, elems, kind=None, shape=None, cls=None):
        shape = self.shape if shape is None else shape
        return make(list(elems), shape, kind or self.kind, cls or self.cls)

    def view(self, cls=None):
        if cls is None:
            cls = self.cls
        if not isinstance(cls, type) or not issubclass(cls, np.ndarray):
            return self.concrete('view').view(cls)
        check_shape(cls, self.shape)
        return SymArray(cls, self.idx, self.buf, self.kind)

    def copy(self, *a):
        return self.new(self.elems())

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        def nest(a):
            if a.ndim == 0:
                return plain(self.buf[int(a)])
            return [nest(x) for x in a]
        return nest(self.idx)

    def item(self, *a):
        if a:
            return plain(self.buf[int(self.idx.item(*a))])
        return plain(self.buf[self.idx.item()])

    def astype(self, typ, **k):
        kind = np.dtype(typ).kind
        if kind not in KINDS or np.dtype(typ) != DTYPES[kind] or k or \
                'c' in (self.kind,) and kind != 'c':
            return self.concrete('astype').astype(typ, **k)
        try:
            return self.new([convert(x, kind) for x in self.elems()], kind)
        except Unsupported:
            return self.concrete('astype').astype(typ)

    # -- indexing
    def _sub(self, idx):
        return SymArray(sub_class(self.cls, idx.shape), idx, self.buf,
                        self.kind)

    def __getitem__(self, key):
        key, copied = self._key(key)
        got = self.idx[key]
        if not isinstance(got, np.ndarray):
            return scalar(self.buf[int(got)])
        out = SymArray(np.ndarray, got, self.buf, self.kind)
        if vmath and issubclass(self.cls, vmath.vector.BaseVectorArray):
            if np.isscalar(key):
                out.cls = vmath.Vector3 if self.cls is vmath.Vector3Array \
                    else vmath.Vector2
            elif isinstance(key, slice):
                out.cls = self.cls
        elif self.cls is not np.ndarray:
            out.cls = self.cls
        return out.copy() if copied else out

    def _key(self, key):
        """(native key, is it advanced indexing)"""
        if isinstance(key, SymArray):
            if key.kind == 'b':
                key = np.array([bool(x) for x in key.elems()],
                               dtype=bool).reshape(key.shape)
            else:
                key = key.concrete('index')
        elif isinstance(key, tuple):
            return tuple(self._key(k)[0] for k in key), any(
                isinstance(k, (list, np.ndarray)) for k in key)
        elif isinstance(key, slice):
            key = slice(*[native(x, 'slice')
                          for x in (key.start, key.stop, key.step)])
        elif is_sym(key):
            key = native(key, 'index')
        return key, isinstance(key, (list, np.ndarray))

    def __setitem__(self, key, value):
        key, _ = self._key(key)
        got = self.idx[key]
        if not isinstance(got, np.ndarray):
            self.buf[int(got)] = convert(value, self.kind)
            return
        vals = np.broadcast_to(as_objects(value), got.shape)
        for i, v in zip(ravel(got), list(vals.ravel())):
            self.buf[i] = convert(v, self.kind)

    def __iter__(self):
        if not self.ndim:
            raise TypeError('iteration over a 0-d array')
        return iter([self[i] for i in range(len(self))])

    def __contains__(self, x):
        return bool(z_or(*[rt.eq(e, x) for e in self.elems()]))

    # -- shapes
    def reshape(self, *a, **k):
        return self._sub(self.idx.reshape(*a, **k))

    def ravel(self):
        return self._sub(self.idx.ravel())

    def flatten(self, *a):
        return self.ravel().copy()

    def squeeze(self, *a, **k):
        return self._sub(self.idx.squeeze(*a, **k))

    def transpose(self, *a):
        return self._sub(self.idx.transpose(*a))

    T = property(lambda s: s._sub(s.idx.T))

    # -- elements
    def all(self, *a, **k):
        if a or k:
            return self.concrete('all').all(*a, **k)
        return z_and(*[convert(x, 'b') for x in self.elems()])

    def any(self, *a, **k):
        if a or k:
            return self.concrete('any').any(*a, **k)
        return z_or(*[convert(x, 'b') for x in self.elems()])

    def nonzero(self):
        return np.array([bool(convert(x, 'b')) for x in self.elems()],
                        dtype=bool).reshape(self.shape).nonzero()

    def sum(self, *a, **k):
        if a or k or self.kind not in 'if' or self.size == 0:
            return self.concrete('sum').sum(*a, **k)
        total = 0
        for x in self.elems():
            total = total + x
        return total

    def _extreme(self, name, less, *a, **k):
        elems = list(self.elems())
        if a or k or self.kind not in 'if' or not elems or any(
                V.nonfinite(x) for x in elems):
            return getattr(self.concrete(name), name)(*a, **k)
        best = elems[0]
        for x in elems[1:]:
            if less(x, best):
                best = x
        return best

    def max(self, *a, **k):
        return self._extreme('max', lambda x, y: x > y, *a, **k)

    def min(self, *a, **k):
        return self._extreme('min', lambda x, y: x < y, *a, **k)

    def _bin(self, other, fn, kind=None):
        if isinstance(other, (list, tuple)):
            other = array(other)
        if not isinstance(other, np.ndarray) and elem_kind(other) is None:
            return NotImplemented
        a, b = np.broadcast_arrays(as_objects(self), as_objects(other))
        out = [fn(x, y) for x, y in zip(a.ravel(), b.ravel())]
        if kind is None:
            kind = top([elem_kind(x) for x in out] or [self.kind])
            out = [convert(x, kind) for x in out]
        return make(out, a.shape, kind, self.cls)

    def __add__(self, o):
        return self._bin(o, lambda x, y: plain(x) + plain(y))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda x, y: plain(x) - plain(y))

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: plain(y) - plain(x))

    def __mul__(self, o):
        return self._bin(o, lambda x, y: plain(x) * plain(y))

    __rmul__ = __mul__

    def __imul__(self, o):
        got = self._bin(o, lambda x, y: plain(x) * plain(y))
        self[...] = got
        return self

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: convert(x, 'f') / convert(y, 'f'))

    def __neg__(self):
        return self.new([-x for x in self.elems()])

    def __abs__(self):
        return self.new([abs(x) for x in self.elems()])

    def __invert__(self):
        if self.kind != 'b':
            return ~self.concrete('invert')
        return self.new([z_not(x) for x in self.elems()])

    def __and__(self, o):
        return self._bin(o, lambda x, y: z_and(plain(x), plain(y)), 'b')

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda x, y: z_or(plain(x), plain(y)), 'b')

    __ror__ = __or__

    def __eq__(self, o):
        return self._bin(o, lambda x, y: rt.eq(plain(x), plain(y)), 'b')

    def __ne__(self, o):
        return self._bin(o, lambda x, y: rt.ne(plain(x), plain(y)), 'b')

    def __lt__(self, o):
        return self._bin(o, lambda x, y: plain(x) < plain(y), 'b')

    def __le__(self, o):
        return self._bin(o, lambda x, y: plain(x) <= plain(y), 'b')

    def __gt__(self, o):
        return self._bin(o, lambda x, y: plain(x) > plain(y), 'b')

    def __ge__(self, o):
        return self._bin(o, lambda x, y: plain(x) >= plain(y), 'b')

    # -- vectors
    def _vector(self, name):
        if not vmath or not issubclass(self.cls, vmath.vector.BaseVector):
            raise AttributeError("'numpy.ndarray' object has no attribute "
                                 "'%s'" % name)
        return issubclass(self.cls, vmath.vector.BaseVectorArray)

    def _rows(self):
        return [self[i].view(np.ndarray).elems() for i in range(len(self))]

    @property
    def length(self):
        if not self._vector('length'):
            return norm(self.elems())
        return make([norm(r) for r in self._rows()], (len(self),), 'f')

    @length.setter
    def length(self, value):
        if not self._vector('length'):
            if isinstance(value, np.ndarray):
                raise ValueError('Length must be a scalar')
            value = convert(value, 'f')
            idx = ravel(self.idx)
            if not scale(self.buf, idx, value) and value != 0:
                raise ZeroDivisionError('Cannot resize vector of length 0 '
                                        'to nonzero length')
            return
        lens = [convert(x, 'f') for x in as_objects(value).ravel()]
        if len(lens) != len(self):
            raise ValueError('Length vector must be the same number of '
                             'elements as vector.')
        rows = [ravel(r) for r in self.idx]
        zero = [is_zero([self.buf[i] for i in r]) for r in rows]
        if any(zero):
            if not all(bool(v == 0) == z for v, z in zip(lens, zero)):
                raise ZeroDivisionError('Cannot resize vector of length 0 '
                                        'to nonzero length')
        for r, v, z in zip(rows, lens, zero):
            if not z:
                scale(self.buf, r, v)

    nV = property(lambda s: len(s) if s._vector('nV') else 0)
    x = property(lambda s: s._part('x', 0))
    y = property(lambda s: s._part('y', 1))
    z = property(lambda s: s._part('z', 2))

    def _part(self, name, i):
        if self._vector(name):
            return self[:, i]
        return self[i]


def scalar(x):
    return plain(x)


def check_shape(cls, shape):
    if vmath is None or cls is np.ndarray:
        return
    for c, want in ((vmath.Vector3, (3,)), (vmath.Vector2, (2,))):
        if issubclass(cls, c) and shape != want:
            raise ValueError('Invalid array to view as vector')
    for c, n in ((vmath.Vector3Array, 3), (vmath.Vector2Array, 2)):
        if issubclass(cls, c) and (len(shape) != 2 or shape[1] != n):
            raise ValueError('Invalid array to view as vector array')


def sub_class(cls, shape):
    try:
        check_shape(cls, shape)
    except ValueError:
        return np.ndarray
    return cls


def make(elems, shape, kind, cls=np.ndarray):
    n = len(elems)
    cls = sub_class(cls, tuple(shape))
    if not any(is_sym(x) for x in elems):
        arr = np.empty(n, dtype=DTYPES[kind])
        arr[:] = elems
        arr = arr.reshape(shape)
        return arr if cls is np.ndarray else arr.view(cls)
    return SymArray(cls, np.arange(n).reshape(shape), elems, kind)


def as_objects(x):
    """Elements as a native object array"""
    if isinstance(x, SymArray):
        out = np.empty(x.size, dtype=object)
        for i, v in enumerate(x.elems()):
            out[i] = v
        return out.reshape(x.shape)
    if type(x) is not SymArray and isinstance(x, np.ndarray):
        return np.asarray(x).astype(object)
    if isinstance(x, (list, tuple)):
        return as_objects(array(x))
    out = np.empty((), dtype=object)
    out[()] = x
    return out


def top(kinds):
    return max(kinds, key=KINDS.index)


def norm(elems):
    """Euclidean length (a real number, not rounded)"""
    if not any(is_sym(x) for x in elems):
        return float(np.sqrt(np.sum(np.array(elems, dtype=float) ** 2)))
    if any(V.nonfinite(x) for x in elems):
        return float(np.sqrt(np.sum(np.array(
            [native(x, 'length') for x in elems], dtype=float) ** 2)))
    if is_zero(elems):
        return 0.0
    s = E().fresh_real('norm')
    E().assume(z3.And(s > 0, s * s == z3.Sum(
        [rexpr(x) * rexpr(x) for x in elems])))
    return SymFloat(s, V.APPROX, V.WIDE)


def is_zero(elems):
    if any(V.nonfinite(x) for x in elems):
        return False
    return bool(z_and(*[rt.eq(x, 0) for x in elems]))


def scale(buf, idx, value):
    """Resize one vector; False when it has no direction"""
    elems = [buf[i] for i in idx]
    if is_zero(elems):
        return False
    if not is_sym(value) and not any(is_sym(x) for x in elems) or any(
            V.nonfinite(x) for x in elems + [value]):
        vec = np.array([native(x, 'length') for x in elems], dtype=float)
        vec *= float(native(value, 'length')) / float(
            np.sqrt(np.sum(vec ** 2)))
        for i, v in zip(idx, vec):
            buf[i] = float(v)
        return True
    t, length = E().fresh_real('scale'), rexpr(value)
    es = [rexpr(x) for x in elems]
    E().assume(z3.And(t * t * z3.Sum([x * x for x in es]) == length * length,
                      t * length >= 0, z3.Implies(t == 0, length == 0)))
    for i, x in zip(idx, elems):
        if is_sym(x) or x != 0:
            buf[i] = SymFloat(rexpr(x) * t, V.APPROX, V.WIDE)
    return True


# ------------------------------------------------------------ functions

def shape_of(x):
    """Shape of nested input, elements appended to out"""
    if isinstance(x, SymArray):
        return x.shape, [plain(e) for e in x.elems()]
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in KINDS:
            raise Unsupported('dtype')
        return x.shape, [e.item() for e in x.ravel()]
    if isinstance(x, (list, tuple)):
        subs = [shape_of(e) for e in x]
        if not subs:
            return (0,), []
        if any(s[0] != subs[0][0] for s in subs):
            raise ValueError('setting an array element with a sequence. The '
                             'requested array has an inhomogeneous shape')
        out = []
        for s in subs:
            out.extend(s[1])
        return (len(subs),) + subs[0][0], out
    return (), [x]


def array(x, *a, **k):
    """np.array of nested input with symbolic elements"""
    if a or [n for n in k if n != 'copy'] or k.get('copy', True) is not True:
        return np.array(rt.deep_native(x, 'np.array'), *a, **k)
    if not rt.deep_sym(x, 9):
        return np.array(x, **k)
    try:
        shape, elems = shape_of(x)
    except Unsupported:
        return np.array(rt.deep_native(x, 'np.array'))
    kind = top([elem_kind(e) or 'O' for e in elems]) if elems else 'f'
    if kind == 'i':
        lim = 1 << 63
        for e in elems:
            if is_sym(e) and not bool(z_and(e >= -lim, e < lim)):
                return np.array(rt.deep_native(x, 'np.array'))
            if not is_sym(e) and not -lim <= e < lim:
                return np.array(rt.deep_native(x, 'np.array'))
    return make([convert(e, kind) for e in elems], shape, kind)


def asarray(x, *a, **k):
    if isinstance(x, SymArray) and not a and not k:
        return x.view(np.ndarray)
    return array(x, *a, **k)


def unary(fn, native_fn):
    def call(x, *a, **k):
        if a or k:
            return native_fn(rt.deep_native(x, native_fn.__name__), *a, **k)
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, SymArray):
            return x.new([fn(e) for e in x.elems()], 'b')
        if is_sym(x) and elem_kind(x):
            return fn(x)
        return native_fn(native(x, native_fn.__name__))
    return call


def test_nonfinite(fn):
    def one(x):
        if type(x) is SymComplex:
            return fn(x.real) or fn(x.imag) if fn is not np.isfinite else \
                fn(x.real) and fn(x.imag)
        if is_sym(x):
            return fn is np.isfinite
        return bool(fn(x))

    def part(x):
        if type(x) is SymComplex:
            parts = [one(x.real), one(x.imag)]
            return all(parts) if fn is np.isfinite else any(parts)
        return one(x)
    return part


def array_equal(a, b, *r, **k):
    if r or k:
        return np.array_equal(native_(a), native_(b), *r, **k)
    a, b = array(a), array(b)
    if a.shape != b.shape:
        return False
    return z_and(*[rt.eq(plain(x), plain(y)) for x, y in zip(
        as_objects(a).ravel(), as_objects(b).ravel())])


def native_(x):
    return rt.deep_native(x, 'numpy')


def close(x, y, rtol, atol):
    x, y = plain(x), plain(y)
    if not is_sym(x) and not is_sym(y):
        return bool(np.isclose(x, y, rtol=rtol, atol=atol))
    if SymComplex in (type(x), type(y)) or complex in (type(x), type(y)):
        parts = [x.real - y.real, x.imag - y.imag, y.real, y.imag]
        if any(V.nonfinite(v) for v in parts):
            return rt.eq(x, y)
        if rt.eq(x, y):
            return True
        d, mag = norm(parts[:2]), norm(parts[2:])
        return d <= atol + rtol * mag
    if V.nonfinite(x) or V.nonfinite(y):
        return False
    ex, ey = rexpr(x), rexpr(y)
    d = z3.If(ex >= ey, ex - ey, ey - ex)
    mag = z3.If(ey >= 0, ey, -ey)
    q = lambda v: z3.Q(Fraction(v).numerator, Fraction(v).denominator)
    return mkbool(d <= q(atol) + q(rtol) * mag)


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if k or is_sym(rtol) or is_sym(atol):
        return np.allclose(native_(a), native_(b), native_(rtol),
                           native_(atol), **k)
    x, y = np.broadcast_arrays(as_objects(a), as_objects(b))
    return z_and(*[close(p, q, rtol, atol)
                   for p, q in zip(x.ravel(), y.ravel())])


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if k or is_sym(rtol) or is_sym(atol):
        return np.isclose(native_(a), native_(b), native_(rtol),
                          native_(atol), **k)
    x, y = np.broadcast_arrays(as_objects(a), as_objects(b))
    return make([close(p, q, rtol, atol)
                 for p, q in zip(x.ravel(), y.ravel())], x.shape, 'b')


def via(name):
    fn = getattr(np, name)

    def call(x, *a, **k):
        if isinstance(x, (list, tuple)):
            x = array(x)
        if isinstance(x, SymArray):
            return getattr(x, name)(*a, **k)
        if is_sym(x):
            return convert(x, 'b')
        return fn(native_(x), *a, **k)
    return call


def shape(x):
    return array(x).shape


def isscalar(x):
    return not isinstance(x, SymArray)


def atleast_2d(x):
    x = array(x) if not isinstance(x, SymArray) else x
    return x if x.ndim >= 2 else x.reshape((1, -1))


def atleast_1d(*xs):
    if len(xs) != 1:
        return np.atleast_1d(*[native_(x) for x in xs])
    x = xs[0]
    if is_sym(x) and not isinstance(x, SymArray):
        return make([x], (1,), elem_kind(x)) if elem_kind(x) \
            else np.atleast_1d(native_(x))
    x = array(x) if not isinstance(x, SymArray) else x
    return x if x.ndim >= 1 else x.reshape((1,))


def linalg_norm(x, *a, **k):
    axis = k.get('axis')
    if isinstance(x, (list, tuple)):
        x = array(x)
    if not isinstance(x, SymArray) or a or set(k) - {'axis'} or \
            x.kind not in 'if':
        return np.linalg.norm(native_(x), *a, **k)
    if axis is None and x.ndim in (1, 2):
        return norm([plain(e) for e in x.elems()])
    if x.ndim == 2 and axis in (1, -1):
        return make([norm([plain(e) for e in x[i].elems()])
                     for i in range(x.shape[0])], (x.shape[0],), 'f')
    return np.linalg.norm(native_(x), *a, **k)


def magnitude(x, *a, **k):
    if isinstance(x, (list, tuple)):
        x = array(x)
    if a or k or not is_sym(x):
        return np.abs(native_(x), *a, **k)
    return abs(x)


def square_root(x, *a, **k):
    def one(v):
        if not is_sym(v) or v < 0:
            return float(np.sqrt(native_(v)))
        s = E().fresh_real('root')
        E().assume(z3.And(s >= 0, s * s == rexpr(v)))
        return SymFloat(s, V.APPROX, V.WIDE)
    if isinstance(x, (list, tuple)):
        x = array(x)
    if a or k or not is_sym(x):
        return np.sqrt(native_(x), *a, **k)
    if isinstance(x, SymArray):
        if x.kind not in 'if':
            return np.sqrt(native_(x))
        return x.new([one(e) for e in x.elems()], 'f')
    return one(x) if elem_kind(x) in ('i', 'f') else np.sqrt(native_(x))


def vector(cls, n):
    """Vector2 / Vector3"""
    def new(x=None, *rest, **k):
        if k:
            return cls(*[native_(v) for v in (x,) + rest], **k)
        if not rest and isinstance(x, (list, tuple, np.ndarray)):
            if len(x) != n:
                raise ValueError('Invalid input for %s' % cls.__name__)
            parts = [x[i] for i in range(n)]
        else:
            parts = [x] + list(rest)
            if len(parts) != n:
                raise ValueError('Invalid input for %s' % cls.__name__)
        parts = [plain(v) for v in parts]
        if any(isinstance(v, (np.ndarray, list, tuple)) or v is None
               for v in parts):
            raise ValueError('Invalid input for %s' % cls.__name__)
        if any(elem_kind(v) in (None, 'c', 'U') for v in parts):
            return cls(*[native_(v) for v in parts])
        return make([convert(v, 'f') for v in parts], (n,), 'f', cls)
    return new


def vector_array(cls, n):
    """Vector2Array / Vector3Array"""
    def new(x=None, *rest, **k):
        if rest or k or not isinstance(x, (list, tuple, np.ndarray)):
            return cls(*[native_(v) for v in (x,) + rest], **k)
        arr = array(x)
        if not isinstance(arr, SymArray):
            return cls(arr)
        if arr.kind == 'c':
            return cls(native_(arr))
        arr = arr.view(np.ndarray).squeeze()
        if arr.size == n:
            arr = arr.flatten().reshape((1, n))
        elif arr.ndim != 2 or arr.shape[1] != n:
            raise ValueError('Unexpected shape for vector init: {shp}'.format(
                shp=arr.shape))
        return arr.new([convert(v, 'f') for v in arr.elems()], 'f', cls=cls)
    return new


def array_op(op, a, b):
    """Arithmetic of a native array and a symbolic number"""
    for x in (a, b):
        if isinstance(x, np.ndarray) and not is_sym(x):
            if x.dtype.kind not in 'bif':
                return None
            arr = SymArray(type(x), np.arange(x.size).reshape(x.shape),
                           [e.item() for e in x.ravel()],
                           'i' if x.dtype.kind == 'u' else x.dtype.kind)
            return V._OPS[op](arr, b) if x is a else V._OPS[op](a, arr)
    return None


def install():
    V.ARRAY_OP = array_op
    for fn, h in [
            (np.array, array), (np.asarray, asarray),
            (np.isnan, unary(test_nonfinite(np.isnan), np.isnan)),
            (np.isinf, unary(test_nonfinite(np.isinf), np.isinf)),
            (np.isfinite, unary(test_nonfinite(np.isfinite), np.isfinite)),
            (np.array_equal, array_equal), (np.allclose, allclose),
            (np.isclose, isclose), (np.all, via('all')), (np.any, via('any')),
            (np.shape, shape), (np.isscalar, isscalar),
            (np.squeeze, via('squeeze')), (np.ravel, via('ravel')),
            (np.copy, via('copy')), (np.atleast_2d, atleast_2d),
            (np.atleast_1d, atleast_1d), (np.linalg.norm, linalg_norm),
            (np.abs, magnitude), (np.sqrt, square_root),
            (np.sum, via('sum')), (np.max, via('max')), (np.min, via('min')),
    ]:
        rt.NUMPY[id(fn)] = (fn, h)
    if vmath:
        for c, h in [(vmath.Vector3, vector(vmath.Vector3, 3)),
                     (vmath.Vector2, vector(vmath.Vector2, 2)),
                     (vmath.Vector3Array, vector_array(vmath.Vector3Array, 3)),
                     (vmath.Vector2Array, vector_array(vmath.Vector2Array,
                                                       2))]:
            rt.NUMPY[id(c)] = (c, h)


install()
