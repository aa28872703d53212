"""Runtime the instrumented code calls into.

The AST instrumentation routes calls, subscripts and identity/membership/
equality tests through these functions; they behave exactly like the plain
operation when no symbolic value is involved.
"""
import builtins
import copy as _copy
import functools
import json
import math
import operator
import random
import re
import string
import sys
import types
import uuid
import warnings
from collections import OrderedDict

import z3

from . import engine as eng
from . import regex as _regex
from . import values as V
from .engine import Unsupported
from .values import (
    E, LazyStr, OpaqueStr, Sym, SymBool, SymComplex, SymFloat, SymInt,
    SymNumStr, SymStr, bexpr, decide, iexpr, is_sym, mkbool, mkstr, native, num_kind, z_not,
)

INSTRUMENTED = set()          # names of instrumented modules
BUILTIN_FN = types.BuiltinFunctionType
METHOD_DESC = (types.MethodDescriptorType, types.WrapperDescriptorType)
METHOD_WRAP = types.MethodWrapperType


def active():
    return eng.ENGINE is not None


# ---------------------------------------------------------------- lifting

def sym_key(x):
    """Is x symbolic, or a tuple/frozenset with something symbolic inside"""
    if is_sym(x):
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(sym_key(v) for v in x)
    return False


def keyed(x):
    return isinstance(x, (set, frozenset, dict)) and not is_sym(x)


def has_sym(x):
    """Does a set/dict hold symbolic keys"""
    for k in x:
        if sym_key(k):
            return True
    return False


def lift(x):
    """Proxy with the common hash for a native scalar"""
    t = type(x)
    if t is str:
        return SymStr(tuple(map(ord, x)))
    if t is bool:
        return SymBool(z3.BoolVal(x))
    if t is int:
        return SymInt(z3.IntVal(x))
    if t is float:
        if math.isinf(x) or math.isnan(x):
            return x
        q, m = V.lat(x)
        return SymFloat(V.rexpr(x), q, m)
    if t is complex:
        return SymComplex(lift(x.real), lift(x.imag))
    if isinstance(x, tuple) and not is_sym(x):
        new = [lift(v) for v in x]
        if t is tuple:
            return tuple(new)
        if hasattr(t, '_make'):
            return t._make(new)
        return x
    if t is frozenset:
        return frozenset(lift(v) for v in x)
    return x


def lift_inplace(c):
    if isinstance(c, set):
        items = [lift(v) for v in set.__iter__(c)]
        set.clear(c)
        for v in items:
            set.add(c, v)
    elif isinstance(c, OrderedDict):
        items = [(lift(k), v) for k, v in c.items()]
        OrderedDict.clear(c)
        for k, v in items:
            OrderedDict.__setitem__(c, k, v)
    elif isinstance(c, dict):
        items = [(lift(k), v) for k, v in dict.items(c)]
        dict.clear(c)
        for k, v in items:
            dict.__setitem__(c, k, v)


def lifted_copy(c):
    """Plain container of the same kind with lifted members"""
    if isinstance(c, frozenset):
        return frozenset([lift(v) for v in c])
    if isinstance(c, set):
        return set([lift(v) for v in c])
    if isinstance(c, dict):
        return dict([(lift(k), v) for k, v in dict.items(c)])
    return c


def find_key(d, key):
    """The native key of d equal to a symbolic key, or MISSING (forks)"""
    for k in list(d):
        r = key_eq(k, key)
        if r is True or (r is not False and bool(r)):
            return k
    return MISSING


def key_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return V.z_and(*[key_eq(x, y) for x, y in zip(a, b)])
    r = a == b
    return r


class _Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


def prep_key(d, key):
    """Key object to use for a native lookup of ``key`` in dict/set d"""
    if has_sym(d):
        return lift(key)
    if sym_key(key):
        found = find_key(d, key)
        return found
    return key


# ---------------------------------------------------------------- operators

def is_(a, b):
    if is_sym(a) or is_sym(b):
        if a is b:
            return True
        ta, tb = a.__class__, b.__class__
        if ta is bool and tb is bool:
            return a == b
        return False
    return a is b


def is_not(a, b):
    return z_not(is_(a, b))


def contains(a, c):
    if not active():
        return a in c
    if isinstance(c, (dict, set, frozenset)) and not is_sym(c):
        if (type(c).__contains__ in NATIVE_CONTAINS) and (
                sym_key(a) or has_sym(c)):
            key = prep_key(c, a)
            return key is not MISSING and key in c
        return a in c
    if isinstance(c, DICT_VIEWS):
        m = c.mapping
        if isinstance(c, type({}.keys())):
            return contains(a, m)
        return a in list(c)
    if isinstance(c, str) and not is_sym(c) and is_sym(a):
        if not isinstance(a, str):
            return a in c
        return bool(SymStr(tuple(map(ord, c)))._contains(V.chars_of(a)))
    if isinstance(c, range) and is_sym(a) and num_kind(a) == 'i':
        lo, hi, st = c.start, c.stop, c.step
        if st == 1:
            return V.z_and(a >= lo, a < hi)
        return any(bool(a == v) for v in c)
    return a in c


NATIVE_CONTAINS = {dict.__contains__, set.__contains__,
                   frozenset.__contains__, OrderedDict.__contains__}
DICT_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))


def not_contains(a, c):
    return z_not(contains(a, c))


def deep_eq(a, b):
    """a == b where sets/dicts with symbolic members may be involved"""
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) \
            and not is_sym(a) and not is_sym(b):
        if has_sym(a) or has_sym(b):
            return lifted_copy(a) == lifted_copy(b)
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        if type(a).__eq__ in (dict.__eq__, OrderedDict.__eq__) and \
                type(b).__eq__ in (dict.__eq__, OrderedDict.__eq__):
            if len(a) != len(b):
                return False
            if isinstance(a, OrderedDict) and isinstance(b, OrderedDict):
                return deep_eq(list(a.items()), list(b.items()))
            for k in list(a):
                kb = prep_key(b, k)
                if kb is MISSING or kb not in b:
                    return False
                ka = prep_key(a, k)
                if not deep_eq(dict.__getitem__(a, ka),
                               dict.__getitem__(b, kb)):
                    return False
            return True
        return a == b
    for t in (list, tuple):
        if type(a) is t and type(b) is t:
            if len(a) != len(b):
                return False
            for x, y in zip(a, b):
                if x is not y and not deep_eq(x, y):
                    return False
            return True
    return a == b


def eq(a, b):
    if not active():
        return a == b
    if isinstance(a, (set, frozenset, dict, list, tuple)) and not is_sym(a):
        return deep_eq(a, b)
    return a == b


def ne(a, b):
    if not active():
        return a != b
    if isinstance(a, (set, frozenset, dict, list, tuple)) and not is_sym(a) \
            and type(a).__ne__ in NATIVE_NE:
        return z_not(deep_eq(a, b))
    return a != b


NATIVE_NE = {t.__ne__ for t in (set, frozenset, dict, list, tuple,
                                OrderedDict)}


def getitem(x, i):
    if not active():
        return x[i]
    if isinstance(x, dict):
        if sym_key(i) or has_sym(x):
            key = prep_key(x, i)
            if key is MISSING:
                if hasattr(type(x), '__missing__'):
                    return x[i]
                raise KeyError(i)
            return x[key]
        return x[i]
    if is_sym(i) and isinstance(x, (list, tuple, str)) and not is_sym(x):
        if not isinstance(x, str) and len(x) > 4 and isinstance(i, int) and \
                all(type(v) in (int, SymInt) for v in x):
            if bool(i >= 0) and bool(i < len(x)):
                out = V.iexpr(x[-1])
                for n in range(len(x) - 2, -1, -1):
                    out = z3.If(i.e == n, V.iexpr(x[n]), out)
                return SymInt(out)
        return x[seq_index(len(x), i)]
    if type(i) is slice and isinstance(x, (list, tuple, str)):
        return x[nslice(i)]
    return x[i]


def seq_index(n, i):
    """Exact concrete index for a symbolic one (forks over the range)"""
    if not isinstance(i, int):
        raise TypeError('indices must be integers')
    for k in range(-n, n):
        if bool(i == k):
            return k
    return n


def nslice(s):
    if any(is_sym(v) for v in (s.start, s.stop, s.step)):
        return slice(*[native(v, 'slice') for v in (s.start, s.stop,
                                                    s.step)])
    return s


def setitem(x, i, v):
    if active():
        if isinstance(x, dict):
            i = store_key(x, i)
        elif isinstance(x, list) and is_sym(i):
            i = seq_index(len(x), i)
    x[i] = v


def setitem_v(v, x, i):
    setitem(x, i, v)


slice_ = slice


def store_key(d, key):
    """Key to store under in a dict; lifts the dict when it has to"""
    if has_sym(d):
        if not all_lifted(d):
            lift_inplace(d)
        return lift(key)
    if not sym_key(key):
        return key
    found = find_key(d, key)
    if found is not MISSING:
        return found
    lift_inplace(d)
    return lift(key)


def all_lifted(c):
    for k in c:
        if not is_sym(k) and lift(k) is not k:
            return False
    return True


def delitem(x, i):
    if active():
        if isinstance(x, dict):
            if sym_key(i) or has_sym(x):
                k = prep_key(x, i)
                if k is MISSING:
                    raise KeyError(i)
                i = k
        elif isinstance(x, list) and is_sym(i):
            i = seq_index(len(x), i)
    del x[i]


SETOPS = {'|': operator.or_, '&': operator.and_, '-': operator.sub,
          '^': operator.xor}
ISETOPS = {'|': operator.ior, '&': operator.iand, '-': operator.isub,
           '^': operator.ixor}


def binop(op, a, b):
    if active() and keyed(a) and keyed(b) and (has_sym(a) or has_sym(b)):
        if not has_sym(a):
            if isinstance(a, frozenset):
                a = lifted_copy(a)
            else:
                lift_inplace(a)
        b = lifted_copy(b) if not has_sym(b) else b
    return SETOPS[op](a, b)


def iop(op, a, b):
    if op == '%':
        return mod(a, b)
    if active() and keyed(a) and keyed(b) and (has_sym(a) or has_sym(b)):
        if isinstance(a, frozenset):
            a = lifted_copy(a)
        else:
            lift_inplace(a)
        b = lifted_copy(b)
    return ISETOPS[op](a, b)


def aug_attr(obj, name, op, thunk):
    v = getattr(obj, name)
    setattr(obj, name, iop(op, v, thunk()))


def aug_item(obj, idx, op, thunk):
    v = getitem(obj, idx)
    setitem(obj, idx, iop(op, v, thunk()))


def kw(mapping):
    """``**mapping`` in a call: text keys must be native"""
    if not active() or not isinstance(mapping, dict):
        return mapping
    if any(is_sym(k) for k in mapping):
        out = {}
        for k, v in mapping.items():
            if is_sym(k):
                if not isinstance(k, str):
                    raise TypeError('keywords must be strings')
                k = k.concrete('keyword name')
            out[k] = v
        return out
    return mapping


def mkset(items):
    return s_set(set, list(items))


def mkdict(pairs):
    out = {}
    for k, v in pairs:
        setitem(out, k, v)
    return out


def fjoin(*parts):
    return _cat(parts)


def _cat(parts):
    if any(type(p) in (SymNumStr, LazyStr) for p in parts):
        parts = list(parts)
        return LazyStr(lambda: ''.join(native(p) for p in parts),
                       any(V.nonempty(p) for p in parts))
    if any(is_sym(p) for p in parts):
        out = []
        for p in parts:
            out.extend(V.chars_of(p))
        return mkstr(out)
    return ''.join(parts)


def fval(value, conv, spec):
    """One replacement field of an f-string / str.format"""
    if is_sym(value):
        if conv == 'r' or conv == 'a':
            return OpaqueStr('<sym>')
        spec_n = native(spec)
        if type(value) in (SymStr, SymNumStr, LazyStr):
            if spec_n == '':
                return value
            pad = re.fullmatch(r'([<>]?)(\d+)s?', spec_n)
            if pad and type(value) is SymStr and pad.group(2)[0] != '0':
                chars = list(V.chars_of(value))
                fill = [ord(' ')] * max(0, int(pad.group(2)) - len(chars))
                return mkstr(fill + chars if pad.group(1) == '>'
                             else chars + fill)
            if pad and type(value) is SymNumStr and pad.group(1) == '>' and \
                    type(value.src) is SymInt and pad.group(2)[0] != '0':
                r = _padded(value.src, re.fullmatch(
                    r'(>?)(0?)(\d*)(d|\.0f|\.0%)?', pad.group(2)))
                if r is not None:
                    return r
            return LazyStr(lambda: format(native(value), spec_n))
        if conv == 's' or spec_n == '':
            s = s_str(value)
            if spec_n == '':
                return s
        pad = re.fullmatch(r'(>?)(0?)(\d*)(d|\.0f|\.0%)?', spec_n)
        if pad:
            r = _padded(value, pad)
            if r is not None:
                return r
        return LazyStr(lambda: format(native(value), spec_n))
    if conv == 'r':
        value = repr(value)
    elif conv == 's':
        value = str(value)
    elif conv == 'a':
        value = ascii(value)
    return format(value, native(spec))


def _padded(value, pad):
    """A small natural number in a field of fixed width"""
    from . import stdmodel
    kind = pad.group(4) or ''
    if V.num_kind(value) == 'f' and kind[:2] == '.0':
        # the nearest whole number
        if type(value) is not V.SymFloat or value.q == V.APPROX or \
                not decide(value.e >= 0):
            return None
        if kind == '.0%':
            value = value * 100
            if type(value) is not V.SymFloat or value.q == V.APPROX:
                return None
        value = round(value)
    elif V.num_kind(value) != 'i':
        return None
    elif kind == '.0%':
        value = value * 100
    v = V.to_symint(value)
    if not decide(z3.And(v.e >= 0, v.e < 10 ** 6)):
        return None
    for w in range(1, 7):
        if w == 6 or eng.ENGINE.branch(v.e < 10 ** w):
            break
    fill = ord('0') if pad.group(2) and not pad.group(1) else ord(' ')
    end = [ord('%')] if kind == '.0%' else []
    return mkstr([fill] * (int(pad.group(3) or 0) - w - len(end)) + list(
        stdmodel.digits(v, w)) + end)


_FORMATTER = string.Formatter()


def s_format(fmt, args, kwargs):
    """str.format with symbolic arguments somewhere"""
    fmt = native(fmt)
    auto = [0]

    def field(name):
        first = re.match(r'[^.\[]*', name).group()
        if first == '':
            idx = auto[0]
            auto[0] += 1
            name = str(idx) + name
        obj, _ = _FORMATTER.get_field(name, args, kwargs)
        return obj

    def run(text):
        parts = []
        for lit, name, spec, conv in _FORMATTER.parse(text):
            if lit:
                parts.append(lit)
            if name is not None:
                value = field(name)
                spec = native(run(spec)) if spec else ''
                parts.append(fval(value, conv, spec))
        return _cat(parts)
    return run(fmt)


_PERCENT = re.compile(r'%(?:\((.*?)\))?([-+ #0]*)(\d+|\*)?'
                      r'(?:\.(\d+|\*))?([a-zA-Z%])')


def mod(a, b):
    """``a % b``: printf formatting keeps symbolic text symbolic"""
    if not active() or not isinstance(a, str) or not deep_sym(b):
        return a % b
    fmt = native(a, 'format')
    args = list(b) if isinstance(b, tuple) else [b]
    parts, last, used = [], 0, 0
    for m in _PERCENT.finditer(fmt):
        parts.append(fmt[last:m.start()])
        last = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append('%')
            continue
        if '*' in (width, prec):
            raise Unsupported('%* formatting')
        if key is not None:
            val = getitem(b, key)
        else:
            if used >= len(args):
                raise TypeError('not enough arguments for format string')
            val = args[used]
            used += 1
        spec = '%' + flags + (width or '') + \
            ('.' + prec if prec is not None else '') + conv
        if not deep_sym(val):
            parts.append(spec % ((val,) if isinstance(val, tuple) else val)
                         if key is None or not isinstance(val, dict)
                         else spec % (val,))
        elif spec == '%s' and is_sym(val):
            parts.append(fval(val, 's', ''))
        elif spec == '%s' or conv in 'ra':
            parts.append(OpaqueStr('<sym>'))
        elif conv == 'd' and flags == '0' and width and prec is None and \
                is_sym(val) and V.num_kind(val) == 'i' and decide(
                    z3.And(iexpr(val) >= 0, iexpr(val) < 10 ** int(width))):
            from . import stdmodel
            parts.append(mkstr(stdmodel.digits(V.to_symint(val), int(width))))
        elif is_sym(val) and (
                (conv in 'di' and V.num_kind(val) == 'i' and not prec) or
                (conv == 'f' and prec == '0')) and flags in ('', '0'):
            parts.append(fval(val, None, (flags if width else '') +
                              (width or '') +
                              ('d' if conv in 'di' else '.0f')))
        else:
            parts.append(LazyStr(lambda spec=spec, val=val:
                                 spec % native(val, 'printf'), True))
    if used < len(args) and not isinstance(b, dict) and \
            not any(m.group(1) for m in _PERCENT.finditer(fmt)):
        raise TypeError('not all arguments converted during string '
                        'formatting')
    parts.append(fmt[last:])
    return _cat(parts)


# ---------------------------------------------------------------- builtins

def deep_native(x, why, memo=None):
    if is_sym(x):
        return x.concrete(why)
    t = type(x)
    if t is list:
        return [deep_native(v, why) for v in x]
    if t is tuple:
        return tuple(deep_native(v, why) for v in x)
    if t in (set, frozenset):
        return t(deep_native(v, why) for v in x)
    if t is dict:
        return {deep_native(k, why): deep_native(v, why)
                for k, v in x.items()}
    return x


def deep_sym(x, depth=4):
    if is_sym(x):
        return True
    if depth and type(x) in (list, tuple, set, frozenset):
        return any(deep_sym(v, depth - 1) for v in x)
    if depth and type(x) is dict:
        return any(deep_sym(k, depth - 1) or deep_sym(v, depth - 1)
                   for k, v in x.items())
    return False


def s_int(x=0, *base, **k):
    if k:
        base = (k['base'],)
    if isinstance(x, str) and is_sym(x):
        return V.parse_int(x, *base)
    if is_sym(x) and not base:
        if type(x) is SymInt:
            return x
        if type(x) is SymBool:
            return V.to_symint(x)
        if type(x) is SymFloat:
            return x.__trunc__()
        raise TypeError("int() argument must be a string, a bytes-like "
                        "object or a real number, not 'complex'")
    if base and is_sym(base[0]):
        base = (native(base[0]),)
    return int(x, *base)


def s_float(x=0.0):
    if is_sym(x):
        if isinstance(x, str):
            return V.parse_float(x)
        if type(x) is SymComplex:
            raise TypeError("float() argument must be a string or a real "
                            "number, not 'complex'")
        return V.to_float(x)
    return float(x)


def s_complex(*a):
    if len(a) == 1 and is_sym(a[0]):
        x = a[0]
        if type(x) is SymComplex:
            return x
        if type(x) is SymNumStr:
            if type(x.src) is SymComplex:
                return x.src
            return SymComplex(V.parse_float(x), 0.0)
        if isinstance(x, str):
            return complex(x.concrete('complex(text)'))
        return SymComplex(V.to_float(x), 0.0)
    if any(is_sym(x) for x in a):
        if all(num_kind(x) in ('i', 'f') for x in a):
            a = tuple(a) + (0.0,)
            return SymComplex(V.to_float(a[0]), V.to_float(a[1]))
        return complex(*[native(x) for x in a])
    return complex(*a)


def s_bool(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt or type(x) is SymFloat:
        return mkbool(x.e != 0)
    return bool(x)


def text(fn):
    """Text conversions called by C code must return native text"""
    if not isinstance(fn, types.FunctionType):
        return fn

    @functools.wraps(fn)
    def wrapper(*a, **k):
        r = fn(*a, **k)
        return OpaqueStr('<sym>') if is_sym(r) else r
    wrapper.symx_raw = fn
    return wrapper


def s_str(*a, **k):
    if len(a) == 1 and not k and not is_sym(a[0]):
        raw = getattr(type(a[0]).__str__, 'symx_raw', None)
        if raw is not None:
            return raw(a[0])
    if len(a) == 1 and not k and is_sym(a[0]):
        x = a[0]
        if type(x) is SymStr or type(x) is SymNumStr or type(x) is LazyStr:
            return x
        if type(x) is SymBool:
            return str(x.concrete('str(bool)'))
        return SymNumStr(x)
    return str(*[native(x) for x in a], **k)


def s_type(*a, **k):
    if len(a) == 1 and is_sym(a[0]):
        return a[0].__class__
    if len(a) == 3 and '__module__' not in a[2]:
        a = (a[0], a[1], dict(a[2], __module__=sys._getframe(
            2).f_globals.get('__name__')))
    return type(*a, **k)


def s_set(f, /, *a):
    """construct a set (sub)class"""
    if len(a) != 1:
        return f(*a)
    x = a[0]
    if is_sym(x):
        x = list(x)
    elif not isinstance(x, (set, frozenset, list, tuple, dict)):
        x = list(x)
        a = (x,)
    if has_sym(x):
        seen = []
        for v in x:
            seen.append(lift(v))
        return f(seen)
    return f(x)


def s_dict(f, /, *a, **k):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, dict) or hasattr(x, 'keys'):
            if has_sym(x.keys()):
                x = [(lift(q), x[q]) for q in list(x.keys())]
        else:
            if is_sym(x):
                x = list(x)
            x = [p if isinstance(p, (tuple, list, str)) and not is_sym(p)
                 else tuple(p) for p in x]
            if any(len(p) == 2 and sym_key(p[0]) for p in x):
                if any(len(p) != 2 for p in x):
                    raise ValueError('dictionary update sequence element '
                                     'has wrong length; 2 is required')
                x = [(lift(p[0]), p[1]) for p in x]
        return f(x, **k)
    return f(*a, **k)


def s_range(*a):
    return range(*[native(x, 'range') if is_sym(x) else x for x in a])


def s_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def s_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def s_ord(c):
    if type(c) is SymStr:
        if len(c.chars) != 1:
            raise TypeError('ord() expected a character')
        x = c.chars[0]
        return x if isinstance(x, int) else SymInt(x)
    return ord(native(c))


def s_chr(i):
    if type(i) is SymInt:
        return mkstr((i.e,))
    return chr(native(i))


def s_getattr(obj, name, *default):
    if is_sym(name) and isinstance(name, str):
        for n in dir(obj):
            r = name == n
            if r is True or (r is not False and bool(r)):
                return getattr(obj, n, *default)
        if default:
            return default[0]
        raise AttributeError(name)
    return getattr(obj, name, *default)


def s_hasattr(obj, name):
    try:
        s_getattr(obj, name)
    except AttributeError:
        return False
    return True


def s_setattr(obj, name, value):
    setattr(obj, native(name, 'attribute name'), value)


def s_delattr(obj, name):
    delattr(obj, native(name, 'attribute name'))


def s_isnan(x):
    return False if is_sym(x) and num_kind(x) in ('i', 'f') \
        else math.isnan(native(x))


def s_isinf(x):
    return False if is_sym(x) and num_kind(x) in ('i', 'f') \
        else math.isinf(native(x))


def s_isfinite(x):
    return True if is_sym(x) and num_kind(x) in ('i', 'f') \
        else math.isfinite(native(x))


def s_fabs(x):
    return abs(s_float(x)) if is_sym(x) else math.fabs(x)


def s_isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if is_sym(a) or is_sym(b):
        if not is_sym(rel_tol) and rel_tol == 0:
            return s_fabs(a - b) <= abs_tol
        return math.isclose(native(a), native(b), rel_tol=native(rel_tol),
                            abs_tol=native(abs_tol))
    return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


class JsonText(OpaqueStr):
    """json.dumps output carrying the (normalised) document"""
    def __new__(cls, doc):
        self = OpaqueStr.__new__(cls, '<json>')
        self.doc = doc
        return self


def json_norm(x, default=None, skip=False, order=False):
    if x is None or is_sym(x) or isinstance(x, (str, int, float)):
        if type(x) is SymComplex:
            raise TypeError('Object of type complex is not JSON serializable')
        return x
    if isinstance(x, (list, tuple)):
        return [json_norm(v, default, skip, order) for v in x]
    if isinstance(x, dict):
        out = {}
        items = x.items()
        if order:
            items = sorted(items, key=lambda kv: kv[0])
        for k, v in items:
            if k is None or isinstance(k, (int, float)):
                if is_sym(k):
                    k = s_str(k) if not isinstance(k, bool) else (
                        'true' if k else 'false')
                elif isinstance(k, bool):
                    k = 'true' if k else 'false'
                else:
                    k = 'null' if k is None else str(k)
            elif not isinstance(k, str):
                if skip:
                    continue
                raise TypeError('keys must be str, int, float, bool or None')
            setitem(out, k, json_norm(v, default, skip, order))
        return out
    if default is not None:
        return json_norm(default(x), default, skip, order)
    raise TypeError('Object of type %s is not JSON serializable'
                    % type(x).__name__)


def s_dumps(x, /, *a, **k):
    if deep_sym(x, 12):
        default = k.get('default')
        if default is None and k.get('cls') is not None:
            default = k['cls'](skipkeys=k.get('skipkeys', False)).default
        return JsonText(json_norm(x, default, k.get('skipkeys'),
                                  k.get('sort_keys')))
    return json.dumps(x, *a, **k)


def s_loads(x, /, *a, **k):
    if isinstance(x, JsonText):
        return json_norm(x.doc)
    return json.loads(native(x), *a, **k)


class _Uuid4(object):
    n = 0


def s_uuid4():
    _Uuid4.n += 1
    h = (0x9e3779b97f4a7c15f39cc0605cedc835 * _Uuid4.n) & ((1 << 128) - 1)
    return uuid.UUID(int=h, version=4)


_CHOICE = [0]


def s_choice(seq):
    """random.choice: any element may come out"""
    _CHOICE[0] += 1
    name = 'random.choice#%d' % _CHOICE[0]
    idx = E().choose(name, len(seq))
    E().register(name, lambda model, v=z3.Int(name): model.eval(
        v, model_completion=True).as_long())
    return seq[idx]


def s_sorted(it, /, **k):
    return sorted(it, **k)


def s_list(f, *a):
    return f(*a)


def s_re(fname):
    def fn(pattern, subject, *a, **k):
        if is_sym(subject) and fname in ('search', 'match', 'fullmatch'):
            flags = a[0] if a else k.get('flags', 0)
            pat = pattern if isinstance(pattern, re.Pattern) else re.compile(
                native(pattern), flags)
            return getattr(_regex, fname)(pat, subject)
        return getattr(re, fname)(native(pattern), *[
            native(x) for x in (subject,) + a], **k)
    return fn


def s_resub(pattern, repl, subject, *a, **k):
    return re.sub(native(pattern), native(repl), native(subject, 're.sub'),
                  *a, **k)


def s_fromkeys(*a):
    return mkdict((k, a[1] if len(a) > 1 else None) for k in a[0])


class _Fallback(Exception):
    pass


TABLE = {}
NUMPY = {}       # id: (function, model), see ndarray.py


def s_print(*a, **k):
    """print to a file object of the harness keeps symbolic text"""
    out = k.pop('file', None) or sys.stdout
    flush = k.pop('flush', False)
    if not deep_sym(a) and not any_sym(a, k):
        return print(*a, file=out, flush=flush, **k)
    sep = k.get('sep')
    sep = ' ' if sep is None else sep
    end = k.get('end')
    end = '\n' if end is None else end
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(sep)
        parts.append(s_str(x))
    parts.append(end)
    whole = _cat(parts)
    call(out.write, whole if type(out).__module__ in INSTRUMENTED
         else native(whole, 'print'))


def s_warn(message, category=None, stacklevel=1, *a, **k):
    if is_sym(message):
        message = '<sym>'
    return warnings.warn(message, category, stacklevel + 1, *a, **k)


def _register():
    for f, h in [
            (int, s_int), (float, s_float), (complex, s_complex),
            (bool, s_bool), (str, s_str), (type, s_type),
            (range, s_range), (map, s_map), (filter, s_filter),
            (ord, s_ord), (chr, s_chr), (getattr, s_getattr),
            (hasattr, s_hasattr), (setattr, s_setattr),
            (delattr, s_delattr), (math.isnan, s_isnan),
            (math.isinf, s_isinf), (math.isfinite, s_isfinite),
            (math.fabs, s_fabs), (math.isclose, s_isclose),
            (json.dumps, s_dumps), (json.loads, s_loads),
            (uuid.uuid4, s_uuid4), (random.choice, s_choice),
            (re.search, s_re('search')), (re.match, s_re('match')),
            (re.fullmatch, s_re('fullmatch')), (re.sub, s_resub),
            (re.split, s_re('split')), (re.findall, s_re('findall')),
            (warnings.warn, s_warn), (print, s_print),
    ]:
        TABLE[id(f)] = (f, h)


_register()

# always routed, even without symbolic arguments
ALWAYS = {id(f) for f in (random.choice, uuid.uuid4, json.loads)}

# callables that treat proxies transparently (they only use the protocols)
SAFE_MODULES = {'builtins', 'six', 'copy', 'functools', 'collections',
                'contextlib', 'warnings', 'operator', 'typing', 'types',
                'abc', 'itertools', 'enum', 'dataclasses', '_abc',
                'traitlets.traitlets', '_collections', '_functools',
                '_operator', 'collections.abc', 'symx.ctx', '_warnings', 'vectormath'}
UNSAFE_BUILTINS = {id(f) for f in (bin, hex, oct, compile, open, bytes,
                                   bytearray, memoryview)}

STR_METHODS = {n for n in dir(str) if not n.startswith('__')}
DICT_KEYED = {'get', 'pop', 'setdefault', '__getitem__', '__contains__',
              '__setitem__', '__delitem__'}


def any_sym(a, k):
    for x in a:
        if is_sym(x):
            return True
    for x in k.values():
        if is_sym(x):
            return True
    return False


def call(*a, **k):
    f = a[0]
    a = a[1:]
    if eng.ENGINE is None:
        return f(*a, **k)
    if id(f) in NUMPY and (any_sym(a, k) or deep_args(a)):
        return NUMPY[id(f)][1](*a, **k)
    t = type(f)
    if t is types.FunctionType:
        if f.__globals__.get('__name__') in INSTRUMENTED:
            return f(*a, **k)
        ent = TABLE.get(id(f))
        if ent is not None and (id(f) in ALWAYS or any_sym(a, k) or
                                deep_args(a)):
            return ent[1](*a, **k)
        if hasattr(f, 'symx_raw'):
            return f.symx_raw(*a, **k)
        return foreign(f, f.__module__, a, k)
    if t is types.MethodType:
        fn = f.__func__
        if hasattr(fn, 'symx_raw'):
            return fn.symx_raw(f.__self__, *a, **k)
        if getattr(fn, '__module__', None) in ('symx.values', 'symx.ndarray'):
            return f(*a, **k)
        if id(f) in ALWAYS or (fn is _CHOICE_FN):
            return s_choice(*a, **k)
        if isinstance(fn, types.FunctionType) and \
                fn.__globals__.get('__name__') in INSTRUMENTED:
            return f(*a, **k)
        return foreign(f, getattr(fn, '__module__', None), a, k)
    if issubclass(t, BUILTIN_FN) or t is METHOD_WRAP:
        s = f.__self__
        if s is None or type(s) is types.ModuleType:
            ent = TABLE.get(id(f))
            if ent is not None:
                return ent[1](*a, **k)
            if id(f) in UNSAFE_BUILTINS or (
                    s is not None and
                    s.__name__ not in SAFE_MODULES):
                return foreign(f, None, a, k)
            return f(*a, **k)
        return method(f, type(s), s, f.__name__, a, k)
    if isinstance(f, type):
        ent = TABLE.get(id(f))
        if ent is not None and ent[0] is f:
            if f is type or f is str or any_sym(a, k) or \
                    f in (map, filter):
                return ent[1](*a, **k)
            return f(*a, **k)
        if f.__module__ in INSTRUMENTED:
            if issubclass(f, dict) and f.__init__ is dict.__init__:
                return s_dict(f, *a, **k)
            if issubclass(f, (set, frozenset)) and (
                    f.__init__ in (set.__init__, object.__init__,
                                   frozenset.__init__)):
                return s_set(f, *a, **k)
            return f(*a, **k)
        if issubclass(f, (set, frozenset)):
            return s_set(f, *a, **k)
        if issubclass(f, dict):
            return s_dict(f, *a, **k)
        if any_sym(a, k) or deep_args(a):
            if f.__module__ in SAFE_MODULES and id(f) not in UNSAFE_BUILTINS:
                return f(*a, **k)
            if issubclass(f, (BaseException, list, tuple)):
                return f(*a, **k)
            return foreign(f, f.__module__, a, k)
        return f(*a, **k)
    if t in METHOD_DESC and a:
        return method(None, f.__objclass__, a[0], f.__name__, a[1:], k, f)
    if t is functools._lru_cache_wrapper:
        if any_sym(a, k) or deep_args(a):
            return call(f.__wrapped__, *a, **k)
        return f(*a, **k)
    if t.__module__ == 'functools' and isinstance(f, functools.partial):
        return call(f.func, *(f.args + a), **dict(f.keywords, **k))
    if t.__module__ == 'numpy' or t.__module__.startswith('numpy.'):
        return foreign(f, 'numpy', a, k)
    return f(*a, **k)


_CHOICE_FN = random.choice.__func__


def deep_args(a):
    for x in a:
        if type(x) in (list, tuple, set, dict) and deep_sym(x, 3):
            return True
    return False


def foreign(f, module, a, k):
    """A callable outside the encoded code"""
    if module in SAFE_MODULES or (module or '').split('.')[0] in (
            'traitlets',):
        return f(*a, **k)
    shim = SHIMS.get(id(f))
    if shim is not None:
        got = shim(*a, **k)
        if got is not NotImplemented:
            return got
    if any_sym(a, k) or deep_args(a) or deep_args(tuple(k.values())):
        why = 'call of %s' % getattr(f, '__qualname__',
                                     getattr(f, '__name__', f))
        a = tuple(deep_native(x, why) for x in a)
        k = {n: deep_native(x, why) for n, x in k.items()}
    return f(*a, **k)


SHIMS = {}


def method(f, cls, s, name, a, k, desc=None):
    """Builtin method call; f is the bound method (or None with desc)"""
    def plain(*aa):
        if desc is not None:
            return desc(s, *aa, **k)
        return f(*aa, **k)
    if is_sym(s):                       # e.g. str.upper(sym), map(str.strip..)
        return getattr(s, name)(*a, **k)
    if issubclass(cls, str):
        if name == 'join':
            items = list(a[0])
            if any(is_sym(x) for x in items):
                return V.join(s, items)
            return plain(items)
        if name == 'format':
            if any_sym(a, k):
                return s_format(s, a, k)
            return plain(*a)
        if name == '__mod__' or not any_sym(a, k) and not deep_args(a):
            return plain(*a)
        return getattr(SymStr(tuple(map(ord, s))), name)(*a, **k)
    if issubclass(cls, dict) or cls is dict:
        base_of = f if f is not None else desc
        od = isinstance(s, OrderedDict)
        if name in DICT_KEYED and a:
            if sym_key(a[0]) or has_sym(s):
                if name in ('setdefault', '__setitem__'):
                    return plain(store_key(s, a[0]), *a[1:])
                key = prep_key(s, a[0])
                if key is MISSING and name == '__contains__':
                    return False
                return plain(key, *a[1:])
            return plain(*a)
        if name in ('update', '__init__'):
            pairs = None
            if a:
                x = a[0]
                if isinstance(x, dict) or hasattr(x, 'keys'):
                    pairs = [(q, x[q]) for q in list(x.keys())]
                else:
                    pairs = [tuple(p) for p in x]
            if pairs is not None and (has_sym(s) or any(
                    len(p) == 2 and sym_key(p[0]) for p in pairs)):
                lift_inplace(s)
                return plain([(lift(p[0]),) + tuple(p[1:]) for p in pairs])
            if pairs is not None and not isinstance(a[0], dict):
                return plain(pairs)
            return plain(*a)
        if name == '__eq__' and a and isinstance(a[0], dict):
            return deep_eq(dict(s.items()), dict(a[0].items()))
        if name == 'fromkeys':
            return plain(*a)
        if name in ('__or__', '__ior__', '__ror__') and a and isinstance(
                a[0], dict) and (has_sym(s) or has_sym(a[0])):
            lift_inplace(s)
            return plain(lifted_copy(a[0]))
        return plain(*a)
    if isinstance(s, type) and issubclass(s, dict) and name == 'fromkeys':
        if a and not hasattr(a[0], '__len__'):
            a = (list(a[0]),) + tuple(a[1:])
        if any(has_sym(x) for x in a[:1] if hasattr(x, '__iter__')):
            return s_dict(s, s_fromkeys(*a))
        return plain(*a)
    if issubclass(cls, (set, frozenset)):
        tainted = has_sym(s)
        aa = []
        for x in a:
            if name in ('add', 'discard', 'remove', '__contains__'):
                tainted = tainted or sym_key(x)
            elif hasattr(x, '__iter__') and not is_sym(x):
                if not isinstance(x, (list, tuple, set, frozenset, dict)):
                    x = list(x)
                tainted = tainted or has_sym(x)
            aa.append(x)
        if not tainted:
            return plain(*aa)
        if name in ('add', 'discard', 'remove', '__contains__'):
            if isinstance(s, frozenset):
                return contains(a[0], s)
            lift_inplace(s)
            return plain(lift(a[0]))
        if isinstance(s, frozenset):
            s2 = lifted_copy(s)
            return getattr(s2, name)(*[
                lifted_copy(x) if keyed(x) else x for x in aa])
        lift_inplace(s)
        out = []
        for x in aa:
            if isinstance(x, (set, frozenset, dict)):
                x = lifted_copy(x)
            elif isinstance(x, (list, tuple)):
                x = [lift(v) for v in x]
            out.append(x)
        return plain(*out)
    if issubclass(cls, re.Pattern):
        if a and is_sym(a[0]):
            if name in ('search', 'match', 'fullmatch') and len(a) == 1:
                return getattr(_regex, name)(s, a[0])
            return plain(*[native(x, 're.' + name) for x in a])
        if any(is_sym(x) for x in a):
            return plain(*[native(x, 're.' + name) for x in a])
        return plain(*a)
    if issubclass(cls, list):
        if name in ('pop', 'insert', '__getitem__', '__setitem__',
                    '__delitem__') and a and is_sym(a[0]):
            n = len(s)
            if name == 'insert':
                i = a[0]
                for q in range(-n, n + 1):
                    if bool(i == q):
                        return plain(q, *a[1:])
                return plain(n if bool(i > n) else 0, *a[1:])
            i = seq_index(n, a[0])
            return plain(i, *a[1:])
        if name in ('__mul__', '__rmul__', '__imul__'):
            return plain(*[native(x, 'list repeat') for x in a])
        return plain(*a)
    if cls is random.Random:
        if name == 'choice':
            return s_choice(*a)
    if isinstance(s, type) and name == '__new__':
        # Class.__new__(cls, ...)
        return plain(*a)
    if isinstance(s, type) and s in (int, float, complex, str, bytes):
        return foreign(f if f is not None else desc, None,
                       a if f is not None else (s,) + a, k)
    if cls.__module__ in ('builtins',) or cls.__module__ in INSTRUMENTED:
        return plain(*a)
    if any_sym(a, k) and cls.__module__ not in SAFE_MODULES:
        why = 'method %s.%s' % (cls.__name__, name)
        return plain(*[deep_native(x, why) for x in a])
    return plain(*a)


def reset():
    _Uuid4.n = 0
    _CHOICE[0] = 0
