"""Models of the few C-level pieces below the instrumented stdlib copies:
``time.struct_time``, ``time.strftime`` (glibc rendering, C locale) and
``operator.index``."""
import operator
import time

import z3

from . import rt
from . import values as V
from .engine import Unsupported
from .values import E, SymInt, is_sym, iexpr, mkstr, native, num_kind


class TimeTuple(tuple):
    tm_year = property(lambda s: s[0])
    tm_mon = property(lambda s: s[1])
    tm_mday = property(lambda s: s[2])
    tm_hour = property(lambda s: s[3])
    tm_min = property(lambda s: s[4])
    tm_sec = property(lambda s: s[5])
    tm_wday = property(lambda s: s[6])
    tm_yday = property(lambda s: s[7])
    tm_isdst = property(lambda s: s[8])


def struct_time(*a):
    if a and any(is_sym(x) for x in a[0]):
        return TimeTuple(a[0])
    return NotImplemented


def digits(v, width):
    """Exactly ``width`` decimal digits of 0 <= v < 10**width"""
    if not is_sym(v):
        return [ord(c) for c in '%0*d' % (width, v)]
    e = v.e
    out = []
    for p in range(width - 1, -1, -1):
        q = e / (10 ** p) if p else e
        out.append(48 + (q % 10 if p < width - 1 else q))
    return out


def strftime(fmt, *a):
    if not a or not any(is_sym(x) for x in a[0]):
        return NotImplemented
    t = a[0]
    fmt = native(fmt)
    out = []
    i = 0
    while i < len(fmt):
        c = fmt[i]
        i += 1
        if c != '%' or i >= len(fmt):
            out.append(ord(c))
            continue
        d = fmt[i]
        i += 1
        if d == '%':
            out.append(37)
        elif d == 'Y':
            y = t[0]
            if not is_sym(y):
                out.extend(map(ord, str(y)))
            else:
                for w in (4, 3, 2, 1):
                    if w == 1 or E().branch(y.e >= 10 ** (w - 1)):
                        out.extend(digits(y, w))
                        break
        elif d in 'mdHMS':
            out.extend(digits(t['mdHMS'.index(d) + 1], 2))
        elif d == 'F':
            out.extend(V.chars_of(strftime('%Y-%m-%d', t)))
        elif d == 'T':
            out.extend(V.chars_of(strftime('%H:%M:%S', t)))
        else:
            real = time.struct_time([native(x, 'strftime') for x in t])
            out.extend(map(ord, time.strftime('%' + d, real)))
    return mkstr(out)


def index(x):
    if is_sym(x):
        if num_kind(x) == 'i':
            return V.to_symint(x) if type(x) is not SymInt else x
        raise TypeError("'%s' object cannot be interpreted as an integer"
                        % x.__class__.__name__)
    return operator.index(x)


def install():
    rt.SHIMS[id(time.struct_time)] = struct_time
    rt.SHIMS[id(time.strftime)] = strftime
    rt.TABLE[id(operator.index)] = (operator.index, index)


install()


def patch_datetime(module):
    same = lambda self, *a: self
    for cls in (module.date, module.time, module.datetime,
                module.timedelta):
        cls.__deepcopy__ = same
        cls.__copy__ = same
