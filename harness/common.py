"""Shared pieces of the scenarios: input generators and small oracles written
from the documentation, not from the implementation."""
import math

import properties as p
from properties.utils import undefined

TOL = 1e-9


class Thing(object):
    """An arbitrary object no property type accepts"""


class Boom(Exception):
    """An exception the library does not know about"""


def any_value(ctx, name, kinds, **kw):
    """A value of one of the given kinds

    i int, f float, b bool, c complex, s text, n None, l list of ints,
    t tuple, d dict, o object, x bytes, e set
    """
    k = kinds[ctx.pick(name + '.kind', len(kinds))] if len(kinds) > 1 \
        else kinds
    if k == 'i':
        if kw.get('big'):
            return ctx.int(name)
        lim = kw.get('ints', 1 << 53)
        return ctx.int(name, -lim, lim)
    if k == 'b':
        return ctx.bool(name)
    if k == 'f':
        return ctx.float(name, q=kw.get('q', 8), m=kw.get('m', 1 << 20),
                         special=kw.get('special', True))
    if k == 'c':
        return ctx.complex(name, q=kw.get('q', 8), m=kw.get('m', 1 << 20),
                           special=kw.get('special', True))
    if k == 's':
        return ctx.str(name, kw.get('maxlen', 3), kw.get('alphabet'))
    if k == 'n':
        return None
    if k == 'l':
        return [ctx.int(name)]
    if k == 't':
        return (ctx.int(name),)
    if k == 'd':
        return {'a': ctx.int(name)}
    if k == 'e':
        return set([ctx.int(name)])
    if k == 'x':
        return b'1'
    return Thing()


def is_nan(x):
    return isinstance(x, float) and x != x


def finite(x):
    """Is a float/int finite"""
    if isinstance(x, float):
        return not (x != x or x in (float('inf'), float('-inf')))
    return True


def same_num(a, b):
    """Same number, nan included"""
    if a != a:
        return b != b
    return a == b


def exact(a, b):
    """Same type and same value (nan equal to nan)"""
    if a is None or b is None:
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return same_num(a, b)
    if isinstance(a, complex):
        return exact(a.real, b.real) and exact(a.imag, b.imag)
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not exact(x, y):
                return False
        return True
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not exact(a[k], b[k]):
                return False
        return True
    return a == b


def backend(obj):
    """Snapshot of the stored values"""
    return dict(obj._backend)


def same_backend(a, b):
    """Identical stored values (by identity)"""
    if set(a) != set(b):
        return False
    for k in a:
        if a[k] is not b[k]:
            return False
    return True


def json_compatible(v, depth=8):
    """Only what the json module can write and read back unchanged"""
    if v is None:
        return True
    t = type(v)
    if t in (bool, int, str):
        return True
    if t is float:
        return finite(v)
    if t is list:
        for x in v:
            if not json_compatible(x, depth - 1):
                return False
        return True
    if t is dict:
        for k in v:
            if type(k) is not str:
                return False
            if not json_compatible(v[k], depth - 1):
                return False
        return True
    return False
