"""C29 vectors"""
import numpy as np
import vectormath as vmath

import properties as p
from harness.c28 import same_nested
from harness.common import Thing, any_value, finite, json_compatible
from harness.reg import attempt, scenario

BOUNDS = ('vectors of 2 and 3 components, arrays of up to 2 vectors (3 '
          'thorough); components symbolic: integers up to 2**40, floats on '
          'the grid 1/2**8 up to 2**20, nan and inf; names of directions up '
          'to 5 characters; lengths between 1/1024 and 1024')
ASSUMPTIONS = ['scaled components are real numbers: their rounding is covered '
               'by a relative tolerance of 1e-9',
               'vectors to be scaled have finite components, none smaller '
               'than 1/2**8 or larger than 2**20 unless zero']
WITNESSES = ['stored', 'bad-size', 'direction', 'no-direction', 'scaled',
             'zero', 'kept', 'nan', 'flat-up', 'mixed']

KINDS = [('Vector3', 3, False), ('Vector2', 2, False),
         ('Vector3Array', 3, True), ('Vector2Array', 2, True)]
NAMES = {'zero': (0, 0, 0), 'x': (1, 0, 0), 'y': (0, 1, 0), 'z': (0, 0, 1),
         '-x': (-1, 0, 0), '-y': (0, -1, 0), '-z': (0, 0, -1),
         'east': (1, 0, 0), 'west': (-1, 0, 0), 'north': (0, 1, 0),
         'south': (0, -1, 0), 'up': (0, 0, 1), 'down': (0, 0, -1)}
FLAT = [n for n in NAMES if NAMES[n][2] == 0]


def holder(kind, **kw):
    class Holder(p.HasProperties):
        v = getattr(p, kind)('v', **kw)
    return Holder


def components(ctx, name, n, kinds='if', **kw):
    kw = dict(dict(ints=1 << 40), **kw)
    return [any_value(ctx, '%s%d' % (name, i), kinds if i == 0 else kinds[-1],
                      special=i == 1 and kw.get('nonfinite', True), **kw)
            for i in range(n)]


def direction(name, dim):
    """Components of a named direction, None when there is none"""
    name = name.lower()
    for n in NAMES:
        if n == name and (dim == 3 or n in FLAT):
            return list(NAMES[n][:dim])
    return None


@scenario('C29', weight=2)
def stored(ctx):
    """Components are kept as floats in a vector of its own"""
    kind, dim, many = ctx.choice('class', KINDS)
    n = dim + ctx.choice('extra', [0, 0, 1, -1])
    val = components(ctx, 'e', n, ctx.choice('kinds', ['if', 'bi']))
    if many:
        val = [val, [3] * n][:ctx.choice('rows', [1, 2])]
        if n != dim and n * len(val) == dim:
            return              # vectormath takes a column as one vector
    form = ctx.choice('form', ['list', 'tuple', 'array', 'vector'])
    src = val
    if form == 'tuple':
        src = tuple(val)
    elif form == 'array':
        src = np.array(val)
    elif form == 'vector':
        if n != dim:
            return
        src = getattr(vmath, kind)(val)
    h = holder(kind)()
    ok, exc = attempt(setattr, h, 'v', src)
    ctx.check(ok == (n == dim), 'accepted exactly with all components')
    if not ok:
        ctx.cover('bad-size')
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
        ctx.check(h.v is None, 'nothing stored')
        return
    ctx.cover('stored')
    ctx.check(type(h.v) is getattr(vmath, kind) or
              h.v.__class__ is getattr(vmath, kind), 'class')
    ctx.check(h.v.dtype.kind == 'f' and
              h.v.shape == ((len(val), dim) if many else (dim,)), 'shape')
    ctx.check(same_nested(h.v.tolist(), val), 'components')
    ctx.check(h.v is not src, 'own')
    if form in ('array', 'vector'):
        src[(0, 0) if many else 0] = 77
        ctx.check(same_nested(h.v.tolist(), val), 'independent')


@scenario('C29', weight=2)
def names(ctx):
    """Directions are recognised by name in any case"""
    kind, dim, _ = ctx.choice('class', KINDS[:2])
    name = ctx.str('name', 3, '-xyzXYZUupPe') if ctx.flag('short') else \
        ctx.choice('word', ['zero', 'EAST', 'West', 'north', 'sOUTH', 'down',
                            'DOWN', 'northeast', 'left', ' x', 'zeros'])
    h = holder(kind)()
    ok, exc = attempt(setattr, h, 'v', name)
    want = direction(name, dim)
    ctx.check(ok == (want is not None), 'accepted exactly when a direction')
    if not ok:
        ctx.cover('no-direction')
        if dim == 2 and direction(name, 3):
            ctx.cover('flat-up')
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
        return
    ctx.cover('direction')
    ctx.check(same_nested(h.v.tolist(), want), 'direction')
    h.v[0] = 5
    g = holder(kind)(v=name)
    ctx.check(same_nested(g.v.tolist(), want), 'directions are not shared')


@scenario('C29', weight=2)
def named_rows(ctx):
    """Vectors of an array may be named; the given list stays as it was"""
    kind, dim, _ = ctx.choice('class', KINDS[2:])
    name = ctx.str('name', 2, '-xyzXYZUP')
    row = components(ctx, 'e', dim, 'f', q=2, m=16)
    val, rows = ctx.choice('rows', [
        lambda: ([name], [name]), lambda: ([row, name], [row, name]),
        lambda: (['East', name], ['East', name]),
        lambda: ([name, row], [name, row]),
    ])()
    if ctx.flag('tuple'):
        val = tuple(val)
    h = holder(kind)()
    ok, exc = attempt(setattr, h, 'v', val)
    want = [direction(r, dim) if isinstance(r, str) else r for r in rows]
    good = all(w is not None for w in want)
    ctx.check(len(val) == len(rows) and
              all(a is b for a, b in zip(val, rows)), 'input unchanged')
    ctx.check(ok == good, 'accepted exactly when all are vectors')
    if not ok:
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
        ctx.check(h.v is None, 'nothing stored')
        return
    ctx.cover('mixed')
    ctx.check(same_nested(h.v.tolist(), want), 'rows')


@scenario('C29')
def refused(ctx):
    """Anything else is refused"""
    kind, dim, many = ctx.choice('class', KINDS)
    x = ctx.choice('x', [0, 2, 1.5])
    bad = ctx.choice('bad', [
        lambda: x, lambda: [], lambda: [x] + [None] * (dim - 1), lambda: ['a'] + [x] * 2,
        lambda: [[x, x], [x]], lambda: {'x': x}, lambda: Thing(),
        lambda: [x] * 4, lambda: [[x] * 4], lambda: [[[x] * dim] * 2] * 2,
        lambda: [None, [x] * dim], lambda: [2 ** 70] + [x] * 3,
        lambda: [Thing()] * dim, lambda: '', lambda: ['up', 'side']])()
    h = holder(kind, **({'length': 2} if ctx.flag('length') else {}))()
    ok, exc = attempt(setattr, h, 'v', bad)
    ctx.check(not ok, 'refused')
    ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
    ctx.check(h.v is None, 'nothing stored')


def near(a, b, scale):
    return abs(a - b) <= scale * 1e-9


def scaled_ok(ctx, src, got, length):
    """got has the given length and the direction of src"""
    n = len(src)
    total, dot = 0.0, 0.0
    for i in range(n):
        total = total + got[i] * got[i]
        dot = dot + got[i] * src[i]
    ctx.check(near(total, length * length, length * length), 'length')
    for i in range(n):
        for j in range(i):
            ctx.check(near(got[i] * src[j], got[j] * src[i], length * 1e6),
                      'parallel')
    ctx.check(dot > 0, 'same direction')


def size(ctx, name):
    """A component to be scaled"""
    if ctx.flag(name + '.zero'):
        return 0.
    x = ctx.real(name, -1e6, 1e6)
    ctx.assume(x > 1e-3 or x < -1e-3)
    return x


@scenario('C29', weight=3)
def scaling(ctx):
    """Vectors get the given length and keep their direction"""
    kind, dim, many = ctx.choice('class', KINDS)
    length = ctx.choice('length', [1, 5, 0.25, 1000])
    rows = [[size(ctx, 'e%d' % i) for i in range(dim)]]
    if many and ctx.flag('two'):
        rows.append([size(ctx, 'f')] + [0., 0.][:dim - 1])
    src = rows if many else rows[0]
    if ctx.flag('array'):
        src = np.array(src)
    h = holder(kind, length=length)()
    ok, exc = attempt(setattr, h, 'v', src)
    zero = any(all(x == 0 for x in r) for r in rows)
    ctx.check(ok == (not zero), 'accepted exactly when there is a direction')
    after = src if isinstance(src, list) else src.tolist()
    ctx.check(same_nested(after, rows if many else rows[0]),
              'input unchanged')
    if zero:
        ctx.cover('zero')
        ctx.check(isinstance(exc, p.ValidationError) and
                  isinstance(exc, ZeroDivisionError), 'kind of error')
        ctx.check(h.v is None, 'nothing stored')
        return
    ctx.cover('scaled')
    got = h.v.tolist()
    for s, g in zip(rows, got if many else [got]):
        scaled_ok(ctx, s, g, float(length))


@scenario('C29', tier='thorough', weight=20)
def more_scaling(ctx):
    """Arrays of three vectors"""
    kind, dim, many = ctx.choice('class', KINDS[2:])
    length = ctx.choice('length', [1, 0.001, 7.5])
    rows = [[size(ctx, 'e%d.%d' % (j, i)) for i in range(dim)]
            for j in range(3)]
    h = holder(kind, length=length)()
    ok, exc = attempt(setattr, h, 'v', rows)
    zero = any(all(x == 0 for x in r) for r in rows)
    ctx.check(ok == (not zero), 'accepted exactly when there is a direction')
    if zero:
        ctx.check(isinstance(exc, p.ValidationError) and
                  isinstance(exc, ZeroDivisionError), 'kind of error')
        return
    for s, g in zip(rows, h.v.tolist()):
        scaled_ok(ctx, s, g, float(length))


@scenario('C29', tier='thorough', weight=10)
def more_rows(ctx):
    """Three rows, named or not, in every order"""
    kind, dim, _ = ctx.choice('class', KINDS[2:])
    rows = []
    for i in range(3):
        if ctx.flag('named%d' % i):
            rows.append(ctx.str('name%d' % i, 2, '-xyzXYZUP', minlen=1))
        else:
            rows.append(components(ctx, 'e%d.' % i, dim, 'f', q=2, m=16,
                                   nonfinite=i == 0))
    val = tuple(rows) if ctx.flag('tuple') else list(rows)
    h = holder(kind)()
    ok, exc = attempt(setattr, h, 'v', val)
    want = [direction(r, dim) if isinstance(r, str) else r for r in rows]
    ctx.check(len(val) == 3 and all(a is b for a, b in zip(val, rows)),
              'input unchanged')
    ctx.check(ok == all(w is not None for w in want),
              'accepted exactly when all are vectors')
    if ok:
        ctx.check(same_nested(h.v.tolist(), want), 'rows')
        out = h.serialize()
        back = type(h).deserialize(out)
        ctx.check(p.equal(h, back) and
                  same_nested(back.v.tolist(), h.v.tolist()), 'read back')
    else:
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')


@scenario('C29')
def named_scaled(ctx):
    """Named directions are scaled as well; zero has no direction"""
    kind, dim, many = ctx.choice('class', KINDS)
    name = ctx.choice('name', sorted(FLAT))
    length = ctx.choice('length', [1, 0.001, 3.5, 1024])
    h = holder(kind, length=length)()
    rows = 1 + ctx.pick('rows', 4) if many else 1
    ok, exc = attempt(setattr, h, 'v', [name] * rows if many else name)
    ctx.check(ok == (name != 'zero'), 'accepted')
    if not ok:
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
        return
    got = h.v.tolist() if many else [h.v.tolist()]
    ctx.check(len(got) == rows, 'each row')
    for row in got:
        for g, d in zip(row, NAMES[name]):
            ctx.check(near(g, d * length, length), 'scaled')


@scenario('C29')
def lengths(ctx):
    """Only positive numbers are lengths"""
    kind, dim, many = ctx.choice('class', KINDS)
    length = any_value(ctx, 'length', 'ifsncol', ints=1 << 20)
    if length is None or isinstance(length, float) and not finite(length):
        return
    ok, exc = attempt(getattr(p, kind), 'v', length=length)
    good = isinstance(length, (int, float)) and length > 0
    ctx.check(ok == good, 'accepted exactly when positive')
    if not ok:
        ctx.check(isinstance(exc, TypeError), 'kind of error')


@scenario('C29')
def uncoerced(ctx):
    """Without coercion only vectors are accepted, and kept"""
    kind, dim, many = ctx.choice('class', KINDS)
    h = holder(kind, coerce=False)()
    val = components(ctx, 'e', dim, 'f')
    if many:
        val = [val]
    form = ctx.choice('form', ['list', 'array', 'vector'])
    src = {'list': lambda: val, 'array': lambda: np.array(val),
           'vector': lambda: getattr(vmath, kind)(val)}[form]()
    ok, exc = attempt(setattr, h, 'v', src)
    ctx.check(ok == (form == 'vector'), 'only vectors')
    if ok:
        ctx.cover('kept')
        ctx.check(h.v is src, 'the same vector')
    else:
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')


@scenario('C29', weight=2)
def roundtrip(ctx):
    """Written and read back equal"""
    kind, dim, many = ctx.choice('class', KINDS)
    Holder = holder(kind)
    val = components(ctx, 'e', dim, ctx.choice('kinds', ['i', 'f']))
    if many:
        val = [val, components(ctx, 'f', dim, 'i')][:ctx.choice('rows',
                                                               [1, 2])]
    h = Holder(v=val)
    out = h.serialize()
    ctx.check(json_compatible(out), 'JSON')
    if any(not finite(x) for x in h.v.ravel().tolist()):
        ctx.cover('nan')
    back = Holder.deserialize(out)
    ctx.check(back.v.__class__ is getattr(vmath, kind), 'class')
    ctx.check(same_nested(back.v.tolist(), h.v.tolist()), 'values')
    ctx.check(p.equal(h, back), 'equal')


@scenario('C29')
def equality(ctx):
    """Vectors are equal when their components are"""
    kind, dim, many = ctx.choice('class', KINDS)
    Holder = holder(kind)
    a = components(ctx, 'a', dim, 'i', ints=999)
    b = components(ctx, 'b', dim, 'i', ints=999)
    g = Holder(v=[a] if many else a)
    h = Holder(v=[b] if many else b)
    ctx.check(p.equal(g, h) == same_nested(a, b), 'equal')
    if many:
        h.v = [b, b]
        ctx.check(not p.equal(g, h), 'other number of vectors')


@scenario('C29')
def shapes(ctx):
    """The number of vectors can be limited"""
    kind, dim, _ = ctx.choice('class', KINDS[2:])
    n = ctx.choice('rows', [1, 2, 3])
    spec = ctx.choice('shape', [('*', dim), (2, dim), {(1, dim), (3, dim)}])
    Holder = holder(kind, shape=spec)
    val = [components(ctx, 'e%d.' % i, dim, 'i') for i in range(n)]
    ok, exc = attempt(Holder, v=val)
    good = any(s[0] in ('*', n) for s in
               (spec if isinstance(spec, set) else [spec]))
    ctx.check(ok == good, 'accepted exactly when allowed')
    if not ok:
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
    bad = ctx.choice('bad', [(dim,), (2, 5 - dim), ('*', '*'), ('*', dim, 1),
                             {('*', dim), (2,)}, 'any', 3])
    ok, exc = attempt(getattr(p, kind), 'v', shape=bad)
    ctx.check(not ok and isinstance(exc, TypeError), 'other shapes refused')


@scenario('C29', weight=2)
def lengths_kept(ctx):
    """A length is the number given, and all rows are given it"""
    kind, dim, many = ctx.choice('class', KINDS)
    length = ctx.choice('length', [1, 7, 49, 99, .1, .3, .9, 1e-3, 1.1, 2 / 3])
    prop = getattr(p, kind)('v', length=length)
    ctx.check(type(prop.length) is float and prop.length == length, 'kept')
    rows = ctx.choice('rows', [1, 3]) if many else 1
    axes = [ctx.pick('axis%d' % i, dim) for i in range(rows)]
    val = [[2 * (j == k) for j in range(dim)] for k in axes]

    class Holder(p.HasProperties):
        v = prop
    h = Holder()
    h.v = val if many else val[0]
    for i in range(rows):
        got = h.v[i] if many else h.v
        for j in range(dim):
            ctx.check(near(got[j], length if j == axes[i] else 0, length),
                      'every row has the length')
