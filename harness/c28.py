"""C28 arrays"""
import numpy as np

import properties as p
from harness.common import (
    Thing, any_value, exact, finite, json_compatible, same_num,
)
from harness.reg import attempt, scenario

BOUNDS = ('arrays of up to 2 x 2 elements (2 x 2 x 1 for shapes), each element '
          'symbolic: integers up to 2**53, floats on the grid 1/2**8 up to '
          '2**20 and nan, inf, -inf, booleans, complex numbers')
ASSUMPTIONS = ['values within the tolerance of array equality count as equal',
               'arrays without elements are only checked for acceptance']
WITNESSES = ['accepted', 'bad-shape', 'bad-kind', 'ragged', 'copied', 'kept',
             'nan', 'equal', 'unequal', 'scalar', 'mixed', 'complex']

DTYPES = [None, float, int, bool, complex, (int, float), (bool, int),
          (int, complex), (float, int, bool, complex)]
ALLOWED = ['fi', 'f', 'i', 'b', 'c', 'if', 'bi', 'ic', 'fibc']
SHAPES = [None, ('*',), (2,), ('*', 2), (1, '*'), {(2,), ('*', 2)}, (),
          (2, 2, 1), (2, 0), ('*', 0), ('*', 2, 2)]
LAYOUTS = [(0,), (1,), (2,), (1, 1), (1, 2), (2, 2), (2, 1), (2, 2, 1),
           (2, 0), (2, 2, 2)]


def fits(shape, spec):
    """Does a shape match the documented specification"""
    if spec is None:
        return True
    for s in (spec if isinstance(spec, set) else {spec}):
        if len(s) == len(shape) and all(
                w == '*' or w == n for w, n in zip(s, shape)):
            return True
    return False


def build(shape, elems, outer, as_tuple=False):
    """Nested lists of the given shape"""
    if not shape:
        return next(elems)
    got = [build(shape[1:], elems, False, as_tuple) for _ in range(shape[0])]
    return tuple(got) if as_tuple else got


def nested(ctx, name, shape, kinds, as_tuple=False, **kw):
    """Nested input with fresh elements of the given kinds; (input, kind)"""
    n = 1
    for s in shape:
        n *= s
    elems = [any_value(ctx, '%s%d' % (name, i), kinds, special=i == 0, **kw)
             for i in range(n)]
    return build(shape, iter(elems), True, as_tuple), elems


def kind_of(elems):
    """Kind of the array numpy documents for mixed elements"""
    if not elems:
        return 'f'
    order = {bool: 0, int: 1, float: 2, complex: 3}
    return 'bifc'[max(order[type(e)] for e in elems)]


def same(a, b):
    """Same number, of any numeric type"""
    if isinstance(a, complex) or isinstance(b, complex):
        a, b = complex(a), complex(b)
        return same_num(a.real, b.real) and same_num(a.imag, b.imag)
    return same_num(a, b)


def same_nested(a, b):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and \
            isinstance(b, (list, tuple)) and len(a) == len(b) and \
            all(same_nested(x, y) for x, y in zip(a, b))
    return same(a, b)


def has_data(shape):
    return 0 not in shape


@scenario('C28', weight=4)
def acceptance(ctx):
    """Accepted exactly when kind and shape are allowed"""
    if ctx.flag('kinds first'):
        d, s = ctx.choice('dtype', [0, 1, 2, 3, 4, 5]), 0
    else:
        d, s = 0, ctx.choice('shape', [1, 2, 3, 4, 5, 6, 7, 8, 9])
    kw = {}
    if DTYPES[d] is not None:
        kw['dtype'] = DTYPES[d]
    prop = p.Array('a', shape=SHAPES[s], **kw)
    shape = ctx.choice('layout', LAYOUTS)
    val, elems = nested(ctx, 'e', shape, ctx.choice('kinds', ['i', 'f', 'b']
                                                    if s == 0 else 'i'),
                        as_tuple=ctx.flag('tuple'), ints=1 << 53)
    src = np.array(val) if ctx.flag('array') else val
    ok, got = attempt(prop.validate, None, src)
    good = kind_of(elems) in ALLOWED[d]
    match = fits(shape, SHAPES[s])
    ctx.check(ok == (good and match), 'accepted exactly when allowed')
    if not ok:
        ctx.cover('bad-kind' if match else 'bad-shape')
        ctx.check(isinstance(got, p.ValidationError), 'kind of error')
        return
    ctx.cover('accepted')
    ctx.check(isinstance(got, np.ndarray) and got.shape == shape and
              got.dtype.kind == kind_of(elems), 'shape and kind kept')
    ctx.check(same_nested(got.tolist(), val), 'values kept')


@scenario('C28', weight=2)
def several_shapes(ctx):
    """Any of the shapes declared will do, whatever their order"""
    specs = [(), ('*',), (1,), (2,), (2, 2), ('*', 1), (1, '*'), (2, 1, '*')]
    spec = {specs[ctx.pick('one', len(specs))],
            specs[ctx.pick('two', len(specs))]}
    prop = p.Array('a', shape=spec)
    shape = ctx.choice('layout', LAYOUTS + [(3,), (1, 3)])
    val, elems = nested(ctx, 'e', shape, 'i')
    ok, got = attempt(prop.validate, None, val)
    ctx.check(ok == fits(shape, spec) or not elems,
              'accepted exactly when a shape allows it')
    ctx.check(ok or isinstance(got, p.ValidationError), 'kind of error')
    ctx.check(prop.shape == spec, 'declaration kept')


@scenario('C28', tier='thorough', weight=10)
def more_acceptance(ctx):
    """Every kind with every shape"""
    d = ctx.choice('dtype', list(range(len(DTYPES))))
    s = ctx.choice('shape', list(range(len(SHAPES))))
    kw = {} if DTYPES[d] is None else {'dtype': DTYPES[d]}
    prop = p.Array('a', shape=SHAPES[s], **kw)
    shape = ctx.choice('layout', LAYOUTS + [(3,), (3, 2), (1, 1, 1)])
    val, elems = nested(ctx, 'e', shape, ctx.choice('kinds', 'ifbc'))
    ok, got = attempt(prop.validate, None, val)
    ctx.check(ok == (kind_of(elems) in ALLOWED[d] and fits(shape, SHAPES[s])),
              'accepted exactly when allowed')
    if ok:
        ctx.check(got.shape == shape and got.dtype.kind == kind_of(elems) and
                  same_nested(got.tolist(), val), 'kept')
    else:
        ctx.check(isinstance(got, p.ValidationError), 'kind of error')


@scenario('C28', tier='thorough', weight=10)
def more_roundtrip(ctx):
    """Mixed elements, every one of them special"""
    d = ctx.choice('dtype', list(range(len(DTYPES))))

    class Holder(p.HasProperties):
        a = p.Array('a', shape=None, dtype=DTYPES[d] or (float, int))

    kinds = ''.join(k for k in 'ifbc' if k in ALLOWED[d])
    val = [any_value(ctx, 'e%d' % i, kinds, ints=1 << 53, special=i != 1)
           for i in range(3)]
    if ctx.flag('deep'):
        val = [[v] for v in val]
    ok, h = attempt(Holder, a=val)
    if not ok:
        return
    out = h.serialize()
    ctx.check(json_compatible(out), 'JSON')
    back = Holder.deserialize(out)
    ctx.check(same_nested(back.a.tolist(), val), 'values')
    ctx.check(p.equal(back, h), 'equal')


@scenario('C28', weight=2)
def mixed(ctx):
    """Elements of mixed kinds take the wider kind"""
    d = ctx.choice('dtype', [0, 2, 5, 6, 7, 8])
    kw = {} if DTYPES[d] is None else {'dtype': DTYPES[d]}
    prop = p.Array('a', **kw)
    val = [any_value(ctx, 'e%d' % i, 'ifbc', ints=1 << 53, special=i > 0)
           for i in range(2)]
    ok, got = attempt(prop.validate, None, val)
    kind = kind_of(val)
    ctx.check(ok == (kind in ALLOWED[d]), 'accepted exactly when allowed')
    if not ok:
        ctx.check(isinstance(got, p.ValidationError), 'kind of error')
        return
    if type(val[0]) is not type(val[1]):
        ctx.cover('mixed')
    if kind == 'c':
        ctx.cover('complex')
    ctx.check(got.dtype.kind == kind and same_nested(got.tolist(), val),
              'values kept')


@scenario('C28')
def refused(ctx):
    """Everything that is not an array of numbers is refused"""
    class Holder(p.HasProperties):
        a = p.Array('a', shape=ctx.choice('shape', [None, ('*',), ('*', 2)]))
        f = p.Array('f', dtype=float, shape=None)

    x, y = ctx.int('x', -9, 9), ctx.float('y')
    bad = ctx.choice('bad', ['ragged', 'deep', 'none', 'text', 'object',
                             'number', 'dict', 'string', 'nonelist', 'set',
                             'huge', 'textlist'])
    val = {
        'ragged': [[x], [x, x]], 'deep': [x, [x]], 'none': [x, None],
        'text': [x, 'a'], 'object': [Thing()], 'number': y,
        'dict': {'a': x}, 'string': 'nan', 'nonelist': [None],
        'set': set([x]), 'huge': [2 ** 70, 1], 'textlist': ['nan'],
    }[bad]
    if bad in ('ragged', 'deep'):
        ctx.cover('ragged')
    if ctx.flag('tuple') and type(val) is list:
        val = tuple(val)
    name = ctx.choice('name', ['a', 'f'])
    h = Holder()
    old = [[1., 2.]]
    if name == 'f':
        h.f = old
    before = h.f
    ok, exc = attempt(setattr, h, name, val)
    ctx.check(not ok, 'refused')
    ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
    ctx.check(h.f is before and h.a is None, 'nothing stored')
    ok, exc = attempt(Holder, **{name: val})
    ctx.check(not ok and isinstance(exc, p.ValidationError), 'constructor')


@scenario('C28', weight=2)
def independence(ctx):
    """The stored array is a copy unless coercion is off"""
    class Holder(p.HasProperties):
        a = p.Array('a', shape=None, dtype=(float, int, bool))
        k = p.Array('k', shape=None, dtype=(float, int, bool), coerce=False)

    shape = ctx.choice('layout', [(2,), (1, 2)])
    val, elems = nested(ctx, 'e', shape, ctx.choice('kinds', 'ifb'))
    new = any_value(ctx, 'new', 'i', ints=9)
    h = Holder()
    form = ctx.choice('form', ['list', 'array', 'kept', 'list-kept', 'view'])
    if form == 'list-kept':
        ok, exc = attempt(setattr, h, 'k', val)
        ctx.check(not ok and isinstance(exc, p.ValidationError), 'only arrays')
        return
    src = val if form == 'list' else np.array(val)
    if form == 'view':
        src = src[...]
    if form == 'kept':
        h.k = src
        ctx.check(h.k is src, 'the same array')
        ctx.cover('kept')
        return
    h.a = src
    ctx.check(h.a is not src, 'another array')
    at = (0,) * (len(shape) - 1)
    if form == 'list':
        row = src
        for i in at:
            row = row[i]
        row[1] = new
    else:
        src[at + (1,)] = new
    ctx.cover('copied')
    ctx.check(same_nested(h.a.tolist(), build(shape, iter(elems), True)),
              'not changed with the input')
    g = Holder(a=h.a)
    g.a[at + (0,)] = new
    ctx.check(same(h.a.tolist()[0] if not at else h.a.tolist()[0][0],
                   elems[0]), 'not shared between objects')


@scenario('C28')
def again(ctx):
    """What was accepted is accepted again and stays equal"""
    prop = p.Array('a', shape=None, dtype=(float, int, bool, complex))
    shape = ctx.choice('layout', [(), (1,), (2,), (1, 2)])
    val, elems = nested(ctx, 'e', shape, 'ifbc' if len(elems_of(shape)) < 2
                        else ctx.choice('kinds', 'ifbc'))
    one = prop.validate(None, np.array(val))
    if not shape:
        ctx.cover('scalar')
    two = prop.validate(None, one)
    ctx.check(two.shape == one.shape and two.dtype == one.dtype, 'same type')
    ctx.check(same_nested(two.tolist(), one.tolist()), 'same values')
    ctx.check(prop.equal(one, two), 'equal')


def elems_of(shape):
    n = 1
    for s in shape:
        n *= s
    return range(n)


@scenario('C28', weight=4)
def roundtrip(ctx):
    """Written and read back equal, nan and infinities included"""
    d = ctx.choice('dtype', [0, 1, 2, 3, 4, 5, 6, 7])

    class Holder(p.HasProperties):
        a = p.Array('a', shape=None, dtype=DTYPES[d] or (float, int))

    shape = ctx.choice('layout', [(), (1,), (2,), (1, 2), (2, 1), (1, 1, 1)])
    kinds = [k for k in 'ifbc' if k in ALLOWED[d]]
    val, elems = nested(ctx, 'e', shape, ctx.choice('kinds', kinds))
    h = Holder(a=np.array(val))
    out = h.serialize()
    ctx.check(json_compatible(out), 'JSON')
    if any(isinstance(e, float) and not finite(e) for e in elems):
        ctx.cover('nan')
    if not shape:
        ctx.cover('scalar')
    back = Holder.deserialize(out)
    ctx.check(back.a.shape == shape, 'shape')
    ctx.check(same_nested(back.a.tolist(), val), 'values')
    ctx.check(back.a.dtype.kind in ALLOWED[d], 'allowed kind')
    ctx.check(p.equal(back, h), 'equal')
    ctx.check(exact(back.serialize(), out) or d != 0 and d < 5 or
              same_nested(back.serialize()['a'], out['a']), 'written again')


@scenario('C28')
def empty(ctx):
    """Arrays without elements"""
    class Holder(p.HasProperties):
        a = p.Array('a', shape=None)

    shape = ctx.choice('layout', [(0,), (1, 0), (2, 0), (0, 2), (0, 1, 2)])
    h = Holder(a=np.zeros(shape))
    out = h.serialize()
    ctx.check(json_compatible(out), 'JSON')
    back = Holder.deserialize(out)
    lost = shape[0] == 0 and len(shape) > 1
    ctx.check(back.a.shape == shape and p.equal(h, back), 'read back',
              known=[('empty-array', lost)])


@scenario('C28', weight=2)
def equality(ctx):
    """Equal exactly when type, shape and values agree"""
    prop = p.Array('a', shape=None, dtype=(float, int, bool))
    kinds = ctx.choice('kinds', ['i', 'f', 'b', 'if'])
    sa = ctx.choice('layout', [(1,), (2,), (1, 2)])
    sb = ctx.choice('other', [(1,), (2,), (1, 2), (2, 1)])
    kw = dict(ints=1 << 16, q=4, m=1 << 10)
    va, ea = nested(ctx, 'a', sa, kinds, **kw)
    vb, eb = nested(ctx, 'b', sb, kinds, **kw)
    got = prop.equal(np.array(va), np.array(vb))
    if sa != sb:
        ctx.cover('unequal')
        ctx.check(not got, 'other shape')
        return
    alike = all(same(x, y) for x, y in zip(ea, eb))
    ctx.check(prop.equal(np.array(va), np.array(va)), 'equal to itself')
    if alike:
        ctx.cover('equal')
        ctx.check(got, 'same values')
        return
    far = False
    for x, y in zip(ea, eb):
        if not same(x, y):
            if not (finite(x) and finite(y)):
                far = True
            elif abs(x - y) * 10000 > abs(x) + abs(y):
                far = True
    if far:
        ctx.cover('unequal')
        ctx.check(not got, 'other values')


@scenario('C28')
def near_zero(ctx):
    """Close to zero the tolerance of numbers counts"""
    prop = p.Array('a', shape=None, dtype=(float, int))
    d = ctx.choice('d', [0.0, 0.5e-9, -0.9e-9, 2e-9, -5e-9, 9e-9, 1e-7])
    side = ctx.flag('side')
    n = ctx.int('n', -8, 8)
    shape = ctx.choice('shape', [(1,), (2,), (2, 1)])
    zero = [float(n) for _ in elems_of(shape)]
    zero[-1] = 0.0
    near = list(zero)
    near[-1] = d
    pair = [np.array(build(shape, iter(zero), False)),
            np.array(build(shape, iter(near), False))]
    if side:
        pair = pair[::-1]
    want = -1e-9 <= d <= 1e-9
    ctx.check(bool(prop.equal(*pair)) == want, 'equal within the tolerance')
    ctx.cover('equal' if want else 'unequal')


@scenario('C28')
def objects(ctx):
    """Objects with arrays compare by their values"""
    class Holder(p.HasProperties):
        a = p.Array('a', required=False)
        n = p.Integer('n', required=False)

    def make(name):
        h = Holder()
        if ctx.flag(name + '.set'):
            h.a = [ctx.int(name + '0', -9, 9),
                   any_value(ctx, name + '1', 'if', ints=9, q=1, m=16)]
        return h
    g, h = make('g'), make('h')
    if g.a is None or h.a is None:
        want = g.a is None and h.a is None
    else:
        want = same_nested(g.a.tolist(), h.a.tolist())
    ctx.check(p.equal(g, h) == want, 'equal')
    c = p.copy(g)
    ctx.check(p.equal(c, g), 'copied')
    if g.a is not None:
        g.a[0] = 17
        ctx.check(c.a.tolist()[0] != 17, 'own array')


@scenario('C28')
def defaults(ctx):
    """Each object has its own default array"""
    x, y = ctx.int('x', -99, 99), any_value(ctx, 'y', 'if', ints=99)
    src = [x, y] if ctx.flag('list') else np.array([x, y])

    class Holder(p.HasProperties):
        a = p.Array('a', default=src)
        b = p.Array('b', default=lambda: [y])

    g, h = Holder(), Holder()
    ctx.check(same_nested(g.a.tolist(), [x, y]) and
              same_nested(g.b.tolist(), [y]), 'default')
    g.a[0] = 1000
    g.b[0] = 1000
    ctx.check(same_nested(h.a.tolist(), [x, y]) and
              same_nested(h.b.tolist(), [y]), 'own')
    ctx.check(same_nested(Holder().a.tolist(), [x, y]), 'class default kept')
    h.a = [y]
    del h.a
    ctx.check(h.a is None or same_nested(h.a.tolist(), [x, y]), 'after delete')


@scenario('C28')
def configuration(ctx):
    """Only documented shapes and kinds can be asked for"""
    good = [None, ('*',), (2,), (), ('*', 3), {(1,), ('*', 2)}]
    bad = ['*', 5, [2], ('a',), (1.5,), (None,), {5}, {('*',), None}, [('*',)],
           (2, 'any')]
    if ctx.flag('good'):
        s = ctx.choice('shape', list(range(len(good))))
        ok, exc = attempt(p.Array, 'a', shape=good[s])
        ctx.check(ok, 'shape accepted')
    else:
        s = ctx.choice('shape', list(range(len(bad))))
        ok, exc = attempt(p.Array, 'a', shape=bad[s])
        ctx.check(not ok and isinstance(exc, TypeError), 'shape refused')
    t = ctx.choice('dtype', [str, 'int', (), (float, str), None, object])
    ok, exc = attempt(p.Array, 'a', dtype=t)
    ctx.check(not ok and isinstance(exc, TypeError), 'kind refused')
