"""C19 written objects are JSON and read back equal"""
import json
import uuid

import numpy as np

import properties as p
from properties.extras import URL
from harness.common import any_value, exact, json_compatible, same_num
from harness.reg import attempt, scenario

BOUNDS = ('objects with one property of each kind holding a symbolic value, '
          'containers of up to 2 elements nested twice, instances nested '
          'twice, every combination of writing options')
ASSUMPTIONS = ['datetimes of whole seconds without time zone',
               'text inside a union only where no earlier alternative reads '
               'that text (see known findings)',
               'dictionary keys that JSON turns into text are finite choices']
WITNESSES = ['number', 'special', 'text', 'container', 'instance', 'union',
             'unset', 'custom', 'with-class', 'without-class', 'untyped',
             'calculated']


def scalar(ctx, name):
    """(property factory, value)"""
    k = ctx.pick(name, 9)
    if k == 0:
        return lambda: p.Integer('x'), ctx.number(name + 'v', 'ib', ints=64)
    if k == 1:
        v = ctx.number(name + 'v', 'if', ints=64, q=4, m=64, special=True)
        return lambda: p.Float('x'), v
    if k == 2:
        v = ctx.complex(name + 'v', q=2, m=16)
        return lambda: p.Complex('x'), v
    if k == 3:
        v = ctx.bool(name + 'v') if ctx.flag(name + 'py') else \
            [np.bool_(False), np.bool_(True)][ctx.pick(name + 'np', 2)]
        return lambda: p.Boolean('x'), v
    if k == 4:
        return (lambda: p.String('x', change_case='upper'),
                ctx.str(name + 'v', 2))
    if k == 5:
        return (lambda: p.StringChoice('x', {'Aa': ['b', 'c'], 'd': 'e'}),
                ctx.choice(name + 'v', ['AA', 'b', 'C', 'D', 'e']))
    if k == 6:
        return (lambda: p.Color('x'),
                tuple(ctx.int('%sc%d' % (name, i), 0, 255) for i in range(3)))
    if k == 7:
        return lambda: URL('x'), ctx.choice(name + 'v', [
            'http://a/b;c?d#e', 'ftp://x'])
    import datetime
    return lambda: p.DateTime('x'), datetime.datetime(
        ctx.choice(name + 'y', [1, 999, 1970, 9999]), 2, 3, 4, 5,
        ctx.choice(name + 's', [0, 59]))


def same(a, b):
    return exact(a, b) or a == b and type(a) is type(b)


def rewrite(js):
    """What a JSON file gives back"""
    return json.loads(json.dumps(js)) if not symbolic(js) else js


def symbolic(js):
    if isinstance(js, dict):
        for v in js.values():
            if symbolic(v):
                return True
        return False
    if isinstance(js, list):
        for v in js:
            if symbolic(v):
                return True
        return False
    return not (js is None or type(js).__module__ == 'builtins')


def round_trip(ctx, cls, a, **kw):
    ok, js = attempt(a.serialize, **kw)
    ctx.check(ok, 'can be written')
    if not ok:
        return None, None
    ctx.check(json_compatible(js), 'JSON')
    ok, again = attempt(a.serialize, **kw)
    ctx.check(ok and again == js and again is not js, 'written the same again')
    ok, b = attempt(cls.deserialize, js, trusted=True)
    ctx.check(ok, 'can be read')
    if not ok:
        return js, None
    ctx.check(type(b) is type(a), 'same class')
    ctx.check(p.equal(a, b) and p.equal(b, a), 'equal')
    ctx.check(set(a._backend) == set(b._backend), 'same properties set')
    ctx.check(b.serialize(**kw) == js, 'writes the same')
    return js, b


@scenario('C19', weight=5, conc=64)
def scalars(ctx):
    make, v = scalar(ctx, 'k')

    class A(p.HasProperties):
        x = make()
        y = p.Integer('y', required=False)
    a = A(x=v)
    stored = a.x
    inc = ctx.flag('include')
    ctx.cover('with-class' if inc else 'without-class')
    ctx.cover('number' if isinstance(stored, (int, float, complex))
              else 'text' if isinstance(stored, str) else 'special')
    ctx.cover('unset')
    js, b = round_trip(ctx, A, a, include_class=inc)
    ctx.check(set(js) == (set(['x', '__class__']) if inc else set(['x'])),
              'only what is set')
    ctx.check(a.x is stored, 'writing changes nothing')
    ctx.check(b is not None and same(b.x, stored), 'exact value back')


class Small(p.HasProperties):
    n = p.Integer('n', required=False)


@scenario('C19', weight=4, conc=16)
def calculated(ctx):
    """On demand, calculated values are written as a property holding the
    same value is"""
    k = ctx.pick('how', 8)
    if k == 0:
        make, v = scalar(ctx, 'k')
    else:
        import datetime
        n = ctx.int('n', -9, 9)
        day = datetime.datetime(2020, 1, 2, 3, 4, 5)
        make, v = [
            (lambda: p.List('x', p.Float('')), [n, float('nan')]),
            (lambda: p.Set('x', p.DateTime('')), set([day])),
            (lambda: p.Dictionary('x', value_prop=p.Tuple(
                '', p.Integer(''))), {'k': (n, 1)}),
            (lambda: p.Instance('x', Small), Small(n=n)),
            (lambda: p.Union('x', [p.Boolean(''), p.List('', Small)]),
             [Small(n=n), Small()]),
            (lambda: p.Vector3('x'), [n, 1, 2]),
            (lambda: p.Array('x', shape=('*', '*'), dtype=(int, float)),
             [[n, 2]])][k - 1]
    nothing = ctx.flag('nothing')

    class A(p.HasProperties):
        y = p.Integer('y', default=4)

        @make()
        def x(self):
            return None if nothing else v

    class B(p.HasProperties):
        y = p.Integer('y', default=4)
        x = make()
    a = A()
    b = B() if nothing else B(x=v)
    inc = ctx.flag('include')
    js = a.serialize(save_dynamic=True, include_class=inc)
    ctx.check(json_compatible(js), 'JSON')
    want = b.serialize(save_dynamic=True, include_class=inc)
    if inc:
        want['__class__'] = 'A'
    ctx.check(exact(js, want) or js == want, 'as if it was stored')
    ctx.cover('unset' if nothing else 'calculated')
    ctx.check('x' not in a.serialize(), 'on demand only')
    c = A.deserialize(js)
    ctx.check(c.y == 4 and p.equal(a, c), 'read back')


@scenario('C19', weight=4, conc=64)
def containers(ctx):
    k = ctx.pick('kind', 5)
    elem, v = scalar(ctx, 'e')
    two = ctx.flag('two')
    vals = [v, elem().validate(None, v)] if two else [v]
    obs = ctx.flag('observe')

    class A(p.HasProperties):
        x = [lambda: p.Tuple('x', elem()),
             lambda: p.List('x', elem(), observe_mutations=obs),
             lambda: p.Set('x', elem(), observe_mutations=obs),
             lambda: p.Dictionary('x', key_prop=p.String(''),
                                  value_prop=elem(), observe_mutations=obs),
             lambda: p.List('x', p.Tuple('', elem()))][k]()
    given = [lambda: tuple(vals), lambda: vals, lambda: set(vals),
             lambda: dict(zip('ab', vals)), lambda: [tuple(vals), ()]][k]()
    a = A(x=given)
    ctx.cover('container')
    js, b = round_trip(ctx, A, a)
    if b is None:
        return
    ctx.check(type(js['x']) is (dict if k == 3 else list), 'kind of JSON')
    ctx.check(type(b.x) is type(a.x), 'kind of container')
    if k == 2:
        ctx.check(len(a.x) == len(b.x) == len(js['x']), 'size')
    elif k == 3:
        for key in a.x:
            ctx.check(same(b.x[key], a.x[key]), 'exact value back')
    elif k != 4:
        for s, t in zip(a.x, b.x):
            ctx.check(same(s, t), 'exact value back')
    # the result is not connected to the object
    size = len(a.x)
    js['x'].clear()
    ctx.check(len(a.x) == size and len(b.x) == size, 'not connected')


@scenario('C19', weight=2, conc=64)
def keys(ctx):
    """Dictionary keys survive JSON's conversion to text"""
    k = ctx.pick('k', 4)
    key = [lambda: ctx.choice('i', [0, -7, 10 ** 20]),
           lambda: ctx.choice('f', [0.5, -2.0, 1e300]),
           lambda: ctx.flag('b'), lambda: ctx.choice('s', ['', '1', 'é'])][k]()
    v = ctx.int('v', -64, 64)

    class A(p.HasProperties):
        x = p.Dictionary('x', key_prop=[p.Integer, p.Float, p.Boolean,
                                        p.String][k](''),
                         value_prop=p.List('', p.Integer('')))
    a = A(x={key: [v, 1]})
    js = a.serialize()
    text = {'__class__': js['__class__'], 'x': {}}
    for kk in js['x']:
        text['x'][list(json.loads(json.dumps({kk: 1})))[0]] = js['x'][kk]
    for data in (js, text):
        b = A.deserialize(data)
        ctx.check(p.equal(a, b), 'equal')
        ctx.check([type(kk) for kk in b.x] == [type(kk) for kk in a.x],
                  'same kind of key')


@scenario('C19', weight=4)
def instances(ctx):
    n, m = ctx.int('n'), ctx.int('m')
    inc = ctx.flag('include')

    class Part(p.HasProperties):
        n = p.Integer('n', required=False)

    class Sub(Part):
        m = p.Integer('m', required=False)

    class Mid(p.HasProperties):
        part = p.Instance('part', Part, required=False)
        parts = p.List('parts', Part, default=list)

    class A(p.HasProperties):
        mid = p.Instance('mid', Mid)
        table = p.Dictionary('t', key_prop=p.String(''), value_prop=Part,
                             default=dict)

    def part(name, sub=True):
        k = ctx.pick(name, 4 if inc and sub else 3)
        if k == 0:
            return None
        if k == 1:
            return Part()
        if k == 2:
            return Part(n=n)
        return Sub(m=m)
    mid = Mid()
    a = A(mid=mid)
    p1 = part('p1')
    p2 = part('p2')
    p3 = part('p3')
    if p1 is not None:
        mid.part = p1
    if p2 is not None:
        mid.parts = [p2, p2]
    if p3 is not None:
        a.table = {'k': p3}
    ctx.cover('instance')

    def plain(o):
        d = {}
        if o.n is not None:
            d['n'] = o.n
        if type(o) is Sub and o.m is not None:
            d['m'] = o.m
        if inc:
            d['__class__'] = type(o).__name__
        return d
    js, b = round_trip(ctx, A, a, include_class=inc)
    want = {'mid': {'parts': [plain(p2)] * 2 if p2 is not None else []},
            'table': {'k': plain(p3)} if p3 is not None else {}}
    if p1 is not None:
        want['mid']['part'] = plain(p1)
    if inc:
        want['__class__'] = 'A'
        want['mid']['__class__'] = 'Mid'
    ctx.check(js == want, 'written as declared')
    if b is not None and p2 is not None:
        ctx.check(type(b.mid.parts[0]) is type(p2), 'class of the part')


@scenario('C19', weight=3, conc=64)
def unions(ctx):
    """The alternative that holds a value reads it back"""
    k = ctx.pick('k', 6)

    class Part(p.HasProperties):
        n = p.Integer('n')
    props, v = [
        lambda: ([p.Integer(''), p.Float('')],
                 ctx.number('v', 'if', ints=64, q=4, m=64, special=True)),
        lambda: ([p.Boolean(''), p.Integer(''), p.Float('')],
                 ctx.number('v', 'ifb', ints=64, q=4, m=64)),
        lambda: ([p.Complex('', ), p.Color('')],
                 ctx.complex('v', q=2, m=16) if ctx.flag('c') else
                 (1, 2, ctx.int('i', 0, 255))),
        lambda: ([Part, p.Integer(''), p.List('', p.Integer(''))],
                 [lambda: Part(n=ctx.int('n')), lambda: ctx.int('n'),
                  lambda: [ctx.int('n')]][ctx.pick('alt', 3)]()),
        lambda: ([p.String(''), p.Integer(''), p.Boolean('')],
                 any_value(ctx, 'v', 'sib', ints=64, maxlen=1,
                           alphabet='1ay')),
        lambda: ([p.Integer(''), p.Boolean(''), p.String('')],
                 any_value(ctx, 'v', 'sib', ints=64, maxlen=1,
                           alphabet='1ay')),
    ][k]()

    class A(p.HasProperties):
        x = p.Union('x', props)
    a = A(x=v)
    ctx.cover('union')
    js = a.serialize()
    ctx.check(json_compatible(js), 'JSON')
    b = A.deserialize(js)
    known = []
    if k == 5 and isinstance(v, str):
        # text an earlier alternative can read
        known = [('union-text', v in ('1', 'y'))]
    ctx.check(p.equal(a, b), 'equal', known=known)
    ctx.check(type(a.x) is type(b.x), 'kind of value', known=known)


@scenario('C19', weight=3)
def custom(ctx):
    """Custom writers and readers are asked about the value, once, with the
    options they accept; what they give is used"""
    v = ctx.int('v')
    style = ctx.pick('style', 2)
    where = ctx.pick('where', 4)
    calls = []
    if style == 0:
        def write(value):
            calls.append(('w', value))
            return {'as': value} if value != 3 else None

        def read(value):
            calls.append(('r', value))
            return value['as']
    else:
        def write(value, include_class, extra=None, **kwargs):
            calls.append(('w', value, include_class, extra))
            return {'as': value} if value != 3 else None

        def read(value, trusted, extra=None, **kwargs):
            calls.append(('r', value, trusted, extra))
            return value['as']
    prop = p.Integer('x', serializer=write, deserializer=read)

    class Part(p.HasProperties):
        x = prop

    class A(p.HasProperties):
        one = [lambda: p.Instance('', Part), lambda: p.List('', Part),
               lambda: p.Union('', [p.String(''), Part]),
               lambda: p.Dictionary('', value_prop=Part)][where]()
    part = Part(x=v)
    a = A(one=[part, [part], part, {'k': part}][where])
    inc = ctx.flag('include')
    js = a.serialize(include_class=inc, extra=5)
    ctx.cover('custom')
    ctx.check(calls == [('w', v) if style == 0 else ('w', v, inc, 5)],
              'asked once')
    pj = {'x': {'as': v}} if v != 3 else {}
    if inc:
        pj['__class__'] = 'Part'
    want = [pj, [pj], pj, {'k': pj}][where]
    ctx.check(js.get('one') == want, 'result used')
    if v != 3:
        del calls[:]
        trusted = ctx.flag('trusted')
        b = A.deserialize(js, trusted=trusted, extra=6)
        r = [b.one, b.one, b.one, b.one][where]
        got = [lambda: r, lambda: r[0], lambda: r, lambda: r['k']][where]()
        ctx.check(got.x == v and type(got) is Part, 'read')
        ctx.check(calls == [('r', {'as': v}) if style == 0 else
                            ('r', {'as': v}, trusted, 6)], 'asked once')


@scenario('C19', weight=2)
def nothing(ctx):
    """None is neither written nor read"""
    k = ctx.pick('k', 10)

    class Part(p.HasProperties):
        n = p.Integer('n')
    prop = [lambda: p.Integer(''), lambda: p.Float(''), lambda: p.Complex(''),
            lambda: p.Color(''), lambda: p.DateTime(''),
            lambda: p.List('', p.Integer('')), lambda: p.Dictionary(''),
            lambda: p.Instance('', Part), lambda: p.Union('', [Part]),
            lambda: p.Uuid('')][k]()
    ctx.check(prop.serialize(None) is None, 'written as nothing')
    ctx.check(prop.deserialize(None) is None, 'read as nothing')


@scenario('C19', weight=3)
def untyped(ctx):
    """Containers of anything and plain properties: JSON values, None
    included, are written and read back at their places"""
    k = ctx.pick('k', 4)
    vals = []
    for i in range(2):
        j = ctx.pick('v%d' % i, 6)
        vals.append([lambda: None, lambda: ctx.int('n%d' % i),
                     lambda: ctx.bool('b%d' % i), lambda: ctx.str('s%d' % i, 1),
                     lambda: [None, ctx.int('n%d' % i)],
                     lambda: {'k': None}][j]())
    obs = ctx.flag('observe')

    class A(p.HasProperties):
        x = [lambda: p.Tuple('x'), lambda: p.List('x', observe_mutations=obs),
             lambda: p.Dictionary('x', observe_mutations=obs),
             lambda: p.Property('x')][k]()
    given = [tuple(vals), list(vals), {'a': vals[0], 'b': vals[1]},
             vals[0]][k]
    a = A(x=given)
    ctx.cover('untyped')
    js = a.serialize()
    want = {'__class__': 'A'}
    if given is not None:
        want['x'] = [lambda: list(vals), lambda: list(vals),
                     lambda: dict(given), lambda: vals[0]][k]()
    ctx.check(js == want and json_compatible(js), 'written as it is')
    b = A.deserialize(js)
    ctx.check(type(b.x) is type(a.x), 'kind')
    ctx.check(b.x == a.x and exact(b.x, a.x), 'read back')
    ctx.check(b.serialize() == js, 'writes the same')


@scenario('C19', weight=2)
def plain_objects(ctx):
    """Objects of plain classes are written as a copy in plain JSON"""
    k = ctx.pick('k', 4)
    n = ctx.int('n', -9, 9)
    made = [lambda: {'a': [n, (1, n)]}, lambda: [n, {'b': (n,)}],
            lambda: (n, [n]), lambda: n][k]()
    cls = [dict, list, tuple, int][k]
    where = ctx.pick('where', 4)
    prop = [lambda: p.Instance('x', cls), lambda: p.List(
        'x', p.Instance('', cls)), lambda: p.Dictionary(
            'x', value_prop=p.Instance('', cls)), lambda: p.Union(
                'x', [p.Boolean(''), p.Instance('', cls)])][where]()

    class A(p.HasProperties):
        x = prop
    a = A(x=[made, [made], {'k': made}, made][where])
    js = a.serialize(include_class=False)
    out = [lambda: js['x'], lambda: js['x'][0], lambda: js['x']['k'],
           lambda: js['x']][where]()
    want = [{'a': [n, [1, n]]}, [n, {'b': [n]}], [n, [n]], n][k]
    ctx.check(json_compatible(js) and exact_json(out, want), 'plain JSON')
    if k < 3:
        held = [lambda: a.x, lambda: a.x[0], lambda: a.x['k'],
                lambda: a.x][where]()
        ctx.check(out is not held, 'a copy')
        if k < 2:
            inner = held['a'] if k == 0 else held
            inner.append(7)
            ctx.check(exact_json(out, want), 'nothing shared')
    js2 = a.serialize(include_class=False)
    ctx.check(js2 is not js, 'written again')


def exact_json(a, b):
    """Same JSON, lists being lists"""
    if isinstance(b, dict):
        return type(a) is dict and set(a) == set(b) and all(
            [exact_json(a[k], b[k]) for k in b])
    if isinstance(b, list):
        return type(a) is list and len(a) == len(b) and all(
            [exact_json(x, y) for x, y in zip(a, b)])
    return exact(a, b)


@scenario('C19', weight=2)
def calculated_parts(ctx):
    """Calculated values of the parts are written on demand as well"""
    n = ctx.int('n', -9, 9)

    class Part(p.HasProperties):
        n = p.Integer('n')

        @p.Integer('twice')
        def twice(self):
            return None if self.n is None else 2 * self.n
    k = ctx.pick('k', 6)
    make, given, pick = [
        (lambda: p.Instance('x', Part), lambda a: a, lambda js: js),
        (lambda: p.List('x', Part), lambda a: [a], lambda js: js[0]),
        (lambda: p.Tuple('x', p.Instance('', Part)), lambda a: (a,),
         lambda js: js[0]),
        (lambda: p.Dictionary('x', value_prop=p.Instance('', Part)),
         lambda a: {'k': a}, lambda js: js['k']),
        (lambda: p.Union('x', [p.Integer(''), p.List('', Part)]),
         lambda a: [a], lambda js: js[0]),
        (lambda: p.Union('x', [p.Boolean(''), Part]), lambda a: a,
         lambda js: js)][k]
    dynamic = ctx.flag('dynamic')
    held = []

    class A(p.HasProperties):
        if dynamic:
            @make()
            def x(self):
                return held[0]
        else:
            x = make()
    part = Part() if ctx.flag('unset') else Part(n=n)
    held.append(given(part))
    a = A()
    if not dynamic:
        a.x = held[0]
    for save in (True, False):
        inc = ctx.flag('inc') if save else True
        js = a.serialize(save_dynamic=save, include_class=inc)
        if dynamic and not save:
            ctx.check('x' not in js, 'on demand only')
            continue
        got = dict(pick(js['x']))
        got.pop('__class__', None)
        want = {} if part.n is None else {'n': n}
        if save and part.n is not None:
            want['twice'] = 2 * n
        ctx.check(got == want, 'what was asked for')
        ctx.check(('__class__' in pick(js['x'])) == inc, 'class name')


@scenario('C19')
def written_keys(ctx):
    """Keys and values are written by their properties"""
    import datetime
    days = [datetime.datetime(2020, 1, 2, 3, 4, 5),
            datetime.datetime(1999, 12, 31)]
    k = ctx.pick('k', 4)
    rgb = p.Property('', serializer=lambda x, **kw: '%02x' * 3 % x,
                     deserializer=lambda x, **kw: tuple(
                         int(x[i:i + 2], 16) for i in (0, 2, 4)))
    kp, key = [(lambda: p.DateTime(''), days[0]),
               (lambda: rgb, (255, 0, 1)),
               (lambda: p.Union('', [p.DateTime(''), p.Integer('')]),
                [days[1], 4][ctx.pick('which', 2)]),
               (lambda: p.StringChoice('', {'a': ['b']}), 'a')][k]

    class A(p.HasProperties):
        x = p.Dictionary('x', key_prop=kp(), value_prop=p.DateTime(''))
    a = A(x={key: days[0]})
    js = a.serialize()
    kk = list(js['x'])[0]
    ctx.check(isinstance(kk, (str, int)) and js['x'][kk] ==
              p.DateTime('').serialize(days[0]), 'written')
    b = A.deserialize(js)
    ctx.check(len(b.x) == 1 and list(b.x)[0] == key, 'key read back')
    ctx.check(b.x[key] == days[0], 'value read back')
    ctx.check(p.equal(a, b), 'equal')


@scenario('C19', weight=2)
def beyond_limits(ctx):
    """Everything an object holds is written and read, also what is no
    longer within the limits"""
    top = ctx.pick('top', 3)
    more = 1 + ctx.pick('more', 4)
    v = ctx.int('v')
    k = ctx.pick('kind', 3)

    class A(p.HasProperties):
        x = [lambda: p.List('', p.Property(''), max_length=top, default=list),
             lambda: p.Tuple('', p.Integer(''), max_length=top),
             lambda: p.List('', p.List('', p.Integer('')),
                            max_length=top)][k]()
    held = [v + i for i in range(top)]
    if k == 2:
        held = [[i] for i in held]
    a = A(x=tuple(held) if k == 1 else held)
    if k == 1:
        a._backend['x'] = tuple(held) + tuple(range(more))
    else:
        for i in range(more):
            a.x.append(i if k == 0 else [i])
    ok, js = attempt(a.serialize)
    ctx.check(ok, 'written')
    want = held + [i if k != 2 else [i] for i in range(more)]
    ctx.check(ok and exact([i if k != 2 else list(i) for i in js['x']],
                           want), 'everything')
    ok, b = attempt(A.deserialize, js)
    ctx.check(ok and exact([i if k != 2 else list(i) for i in b.x], want),
              'read, all of it')
    ok, err = attempt(b.validate)
    ctx.check(not ok and isinstance(err, p.ValidationError),
              'which validation tells')


@scenario('C19')
def unwritable_keys(ctx):
    """What has no JSON form is refused, not left out"""
    v = ctx.int('v')
    key = ctx.choice('key', ['a', 1, None, True, 1.5, (1, 2), b'x'])
    deep = ctx.flag('deep')

    class A(p.HasProperties):
        x = p.Instance('', dict)
    given = {'k': {key: v}} if deep else {key: v, 'b': 1}
    a = A()
    a.x = given
    ok, js = attempt(a.serialize)
    ctx.check(ok == (not isinstance(key, (tuple, bytes))),
              'written exactly when there is a form')
    if ok:
        got = js['x']['k'] if deep else js['x']
        ctx.check(len(got) == (1 if deep else 2) and v in got.values(),
                  'nothing lost')
