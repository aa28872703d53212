"""C35 a property type made by the user is used everywhere as declared"""
import warnings

import properties as p
from harness.common import any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('one user-made property type with symbolic limit, default and '
          'tolerance in nine places (directly, as element, key, value, '
          'alternative, calculated, renamed, in parts, read-only) with '
          'symbolic integers')
ASSUMPTIONS = ['the type keeps to the documented rules: validation raises '
               'ValueErrors and does not change what it gave']
WITNESSES = ['accepted', 'refused', 'default', 'written', 'equal', 'unequal',
             'quiet', 'told', 'instance', 'bare-error']

PLACES = ['direct', 'list', 'tuple', 'set', 'value', 'key', 'union', 'part',
          'nested']


def declare(ctx, lim, tol, calls, style='error', default=None):
    """A type of integers up to a limit, kept without sign, written as
    dictionaries, equal within a tolerance"""
    class Size(p.Property):
        class_info = 'a size'

        def validate(self, instance, value):
            calls.append(('validate', instance))
            if type(value) is bool or not isinstance(value, int):
                self.error(instance, value)
            if value < 0:
                value = -value
            if value > lim:
                if style == 'error':
                    self.error(instance, value, extra='too big')
                raise ValueError('too big')
            return value

        @staticmethod
        def to_json(value, **kwargs):
            calls.append(('write', kwargs))
            return {'size': value}

        @staticmethod
        def from_json(value, **kwargs):
            calls.append(('read', kwargs))
            return value['size']

        def equal(self, value_a, value_b):
            calls.append(('equal', None))
            return abs(value_a - value_b) <= tol
    if default is not None:
        Size._class_default = default
    return Size


def place(Size, where):
    """(property, how to put a value in, how to take it out)"""
    same = lambda v: v
    if where == 'direct':
        return Size('x'), same, same
    if where == 'list':
        return p.List('x', Size('')), lambda v: [v], lambda x: x[0]
    if where == 'tuple':
        return p.Tuple('x', Size('')), lambda v: (v,), lambda x: x[0]
    if where == 'set':
        return p.Set('x', Size('')), lambda v: set([v]), \
            lambda x: list(x)[0]
    if where == 'value':
        return p.Dictionary('x', value_prop=Size('')), lambda v: {'k': v}, \
            lambda x: x['k']
    if where == 'key':
        return p.Dictionary('x', key_prop=Size('')), lambda v: {v: 'k'}, \
            lambda x: list(x)[0]
    if where == 'union':
        return p.Union('x', [p.String(''), Size('')]), same, same
    if where == 'nested':
        return p.List('x', p.Dictionary('', value_prop=p.Union('', [
            p.Boolean(''), Size('')]))), lambda v: [{'k': v}], \
            lambda x: x[0]['k']

    class Part(p.HasProperties):
        x = Size('x')
    return p.Instance('x', Part), lambda v: {'x': v}, lambda i: i.x


@scenario('C35', weight=4)
def assigned(ctx):
    """Values are refused and coerced by the user's rules in every place"""
    lim = ctx.int('lim', 0, 50)
    where = ctx.choice('where', PLACES)
    v = any_value(ctx, 'v', 'io' if where != 'direct' else 'isnbo', maxlen=1,
                  ints=99)
    style = ctx.choice('style', ['error', 'bare'])
    calls = []
    Size = declare(ctx, lim, 0, calls, style)
    prop, put, take = place(Size, where)

    class A(p.HasProperties):
        x = prop
    a = A()
    good = type(v) is not bool and isinstance(v, int) and -lim <= v and \
        v <= lim
    if where == 'set' and not isinstance(v, int):
        return
    how = ctx.choice('how', ['attribute', 'constructor', 'validate'])
    given = put(v)
    if how == 'attribute':
        ok, err = attempt(setattr, a, 'x', given)
    elif how == 'constructor':
        ok, err = attempt(A, x=given)
        a = err if ok else a
    else:
        ok, err = attempt(prop.validate, None, given)
    ctx.check(ok == good, 'accepted exactly by the rule')
    owners = [i for c, i in calls if c == 'validate']
    if how == 'validate' and where != 'part':
        ctx.check(owners and [i for i in owners if i is not None] == [],
                  'asked without owner')
    elif how == 'attribute' and where != 'part':
        ctx.check(owners and [i for i in owners if i is not a] == [],
                  'asked for the owner')
        ctx.cover('instance')
    if not ok:
        ctx.cover('refused')
        ctx.check(isinstance(err, ValueError), 'a ValueError')
        if style == 'error' or where not in ('direct', 'key', 'value'):
            ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
        else:
            ctx.cover('bare-error')
        ctx.check('x' not in a._backend, 'nothing stored')
        return
    ctx.cover('accepted')
    want = v if v >= 0 else -v
    held = err if how == 'validate' else a.x
    ctx.check(exact(take(held), want), 'coerced')
    if how != 'validate':
        ok, err = attempt(a.validate)
        ctx.check(ok, 'valid')
        before = a.x
        a.x = a.x
        ctx.check(a.x is before or a.x == before or where == 'part', 'stable')


@scenario('C35', weight=3)
def written(ctx):
    """Written by the user's writer, read by the user's reader, everywhere"""
    where = ctx.choice('where', PLACES)
    v = ctx.int('v', -9, 9)
    inc = ctx.flag('include')
    calls = []
    Size = declare(ctx, 9, 0, calls)
    prop, put, take = place(Size, where)

    class A(p.HasProperties):
        x = prop
    a = A(x=put(v))
    want = v if v >= 0 else -v
    del calls[:]
    if where == 'key':
        # a dictionary cannot be a key
        ok, err = attempt(a.serialize)
        ctx.check(not ok and isinstance(err, TypeError), 'cannot be written')
        return
    js = a.serialize(include_class=inc, more=3)
    ctx.cover('written')
    w = [k for c, k in calls if c == 'write']
    ctx.check(len(w) == 1 and w[0].get('more') == 3 and
              w[0].get('include_class') is inc, 'asked once, with the options')
    data = js['x']
    inner = {'direct': lambda: data, 'list': lambda: data[0],
             'tuple': lambda: data[0], 'set': lambda: data[0],
             'value': lambda: data['k'], 'union': lambda: data,
             'part': lambda: data['x'], 'nested': lambda: data[0]['k']}[
                 where]()
    ctx.check(inner == {'size': want}, 'as the writer gave it')
    trusted = ctx.flag('trusted')
    del calls[:]
    if where in ('union', 'nested'):
        b = A.deserialize(js, trusted=trusted)
    else:
        b = A.deserialize(js, trusted=trusted, other=4)
        r = [k for c, k in calls if c == 'read']
        ctx.check(len(r) == 1 and r[0].get('other') == 4 and
                  r[0].get('trusted') is trusted, 'read once, with the options')
    ctx.check(exact(take(b.x), want), 'read')
    ctx.check(p.equal(a, b), 'equal')
    c = p.copy(a)
    ctx.check(p.equal(a, c) and exact(take(c.x), want), 'copied')


@scenario('C35', weight=3)
def compared(ctx):
    """Compared by the user's equality, everywhere"""
    where = ctx.choice('where', [w for w in PLACES if w not in ('key', 'set')])
    v, w = ctx.int('v', 0, 99), ctx.int('w', 0, 99)
    tol = ctx.int('tol', 0, 9)
    calls = []
    Size = declare(ctx, 99, tol, calls)
    prop, put, take = place(Size, where)
    log = []

    class A(p.HasProperties):
        x = prop

        @p.observer('x', change_only=True)
        def _c(self, change):
            log.append('change')

        @p.observer('x')
        def _o(self, change):
            log.append('set')
    a, b = A(x=put(v)), A(x=put(w))
    close = (v - w if v >= w else w - v) <= tol
    same = p.equal(a, b)
    ctx.check(same == bool(close), 'equal exactly by the rule')
    ctx.cover('equal' if same else 'unequal')
    del log[:]
    a.x = put(w)
    ctx.check(list(log) == (['set'] if close else ['change', 'set']),
              'change-only observers use the rule')
    ctx.cover('quiet' if close else 'told')
    ctx.check(take(a.x) == w, 'stored')


@scenario('C35', weight=2)
def default(ctx):
    """The default of the type is used wherever nothing nearer is given"""
    d = ctx.int('d', 0, 9)
    own = ctx.choice('own', ['none', 'value', 'undefined', 'class', 'call'])
    n = ctx.int('n', 0, 9)
    calls = []
    Size = declare(ctx, 9, 0, calls, default=staticmethod(lambda: d)
                   if own == 'call' else d)
    Sub = type('Sub', (Size,), {})
    kind = Sub if ctx.flag('sub') else Size
    kw = {'value': {'default': n}, 'undefined': {'default': p.undefined}}.get(
        own, {})
    body = {'x': kind('x', **kw)}
    if own == 'class':
        body['_defaults'] = {'x': n}
    A = type(p.HasProperties)('A', (p.HasProperties,), body)
    a = A()
    want = {'none': d, 'call': d, 'value': n, 'class': n}.get(own)
    ctx.check(exact(a.x, want), 'default')
    ctx.cover('default')
    a.x = 5
    a._reset('x')
    ctx.check(exact(a.x, want), 'reset')
    del a.x
    ctx.check(a.x is None, 'deleting leaves nothing')
    # not inside containers or lists of alternatives
    L = type(p.HasProperties)('L', (p.HasProperties,), {
        'x': p.List('x', kind('', **kw))})
    ctx.check(L().x is None, 'not of elements')


@scenario('C35', weight=2)
def other_places(ctx):
    """Calculated, renamed and read-only properties use the type too"""
    v = ctx.int('v', -99, 99)
    lim = ctx.int('lim', 0, 50)
    calls = []
    Size = declare(ctx, lim, 0, calls)
    k = ctx.choice('k', ['dynamic', 'setter', 'renamed', 'gettable'])
    got = []

    class Fixed(p.GettableProperty):
        validate = Size.validate
        to_json = staticmethod(Size.to_json)

    body = {}
    if k == 'dynamic':
        body['x'] = Size('x')(named(lambda self: v))
    elif k == 'setter':
        body['x'] = Size('x')(named(lambda self: 1)).setter(
            named(lambda self, value: got.append(value)))
    elif k == 'renamed':
        body = {'y': Size('y'), 'x': p.Renamed('y')}
    good = -lim <= v and v <= lim
    if k == 'gettable':
        def make():
            return type(p.HasProperties)('A', (p.HasProperties,), {
                'x': Fixed('x', default=v)})()
        ok, a = attempt(make)
        ctx.check(ok == good, 'accepted exactly by the rule')
        if ok:
            ctx.check(a.x == (v if v >= 0 else -v), 'coerced')
        return
    A = type(p.HasProperties)('A', (p.HasProperties,), body)
    a = A()
    if k == 'dynamic':
        ok, x = attempt(getattr, a, 'x')
    else:
        ok, x = attempt(setattr, a, 'x', v)
        if ok:
            x = got[0] if k == 'setter' else a.y
    ctx.check(ok == good, 'accepted exactly by the rule')
    if ok:
        ctx.check(exact(x, v if v >= 0 else -v), 'coerced')
    else:
        ctx.check(isinstance(x, p.ValidationError) and got == [], 'refused')


def named(fn):
    fn.__name__ = 'x'
    return fn


@scenario('C35', weight=2)
def unset(ctx):
    """A value never equals no value, and the rule is not asked for it"""
    where = ctx.choice('where', [w for w in PLACES if w != 'key'])
    v = ctx.int('v', 0, 99)
    calls = []
    Size = declare(ctx, 99, 0, calls)
    prop, put, take = place(Size, where)
    log = []

    class A(p.HasProperties):
        x = prop

        @p.observer('x', change_only=True)
        def _c(self, change):
            log.append(change['value'] is p.undefined)
    a, b = A(), A()
    if ctx.flag('cleared'):
        b.x = put(v)
        del b.x
    if where != 'part':
        ctx.check(p.equal(a, b) and p.equal(b, a), 'both unset')
    del log[:]
    a.x = put(v)
    ctx.check(log == [False], 'setting is a change')
    ctx.check(not p.equal(a, b) and not p.equal(b, a), 'set and unset')
    del a.x
    ctx.check(log == [False, True], 'clearing is a change')
    del a.x
    ctx.check(log == [False, True], 'clearing again is none')
    asked = [1 for c, i in calls if c == 'equal']
    ctx.check(not asked, 'the rule compares values only')
    ctx.cover('unequal')


@scenario('C35', weight=2)
def calculated(ctx):
    """Calculated values are compared and written by the type"""
    v, w = ctx.int('v', 0, 99), ctx.int('w', 0, 99)
    tol = ctx.int('tol', 0, 9)
    calls = []
    Size = declare(ctx, 99, tol, calls)

    class A(p.HasProperties):
        n = p.Integer('n', required=False)

        def __init__(self, n):
            self._n = n

        @Size('d')
        def d(self):
            return self._n
    a, b = A(v), A(w)
    close = (v - w if v >= w else w - v) <= tol
    ctx.check(p.equal(a, b) == bool(close), 'equal exactly by the rule')
    ctx.cover('equal' if close else 'unequal')
    del calls[:]
    js = a.serialize(save_dynamic=True, include_class=False, more=4)
    ctx.cover('written')
    ctx.check(js == {'d': {'size': v}}, 'written by the writer')
    opts = [k for c, k in calls if c == 'write']
    ctx.check(len(opts) == 1 and opts[0].get('more') == 4, 'with the options')


@scenario('C35', weight=2)
def keys(ctx):
    """Keys of dictionaries are written and read with the options of the
    call"""
    v = ctx.int('v', -9, 9)
    unit = ctx.choice('unit', ['m', 'k'])
    inside = ctx.choice('inside', ['direct', 'list', 'part'])
    trusted = ctx.flag('trusted')
    calls = []

    class Key(p.Integer):
        @staticmethod
        def to_json(value, **kwargs):
            calls.append(kwargs)
            return value + (1000 if kwargs.get('unit') == 'k' else 0)

        @staticmethod
        def from_json(value, **kwargs):
            calls.append(kwargs)
            return value - (1000 if kwargs.get('unit') == 'k' else 0)

    class Part(p.HasProperties):
        x = p.Dictionary('x', key_prop=Key(''), value_prop=p.Integer(''))

    class A(p.HasProperties):
        if inside == 'direct':
            x = p.Dictionary('x', key_prop=Key(''), value_prop=p.Integer(''))
        elif inside == 'list':
            x = p.List('x', p.Dictionary('', key_prop=Key(''),
                                         value_prop=p.Integer('')))
        else:
            x = p.Instance('x', Part)
    put = {'direct': lambda d: d, 'list': lambda d: [d],
           'part': lambda d: {'x': d}}[inside]
    a = A(x=put({v: 5}))
    js = a.serialize(include_class=False, unit=unit)
    want = v + 1000 if unit == 'k' else v
    ctx.check(js == {'x': put({want: 5})}, 'written')
    ctx.cover('written')
    ctx.check(len(calls) == 1 and calls[0].get('include_class') is False,
              'with the options')
    del calls[:]
    b = A.deserialize(js, unit=unit, trusted=trusted)
    ctx.check(p.equal(a, b), 'read')
    ctx.check(len(calls) == 1 and calls[0].get('trusted') is trusted,
              'with the options')


@scenario('C35', weight=2)
def nothing(ctx):
    """A type that takes None takes it inside containers too"""
    where = ctx.choice('where', ['list', 'tuple', 'set', 'value', 'key',
                                 'union', 'nested', 'deep'])
    takes = ctx.flag('takes')
    v = any_value(ctx, 'v', 'in', ints=9)
    calls = []

    class Maybe(p.Property):
        def validate(self, instance, value):
            calls.append(instance)
            if value is None and takes:
                return value
            if type(value) is bool or not isinstance(value, int):
                self.error(instance, value)
            return value
    prop, put, take = {
        'list': lambda: (p.List('x', Maybe('')), lambda v: [1, v],
                         lambda x: x[1]),
        'tuple': lambda: (p.Tuple('x', Maybe('')), lambda v: (v, 1),
                          lambda x: x[0]),
        'set': lambda: (p.Set('x', Maybe('')), lambda v: set([v]),
                        lambda x: list(x)[0]),
        'value': lambda: (p.Dictionary('x', value_prop=Maybe('')),
                          lambda v: {'k': v}, lambda x: x['k']),
        'key': lambda: (p.Dictionary('x', key_prop=Maybe('')),
                        lambda v: {v: 'k'}, lambda x: list(x)[0]),
        'union': lambda: (p.List('x', p.Union('', [p.String(''), Maybe('')])),
                          lambda v: [v], lambda x: x[0]),
        'nested': lambda: (p.List('x', p.List('', Maybe(''))),
                           lambda v: [[v]], lambda x: x[0][0]),
        'deep': lambda: (p.Dictionary('x', value_prop=p.Tuple('', Maybe(''))),
                         lambda v: {'k': (v, 3)}, lambda x: x['k'][0])}[
                             where]()

    class A(p.HasProperties):
        x = prop
    a = A()
    ok, err = attempt(setattr, a, 'x', put(v))
    good = takes or v is not None
    ctx.check(ok == good, 'accepted exactly by the rule')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError) and a.x is None,
                  'refused')
        if where != 'set' and where != 'key':
            # put in behind the back of the property
            a.x = put(5)
            {'list': lambda: a.x.append(None),
             'tuple': lambda: a._backend.update(x=(None,)),
             'value': lambda: a.x.update(k=None),
             'union': lambda: a.x.append(None),
             'nested': lambda: a.x[0].append(None),
             'deep': lambda: a.x.update(k=(None,))}[where]()
            ok, err = attempt(a.validate)
            ctx.check(not ok and isinstance(err, p.ValidationError),
                      'reported by validation')
        return
    ctx.check(exact(take(a.x), v), 'kept')
    del calls[:]
    ok, err = attempt(a.validate)
    ctx.check(ok, 'valid')
    ctx.check(calls and [i for i in calls if i is not a] == [],
              'asked for the owner')
    if where != 'key':
        js = a.serialize()
        b = A.deserialize(js)
        ctx.check(exact(take(b.x), v), 'read')
        ctx.check(p.equal(a, b) and p.equal(b, a), 'equal')
        ctx.check(p.equal(a, p.copy(a)), 'copied')


@scenario('C35', weight=2)
def rows(ctx):
    """Nothing put into the rows of a container of containers is reported"""
    k = ctx.pick('k', 4)
    n = ctx.int('n', -9, 9)
    inner = ctx.pick('inner', 3)
    none = ctx.flag('none')
    make = [lambda: p.List(''), lambda: p.Tuple('', coerce=True),
            lambda: p.Dictionary('')][inner]
    row = [[n], (n,), {'k': n}][inner]
    prop = [lambda: p.List('x', make()), lambda: p.Dictionary(
        'x', value_prop=make()), lambda: p.List('x', p.List('', make())),
        lambda: p.List('x', p.Union('', [make(), p.String('')]))][k]()

    class A(p.HasProperties):
        x = prop
    a = A(x=[lambda: [row], lambda: {'a': row}, lambda: [[row]],
             lambda: [row]][k]())
    ok, err = attempt(a.validate)
    ctx.check(ok, 'valid')
    bad = None if none else n
    [lambda: a.x.append(bad), lambda: a.x.update(b=bad),
     lambda: a.x[0].append(bad), lambda: a.x.append(bad)][k]()
    ok, err = attempt(a.validate)
    ctx.check(not ok and isinstance(err, p.ValidationError), 'reported')


class Never(p.Integer):
    """No two values are equal"""

    def equal(self, value_a, value_b):
        return False


@scenario('C35', weight=2)
def never_equal(ctx):
    """The rule decides even about the very same value"""
    where = ctx.choice('where', [w for w in PLACES if w not in (
        'key', 'union', 'nested')] + ['only', 'row'])
    v = ctx.int('v', -9, 9)
    if where == 'only':
        prop, put, take = p.Union('x', [Never('')]), lambda v: v, lambda x: x
    elif where == 'row':
        prop, put, take = p.Tuple('x', p.List('', Never(''))), \
            lambda v: ([v],), lambda x: x[0][0]
    else:
        prop, put, take = place(Never, where)
    log = []

    class A(p.HasProperties):
        x = prop

        @p.observer('x', change_only=True)
        def _c(self, change):
            log.append('change')
    a, b = A(x=put(v)), A(x=put(v))
    ctx.check(not p.equal(a, b), 'not equal')
    ctx.check(not A._props['x'].equal(a.x, b.x), 'not equal')
    ctx.check(not p.equal(a, p.copy(a)), 'nor a copy')
    ctx.cover('unequal')
    del log[:]
    a.x = put(v)
    ctx.check(log == ['change'], 'told')
    # nothing to compare
    c = {'list': [], 'tuple': (), 'set': set(), 'value': {}, 'row': ()
         }.get(where)
    if c is not None:
        ctx.check(p.equal(A(x=c), A(x=c)), 'nothing in it')


@scenario('C35', weight=2)
def for_the_owner(ctx):
    """Rules that look at the owner get it wherever there is one"""
    lim = ctx.int('lim', -9, 9)
    v = ctx.int('v', -9, 9)
    w = ctx.int('w', -9, 9)

    class Below(p.Property):
        def validate(self, instance, value):
            if instance is None:
                self.error(instance, value, extra='no owner')
            if value > instance.top:
                self.error(instance, value)
            return value
    k = ctx.pick('k', 7)
    got = []

    def fget(self):
        return v

    def fset(self, value):
        got.append(value)
    fget.__name__ = fset.__name__ = 'x'

    class A(p.HasProperties):
        top = p.Integer('top', default=lim)
        x = [lambda: Below('x'), lambda: p.List('x', Below('')),
             lambda: p.Dictionary('x', value_prop=Below('')),
             lambda: p.Union('x', [p.String(''), Below('')]),
             lambda: Below('x')(fget), lambda: Below('x')(fget).setter(fset),
             lambda: p.Tuple('x', p.List('', Below('')))][k]()
    put, take = [(lambda v: v, lambda x: x), (lambda v: [v], lambda x: x[0]),
                 (lambda v: {'k': v}, lambda x: x['k']),
                 (lambda v: v, lambda x: x), (None, None), (None, None),
                 (lambda v: ([v],), lambda x: x[0][0])][k]
    a = A()
    if k == 4:
        ok, x = attempt(getattr, a, 'x')
        ctx.check(ok == (v <= lim), 'calculated when below')
        ctx.check(not ok or x == v, 'value')
        return
    if k == 5:
        ok, x = attempt(setattr, a, 'x', w)
        ctx.check(ok == (w <= lim), 'set when below')
        ctx.check(got == ([w] if ok else []), 'value')
        return
    ok, x = attempt(setattr, a, 'x', put(v))
    ctx.check(ok == (v <= lim), 'set when below')
    if not ok:
        ctx.check(isinstance(x, p.ValidationError), 'refused')
        return
    ctx.check(take(a.x) == v, 'value')
    a.top = w
    ok, x = attempt(a.validate)
    ctx.check(ok == (v <= w), 'valid while below')


@scenario('C35')
def objects_of_plain_classes(ctx):
    """Objects of plain classes are written and read as their property
    says"""
    v = ctx.int('v', -9, 9)
    where = ctx.choice('where', PLACES[:5] + ['union', 'part', 'nested'])

    class Point(object):
        def __init__(self, n):
            self.n = n

    class Pt(p.Instance):
        def __init__(self, doc, **kw):
            super(Pt, self).__init__(doc, Point, **kw)

        @staticmethod
        def to_json(value, **kwargs):
            return {'point': value.n, 'inc': kwargs.get('include_class')}

        @staticmethod
        def from_json(value, **kwargs):
            return Point(value['point'])

        def equal(self, value_a, value_b):
            return value_a.n == value_b.n
    prop, put, take = place(Pt, where)

    class A(p.HasProperties):
        x = prop
    pt = Point(v)
    a = A(x=put(pt))
    ctx.check(take(a.x) is pt, 'kept')
    inc = ctx.flag('inc')
    js = a.serialize(include_class=inc)
    ctx.cover('written')
    want = {'direct': lambda x: x, 'list': lambda x: x[0],
            'tuple': lambda x: x[0], 'set': lambda x: x[0],
            'value': lambda x: x['k'], 'union': lambda x: x,
            'part': lambda x: x['x'], 'nested': lambda x: x[0]['k']}[where]
    ctx.check(want(js['x']) == {'point': v, 'inc': inc}, 'written')
    b = A.deserialize(js)
    ctx.check(isinstance(take(b.x), Point) and take(b.x).n == v, 'read')
    ctx.check(p.equal(a, b), 'equal')


@scenario('C35', weight=2)
def own_checks(ctx):
    """The type's own check of held values is used where the type is"""
    where = ctx.choice('where', [w for w in PLACES if w != 'union'])
    v = ctx.int('v', 0, 9)
    later = ctx.flag('later')
    calls = []
    Base = declare(ctx, 9, 0, calls)

    class Size(Base):
        def assert_valid(self, instance, value=None):
            if value is None:
                value = instance._get(self.name)
            asked.append(value)
            if later:
                raise p.ValidationError('went bad')
            return True
    asked = []
    prop, put, take = place(Size, 'direct' if where == 'nested' else where)

    class A(p.HasProperties):
        x = prop
    a = A(x=put(v))
    del asked[:]
    ok, err = attempt(a.validate)
    ctx.check(ok == (not later), 'valid exactly when the check says so')
    ctx.check(len(asked) >= 1 and [u for u in asked if u != v] == [],
              'asked about the value')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError) and
                  'went bad' in str(err), 'its error')


@scenario('C35', weight=2)
def read_only(ctx):
    """Read-only types of the user check and coerce stored values"""
    lim = ctx.int('lim', 0, 50)
    v = any_value(ctx, 'v', 'isn', ints=99, maxlen=1, alphabet='a')
    calls = []
    Size = declare(ctx, lim, 0, calls)

    class Fixed(p.GettableProperty):
        validate = Size.validate

    class A(p.HasProperties):
        x = Fixed('x', default=0)

    class Holder(p.HasProperties):
        a = p.List('', A)
    ctx.assume(v is not None)
    good = isinstance(v, int) and -lim <= v and v <= lim
    deep = ctx.flag('deep')
    if deep:
        ok, a = attempt(Holder.deserialize, {'a': [{'x': v}]})
        a = a.a[0] if ok else a
    else:
        ok, a = attempt(A.deserialize, {'x': v})
    ctx.check(ok == good, 'read exactly by the rule')
    if ok:
        ctx.check(exact(a.x, v if v >= 0 else -v), 'coerced')
        ctx.check(exact(a._backend['x'], a.x), 'kept so')


@scenario('C35', weight=2)
def no_value(ctx):
    """Writers are asked about calculated values, none included"""
    v = ctx.choice('v', [None, p.undefined, 3])
    own = ctx.flag('own')
    asked = []

    def write(value, **kwargs):
        asked.append(value)
        return 'none' if value is None else value

    class A(p.HasProperties):
        @p.Integer('x', **({'serializer': write} if own else {}))
        def x(self):
            return v
    js = A().serialize(save_dynamic=True, include_class=False)
    want = v if v == 3 else 'none' if own else None
    ctx.check(js == ({'x': want} if want is not None else {}) or
              want is None and js == {'x': None}, 'written')
    ctx.check(asked == ([None if v is p.undefined else v] if own else []),
              'asked once')


@scenario('C35', weight=2)
def failing_functions(ctx):
    """A writer or reader that fails is asked once and its failure surfaces"""
    error = [ValueError, p.ValidationError, KeyError, AttributeError][
        ctx.pick('error', 4)]
    where = ctx.pick('where', 3)
    n = ctx.int('n', -9, 9)
    asked = []

    def write(value, **kwargs):
        asked.append('w')
        if value < 0:
            raise error('no')
        return value

    def plain(value):
        asked.append('p')
        if value < 0:
            raise error('no')
        return value
    fn = plain if ctx.flag('plain') else write
    prop = lambda: p.Integer('x', serializer=fn)
    back = lambda: p.Integer('x', deserializer=fn)

    class A(p.HasProperties):
        x = [prop, lambda: p.List('', prop()),
             lambda: p.Dictionary('', value_prop=prop())][where]()

    class B(p.HasProperties):
        x = [back, lambda: p.List('', back()),
             lambda: p.Dictionary('', value_prop=back())][where]()
    put = [lambda v: v, lambda v: [v], lambda v: {'k': v}][where]
    a = A(x=put(n))
    ok, js = attempt(a.serialize, include_class=False, more=1)
    ctx.check(ok == (n >= 0) and len(asked) == 1, 'asked once')
    ctx.check(js == {'x': put(n)} if ok else isinstance(js, error), 'outcome')
    del asked[:]
    ok, b = attempt(B.deserialize, {'x': put(n)}, more=1)
    ctx.check(ok == (n >= 0) and len(asked) == 1, 'asked once')
    ctx.check(b.x == put(n) if ok else isinstance(b, Exception), 'outcome')


class Rows(object):
    """Compares element by element, as arrays do"""

    def __init__(self, vals):
        self.vals = vals

    def __eq__(self, other):
        return [s == t for s, t in zip(self.vals, other.vals)]

    def __ne__(self, other):
        return [s != t for s, t in zip(self.vals, other.vals)]
    __hash__ = None


@scenario('C35', weight=2)
def by_elements(ctx):
    """A type whose values compare element by element takes them for equal
    when all elements are"""
    n = 1 + ctx.pick('n', 2)
    vs = [ctx.int('v%d' % i, -9, 9) for i in range(n)]
    ws = [ctx.int('w%d' % i, -9, 9) for i in range(n)]
    told = []

    class Row(p.Property):
        def validate(self, instance, value):
            if not isinstance(value, Rows):
                self.error(instance, value)
            return value

    class A(p.HasProperties):
        x = [lambda: Row(''), lambda: p.List('', Row('')),
             lambda: p.Union('', [p.String(''), Row('')])][
                 ctx.pick('where', 3)]()

        @p.observer('x', change_only=True)
        def saw(self, change):
            told.append(1)
    wrap = (lambda r: [r]) if isinstance(A._props['x'], p.List) else \
        (lambda r: r)
    want = True
    for s, t in zip(vs, ws):
        want = want and s == t
    a, b = A(x=wrap(Rows(vs))), A(x=wrap(Rows(ws)))
    ctx.check(p.equal(a, b) == bool(want), 'equal when all are')
    ctx.check(p.equal(b, a) == bool(want), 'equal when all are')
    del told[:]
    a.x = wrap(Rows(ws))
    ctx.check(len(told) == (0 if want else 1), 'a change when some differ')
