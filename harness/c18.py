"""C18 calculated and read-only properties"""
import uuid

import properties as p
from harness.common import any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('calculated properties over properties of six kinds returning '
          'symbolic values of any kind; read-only properties with symbolic '
          'defaults; every access, argument, default and stored-data route')
ASSUMPTIONS = ['text results up to 2 characters']
WITNESSES = ['calculated', 'nothing', 'invalid', 'set', 'refused-set',
             'deleted', 'read-only', 'uuid']


def inner(ctx, name='prop'):
    k = ctx.pick(name, 6)
    return [
        lambda: p.Integer('d', min=-3),
        lambda: p.Float('d', max=9),
        lambda: p.String('d', change_case='upper'),
        lambda: p.Boolean('d'),
        lambda: p.List('d', p.Integer(''), max_length=1),
        lambda: p.Union('d', [p.Integer('', max=4), p.String('')]),
    ][k]


@scenario('C18', weight=4)
def calculated(ctx):
    """Reading gives the result of the function, validated, every time"""
    make = inner(ctx)
    v = any_value(ctx, 'v', 'ifbsnl', ints=64, q=4, m=64, maxlen=1,
                  alphabet='aA')
    undef = ctx.flag('undefined') if v is None else False
    calls = []

    class A(p.HasProperties):
        x = p.Integer('x', default=1)

        @make()
        def d(self):
            calls.append(self)
            return p.undefined if undef else v
    a = A()
    ctx.check(calls == [], 'not asked before it is read')
    for i in range(2):
        ok, got = attempt(lambda: a.d)
        ctx.check(len(calls) == i + 1 and calls[0] is a, 'asked once per read')
        if v is None:
            ctx.cover('nothing')
            ctx.check(ok and got is None, 'nothing')
            continue
        wok, want = attempt(make().validate, None, v)
        ctx.check(ok == wok, 'readable exactly when valid')
        if ok:
            ctx.cover('calculated')
            ctx.check(exact(got, want), 'validated value')
        else:
            ctx.cover('invalid')
            ctx.check(isinstance(got, p.ValidationError), 'kind of error')
    # no setter, no deleter, no argument, nothing stored or written
    for act in (lambda: setattr(a, 'd', v), lambda: delattr(a, 'd'),
                lambda: A(d=v)):
        ok, err = attempt(act)
        ctx.check(not ok and isinstance(err, (AttributeError,
                                              p.ValidationError)),
                  'cannot be assigned')
    ctx.check('d' not in a._backend, 'not stored')
    ctx.check(a.serialize(include_class=False) == {'x': 1}, 'not written')
    ctx.check(a.validate() is True, 'not part of validation')


@scenario('C18', weight=4)
def setter(ctx):
    """The setter receives the validated value; the deleter is asked"""
    make = inner(ctx)
    v = any_value(ctx, 'v', 'ifbsnl', ints=64, q=4, m=64, maxlen=1,
                  alphabet='aA')
    got = []

    class A(p.HasProperties):
        @make()
        def d(self):
            return got[-1] if got else None

        @d.setter
        def d(self, value):
            got.append(value)

        @d.deleter
        def d(self):
            del got[:]
    a = A()
    ok, err = attempt(setattr, a, 'd', v)
    wok, want = attempt(make().validate, None, v)
    ctx.check(ok == wok, 'set exactly when valid')
    if ok:
        ctx.cover('set')
        ctx.check(len(got) == 1 and exact(got[0], want),
                  'setter gets the validated value')
        ctx.check(exact(a.d, want), 'readable')
        del a.d
        ctx.cover('deleted')
        ctx.check(got == [] and a.d is None, 'deleted')
    else:
        ctx.cover('refused-set')
        ctx.check(isinstance(err, p.ValidationError) and got == [],
                  'setter not asked')
    n = len(got)
    ok, err = attempt(lambda: A(d=v))
    ctx.check(not ok and isinstance(err, AttributeError) and len(got) == n,
              'not an argument')


@scenario('C18', weight=2)
def follows_state(ctx):
    """A calculated value follows the properties it is made of"""
    x, y, z = ctx.int('x'), ctx.int('y'), ctx.int('z')
    log = []

    class A(p.HasProperties):
        x = p.Integer('x', default=0)
        y = p.Integer('y', default=0)

        @p.Integer('sum', min=-5)
        def s(self):
            return self.x + self.y

        @s.setter
        def s(self, value):
            self.x = value - self.y

        @s.deleter
        def s(self):
            del self.x

        @p.observer('x')
        def o(self, change):
            log.append(change['value'])
    a = A(x=x, y=y)
    for want in (x + y, z + y):
        ok, got = attempt(lambda: a.s)
        ctx.check(ok == (want >= -5), 'bounded')
        ctx.check(not ok or got == want, 'sum')
        a.x = z
    del log[:]
    ok, err = attempt(setattr, a, 's', x)
    ctx.check(ok == (x >= -5), 'validated before the setter')
    ctx.check(a.x == (x - y if ok else z), 'setter effect')
    ctx.check(log == ([x - y] if ok else []), 'told through the property set')
    js = a.serialize(include_class=False)
    ctx.check(js == {'x': a.x, 'y': y}, 'not written')
    if ok:
        js = a.serialize(include_class=False, save_dynamic=True)
        ctx.check(js == {'x': a.x, 'y': y, 's': x}, 'written on demand')
        # reading data that has a calculated value keeps it calculated
        for strict in (False, True):
            b = A.deserialize(dict(js, s=7), strict=strict)
            ctx.check(b.x == a.x and b.y == y and b.s == x, 'calculated')
            ctx.check('s' not in b._backend, 'not stored')
            ctx.check(b.serialize(include_class=False) ==
                      {'x': a.x, 'y': y}, 'not written by the reader')
        ctx.check(p.equal(a, p.copy(a)), 'copy')
    a.x = z
    del a.s
    ctx.check(a.x is None, 'deleter effect')


@scenario('C18', weight=2)
def declarations(ctx):
    """A calculated property needs a function of the object and no default"""
    v = ctx.int('v')
    k = ctx.pick('k', 7)

    def declare():
        if k == 0:
            @p.Integer('d', default=v)
            def d(self):
                return 1
        elif k == 1:
            @p.Integer('d')
            def d():
                return 1
        elif k == 2:
            @p.Integer('d')
            def d(self, other):
                return 1
        else:
            @p.Integer('d')
            def d(self):
                return v
        if k == 4:
            d.setter(lambda self, value: None)
        if k == 5:
            @d.setter
            def d(self):
                pass
        if k == 6:
            @d.deleter
            def d(self, other):
                pass
        return type('A', (p.HasProperties,), {'d': d})
    ok, got = attempt(declare)
    ctx.check(ok == (k == 3), 'declared')
    if not ok:
        ctx.check(isinstance(got, TypeError), 'kind of error')
    else:
        ctx.check(got().d == v, 'usable')


class Const(p.GettableProperty):
    """A read-only integer"""

    def validate(self, instance, value):
        return p.Integer('c', min=-3).validate(instance, value)


@scenario('C18', weight=3)
def read_only(ctx):
    """A read-only property has its default for life; stored data can set it
    when an object is made from it"""
    n, m = ctx.int('n'), ctx.int('m')
    ctx.assume(n >= -3)
    has = ctx.flag('has')
    log = []

    class A(p.HasProperties):
        c = Const('c', default=n) if has else Const('c')
        x = p.Integer('x', default=0)

        @p.Integer('b')
        def b(self):
            return 4

        @p.observer(p.everything)
        def o(self, change):
            log.append(change['name'])
    a = A()
    ctx.cover('read-only')
    want = n if has else None
    ctx.check(a.c == want and log == [], 'default')
    for act in (lambda: setattr(a, 'c', m), lambda: delattr(a, 'c'),
                lambda: A(c=m), lambda: a._reset('c')):
        ok, err = attempt(act)
        ctx.check(not ok and isinstance(err, AttributeError),
                  'cannot be assigned')
    a._reset()
    a.x = m
    del a.x
    ctx.check(a.c == want, 'kept')
    a._reset()
    js = a.serialize(include_class=False)
    ctx.check(js == ({'c': n, 'x': 0} if has else {'x': 0}), 'written')
    data = {}
    if ctx.flag('calculated'):
        data['b'] = 9
    data.update({'c': m, 'x': 2})
    ok, b = attempt(A.deserialize, data)
    ctx.check(ok == (m >= -3), 'read exactly when valid')
    if ok:
        ctx.check(b.c == m and b.x == 2 and a.c == want, 'read')
        ctx.check(b.b == 4, 'calculated, not read')
    else:
        ctx.check(isinstance(b, p.ValidationError), 'kind of error')
    ctx.check(p.copy(a).c == want, 'copied')


@scenario('C18', weight=2)
def unique_ids(ctx):
    """Identifiers are made anew for every object, kept, and carried by
    stored data and copies"""
    ids = [uuid.UUID(int=7), uuid.UUID('aBcdef00-0000-4000-8000-00000000000F')]
    given = ids[ctx.pick('id', 2)]
    v = any_value(ctx, 'v', 'isnbfdo', ints=64, q=4, m=64, maxlen=2)
    fixed = ctx.flag('fixed')

    class A(p.HasProperties):
        uid = p.Uuid('id')
        if fixed:
            _defaults = {'uid': lambda: given}
    a, b = A(), A()
    ctx.cover('uuid')
    ctx.check(isinstance(a.uid, uuid.UUID) and a.uid is a.uid, 'an id, kept')
    ctx.check((a.uid == b.uid) == fixed, 'made anew')
    ctx.check(not fixed or a.uid == given, 'class default')
    before = a.uid
    for act in (lambda: setattr(a, 'uid', given), lambda: delattr(a, 'uid'),
                lambda: A(uid=given), lambda: a._reset('uid')):
        ok, err = attempt(act)
        ctx.check(not ok and isinstance(err, AttributeError), 'read-only')
    ctx.check(a.uid is before, 'kept')
    ok, err = attempt(A._props['uid'].validate, None, v)
    ctx.check(not ok and isinstance(err, p.ValidationError), 'only ids')
    js = a.serialize(include_class=False)
    ctx.check(type(js['uid']) is str, 'written as text')
    ctx.check(A.deserialize(js).uid == a.uid, 'read')
    ctx.check(p.copy(a).uid == a.uid, 'copied')
    ctx.check(p.equal(a, p.copy(a)), 'equal')
    ctx.check(p.equal(a, b) == fixed, 'different ids differ')
    c = A.deserialize({'uid': str(given).upper()})
    ctx.check(c.uid == given, 'read from text')
    ok, err = attempt(A.deserialize, {'uid': 'nope'})
    ctx.check(not ok and isinstance(err, ValueError), 'not an id')


@scenario('C18', weight=2)
def read_only_defaults(ctx):
    """The default of a read-only property is checked and coerced, for its
    owner, however it is given"""
    n = ctx.int('n', -9, 9)
    lim = ctx.int('lim', -9, 9)
    how = ctx.pick('how', 4)
    seen = []

    class Const(p.GettableProperty):
        def validate(self, instance, value):
            if value > lim:
                raise p.ValidationError('no')
            if instance is not None:
                seen.append(instance)
            return (value,) if not isinstance(value, tuple) else value
    if how == 3:
        Const._class_default = n

    def make():
        class A(p.HasProperties):
            c = Const('c', default=n if how == 0 else lambda: n) \
                if how < 2 else Const('c')
            if how == 2:
                _defaults = {'c': n}
        return A()
    ok, a = attempt(make)
    ctx.check(ok == (n <= lim), 'usable exactly when the default is valid')
    if ok:
        ctx.check(exact(a.c, (n,)), 'coerced')
        ctx.check(list(seen) == [a], 'asked once, for its owner')


@scenario('C18', weight=2)
def partial_access(ctx):
    """What has no setter or no deleter cannot be set or deleted"""
    v = ctx.int('v')
    has_set, has_del = ctx.flag('set'), ctx.flag('del')
    log = []

    class Get(object):
        """Any callable of the object can be the function"""
        __name__ = 'd'

        def __call__(self, obj):
            return v
    if ctx.flag('object'):
        d = p.Integer('d')(Get())
    else:
        def d(self):
            return v
        d = p.Integer('d')(d)
    if has_set:
        def put(self, value):
            log.append(('set', self, value))
        put.__name__ = 'd'
        d = d.setter(put)
    if has_del:
        def drop(self):
            log.append(('del', self))
        drop.__name__ = 'd'
        d = d.deleter(drop)
    A = type(p.HasProperties)('A', (p.HasProperties,), {
        'd': d, 'x': p.Integer('x', default=1)})
    sub = ctx.flag('sub')
    a = type('B', (A,), {})() if sub else A()
    ctx.check(a.d == v, 'read')
    ok, err = attempt(setattr, a, 'd', 5)
    ctx.check(ok == has_set and log == ([('set', a, 5)] if ok else []), 'set')
    ctx.check(ok or isinstance(err, AttributeError), 'kind of error')
    del log[:]
    ok, err = attempt(delattr, a, 'd')
    ctx.check(ok == has_del and log == ([('del', a)] if ok else []),
              'deleted')
    ctx.check(ok or isinstance(err, AttributeError), 'kind of error')
    ctx.check(a.d == v and a.x == 1 and list(a._backend) == ['x'],
              'nothing else')


@scenario('C18')
def deleter_decides(ctx):
    """Deleting asks the deleter, whatever the value is at the moment"""
    v = any_value(ctx, 'v', 'ifbsnl', ints=9, q=4, m=16, maxlen=1,
                  alphabet='a')
    fail = ctx.flag('fail')
    asked = []
    state = []

    class A(p.HasProperties):
        @p.Property('')
        def d(self):
            asked.append('get')
            return v

        @d.setter
        def d(self, value):
            state.append(value)

        @d.deleter
        def d(self):
            asked.append('del')
            if fail:
                raise AttributeError('no')
    a = A()
    if ctx.flag('set'):
        a.d = 5
    del asked[:]
    ok, err = attempt(delattr, a, 'd')
    ctx.check(ok == (not fail), 'as the deleter says')
    ctx.check(asked.count('del') == 1, 'asked once')
