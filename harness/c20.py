"""C20 stored data decides nothing it is not trusted with"""
import properties as p
from properties.extras import URL
from harness.common import TOL, Boom, Thing, any_value, exact, finite
from harness.reg import attempt, scenario

BOUNDS = ('stored data of up to three nested objects; class names: absent, '
          'empty, own, subclass, unrelated, registered elsewhere, unknown; '
          'symbolic values, keys present or not, every combination of '
          'trusted, strict and assert_valid; one instance place of each kind')
ASSUMPTIONS = ['at most one unknown key per object']
WITNESSES = ['own', 'other-class', 'refused-class', 'refused-key', 'ignored',
             'invalid', 'valid', 'not-dict', 'alternative', 'none-fits',
             'bad-value', 'quiet']


def family(made, **kw):
    """Classes that record the objects constructed"""
    class Base(p.HasProperties):
        _REGISTRY = {}

        def __init__(self, **kwargs):
            made.append(type(self).__name__)
            super(Base, self).__init__(**kwargs)

    class A(Base):
        n = p.Integer('n', min=0)

    class Sub(A):
        m = p.Integer('m', default=7)

    class Other(Base):
        n = p.Integer('n', min=0, default=0)

    class Foreign(A):
        _REGISTRY = {}
    return Base, A, Sub, Other, Foreign


NAMES = [None, '', 'A', 'Sub', 'Other', 'Foreign', 'Nope']


def chosen(ctx, name, cls, given, trusted, strict, classes):
    """The class that stored data naming `given` must be read as by `cls`"""
    if not given or given == cls.__name__:
        return cls
    if trusted:
        for c in classes:
            if c.__name__ == given and c._REGISTRY is cls._REGISTRY:
                return c
    if strict:
        return None
    return cls


@scenario('C20', weight=4)
def top(ctx):
    made = []
    Base, A, Sub, Other, Foreign = family(made)
    given = NAMES[ctx.pick('given', len(NAMES))]
    cls = [A, Sub, Other][ctx.pick('cls', 3)]
    trusted, strict, valid = ctx.flag('t'), ctx.flag('s'), ctx.flag('av')
    data = {}
    if ctx.flag('named'):
        data['__class__'] = given
    else:
        ctx.assume(given is None)
    if ctx.flag('n'):
        data['n'] = ctx.int('nv', -3, 3)
    extra = ctx.pick('extra', 3)
    if extra == 1:
        data['m'] = ctx.int('mv', -3, 3)
    elif extra == 2:
        data[ctx.choice('key', ['_z', '__z', '__root__', '', '_backend',
                                'Class'])] = Thing()
    before = dict(data)
    ok, got = attempt(cls.deserialize, data, trusted=trusted, strict=strict,
                      assert_valid=valid)
    ctx.check(len(data) == len(before) and
              all(data[k] is before[k] for k in before), 'data unchanged')
    want = chosen(ctx, 'w', cls, given, trusted, strict,
                  (A, Sub, Other))
    ctx.check(made in ([], [want.__name__] if want else []),
              'nothing else constructed')
    if want is None:
        ctx.cover('refused-class')
        ctx.check(not ok and isinstance(got, ValueError), 'class refused')
        return
    unknown = extra == 2 or extra == 1 and 'm' not in want._props
    if unknown and strict:
        ctx.cover('refused-key')
        ctx.check(not ok and isinstance(got, ValueError), 'key refused')
        ctx.check(made == [], 'nothing constructed')
        return
    if unknown:
        ctx.cover('ignored')
    bad = 'n' in data and data['n'] < 0
    if bad:
        ctx.cover('bad-value')
        ctx.check(not ok and isinstance(got, p.ValidationError),
                  'value refused')
        return
    if valid and 'n' not in data and want is not Other:
        ctx.cover('invalid')
        ctx.check(not ok and isinstance(got, p.ValidationError), 'not valid')
        return
    ctx.cover('own' if want is cls else 'other-class')
    if valid:
        ctx.cover('valid')
    ctx.check(ok and type(got) is want, 'class')
    state = {'n': data['n']} if 'n' in data else \
        {'n': 0} if want is Other else {}
    if want is Sub:
        state['m'] = data.get('m', 7)
    ctx.check(got._backend == state, 'values')
    ctx.check(not hasattr(got, '_z'), 'unknown keys leave nothing')


PLACES = ['instance', 'list', 'tuple', 'set', 'dict', 'union', 'deep']


@scenario('C20', weight=5)
def nested(ctx):
    """The same holds for every object inside the data"""
    made = []
    Base, A, Sub, Other, Foreign = family(made)
    k = ctx.pick('place', len(PLACES))

    class Owner(Base):
        x = [lambda: p.Instance('', A), lambda: p.List('', A),
             lambda: p.Tuple('', p.Instance('', A)), lambda: p.Set('', A),
             lambda: p.Dictionary('', value_prop=A),
             lambda: p.Union('', [p.Integer(''), A]),
             lambda: p.List('', p.Union('', [p.Dictionary(
                 '', value_prop=p.Instance('', A))]))][k]()
    given = NAMES[ctx.pick('given', len(NAMES))]
    trusted, strict, valid = ctx.flag('t'), ctx.flag('s'), ctx.flag('av')
    inner = {}
    if given is not None:
        inner['__class__'] = given
    if ctx.flag('n'):
        inner['n'] = ctx.int('nv', -3, 3)
    if ctx.flag('extra'):
        inner['q'] = 1
    snap = dict(inner)
    data = {'x': [lambda: inner, lambda: [inner], lambda: [inner],
                  lambda: [inner], lambda: {'k': inner}, lambda: inner,
                  lambda: [{'k': inner}]][k]()}
    ok, got = attempt(Owner.deserialize, data, trusted=trusted, strict=strict,
                      assert_valid=valid)
    ctx.check(list(data) == ['x'] and inner == snap, 'data unchanged')
    want = chosen(ctx, 'w', A, given, trusted, strict, (A, Sub, Other))
    allowed = ['Owner'] + ([want.__name__] if want else [])
    # objects of an unsuitable class and data no alternative reads are still
    # offered to the declared class, which refuses them
    ctx.check(all(m in allowed or m == 'A' for m in made),
              'nothing else constructed')
    refused = (
        want is None or want is Other or
        'q' in inner and strict or
        'n' in inner and inner['n'] < 0 or
        valid and 'n' not in inner)
    if refused:
        ctx.cover('refused-class' if want is None else
                  'refused-key' if 'q' in inner and strict else 'invalid')
        ctx.check(not ok, 'refused')
        return
    ctx.check(ok, 'read')
    if not ok:
        return
    ctx.cover('own' if want is A else 'other-class')
    v = got.x
    part = [lambda: v, lambda: v[0], lambda: v[0], lambda: list(v)[0],
            lambda: v['k'], lambda: v, lambda: v[0]['k']][k]()
    ctx.check(type(part) is want, 'class')
    ctx.check(part.n == inner.get('n') if 'n' in inner else part.n is None,
              'value')


@scenario('C20', weight=2)
def levels(ctx):
    """Options reach three levels, and each level names its own class"""
    made = []
    Base, A, Sub, Other, Foreign = family(made)

    class Mid(Base):
        a = p.Instance('', A)

    class Mid2(Mid):
        pass

    class Top(Base):
        mid = p.Instance('', Mid)
        mids = p.List('', Mid, default=list)
    g1 = [None, 'Mid', 'Mid2', 'Nope'][ctx.pick('g1', 4)]
    g2 = [None, 'A', 'Sub', 'Nope'][ctx.pick('g2', 4)]
    trusted, strict = ctx.flag('t'), ctx.flag('s')
    inlist = ctx.flag('list')
    n = ctx.int('n', -2, 3)
    inner = {'n': n}
    mid = {'a': inner}
    if g1:
        mid['__class__'] = g1
    if g2:
        inner['__class__'] = g2
    w1 = chosen(ctx, 'w', Mid, g1, trusted, strict, (Mid, Mid2))
    w2 = chosen(ctx, 'w', A, g2, trusted, strict, (A, Sub))
    ok, got = attempt(Top.deserialize, {'mids': [mid]} if inlist else
                      {'mid': mid}, trusted=trusted, strict=strict)
    ctx.check(ok == (w1 is not None and w2 is not None and n >= 0),
              'read exactly when every level may be')
    if ok:
        m = got.mids[0] if inlist else got.mid
        ctx.check(type(m) is w1 and type(m.a) is w2, 'classes')
        ctx.check(m.a.n == n, 'value')


@scenario('C20', weight=2)
def not_dict(ctx):
    made = []
    Base, A, Sub, Other, Foreign = family(made)

    class Owner(Base):
        x = p.Instance('', A)
    v = any_value(ctx, 'v', 'ifbsltxeo', ints=64, q=4, m=64, maxlen=1)
    ok, err = attempt(A.deserialize, v)
    ctx.cover('not-dict')
    ctx.check(not ok and isinstance(err, ValueError), 'refused')
    ok, err = attempt(Owner.deserialize, {'x': v})
    ctx.check(not ok and isinstance(err, ValueError), 'refused inside')
    ctx.check(made == [], 'nothing constructed')


@scenario('C20', weight=3)
def alternatives(ctx):
    """Stored objects of a union: the alternative of the named class, else
    the first that reads it; strict alternatives are complete"""
    made = []
    Base, A, Sub, Other, Foreign = family(made)
    order = ctx.pick('order', 3)
    alts = [[A, Other], [Other, A], [p.Integer(''), Sub, A]][order]
    si = ctx.flag('strict_instances')

    class Owner(Base):
        x = p.Union('', alts, strict_instances=si)
    given = NAMES[ctx.pick('given', 6)]
    trusted = ctx.flag('t')
    inner = {}
    if given is not None:
        inner['__class__'] = given
    if ctx.flag('n'):
        inner['n'] = ctx.int('nv', -3, 3)
    if ctx.flag('extra'):
        inner['m'] = ctx.int('m', -3, 3)
    ok, got = attempt(Owner.deserialize, {'x': inner}, trusted=trusted)

    def reads(alt):
        """class read by an alternative, or None if it refuses"""
        if not isinstance(alt, type):
            return None
        want = chosen(ctx, 'w', alt, given, trusted, si, (A, Sub, Other))
        if want is None or not issubclass(want, alt):
            return None
        if 'n' in inner and inner['n'] < 0:
            return None
        if si and ('m' in inner and 'm' not in want._props or
                   'n' not in inner and want is not Other):
            return None
        return want
    named = [a for a in alts if isinstance(a, type) and given == a.__name__]
    if named:
        want = reads(named[0])
    else:
        want = None
        for alt in alts:
            want = reads(alt)
            if want is not None:
                break
    if want is None:
        ctx.cover('none-fits')
        ctx.check(not ok, 'refused')
    else:
        ctx.cover('alternative')
        ctx.check(ok and type(got.x) is want, 'alternative')
        if ok and 'n' in inner:
            ctx.check(got.x.n == inner['n'], 'value')


@scenario('C20', weight=4, conc=16)
def values(ctx):
    """Whatever the data is, a read object holds acceptable values only"""
    k = ctx.pick('k', 14)
    make = [
        lambda: p.Integer('', min=-2, max=5), lambda: p.Float('', max=2.5),
        lambda: p.Boolean(''), lambda: p.Complex(''),
        lambda: p.String('', strip=' '),
        lambda: p.StringChoice('', {'a': ['1', 'b'], 'c': []}),
        lambda: p.Color(''), lambda: p.DateTime(''),
        lambda: p.Tuple('', p.Integer('', min=0), min_length=1),
        lambda: p.List('', p.Boolean(''), max_length=1),
        lambda: p.Set('', p.Integer('')),
        lambda: p.Dictionary('', key_prop=p.String('', change_case='upper'),
                             value_prop=p.Integer('')),
        lambda: p.Union('', [p.Integer('', max=3), p.Boolean('')]),
        lambda: p.Property(''),
    ][k]
    v = any_value(ctx, 'v', 'ifbsnld', ints=64, q=2, m=16, maxlen=1,
                  alphabet='a1')
    inst = ctx.flag('existing')

    class A(p.HasProperties):
        x = make()
        y = p.Integer('', default=1)
    old = A(y=4) if inst else None
    ok, a = attempt(A.deserialize, {'x': v},
                    **({'_instance': old} if inst else {}))
    if not ok:
        ctx.cover('bad-value')
        ctx.check(isinstance(a, (ValueError, TypeError, KeyError,
                                 AttributeError)), 'a kind of error unions '
                  'know')
        if inst:
            ctx.check(old._backend == {'y': 4}, 'nothing stored')
        return
    ctx.check(a is old if inst else type(a) is A, 'object')
    ctx.check(a.y == (4 if inst else 1), 'the rest is kept')
    if v is None:
        ctx.check(a.x is None, 'nothing')
        return
    x = a.x
    ctx.check(x is not None, 'something')
    ok, again = attempt(make().validate, None, x)
    ctx.check(ok and exact(again, x), 'acceptable')
    # and any alternative that refuses leaves it to the next
    class U(p.HasProperties):
        x = p.Union('', [make(), p.Property('')])
    ok, u = attempt(U.deserialize, {'x': v})
    ctx.check(ok and exact(u.x, x), 'first alternative')


@scenario('C20', weight=2, conc=16)
def fallback(ctx):
    """Data an alternative cannot read is left to the next one"""
    k = ctx.pick('k', 14)
    make = [
        lambda: p.Integer(''), lambda: p.Float(''), lambda: p.Boolean(''),
        lambda: p.Complex(''), lambda: p.Color(''), lambda: p.DateTime(''),
        lambda: p.Tuple('', p.Integer('')), lambda: p.List('', p.Integer('')),
        lambda: p.Set('', p.Integer('')),
        lambda: p.Dictionary('', value_prop=p.Integer('')),
        lambda: p.Instance('', p.HasProperties), lambda: URL(''),
        lambda: p.StringChoice('', ['a', 'b']),
        lambda: p.Union('', [p.Integer(''), p.Tuple('', p.Boolean(''))]),
    ][k]
    v = any_value(ctx, 'v', 'ifbsld', ints=64, q=2, m=16, maxlen=1,
                  alphabet='a1')

    class Last(p.Property):
        def validate(self, instance, value):
            return ('last', value)

    class U(p.HasProperties):
        x = p.Union('', [make(), Last('')])
    ok, u = attempt(U.deserialize, {'x': v})
    ctx.check(ok and u.x is not None, 'always read')


@scenario('C20', weight=2)
def quiet(ctx):
    """Reading runs no listeners; afterwards they run as before"""
    log = []
    armed = []
    fail = ctx.pick('fail', 3)
    n = ctx.int('n', -3, 3)
    trusted = ctx.flag('t')

    class Part(p.HasProperties):
        n = p.Integer('n', min=0)

        @p.observer('n')
        def see(self, change):
            log.append('part')

        @p.validator('n')
        def veto(self, change):
            if not armed:
                return
            log.append('veto')
            raise ValueError('no')

    class A(p.HasProperties):
        n = p.Integer('n', min=0)
        part = p.Instance('', Part)

        @p.observer(['n', 'part'])
        def see(self, change):
            log.append(change['name'])

        @p.validator
        def whole(self):
            log.append('whole')
            return True
    data = {'n': n, 'part': {'n': 1}}
    if fail == 1:
        data['part']['n'] = -1
    if fail == 2:
        data['n'] = 'x'
    valid = ctx.flag('av')
    ok, a = attempt(A.deserialize, data, trusted=trusted, assert_valid=valid)
    ctx.check(ok == (fail == 0 and n >= 0), 'read or not')
    ctx.cover('quiet')
    ctx.check(log == (['whole'] if ok and valid else []), 'no listeners')
    del log[:]
    b = A()
    b.n = 2
    ctx.check(log == ['n'], 'listeners run again')
    if ok:
        del log[:]
        a.n = n + 1
        ctx.check(log == ['n'], 'those of the object too')
        armed.append(True)
        ok, err = attempt(setattr, a.part, 'n', 5)
        ctx.check(not ok and a.part.n == 1 and log == ['n', 'veto'],
                  'and of its parts')


@scenario('C20', weight=1)
def existing(ctx):
    """Only an object of the class may be filled"""
    made = []
    Base, A, Sub, Other, Foreign = family(made)
    cls = [A, Sub][ctx.pick('c', 2)]
    obj = [A, Sub, Other][ctx.pick('o', 3)](n=1)
    n = ctx.int('n', 0, 5)
    ok, got = attempt(cls.deserialize, {'n': n}, _instance=obj)
    ctx.check(ok == isinstance(obj, cls), 'class of the object')
    ctx.check(got is obj and obj.n == n if ok else obj.n == 1, 'filled')


@scenario('C20', weight=2)
def direct(ctx):
    """A property asked to read by itself trusts nothing unless told to, and
    tells custom readers so"""
    made = []
    Base, A, Sub, Other, Foreign = family(made)
    k = ctx.pick('k', 7)
    prop = [lambda: p.Instance('', A), lambda: p.List('', A),
            lambda: p.Tuple('', p.Instance('', A)), lambda: p.Set('', A),
            lambda: p.Dictionary('', value_prop=A),
            lambda: p.Union('', [p.Integer(''), A]),
            lambda: p.List('', p.Union('', [p.Dictionary(
                '', value_prop=p.Instance('', A))]))][k]()
    given = NAMES[ctx.pick('given', len(NAMES))]
    t = ctx.pick('t', 3)
    kw = [{}, {'trusted': False}, {'trusted': True}][t]
    n = ctx.int('n', -3, 3)
    inner = {'n': n}
    if given is not None:
        inner['__class__'] = given
    data = [lambda: inner, lambda: [inner], lambda: [inner], lambda: [inner],
            lambda: {'k': inner}, lambda: inner,
            lambda: [{'k': inner}]][k]()
    ok, v = attempt(prop.deserialize, data, **kw)
    want = chosen(ctx, 'w', A, given, t == 2, False, (A, Sub, Other))
    if k in (5, 6) and (n < 0 or want is Other):
        # the union finds no alternative and keeps the data
        ctx.check(not ok or inner in (v, v[0].get('k') if k == 6 else v),
                  'nothing made')
        return
    if n < 0:
        ctx.check(not ok, 'value refused')
        return
    ctx.check(ok, 'read')
    if not ok:
        return
    part = [lambda: v, lambda: v[0], lambda: v[0], lambda: list(v)[0],
            lambda: v['k'], lambda: v, lambda: v[0]['k']][k]()
    ctx.check(type(part) is want and part.n == n, 'class')


@scenario('C20', weight=2)
def told(ctx):
    """Custom readers are told whether the data is trusted"""
    k = ctx.pick('k', 10)
    seen = []

    def read(value, trusted):
        seen.append(trusted)
        return 1
    kw = {'deserializer': read}
    prop = [lambda: p.Integer('', **kw), lambda: p.String('', **kw),
            lambda: p.List('', **kw), lambda: p.Tuple('', **kw),
            lambda: p.Set('', **kw), lambda: p.Dictionary('', **kw),
            lambda: p.Union('', [p.Integer('')], **kw),
            lambda: p.Instance('', p.HasProperties, **kw),
            lambda: p.Array('', **kw), lambda: p.Vector3('', **kw)][k]()
    t = ctx.pick('t', 3)
    opt = [{}, {'trusted': False}, {'trusted': True}][t]
    v = any_value(ctx, 'v', 'inlsd', ints=9, maxlen=1, alphabet='a')
    inside = ctx.flag('inside') and k not in (8, 9)
    if inside:
        # an element of a container that is asked
        ok, got = attempt(p.List('', prop).deserialize, [v], **opt)
        ctx.check(ok and got == [1], 'asked')
    else:
        ok, got = attempt(prop.deserialize, v, **opt)
        ctx.check(ok and got == 1, 'asked')
    ctx.check(len(seen) == 1 and seen[0] is (t == 2), 'told')


@scenario('C20', weight=2)
def read_only(ctx):
    """Stored values of read-only properties are checked and coerced like any
    other, in what is read and in its parts"""
    lim = ctx.int('lim', -9, 9)
    v = any_value(ctx, 'v', 'ifbsnld', ints=64, q=4, m=64, maxlen=1,
                  alphabet='a1')
    seen = []

    class Const(p.GettableProperty):
        def validate(self, instance, value):
            if not isinstance(value, (int, float)) or value > lim:
                raise p.ValidationError('no')
            seen.append(instance)
            return float(value) + 1

    class Part(p.HasProperties):
        c = Const('c')
        x = p.Integer('x', default=1)

    class A(p.HasProperties):
        part = p.Instance('', Part)
    inside = ctx.flag('inside')
    data = {'c': v, 'x': 2}
    ok, a = attempt(A.deserialize, {'part': data}) if inside else \
        attempt(Part.deserialize, data)
    if v is None:
        return
    good = isinstance(v, (int, float)) and not v > lim
    ctx.check(ok == good, 'read exactly when valid')
    if not ok:
        ctx.check(isinstance(a, p.ValidationError), 'kind of error')
        return
    b = a.part if inside else a
    ctx.check(exact(b.c, float(v) + 1) and b.x == 2, 'coerced')
    ctx.check(list(seen) == [b], 'asked once, for its owner')


@scenario('C20', weight=2)
def stored_nothing(ctx):
    """A stored null is read exactly when the property takes None, for new
    objects and for existing ones"""
    n = ctx.int('n', -9, 9)
    k = ctx.pick('kind', 6)

    class Part(p.HasProperties):
        z = p.Integer('z')

    class Lenient(p.Integer):
        def validate(self, instance, value):
            return value if value is None else \
                super(Lenient, self).validate(instance, value)
    make = [lambda: p.Property('x'), lambda: p.Integer('x'),
            lambda: Lenient('x'), lambda: p.List('x', p.Integer('')),
            lambda: p.Instance('x', Part),
            lambda: p.Boolean('x', required=False)][k]
    old = [lambda: n, lambda: n, lambda: n, lambda: [n],
           lambda: Part(z=n), lambda: True][k]

    class A(p.HasProperties):
        x = make()
        y = p.Integer('y')

    class B(p.HasProperties):
        a = p.Instance('', A)
    takes, err = attempt(make().validate, None, None)
    how = ctx.pick('how', 4)
    data = {'x': None, 'y': n}
    if how == 0:
        ok, a = attempt(A.deserialize, data)
    elif how == 1:
        ok, a = attempt(B.deserialize, {'a': data})
        a = a.a if ok else a
    else:
        obj = A(x=old()) if how == 2 else A()
        ok, a = attempt(A.deserialize, data, _instance=obj)
    ctx.check(ok == takes, 'read when taken')
    if ok:
        ctx.check(a.x is None and a.y == n, 'nothing is there')
        ctx.check('x' in a._backend, 'as after an assignment')
    else:
        ctx.check(isinstance(a, ValueError), 'refused')


@scenario('C20')
def redefined(ctx):
    """The class defined last under a name is the one a trusted name means"""
    n = ctx.int('n', -9, 9)

    class Base(p.HasProperties):
        _REGISTRY = {}
        o = p.Integer('', required=False)

    class A(Base):
        n = p.Integer('n', min=0)
    again = ctx.flag('again')
    if again:
        class A(Base):                  # noqa
            n = p.Integer('n', max=0)
    class Holder(p.HasProperties):
        x = p.Instance('', Base)
        many = p.List('', Base)
    data = {'__class__': 'A', 'n': n}
    where = ctx.choice('where', ['top', 'part', 'element'])
    fits = n <= 0 if again else n >= 0
    if where == 'top':
        ok, got = attempt(Base.deserialize, data, trusted=True)
    elif where == 'part':
        ok, got = attempt(Holder.deserialize, {'x': data}, trusted=True)
        got = got.x if ok else got
    else:
        ok, got = attempt(Holder.deserialize, {'many': [data]}, trusted=True)
        got = got.many[0] if ok else got
    ctx.check(ok == fits, 'by the rules of the last one')
    if ok:
        ctx.check(type(got) is A and got.n == n, 'the last one')
        ok, got = attempt(got.serialize)
        ctx.check(ok and got == data, 'written')


@scenario('C20')
def many_stored(ctx):
    """Every stored value of every read-only property is read and checked"""
    n = ctx.choice('size', [2, 5])
    at = ctx.pick('at', n)
    v = any_value(ctx, 'v', 'is', ints=99, maxlen=1)

    class Const(p.GettableProperty):
        def validate(self, instance, value):
            return p.Integer('').validate(instance, value)
    names = ['q%d' % i for i in range(n)]
    body = dict((m, Const('')) for m in names)
    A = type(p.HasProperties)('A', (p.HasProperties,),
                              dict(body, __module__=__name__))
    data = dict((m, v if i == at else i) for i, m in enumerate(names))
    ok, a = attempt(A.deserialize, data)
    ctx.check(ok == (type(v) is int), 'checked')
    if ok:
        ctx.check(all(exact(getattr(a, m), data[m]) for m in names), 'read')


@scenario('C20')
def nearly_whole(ctx):
    """A stored number is read as an integer exactly when it is one within
    the tolerance"""
    v = ctx.float('v', q=36, m=4)
    where = ctx.choice('where', ['value', 'element', 'alternative'])

    class A(p.HasProperties):
        x = [p.Integer(''), p.List('', p.Integer('')),
             p.Union('', [p.Integer(''), p.Float('')])][
                 ['value', 'element', 'alternative'].index(where)]
    ok, a = attempt(A.deserialize, {'x': [v] if where == 'element' else v})
    near = finite(v) and abs(v - int(v)) <= TOL
    if where == 'alternative':
        ctx.check(ok and (type(a.x) is int) == near, 'as integer or float')
    else:
        ctx.check(ok == near, 'read exactly when whole')
        if ok:
            x = a.x[0] if where == 'element' else a.x
            ctx.check(type(x) is int and x == int(v), 'the integer')


@scenario('C20', weight=2)
def far_down(ctx):
    """Strictness and trust reach every depth and every place"""
    depth = ctx.choice('depth', [1, 3, 5])
    at = ctx.pick('at', depth)
    what = ctx.choice('what', ['fine', 'key', 'class', 'subclass'])
    place = ctx.choice('place', ['kid', 'kids', 'table'])
    trusted, strict = ctx.flag('trusted'), ctx.flag('strict')
    n = ctx.int('n', -9, 9)

    class Base(p.HasProperties):
        _REGISTRY = {}
        n = p.Integer('', default=0)

    class Node(Base):
        kid = p.Instance('', Base, required=False)

    class Kin(Node):
        pass
    Node._props['kid'].instance_class = Node

    class Lists(Base):
        kids = p.List('', Base, required=False)
        table = p.Dictionary('', value_prop=Base, required=False)

    class Sub(Lists):
        pass
    Lists._props['kids'].prop.instance_class = Lists
    Lists._props['table'].value_prop.instance_class = Lists
    cls, sub = (Node, Kin) if place == 'kid' else (Lists, Sub)
    data = None
    for i in range(depth):
        d = {'__class__': cls.__name__, 'n': n + i}
        if i == at and what == 'key':
            d['zzz'] = 1
        elif i == at and what == 'class':
            d['__class__'] = 'Nope'
        elif i == at and what == 'subclass':
            d['__class__'] = sub.__name__
        if data is not None:
            d[place] = {'kid': data, 'kids': [data],
                        'table': {'k': data}}[place]
        data = d
    ok, got = attempt(cls.deserialize, data, trusted=trusted, strict=strict)
    fine = what == 'fine' or not strict or what == 'subclass' and trusted
    ctx.check(ok == fine, 'refused at any depth')
    if not ok:
        ctx.check(isinstance(got, ValueError), 'as a value')
        return
    for i in reversed(range(depth)):
        ctx.check(type(got) is (sub if i == at and what == 'subclass' and
                                trusted else cls), 'class')
        ctx.check(got.n == n + i, 'value')
        got = getattr(got, place)
        if i:
            got = got if place == 'kid' else got[0] if place == 'kids' \
                else got['k']


@scenario('C20', weight=2)
def known_names(ctx):
    """Strict reading refuses every key that is no property, also names the
    class has for something else"""
    n = ctx.int('n', -9, 9)
    key = ctx.choice('key', ['validate', 'level', 'helper', '_props',
                             '__init__', '_reset', 'part_', 'N'])
    inside = ctx.flag('inside')

    class Part(p.HasProperties):
        n = p.Integer('', min=0)
        level = 3

        def helper(self):
            return self.n

    class A(p.HasProperties):
        part = p.Instance('', Part)
    data = {'n': n, key: n}
    strict = ctx.flag('strict')
    ok, a = attempt(A.deserialize, {'part': data}, strict=strict) if inside \
        else attempt(Part.deserialize, data, strict=strict)
    ctx.check(ok == (n >= 0 and not strict), 'read')
    if ok:
        b = a.part if inside else a
        ctx.check(b.n == n and b.level == 3 and b.helper() == n and
                  key not in b.__dict__, 'only the properties')


@scenario('C20', weight=2)
def falsy_read_only(ctx):
    """Stored values of read-only properties take the place of their default
    whatever they are"""
    d = ctx.int('d', -3, 3)
    v = any_value(ctx, 'v', 'ibsl', ints=3, maxlen=1)

    class Const(p.GettableProperty):
        def validate(self, instance, value):
            return value

    class A(p.HasProperties):
        c = Const('', default=d)
        many = Const('', default=lambda: [d])
    where = ctx.choice('where', ['c', 'many'])
    a = A.deserialize({where: v})
    ctx.check(exact(getattr(a, where), v), 'the stored one')
    b = A()
    ctx.check(b.c == d and b.many == [d], 'the default elsewhere')
    ctx.check((a.many == [d]) if where == 'c' else a.c == d, 'the other')


@scenario('C20', weight=2)
def alternative_names(ctx):
    """Only the name of an alternative, letter by letter, names it"""
    n = ctx.int('n', -9, 9)
    given = ctx.choice('given', ['Good', 'good', 'GOOD', 'Goo', 'Goods',
                                 'First', 'first', ' Good', ''])

    class First(p.HasProperties):
        n = p.Integer('')

    class Good(p.HasProperties):
        n = p.Integer('', min=0)

    class A(p.HasProperties):
        x = p.Union('', [p.Instance('', First), p.Instance('', Good)])
    ok, a = attempt(A.deserialize, {'x': {'__class__': given, 'n': n}})
    if given == 'Good':
        ctx.check(ok == (n >= 0), 'read by the named one')
        ctx.check(not ok or type(a.x) is Good, 'the named one')
    else:
        ctx.check(ok and type(a.x) is First and a.x.n == n, 'the first')


@scenario('C20')
def objects_in_data(ctx):
    """Stored data that holds objects is no stored data"""
    n = ctx.int('n')

    class Part(p.HasProperties):
        n = p.Integer('')

    class A(p.HasProperties):
        x = p.Instance('', Part)
        many = p.List('', Part)
    part = Part(n=n)
    where = ctx.choice('where', ['top', 'x', 'many'])
    if where == 'top':
        ok, err = attempt(Part.deserialize, part)
    else:
        ok, err = attempt(A.deserialize,
                          {where: part if where == 'x' else [part]},
                          trusted=ctx.flag('trusted'))
    ctx.check(not ok and isinstance(err, ValueError), 'refused')
