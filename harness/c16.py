"""C16 defaults"""
import properties as p
from harness.common import any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('classes with up to three levels or a diamond; at each level the '
          'property default and the class defaults are absent, a symbolic '
          'value, a callable or undefined')
ASSUMPTIONS = ['class defaults name properties, not renamed names']
WITNESSES = ['class-default', 'own-default', 'type-default', 'nothing',
             'argument', 'callable', 'bad', 'diamond', 'shared']

NONE = 'no default'


def entry(ctx, name, v, calls):
    """One declared default: (declared, meaning)"""
    k = ctx.pick(name, 4)
    if k == 0:
        return None, NONE
    if k == 1:
        return v, v
    if k == 2:
        ctx.cover('callable')

        def make():
            calls.append(name)
            return v
        return make, v
    return p.undefined, p.undefined


class Special(p.Integer):
    _class_default = 77


def stored(a, name='x'):
    return a._backend.get(name, p.undefined)


def expect(ctx, own, chain, base):
    """The default by the documented precedence: nearest class default, then
    the property's, then the property type's"""
    for m in chain:
        if m is not NONE:
            ctx.cover('nothing' if m is p.undefined else 'class-default')
            return m
    if own is not NONE:
        ctx.cover('nothing' if own is p.undefined else 'own-default')
        return own
    ctx.cover('type-default')
    return base


def check_object(ctx, cls, want, log, v):
    del log[:]
    a = cls()
    ctx.check(log == [], 'defaults are silent')
    got = stored(a)
    ctx.check((got is p.undefined) == (want is p.undefined), 'set or not')
    if want is not p.undefined and got is not p.undefined:
        ctx.check(got == want and type(a.x) is int, 'default value')
    b = cls(x=v)
    ctx.cover('argument')
    ctx.check(b.x == v, 'arguments come first')
    ctx.check(log == [('x', want, v)], 'and are told, over the default')
    # reset
    del log[:]
    b._reset('x')
    ctx.check((stored(b) is p.undefined) == (want is p.undefined) and
              (want is p.undefined or b.x == want), 'reset')
    ctx.check(log == [('x', v, want)], 'reset is told')
    a.x = v
    a.y = v
    a._reset()
    ctx.check((stored(a) is p.undefined) == (want is p.undefined) and
              (want is p.undefined or a.x == want), 'reset of everything')
    ctx.check(stored(a, 'y') is p.undefined, 'reset of everything else')
    a.x = v
    del a.x
    ctx.check(stored(a) is p.undefined, 'deleting does not bring it back')


def listening(log):
    class Log(p.HasProperties):
        pass

    def o(self, change):
        if change['name'] == 'x':
            log.append((change['name'], change['previous'], change['value']))
    return o


@scenario('C16', weight=3)
def precedence(ctx):
    calls, log = [], []
    vals = [ctx.int('v%d' % i) for i in range(4)]
    d0, own0 = entry(ctx, 'own', vals[0], calls)
    d1, c0 = entry(ctx, 'base', vals[1], calls)
    d2, c1 = entry(ctx, 'sub', vals[2], calls)
    special = ctx.flag('special')
    cls = Special if special else p.Integer
    kw = {} if d0 is None else {'default': d0}

    class A(p.HasProperties):
        x = cls('x', **kw)
        y = p.Integer('y', required=False)
        if d1 is not None:
            _defaults = {'x': d1}
        o = p.observer(p.everything)(listening(log))

    class B(A):
        if d2 is not None:
            _defaults = {'x': d2}
    base = 77 if special else p.undefined
    check_object(ctx, B, expect(ctx, own0, [c1, c0], base), log, vals[3])
    check_object(ctx, A, expect(ctx, own0, [c0], base), log, vals[3])


@scenario('C16', weight=3)
def redeclared(ctx):
    """A redeclared property keeps inherited class defaults"""
    calls, log = [], []
    vals = [ctx.int('v%d' % i) for i in range(5)]
    d0, own0 = entry(ctx, 'own0', vals[0], calls)
    d1, own1 = entry(ctx, 'own1', vals[1], calls)
    d2, c0 = entry(ctx, 'base', vals[2], calls)
    d3, c1 = entry(ctx, 'sub', vals[3], calls)
    kw0 = {} if d0 is None else {'default': d0}
    kw1 = {} if d1 is None else {'default': d1}

    class A(p.HasProperties):
        x = p.Integer('x', **kw0)
        y = p.Integer('y', required=False)
        if d2 is not None:
            _defaults = {'x': d2}
        o = p.observer(p.everything)(listening(log))

    class B(A):
        x = p.Integer('new x', **kw1)
        if d3 is not None:
            _defaults = {'x': d3}
    check_object(ctx, B, expect(ctx, own1, [c1, c0], p.undefined), log,
                 vals[4])


@scenario('C16', weight=3)
def diamond(ctx):
    """Class defaults follow the method resolution order"""
    calls, log = [], []
    vals = [ctx.int('v%d' % i) for i in range(5)]
    declared, meant = [], []
    for i in range(4):
        if i < 3:
            d, m = entry(ctx, 'c%d' % i, vals[i], calls)
        else:
            d, m = (vals[3], vals[3]) if ctx.flag('c3') else (None, NONE)
        declared.append(d)
        meant.append(m)

    class Base(p.HasProperties):
        x = p.Integer('x', default=5)
        y = p.Integer('y', required=False)
        if declared[0] is not None:
            _defaults = {'x': declared[0]}
        o = p.observer(p.everything)(listening(log))

    class L(Base):
        if declared[1] is not None:
            _defaults = {'x': declared[1]}

    class R(Base):
        if declared[2] is not None:
            _defaults = {'x': declared[2]}

    class D(L, R):
        if declared[3] is not None:
            _defaults = {'x': declared[3]}
    ctx.cover('diamond')
    check_object(ctx, D, expect(ctx, 5, [meant[3], meant[1], meant[2],
                                         meant[0]], p.undefined), log,
                 vals[4])


@scenario('C16', weight=3)
def bad_defaults(ctx):
    """A default the property refuses is refused with the declaration"""
    v = any_value(ctx, 'v', 'ifsb', ints=64, q=4, m=64, maxlen=1,
                  alphabet='a1')
    lo = ctx.int('lo', -3, 3)
    where = ctx.pick('where', 3)
    give = (lambda: v) if ctx.flag('callable') else v
    ok_val, _ = attempt(p.Integer('x', min=lo).validate, None, v)

    def declare():
        if where == 0:
            class A(p.HasProperties):
                x = p.Integer('x', min=lo, default=give)
            return A

        class A(p.HasProperties):
            x = p.Integer('x', min=lo)
            if where == 1:
                _defaults = {'x': give}
        if where == 2:
            class A(A):
                _defaults = {'x': give}
        return A
    ok, got = attempt(declare)
    ctx.check(ok == ok_val, 'declared exactly when acceptable')
    if not ok:
        ctx.cover('bad')
        ctx.check(isinstance(got, p.ValidationError if where == 0
                             else AttributeError), 'kind of error')
        return
    a = got()
    ctx.check(type(a.x) is int and a.x == p.Integer('', cast=True).validate(
        None, v), 'coerced')
    a.validate()


@scenario('C16')
def unknown_defaults(ctx):
    name = ctx.choice('name', ['x', 'y', '', 'X', 'm'])

    def declare():
        class A(p.HasProperties):
            x = p.Integer('x')
            _defaults = {name: 1}

            def m(self):
                pass
        return A
    ok, err = attempt(declare)
    ctx.check(ok == (name == 'x'), 'class defaults name properties')
    if not ok:
        ctx.check(isinstance(err, AttributeError), 'kind of error')


@scenario('C16', weight=3)
def not_shared(ctx):
    """Objects do not share containers that come from defaults"""
    n, m = ctx.int('n'), ctx.int('m')
    kind = ctx.choice('kind', ['list', 'set', 'dict', 'tuple', 'union',
                               'nested'])
    init = {'list': [n], 'set': set([n]), 'dict': {'a': n}, 'tuple': (n,),
            'union': [n], 'nested': [[n]]}[kind]
    give = (lambda: init) if ctx.flag('callable') else init
    kw = {'default': give}
    cdef = ctx.flag('class')
    if cdef:
        kw = {}
    obs = ctx.flag('observe')

    class A(p.HasProperties):
        x = {
            'list': lambda: p.List('x', p.Integer(''), observe_mutations=obs,
                                   **kw),
            'set': lambda: p.Set('x', p.Integer(''), observe_mutations=obs,
                                 **kw),
            'dict': lambda: p.Dictionary('x', value_prop=p.Integer(''),
                                         observe_mutations=obs, **kw),
            'tuple': lambda: p.Tuple('x', p.Integer(''), **kw),
            'union': lambda: p.Union('x', [
                p.Integer(''), p.List('', p.Integer(''),
                                      observe_mutations=obs)], **kw),
            'nested': lambda: p.List('x', p.List('', p.Integer('')), **kw),
        }[kind]()
        if cdef:
            _defaults = {'x': give}
    a, b = A(), A()
    ctx.cover('shared')

    def add(c):
        if kind in ('list', 'union'):
            c.append(m)
        elif kind == 'set':
            c.add(m)
        elif kind == 'dict':
            c['b'] = m
        elif kind == 'nested':
            c[0].append(m)
    import copy
    first = copy.deepcopy(init)
    ctx.check(a.x == first and b.x == first, 'default contents')
    add(a.x)
    ctx.check(b.x == first, 'other object untouched')
    ctx.check(init == first, 'declared default untouched')
    ctx.check(A().x == first, 'new object untouched')
    b._reset('x')
    ctx.check(b.x == first, 'reset')
    a._reset('x')
    ctx.check(a.x == first, 'reset after a change')


@scenario('C16', weight=2)
def callable_each_time(ctx):
    """A callable default is asked for every new object and reset"""
    count = [0]
    step = ctx.int('step')
    cdef = ctx.flag('class')

    def make():
        count[0] = count[0] + step
        return count[0]
    kw = {} if cdef else {'default': make}

    class A(p.HasProperties):
        x = p.Integer('x', **kw)
        if cdef:
            _defaults = {'x': make}
    for i in range(3):
        before = count[0]
        a = A()
        ctx.check(a.x == count[0] and count[0] == before + step,
                  'asked once per object')
    before = count[0]
    a._reset('x')
    ctx.check(a.x == before + step, 'asked on reset')


@scenario('C16', weight=2)
def immutable_defaults(ctx):
    """Properties without assignment get their defaults too"""
    n, m = ctx.int('n'), ctx.int('m')
    d, own = entry(ctx, 'own', n, [])
    c, cls_def = entry(ctx, 'cls', m, [])

    class Const(p.GettableProperty):
        def validate(self, instance, value):
            return p.Integer('', cast=True).validate(instance, value)
    kw = {} if d is None else {'default': d}

    class A(p.HasProperties):
        x = Const('x', **kw)
        if c is not None:
            _defaults = {'x': c}
    want = expect(ctx, own, [cls_def], p.undefined)
    a = A()
    ctx.check((stored(a) is p.undefined) == (want is p.undefined) and
              (want is p.undefined or a.x == want), 'default')
    k = ctx.choice('kind', ['text', 'bad', 'fraction', 'none'])
    later = {'text': '7', 'bad': 'seven', 'fraction': 2.5,
             'none': None}[k]
    state = [1]

    class B(p.HasProperties):
        x = Const('x', default=lambda: state[0])
    state[0] = later
    ok, got = attempt(B)
    ctx.check(ok == (k in ('text', 'fraction')), 'checked for every object')
    if ok:
        ctx.check(type(got.x) is int, 'and made what it should be')
    else:
        ctx.check(isinstance(got, ValueError), 'or refused')
    ok, err = attempt(setattr, a, 'x', 3)
    ctx.check(not ok and isinstance(err, AttributeError), 'not assignable')
    ok, err = attempt(a._reset, 'x')
    ctx.check(not ok and isinstance(err, AttributeError), 'not resettable')
    a._reset()
    ctx.check((stored(a) is p.undefined) == (want is p.undefined) and
              (want is p.undefined or a.x == want), 'kept')
    ok, err = attempt(a._reset, 'nothing')
    ctx.check(not ok and isinstance(err, AttributeError), 'unknown name')


@scenario('C16', weight=2)
def overridden(ctx):
    """A calculated property or a plain attribute replaces the property and
    its defaults"""
    n, m = ctx.int('n'), ctx.int('m')
    where = ctx.pick('where', 2)
    kw = {'default': n} if where == 0 else {}

    class A(p.HasProperties):
        x = p.Integer('x', **kw)
        y = p.Integer('y', default=1)
        if where == 1:
            _defaults = {'x': n}

    class B(A):
        @p.Integer('x')
        def x(self):
            return m
    b = B()
    ctx.check(b.x == m, 'calculated')
    ctx.check(stored(b) is p.undefined, 'nothing stored for it')
    ctx.check(b.serialize(include_class=False) == {'y': 1}, 'not written')
    ctx.check(A().x == n, 'base class untouched')


@scenario('C16', weight=2)
def own_constructor(ctx):
    """Defaults are in place, unannounced, before the constructor of the
    class runs, which gets what was passed"""
    n, v = ctx.int('n'), ctx.int('v')
    k = ctx.int('k')
    log, made = [], []
    fresh = ctx.flag('new')

    class A(p.HasProperties):
        x = p.Integer('x', default=n)
        y = p.List('y', p.Integer(''), default=list)

        if fresh:
            def __new__(cls, first, **kw):
                made.append((first, dict(kw)))
                return super(A, cls).__new__(cls)

        def __init__(self, first, **kw):
            log.append(('init', self.x, list(self.y), first))
            super(A, self).__init__(**kw)
            log.append(('done', self.x))

        @p.observer('x')
        def o(self, change):
            log.append(('told', change['previous']))
    named = ctx.flag('named')
    a = A(first=k, x=v) if named else A(k, x=v)
    ctx.check(list(log) == [('init', n, [], k), ('told', n), ('done', v)],
              'in order')
    ctx.check(a.x == v and a.y == [], 'assigned')
    ctx.check(list(made) == ([(k, {'x': v})] if fresh else []), 'passed on')
    ok, err = attempt(A)
    ctx.check(not ok and isinstance(err, TypeError), 'argument missing')


@scenario('C16', weight=2)
def callable_undefined(ctx):
    """A function may give undefined to leave the property unset"""
    n = ctx.int('n')
    gives = [ctx.flag('g%d' % i) for i in range(3)]
    asked = []
    where = ctx.pick('where', 3)
    kind = ctx.pick('kind', 3)

    def make():
        asked.append(1)
        i = len(asked) - base[0] - 1
        return n if 0 <= i < 3 and gives[i] else p.undefined
    base = [99]
    kw = {'default': make} if where == 0 else {}
    prop = [lambda: p.Integer('x', **kw), lambda: p.Property('x', **kw),
            lambda: p.Union('x', [p.String(''), p.Integer('')], **kw)][kind]

    def declare():
        class A(p.HasProperties):
            x = prop()
            if where:
                _defaults = {'x': make}
        if where == 2:
            A = type('B', (A,), {})
        return A
    ok, A = attempt(declare)
    if where == 0 and kind != 1:
        # only the default of a class may be nothing for a type that
        # refuses it
        return
    ctx.check(ok, 'declared')
    if not ok:
        return
    base[0] = len(asked)
    for i in range(2):
        a = A()
        ctx.check(len(asked) == base[0] + i + 1, 'asked once per object')
        ctx.check(stored(a) == (n if gives[i] else p.undefined)
                  if gives[i] else stored(a) is p.undefined, 'set or not')
    a.x = 5
    a._reset('x')
    ctx.check(a.x == n if gives[2] else stored(a) is p.undefined, 'reset')


@scenario('C16', weight=2)
def made_anew(ctx):
    """Every property type asks a default function anew for every object"""
    k = ctx.pick('k', 7)
    where = ctx.pick('where', 3)
    n = ctx.int('n')
    made = []

    class Part(p.HasProperties):
        n = p.Integer('n')

    def make():
        made.append([lambda: Part(n=n), lambda: [n], lambda: {'k': [n]},
                     lambda: Part(n=n), lambda: [n], lambda: set([n]),
                     lambda: [Part(n=n)]][k]())
        return made[-1]
    kw = {'default': make} if where == 0 else {}
    prop = [lambda: p.Instance('', Part, **kw),
            lambda: p.List('', p.Integer(''), **kw),
            lambda: p.Dictionary('', **kw),
            lambda: p.Union('', [p.Integer(''), Part], **kw),
            lambda: p.Union('', [p.Integer(''), p.List('', p.Integer(''))],
                            **kw),
            lambda: p.Set('', p.Integer(''), **kw),
            lambda: p.Union('', [p.Integer(''), p.List('', Part)], **kw)][k]

    class A(p.HasProperties):
        x = prop()
        if where:
            _defaults = {'x': make}
    if where == 2:
        A = type('B', (A,), {})
    a, b = A(), A()
    ctx.check(p.equal(a, b), 'equal')
    ctx.check(a.x is not b.x, 'not shared')
    if k == 6:
        ctx.check(a.x[0] is not b.x[0], 'parts not shared')
    old = a.x
    a._reset('x')
    ctx.check(a.x is not old and a.x is not b.x, 'made anew on reset')
    if k in (0, 3):
        a.x.n = n + 1
        ctx.check(b.x.n == n and A().x.n == n, 'own state')
    elif k == 6:
        a.x[0].n = n + 1
        ctx.check(b.x[0].n == n and A().x[0].n == n, 'own state')
    else:
        a.x.clear()
        ctx.check(len(b.x) == 1 and len(A().x) == 1, 'own state')


@scenario('C16')
def own_attributes(ctx):
    """A constructor may set up attributes of its own before the passed values
    are assigned, which may then be passed as well"""
    n, v = ctx.int('n'), ctx.int('v')
    how = ctx.pick('how', 4)
    key = ctx.choice('key', ['extra', '_hidden', 'other'])
    log = []

    class A(p.HasProperties):
        x = p.Integer('x', default=n)
        if how == 2:
            extra = 3

        def __init__(self, **kw):
            if how == 0:
                self.extra = 1
                self._hidden = 2
            super(A, self).__init__(**kw)
            log.append(self.x)

        if how == 3:
            @property
            def extra(self):
                return log[-1] if log else None

            @extra.setter
            def extra(self, value):
                log.append(value)
    ok, a = attempt(A, x=v, **{key: n})
    known = {0: ['extra', '_hidden'], 1: [], 2: ['extra'], 3: ['extra']}[how]
    ctx.check(ok == (key in known), 'accepted when there is such an attribute')
    if ok:
        ctx.check(a.x == v, 'assigned')
        ctx.check(getattr(a, key) == n if how != 3 else log[0] == n,
                  'also the attribute')
    else:
        ctx.check(isinstance(a, AttributeError), 'refused')


@scenario('C16')
def nothing_as_default(ctx):
    """A class default takes the place of that of the property whatever it
    is"""
    n = ctx.int('n')
    kind = ctx.pick('kind', 4)
    make, new = [
        (lambda d: p.Property('x', default=d), lambda: None),
        (lambda d: p.Integer('x', default=d), lambda: 0),
        (lambda d: p.Boolean('x', default=True), lambda: False),
        (lambda d: p.List('x', p.Integer(''), default=lambda: [d]),
         lambda: [])][kind]
    called = ctx.flag('called')
    first = new()
    given = new if called or kind == 3 else first

    class A(p.HasProperties):
        x = make(n)
        y = p.Property('y', default=n)
        _defaults = {'x': given}

    class B(A):
        pass
    cls = [A, B][ctx.pick('cls', 2)]
    a = cls()
    ctx.check(exact(a.x, first), 'the class default')
    ctx.check(a.y == n, 'others keep theirs')
    a.x = 7 if kind == 0 else 1 if kind == 1 else True if kind == 2 else [n]
    a._reset('x')
    ctx.check(exact(a.x, first), 'also on a reset')


@scenario('C16', weight=2)
def all_restored(ctx):
    """A reset without a name restores every property, also those without a
    value"""
    names = ['a', 'b', 'c', 'd']
    n = ctx.int('n')
    v = ctx.int('v')

    class A(p.HasProperties):
        a = p.Integer('', default=n)
        b = p.Integer('')
        c = p.List('', p.Integer(''), default=lambda: [n])
        d = p.Integer('', default=n, required=False)
        calc = p.GettableProperty('')
        other = p.Uuid('')
    a = A()
    first = a.other
    want = {'a': n, 'b': None, 'c': [n], 'd': n}
    ctx.check(all(exact(getattr(a, k), want[k]) for k in names),
              'defaults at first')
    for k in names:
        what = ctx.pick('do_' + k, 3)
        if what == 0:
            delattr(a, k)
        elif what == 1:
            setattr(a, k, [v] if k == 'c' else v)
    gone = ctx.flag('gone')
    how = ctx.pick('how', 2)
    if how == 0:
        ok, err = attempt(a._reset)
        back = names
    else:
        back = [names[ctx.pick('one', 4)]]
        kept = dict((k, getattr(a, k)) for k in names if k not in back)
        ok, err = attempt(a._reset, back[0])
        ctx.check(all(getattr(a, k) is kept[k] for k in kept), 'others kept')
    ctx.check(ok, 'reset')
    for k in back:
        ctx.check(exact(getattr(a, k), want[k]), 'default again')


@scenario('C16', weight=2)
def none_given(ctx):
    """A default is checked each time it is used; None is not a value for
    properties that refuse it"""
    n = ctx.int('n')
    give = []
    k = ctx.pick('kind', 4)
    via = ctx.pick('via', 2)

    def later():
        return give[0]
    make = [lambda **kw: p.Integer('', **kw), lambda **kw: p.List('', **kw),
            lambda **kw: p.Dictionary('', **kw),
            lambda **kw: p.String('', **kw)][k]
    good = [n, [n], {'k': n}, 'text'][k]
    give.append(good)

    class A(p.HasProperties):
        x = make(**({} if via else {'default': later}))
        if via:
            _defaults = {'x': later}
    give[0] = good
    a = A()
    ctx.check(exact(a.x, good), 'given')
    give[0] = None
    plain = make()

    class B(p.HasProperties):
        x = plain
    b = B()
    can, _ = attempt(setattr, b, 'x', None)
    ok, err = attempt(a._reset, 'x')
    ctx.check(ok == can, 'on a reset as in an assignment')
    ctx.check((a.x is None) if ok else exact(a.x, good), 'value afterwards')
    ok, made = attempt(A)
    ctx.check(ok == can, 'when made')


@scenario('C16', weight=2)
def none_as_class_default(ctx):
    """None is a class default exactly where the property takes it"""
    n = ctx.int('n')
    kind = ctx.pick('kind', 5)
    lenient = ctx.flag('lenient')

    class Kind(p.Integer):
        def validate(self, instance, value):
            if lenient and value is None:
                return None
            return super(Kind, self).validate(instance, value)
    make = [lambda: p.Property('x', default=n), lambda: Kind('x', default=n),
            lambda: p.String('x', default='a'), lambda: p.List('x'),
            lambda: p.Float('x', required=False, default=1.)][kind]
    called = ctx.flag('called')
    takes, err = attempt(make().validate, None, None)

    def declare():
        class A(p.HasProperties):
            x = make()
            _defaults = {'x': (lambda: None) if called else None}
        return A
    ok, cls = attempt(declare)
    ctx.check(ok == takes, 'declared exactly when taken')
    if ok:
        ctx.check(cls().x is None, 'the default')
    else:
        ctx.check(isinstance(cls, AttributeError), 'kind of error')
