"""C26 renamed properties"""
import warnings

import properties as p
from harness.common import any_value, exact, json_compatible
from harness.reg import attempt, scenario

BOUNDS = ('renamed properties of nine kinds, with and without warnings, '
          'directly, through a second renaming and inherited; symbolic values '
          'of any kind through every route of access, storage and comparison')
ASSUMPTIONS = ['text up to 2 characters, integers up to 64 and floats on a '
               'grid of 1/16 for validated kinds', 'renamings do not refer to '
               'each other in a circle']
WITNESSES = ['set', 'refused', 'deleted', 'warned', 'silent', 'written',
             'read-old', 'default', 'equal', 'declared', 'not-declared']


class Part(p.HasProperties):
    n = p.Integer('n')


def up(value, **kw):
    return {'up': value}


def down(value, **kw):
    return value['up']


KINDS = [
    (lambda: p.Integer('d', min=-3), 'ifbsn'),
    (lambda: p.Float('d', max=9), 'ifsn'),
    (lambda: p.String('d', change_case='upper'), 'sni'),
    (lambda: p.Complex('d'), 'ifc'),
    (lambda: p.List('d', p.Float('')), 'ldn'),
    (lambda: p.Instance('d', Part), 'pq'),
    (lambda: p.Union('d', [p.Integer('', max=4), p.String('')]), 'isf'),
    (lambda: p.Integer('d', serializer=up, deserializer=down), 'is'),
    (lambda: p.List('d', p.Instance('', Part)), 'r'),
]


def value(ctx, name, kinds):
    k = kinds[ctx.pick(name + '.k', len(kinds))] if len(kinds) > 1 else kinds
    if k == 'p':
        return Part(n=ctx.int(name))
    if k == 'q':
        return {'n': ctx.int(name)}
    if k == 'l':
        return [ctx.int(name, -64, 64)]
    if k == 'r':
        return [Part(n=ctx.int(name))]
    return any_value(ctx, name, k, ints=64, q=4, m=64, maxlen=2,
                     alphabet='aA1')


def caught():
    w = warnings.catch_warnings(record=True)
    got = w.__enter__()
    warnings.simplefilter('always')
    return w, got


def future(got):
    return [x for x in got if issubclass(x.category, FutureWarning)]


def same(a, b):
    """Same stored values, parts compared by their contents"""
    if isinstance(a, Part):
        return isinstance(b, Part) and a.n == b.n
    if isinstance(a, list) and a and isinstance(a[0], Part):
        return len(a) == len(b) and same(a[0], b[0])
    return exact(a, b)


@scenario('C26', weight=6)
def access(ctx):
    """Using the old name is using the new one, with a warning"""
    i = ctx.pick('kind', len(KINDS))
    make, kinds = KINDS[i]
    v = value(ctx, 'v', kinds)
    how = ctx.pick('how', 4)
    log, log2 = [], []

    class New(p.HasProperties):
        other = p.Integer('o', default=1)
        new = make()

        @p.observer(p.everything)
        def o(self, change):
            log.append((change['name'], change['value'], change['previous'],
                        change['mode']))

    class Old(p.HasProperties):
        other = p.Integer('o', default=1)
        if how == 3:
            older = p.Renamed('new', warn=False)
        old = p.Renamed(*(['older'] if how == 3 else ['new']), **(
            {'warn': False} if how == 1 else
            {'warn': True, 'doc': 'x'} if how == 2 else {}))
        new = make()

        @p.observer(p.everything)
        def o(self, change):
            log2.append((change['name'], change['value'], change['previous'],
                         change['mode']))
    a, b = New(), Old()
    del log[:], log2[:]

    def told(n):
        got = future(seen)
        ctx.cover('silent' if how == 1 else 'warned')
        ctx.check(len(got) == (0 if how == 1 else n), 'warned')
        del seen[:]
    w, seen = caught()
    try:
        ok, _ = attempt(setattr, a, 'new', v)
        okb, err = attempt(setattr, b, 'old', v)
        told(1)
        ctx.check(ok == okb, 'set exactly when accepted')
        if not ok:
            ctx.cover('refused')
            ctx.check(isinstance(err, p.ValidationError) and
                      isinstance(_, p.ValidationError) and
                      b.new is None and log2 == [], 'refused')
            return
        ctx.cover('set')
        ctx.check(same(a.new, b.new) or a.new is b.new, 'same value')
        ctx.check(len(seen) == 0, 'the new name does not warn')
        got = b.old
        told(1)
        ctx.check(got is b.new, 'read')
        ctx.check(b.other == 1 and set(b._backend) == {'other', 'new'},
                  'stored under the new name')
        ctx.check(len(log) == 1 and len(log2) == 1 and
                  log2[0][0] == 'new' and log2[0][1] is b.new and
                  log2[0][3] == log[0][3] and
                  log2[0][2] is p.undefined, 'told once, under the new name')
        del b.old
        told(1)
        ctx.cover('deleted')
        ctx.check(b.new is None and b.old is None and
                  len(log2) == 2 and log2[1][0] == 'new', 'deleted')
        del seen[:]
        c = Old(old=v)
        told(1)
        ctx.check(same(c.new, a.new), 'argument')
        ctx.check(set(c._backend) == {'other', 'new'}, 'stored as new')
        for first in ('old', 'new'):
            d = Old(**{first: None if v is None else v,
                       ('new' if first == 'old' else 'old'): v})
            ctx.check(same(d.new, a.new), 'both names')
    finally:
        w.__exit__(None, None, None)


@scenario('C26', weight=6)
def storage(ctx):
    """Stored under the new name only; data under the old name is read as
    data of the new"""
    i = ctx.pick('kind', len(KINDS))
    make, kinds = KINDS[i]
    v = value(ctx, 'v', kinds)
    chain = ctx.flag('chain')

    class New(p.HasProperties):
        new = make()

    class Old(p.HasProperties):
        new = make()
        mid = p.Renamed('new')
        old = p.Renamed(*(['mid'] if chain else ['new']))
    w, seen = caught()
    try:
        ok, a = attempt(New, new=v)
        if not ok:
            return
        b = Old(new=v)
        del seen[:]
        for include in (False, True):
            js = a.serialize(include_class=include)
            got = b.serialize(include_class=include)
            if include:
                js['__class__'] = 'Old'
            ctx.check(exact(got, js), 'written under the new name')
        ctx.check(future(seen) == [], 'writing does not warn')
        ctx.cover('written')
        js = a.serialize(include_class=False)
        full = b.serialize(include_class=False, save_dynamic=True)
        ctx.check(json_compatible(full), 'only JSON')
        for n in ('mid', 'old', 'new'):
            ctx.check(exact(full.get(n), js.get('new')), 'same data')
        if 'new' in js:
            data = js['new']
            if ctx.flag('class') and isinstance(data, dict) and i == 5:
                data = dict(data, __class__='Part')
            ok, want = attempt(New.deserialize, {'new': data})
            for n in ('old', 'new'):
                strict = n == 'old'
                okg, got = attempt(Old.deserialize, {n: data},
                                   strict=strict, assert_valid=True)
                ctx.check(ok == okg, 'read')
                ctx.check(not okg or same(want.new, got.new), 'same value')
                ctx.check(not okg or set(got._backend) == {'new'},
                          'kept under the new name')
                ctx.cover('read-old')
        c = Old.deserialize(full)
        ctx.check(same(c.new, New.deserialize(js).new), 'full data read')
    finally:
        w.__exit__(None, None, None)


@scenario('C26', weight=6)
def comparison(ctx):
    """A renaming plays no part in validity, equality and copies"""
    i = ctx.pick('kind', len(KINDS))
    make, kinds = KINDS[i]
    v = value(ctx, 'v', kinds)
    u = value(ctx, 'u', kinds)

    class New(p.HasProperties):
        new = make()

    warn = ctx.flag('warn')

    class Old(p.HasProperties):
        old = p.Renamed('new', warn=warn)
        new = make()
    w, seen = caught()
    try:
        (ok1, a), (ok2, b) = attempt(New, new=v), attempt(New, new=u)
        if not (ok1 and ok2):
            return
        c, d = Old(new=v), Old(new=u)
        ctx.check(p.equal(c, d) == p.equal(a, b), 'equal')
        ctx.cover('equal')
        r1, r2 = attempt(a.validate), attempt(c.validate)
        ctx.check(r1[0] == r2[0] and (not r1[0] or r1[1] == r2[1]), 'valid')
        r1, r2 = attempt(p.copy, a), attempt(p.copy, c)
        ctx.check(r1[0] == r2[0], 'copied')
        if r1[0]:
            ctx.check(p.equal(r2[1], c) == p.equal(r1[1], a), 'equal copy')
        ctx.check(future(seen) == [], 'no warnings')
        c._reset()
        ctx.check(c.new is None, 'reset')
        ok, err = attempt(c._reset, 'old')
        ctx.check(not ok and isinstance(err, AttributeError), 'no default')
    finally:
        w.__exit__(None, None, None)


@scenario('C26', weight=2)
def defaults(ctx):
    """A class default under the old name is one of the new name"""
    n, m = ctx.int('n'), ctx.int('m')
    where = ctx.pick('where', 4)
    ctx.assume(m >= -3)

    class Base(p.HasProperties):
        new = p.Integer('n', default=m, min=-3) if ctx.flag('own') else \
            p.Integer('n', min=-3)
        old = p.Renamed('new')
        if where == 1:
            _defaults = {'new': 5}
        if where == 2:
            _defaults = {'old': 5}

    def declare():
        class Sub(Base):
            if where == 3:
                _defaults = {'new': n}
            else:
                _defaults = {'old': n if where else (lambda: n)}
        return Sub
    w, seen = caught()
    try:
        ok, cls = attempt(declare)
        ctx.check(ok == (n >= -3), 'declared exactly when valid')
        ctx.cover('default')
        if not ok:
            ctx.check(isinstance(cls, AttributeError), 'kind of error')
            return
        a = cls()
        ctx.check(a.new == n and set(a._backend) == {'new'}, 'default')
        ctx.check(a.serialize(include_class=False) == {'new': n}, 'written')
        a.new = n + 1
        a._reset('new')
        ctx.check(a.new == n, 'reset')
        ctx.check(cls(old=n + 2).new == n + 2, 'argument first')
    finally:
        w.__exit__(None, None, None)


@scenario('C26')
def long_chains(ctx):
    """A renaming may refer to a renaming, and that to another"""
    n, m = ctx.int('n', -9, 9), ctx.int('m', -9, 9)
    size = 1 + ctx.pick('size', 4)
    at = ctx.pick('at', 4)
    ctx.assume(at < size)
    sub = ctx.flag('sub')
    names = ['new', 'o1', 'o2', 'o3', 'o4']
    body = {'new': p.Integer('', min=-5), '__module__': __name__}
    for i in range(size):
        body[names[i + 1]] = p.Renamed(names[i], warn=False)
    old = names[at + 1]
    dflt = {'_defaults': {old: lambda: n}, '__module__': __name__}
    if not sub:
        body.update(dflt)

    def declare():
        A = type(p.HasProperties)('A', (p.HasProperties,), body)
        return type(p.HasProperties)('B', (A,), dflt) if sub else A
    ok, cls = attempt(declare)
    ctx.check(ok == (n >= -5), 'declared exactly when valid')
    if not ok:
        return
    ctx.cover('default')
    a = cls()
    for k in ['new'] + names[1:size + 1]:
        ctx.check(getattr(a, k) == n, 'default')
    ctx.check(set(a._backend) == {'new'}, 'one value')
    ok, err = attempt(setattr, a, old, m)
    ctx.check(ok == (m >= -5), 'set exactly when valid')
    now = m if ok else n
    for k in ['new'] + names[1:size + 1]:
        ctx.check(getattr(a, k) == now, 'value')
    ctx.check(a.serialize(include_class=False) == {'new': now}, 'written')
    ok, b = attempt(cls.deserialize, {old: now}, strict=True)
    ctx.check(ok and b.new == now, 'read')
    a._reset('new')
    ctx.check(a.new == n, 'reset')


@scenario('C26', weight=2)
def declarations(ctx):
    """A renaming needs a property of the class to refer to"""
    k = ctx.pick('k', 9)
    v = ctx.int('v')

    class Base(p.HasProperties):
        new = p.Integer('n', default=v)

    def declare():
        class A(Base):
            plain = 3
            if k == 0:
                old = p.Renamed('new')
            if k == 1:
                old = p.Renamed('nope')
            if k == 2:
                old = p.Renamed('plain')
            if k == 3:
                old = p.Renamed(5)
            if k == 4:
                old = p.Renamed('new', warn=1)
            if k == 5:
                old = p.Renamed('new', warn=False, doc='why')
            if k == 6:
                old = p.Renamed('new')

                @p.observer('old')
                def o(self, change):
                    pass
            if k == 7:
                new = p.Float('f', default=v)
                old = p.Renamed('new')
            if k == 8:
                old = p.Renamed('calc')

                @p.Integer('c')
                def calc(self):
                    return self.new + 1

                @calc.setter
                def calc(self, value):
                    self.new = value - 1
        return A
    ctx.assume(-64 < v < 64)
    ok, cls = attempt(declare)
    ctx.check(ok == (k in (0, 5, 7, 8)), 'declared')
    if not ok:
        ctx.cover('not-declared')
        ctx.check(isinstance(cls, TypeError), 'kind of error')
        return
    ctx.cover('declared')
    w, seen = caught()
    try:
        class Sub(cls):
            pass
        a = cls() if ctx.flag('same') else Sub()
        ctx.check(exact(a.old, float(v) if k == 7 else v + (k == 8)), 'read')
        a.old = 7
        ctx.check(a.new == (6 if k == 8 else 7), 'set')
        ctx.check('old' not in a._backend, 'not stored')
        doc = cls._props['old'].doc
        ctx.check(doc == 'why' if k == 5 else
                  ("'new'" if k != 8 else "'calc'") in doc, 'description')
    finally:
        w.__exit__(None, None, None)


@scenario('C26', weight=2)
def overridden(ctx):
    """The renaming follows a property a subclass declares anew"""
    v = any_value(ctx, 'v', 'ifs', ints=64, q=4, m=64, maxlen=1,
                  alphabet='a1')
    k = ctx.pick('k', 3)

    class Base(p.HasProperties):
        new = p.Integer('n')
        old = p.Renamed('new', warn=False)

    class Sub(Base):
        if k == 0:
            new = p.Float('n', min=2)
        if k == 1:
            new = p.String('n')
        if k == 2:
            other = p.String('s')
            old = p.Renamed('other', warn=False)
    want = Sub._props['other' if k == 2 else 'new']
    ok, w = attempt(want.validate, None, v)
    a = Sub()
    okg, g = attempt(setattr, a, 'old', v)
    ctx.check(ok == okg, 'set exactly when valid')
    if ok:
        ctx.check(exact(a.other if k == 2 else a.new, w), 'value')
        ctx.check(k != 2 or a.new is None, 'nothing else')
        js = a.serialize(include_class=False)
        b = Sub.deserialize({'old': list(js.values())[0]})
        ctx.check(p.equal(a, b), 'read')
    b = Base()
    ok, w = attempt(p.Integer('').validate, None, v)
    okg, g = attempt(setattr, b, 'old', v)
    ctx.check(ok == okg and (not ok or exact(b.new, w)), 'base as before')


@scenario('C26', weight=2)
def of_others(ctx):
    """The renaming of a calculated property does what its functions do"""
    v = any_value(ctx, 'v', 'ifbsn', ints=64, q=4, m=64, maxlen=1,
                  alphabet='a1')
    parts = ctx.pick('parts', 4)
    warn = ctx.flag('warn')
    log = []

    def declare(renamed):
        class A(p.HasProperties):
            base = p.Integer('', default=3)

            @p.Integer('calc', min=0)
            def calc(self):
                return self.base + 1
            if parts in (1, 3):
                @calc.setter
                def calc(self, value):
                    log.append(('set', value))
                    self.base = value
            if parts in (2, 3):
                @calc.deleter
                def calc(self):
                    log.append(('del',))
                    self.base = 7
            old = p.Renamed('calc', warn=warn)
        return A()
    a, b = declare(False), declare(True)
    w, seen = caught()
    try:
        for op in ('get', 'set', 'del', 'get'):
            del log[:]
            if op == 'get':
                r1, r2 = attempt(getattr, a, 'calc'), attempt(getattr, b,
                                                              'old')
            elif op == 'set':
                r1, r2 = attempt(setattr, a, 'calc', v), attempt(
                    setattr, b, 'old', v)
            else:
                r1, r2 = attempt(delattr, a, 'calc'), attempt(
                    delattr, b, 'old')
            half = len(log) // 2
            ctx.check(r1[0] == r2[0], 'done exactly when the new name does')
            ctx.check(type(r1[1]) is type(r2[1]) and
                      (not r1[0] or exact(r1[1], r2[1])), 'same outcome')
            ctx.check(len(log) == 2 * half and
                      exact(log[:half], log[half:]), 'same functions')
            ctx.check(a.base == b.base, 'same effect')
            if op == 'del':
                ctx.check(r2[0] == (parts in (2, 3)), 'deleted if possible')
                ctx.cover('deleted')
        ctx.check(len(future(seen)) == (4 if warn else 0), 'warned')
    finally:
        w.__exit__(None, None, None)


@scenario('C26', weight=2)
def both_names(ctx):
    """Arguments under both names are each checked"""
    n, m = ctx.int('n', -9, 9), ctx.int('m', -9, 9)
    first = ctx.flag('first')

    class A(p.HasProperties):
        new = p.Integer('', min=0)
        old = p.Renamed('new', warn=False)
    ok, a = attempt(lambda: A(new=n, old=m) if first else A(old=m, new=n))
    ctx.check(ok == (n >= 0 and m >= 0), 'each is checked')
    if ok:
        ctx.check(a.new in (n, m) and set(a._backend) == {'new'}, 'one value')
        ctx.check(exact(a.new, a.old), 'under both names')


@scenario('C26', weight=2)
def one_function(ctx):
    """A renaming with a function for one direction only"""
    n = ctx.int('n', -9, 9)
    which = ctx.choice('which', ['serializer', 'deserializer', 'both', None])
    opts = {}
    if which in ('serializer', 'both'):
        opts['serializer'] = lambda v: v + 1
    if which in ('deserializer', 'both'):
        opts['deserializer'] = lambda v: v - 1

    class A(p.HasProperties):
        new = p.Integer('')
        old = p.Renamed('new', warn=False, **opts)
    ok, a = attempt(A.deserialize, {'old': n})
    want = n - 1 if 'deserializer' in opts else n
    ctx.check(ok and a.new == want, 'read by its function')
    ok, b = attempt(A.deserialize, {'new': n})
    ctx.check(ok and b.new == n, 'the new name by its own')
    ctx.check(b.serialize(include_class=False) == {'new': n}, 'written')
    js = b.serialize(include_class=False, save_dynamic=True)
    if which == 'serializer' or which == 'both':
        ctx.check(js.get('old', n + 1) == n + 1, 'written by its function')


@scenario('C26')
def undefined_given(ctx):
    """Giving undefined under the old name is deleting, once"""
    n = ctx.int('n', -9, 9)
    held = ctx.flag('held')
    how = ctx.pick('how', 2)
    log = []

    class A(p.HasProperties):
        new = p.Integer('', min=0, required=False)
        old = p.Renamed('new', warn=False)

        @p.validator('new')
        def v(self, change):
            log.append(('validate', change['previous'], change['value']))

        @p.observer('new')
        def o(self, change):
            log.append(('set', change['previous'], change['value']))

        @p.observer('new', change_only=True)
        def c(self, change):
            log.append(('change', change['previous'], change['value']))
    ctx.assume(n >= 0)
    a, b = A(), A()
    if held:
        a.new = b.new = n
    del log[:]
    for x, name in ((a, 'new'), (b, 'old')):
        if how:
            setattr(x, name, p.undefined)
        else:
            delattr(x, name)
    half = len(log) // 2
    ctx.check(len(log) == 2 * half and log[:half] == log[half:] and half > 0,
              'told the same')
    ctx.check(a.new is None and b.new is None and b.old is None and
              b._backend == {}, 'deleted')
