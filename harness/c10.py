"""C10 a refused change leaves everything as it was; the constructor reports
every refusal"""
import properties as p
from harness.common import any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('objects with up to six properties; one refused assignment (symbolic '
          'old and new values) through attribute access, constructor, item '
          'mutation or a validator; constructors with up to 3 arguments')
ASSUMPTIONS = []
WITNESSES = ['refused', 'accepted', 'vetoed', 'ctor-refused', 'ctor-unknown',
             'ctor-both', 'ctor-ok', 'veto-mutation', 'ctor-mixed']


class Log(list):
    pass


def snapshot(a):
    return dict(a._backend)


def unchanged(a, before):
    now = a._backend
    if set(now) != set(before):
        return False
    for k in before:
        if now[k] is not before[k]:
            return False
    return True


class Part(p.HasProperties):
    n = p.Integer('n', min=0)


def kinds(ctx):
    """(property, good value, bad value)"""
    k = ctx.pick('kind', 12)
    n = ctx.int('n', -9, 9)
    if k == 0:
        return p.Integer('x', min=0), 4, any_value(ctx, 'bad', 'sndo')
    if k == 1:
        return p.Integer('x', min=0, max=5), 4, n
    if k == 2:
        return p.Float('x', max=0), -1.5, ctx.number('bad', 'if', q=4, m=64,
                                                     ints=64)
    if k == 3:
        return p.Boolean('x'), True, any_value(ctx, 'bad', 'isn', maxlen=1)
    if k == 4:
        return p.String('x'), 'good', any_value(ctx, 'bad', 'inlo')
    if k == 5:
        return p.StringChoice('x', ['ab', 'c']), 'ab', ctx.str('bad', 2, 'abc')
    if k == 6:
        return p.Color('x'), 'red', [1, 2, n]
    if k == 7:
        return p.List('x', prop=p.Integer('e', min=0)), [1, 2], [3, n]
    if k == 8:
        return p.Dictionary('x', value_prop=p.Integer('e', min=0)), {'a': 1}, \
            {'a': 3, 'b': n}
    if k == 9:
        return p.Instance('x', Part), Part(n=1), {'n': n}
    if k == 10:
        return p.Union('x', [p.Integer('i', min=0), p.Boolean('b')]), 3, n
    return p.Set('x', prop=p.Integer('e', min=0), observe_mutations=True), \
        set([1]), set([3, n])


@scenario('C10', weight=3)
def assignment(ctx):
    prop, good, bad = kinds(ctx)
    log = Log()

    class A(p.HasProperties):
        x = prop
        y = p.Integer('y', default=5)

        @p.observer('x')
        def seen(self, change):
            log.append('observe_set')

        @p.observer('x', change_only=True)
        def seen2(self, change):
            log.append('observe_change')

        @p.validator('x')
        def checked(self, change):
            log.append('validate')

        def _error_hook(self, error_tuples):
            hooked.append(error_tuples)
    hooked = []
    a = A()
    had = ctx.flag('had')
    if had:
        a.x = good
    before = snapshot(a)
    content = repr(before)
    del log[:]
    ok, err = attempt(setattr, a, 'x', bad)
    if ok:
        ctx.cover('accepted')
        ctx.check(hooked == [], 'nothing reported')
        return
    ctx.cover('refused')
    ctx.check(hooked == [err.error_tuples], 'the error hook runs once')
    ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
    ctx.check(unchanged(a, before), 'stored values untouched')
    ctx.check(repr(a._backend) == content, 'their contents too')
    ctx.check(len(log) == 0, 'no listener ran for a refused value')
    ctx.check(isinstance(err.error_tuples, list) and
              len(err.error_tuples) >= 1, 'the error describes itself')
    t = err.error_tuples[-1]
    ctx.check(t.prop == 'x' and t.instance is a and t.reason == 'invalid',
              'the error names property and object')
    ctx.check('x' in str(err), 'message names the property')
    # still usable afterwards
    ok, err = attempt(setattr, a, 'x', good)
    ctx.check(ok, 'the object keeps working')


@scenario('C10', weight=2)
def vetoed(ctx):
    """A validator refusing the change"""
    lim = ctx.int('lim')
    old, new = ctx.int('old'), ctx.int('new')
    ctx.assume(old <= lim)
    exc = ctx.choice('exc', ['validation', 'value', 'runtime'])
    two = ctx.flag('two')
    log = Log()

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y', default=5)

        @p.validator('x')
        def checked(self, change):
            log.append(change['value'])
            if change['value'] is not p.undefined and change['value'] > lim:
                if exc == 'validation':
                    raise p.ValidationError('too much', 'invalid', 'x', self)
                if exc == 'value':
                    raise ValueError('too much')
                raise RuntimeError('too much')

        @p.observer('x')
        def seen(self, change):
            log.append('observed')
    a = A()
    if two:
        p.validator(a, 'x', lambda inst, change: log.append('second'))
    a.x = old
    before = snapshot(a)
    del log[:]
    ok, err = attempt(setattr, a, 'x', new)
    ctx.check(ok == (new <= lim), 'refused exactly when the validator raises')
    if ok:
        ctx.check(a.x == new, 'stored')
        return
    ctx.cover('vetoed')
    ctx.check(isinstance(err, {'validation': p.ValidationError,
                               'value': ValueError,
                               'runtime': RuntimeError}[exc]),
              'the error of the validator surfaces')
    ctx.check(unchanged(a, before), 'stored values untouched')
    ctx.check(len(log) == 1 and log[0] == new, 'nothing ran after the refusal')


@scenario('C10', weight=3)
def mutation(ctx):
    """A refused mutation of an observed container leaves it unchanged"""
    k = ctx.pick('k', 3)
    n = ctx.int('n')
    if k == 0:
        prop = p.List('x', prop=p.Integer('e', min=0), observe_mutations=True)
        start = [1, 2]
    elif k == 1:
        prop = p.Set('x', prop=p.Integer('e', min=0), observe_mutations=True)
        start = set([1, 2])
    else:
        prop = p.Dictionary('x', value_prop=p.Integer('e', min=0),
                            observe_mutations=True)
        start = {1: 1, 2: 2}

    class A(p.HasProperties):
        x = prop
    a = A(x=start)
    held = a.x
    log = []
    p.observer(a, 'x', lambda o, c: log.append(c['name']))
    how = ctx.pick('how', 2)

    def mutate():
        if k == 0:
            if how:
                held[0] = n
            else:
                held.append(n)
        elif k == 1:
            if how:
                held.update([n])
            else:
                held.add(n)
        else:
            if how:
                held.update({2: n})
            else:
                held[3] = n
    ok, err = attempt(mutate)
    ctx.check(ok == (n >= 0), 'refused exactly when the element is')
    if not ok:
        ctx.cover('veto-mutation')
        ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
        ctx.check(a.x is held, 'same container')
        ctx.check(a.x == start, 'same contents')
        # the container is still connected
        if k == 0:
            held.append(7)
        elif k == 1:
            held.add(7)
        else:
            held[7] = 7
        ctx.check(7 in a.x, 'still connected')
        ctx.check(log == ['x'] and a.x is not held, 'and reports')


@scenario('C10', weight=4)
def constructor(ctx):
    """Every refused argument is reported, in order, and nothing else"""
    hooked = Log()

    class A(p.HasProperties):
        x = p.Integer('x', min=0)
        y = p.String('y')
        z = p.Boolean('z', default=True)
        note = 'plain attribute'

        def _error_hook(self, error_tuples):
            hooked.append(list(error_tuples))
    args = {}
    n = ctx.pick('n', 4)
    names = ['x', 'y', 'z', 'note', 'bogus']
    first = ctx.pick('first', len(names))
    for i in range(n):
        name = names[(first + i) % len(names)]
        args[name] = any_value(ctx, 'v%d' % i, 'isb' if i else 'is', maxlen=1,
                               alphabet='a')
    bad = []
    for name in args:
        v = args[name]
        if name == 'x' and (type(v) is bool or not isinstance(v, int) or
                            v < 0):
            if not (type(v) is bool):
                bad.append(name)
        elif name == 'y' and not isinstance(v, str):
            bad.append(name)
        elif name == 'z' and type(v) is not bool:
            bad.append(name)
    unknown = 'bogus' in args
    # an unknown keyword stops the construction at once
    if unknown:
        bad_before = [k for k in bad
                      if list(args).index(k) < list(args).index('bogus')]
    ok, res = attempt(A, **args)
    ctx.check(ok == (not bad and not unknown), 'constructed exactly when '
              'every argument is fine')
    if ok:
        ctx.cover('ctor-ok')
        for name in args:
            if name in ('y', 'z', 'note'):
                ctx.check(exact(getattr(res, name), args[name]), 'assigned')
        ctx.check(len(hooked) == 0, 'no error reported')
        return
    if unknown:
        ctx.cover('ctor-unknown')
        ctx.check(isinstance(res, AttributeError), 'unknown keyword')
        if bad_before:
            ctx.cover('ctor-both')
        return
    ctx.cover('ctor-refused')
    ctx.check(isinstance(res, p.ValidationError), 'ValidationError')
    got = [t.prop for t in res.error_tuples]
    ctx.check(got == bad, 'one report per refused argument, in order')
    ctx.check(len(hooked) == 1, 'error hook called once')
    ctx.check([t.prop for t in hooked[0]] == bad, 'with every report')


@scenario('C10', weight=2)
def constructor_dynamic(ctx):
    """Dynamic and immutable properties cannot be constructor arguments"""
    v = ctx.int('v')

    class A(p.HasProperties):
        x = p.Integer('x')
        u = p.GettableProperty('u', default=3)

        @p.Integer('d')
        def d(self):
            return 4

        @d.setter
        def d(self, value):
            self.x = value
    which = ctx.choice('which', ['d', 'u'])
    ok, err = attempt(A, **{which: v})
    ctx.check(not ok and isinstance(err, AttributeError), 'refused')
    ok, a = attempt(A, x=v)
    ctx.check(ok and a.x == v and a.u == 3 and a.d == 4, 'others fine')


@scenario('C10', weight=2)
def hook_on_assignment(ctx):
    """Outside the constructor the error hook runs at once, exactly once"""
    v = any_value(ctx, 'v', 'is', maxlen=1, alphabet='a')
    hooked = Log()

    class A(p.HasProperties):
        x = p.Integer('x', min=0)
        z = p.List('z', prop=p.Integer('e', min=0))

        def _error_hook(self, error_tuples):
            hooked.append(list(error_tuples))
    a = A()
    ok, err = attempt(setattr, a, 'x', v)
    if ok:
        ctx.check(len(hooked) == 0, 'no report')
    else:
        ctx.check(len(hooked) == 1 and hooked[0] == err.error_tuples and
                  hooked[0][0].prop == 'x' and hooked[0][0].instance is a,
                  'one report')


@scenario('C10')
def deletion(ctx):
    """Deleting what cannot be deleted changes nothing"""
    v = ctx.int('v')

    class A(p.HasProperties):
        x = p.Integer('x')
        u = p.GettableProperty('u', default=3)

        @p.Integer('d')
        def d(self):
            return 4
    a = A(x=v)
    which = ctx.choice('which', ['d', 'u', 'x'])
    ok, err = attempt(delattr, a, which)
    if which == 'x':
        ctx.check(ok and a.x is None, 'deleted')
    else:
        ctx.check(not ok and isinstance(err, AttributeError), 'refused')
        ctx.check(a.x == v, 'others untouched')
    ctx.check(a.u == 3 and a.d == 4, 'constant')


@scenario('C10', weight=3)
def constructor_mixed(ctx):
    """Validators failing with ordinary errors do not hide refused values
    that come later in the call, and their own error surfaces when it is all
    there is to report"""
    kind = ctx.choice('kind', ['TypeError', 'ValueError', 'KeyError',
                               'AttributeError'])
    exc = {'TypeError': TypeError, 'ValueError': ValueError,
           'KeyError': KeyError, 'AttributeError': AttributeError}[kind]
    lim = ctx.int('lim', -9, 9)
    v = [ctx.int('v%d' % i, -9, 9) for i in range(3)]
    order = ctx.choice('order', ['abc', 'bca', 'cab', 'ba', 'ac'])
    boss = ctx.flag('observer')
    hooked = Log()
    reached = Log()

    class A(p.HasProperties):
        a = p.Integer('a')
        b = p.Integer('b', min=0)
        c = p.Integer('c')

        @p.validator('a')
        def _a(self, change):
            if not boss:
                reached.append(change['value'])
                if change['value'] > lim:
                    raise exc('a')

        @p.observer('a')
        def _o(self, change):
            if boss:
                reached.append(change['value'])
                if change['value'] > lim:
                    raise exc('a')

        @p.validator('c')
        def _c(self, change):
            if change['value'] > lim:
                raise p.ValidationError('c', 'invalid', 'c', self)

        def _error_hook(self, error_tuples):
            hooked.append([t.prop for t in error_tuples])
    args = {}
    for k in order:
        args[k] = v['abc'.index(k)]
    fine = {'a': v[0] <= lim, 'b': v[1] >= 0, 'c': v[2] <= lim}
    bad = [k for k in order if k != 'a' and not fine[k]]
    other = 'a' in order and not fine['a']
    ok, res = attempt(A, **args)
    ctx.check(ok == (not bad and not other), 'constructed exactly when '
              'nothing failed')
    if 'a' in order:
        ctx.check(list(reached) == [v[0]], 'every argument was tried')
    if ok:
        ctx.check([getattr(res, k) for k in order] == [args[k] for k in order],
                  'assigned')
        return
    if bad:
        ctx.cover('ctor-mixed')
        ctx.check(isinstance(res, p.ValidationError), 'ValidationError')
        ctx.check([t.prop for t in res.error_tuples] == bad,
                  'every refusal is reported')
        ctx.check(list(hooked) == [bad], 'error hook called once')
    else:
        ctx.check(type(res) is exc, 'the error of the listener surfaces')
        ctx.check(len(hooked) == 0, 'no refusal reported')


@scenario('C10', weight=2)
def constructor_two_errors(ctx):
    """Of several ordinary errors the first one surfaces, unless a refusal
    has to be reported, which lists every message"""
    kinds = [TypeError, ValueError, KeyError, AttributeError]
    exc = {n: kinds[ctx.pick('exc_' + n, 4)] for n in 'ab'}
    lim = ctx.int('lim', -9, 9)
    order = ctx.choice('order', ['ab', 'ba', 'acb', 'bad', 'cdab', 'dc'])
    v = {n: ctx.int('v_' + n, -9, 9) for n in order}

    class A(p.HasProperties):
        a = p.Integer('a')
        b = p.Integer('b')
        c = p.Integer('c', max=4)
        d = p.Integer('d', min=-4)

        @p.validator(['a', 'b'])
        def _v(self, change):
            if change['value'] > lim:
                raise exc[change['name']]('from ' + change['name'])
    bad = {'a': lambda n: n > lim, 'b': lambda n: n > lim,
           'c': lambda n: n > 4, 'd': lambda n: n < -4}
    failed = [n for n in order if bad[n](v[n])]
    ok, err = attempt(A, **{n: v[n] for n in order})
    ctx.check(ok == (not failed), 'constructed exactly when nothing failed')
    if ok:
        return
    refused = [n for n in failed if n in 'cd']
    if not refused:
        ctx.check(type(err) is exc[failed[0]] and
                  'from ' + failed[0] in str(err), 'the first error')
        return
    ctx.cover('ctor-mixed')
    ctx.check([t.prop for t in err.error_tuples] == refused, 'all refusals')
    message = str(err)
    for t in err.error_tuples:
        ctx.check(t.message in message, 'every message is listed')
    ctx.check(len(err.error_tuples) < 2 or
              message.index(err.error_tuples[0].message) <
              message.index(err.error_tuples[1].message), 'in order')


@scenario('C10', weight=2)
def validated_twice(ctx):
    """Every property that fails is reported, each time"""
    v = ctx.int('v', -9, 9)
    miss = ctx.flag('missing')

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y', required=False)

        @p.validator('y')
        def _y(self, change):
            if change['value'] > 4:
                raise p.ValidationError('y', 'invalid', 'y', self)
    a = A() if miss else A(x=1)
    with p.validators_disabled():
        a.y = v
    good = not miss and v <= 4
    ok, err = attempt(a.validate)
    ctx.check(ok == good, 'valid exactly when every property is')
    if ok:
        ctx.check(err is True, 'True')
        return
    ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
    names = [t.prop for t in err.error_tuples]
    want = ['x'] * miss + ['y'] * (not v <= 4)
    ctx.check(names == want, 'what failed')
    again = attempt(a.validate)
    ctx.check(not again[0] and [t.prop for t in again[1].error_tuples] == want,
              'the same again')


@scenario('C10', weight=2)
def refused_as_a_whole(ctx):
    """A mutation refused by a validator of the property leaves the held
    container as it was, whatever the mutation"""
    n = [ctx.int('n%d' % i, -9, 9) for i in range(3)]
    lim = ctx.int('lim', -9, 9)
    kind = ctx.pick('kind', 3)
    armed = []

    class A(p.HasProperties):
        x = [lambda: p.List('', observe_mutations=True),
             lambda: p.Set('', observe_mutations=True),
             lambda: p.Dictionary('', observe_mutations=True)][kind]()

        @p.validator('x')
        def check(self, change):
            if armed and len(change['value']) > 0:
                v = change['value']
                first = v[0] if kind == 0 else min(v)
                if first > lim or len(v) == 2:
                    raise p.ValidationError('no', 'no', 'x', self)
    start = [n, set(n), dict([(i, i) for i in n])][kind]
    a = A(x=start)
    held = a.x
    before = list(held)
    if kind == 2:
        before = [(k, held[k]) for k in held]
    plain = [list, set, dict][kind](held)
    armed.append(1)
    ops = [
        [lambda x: x.sort(), lambda x: x.reverse(),
         lambda x: x.insert(0, 5), lambda x: x.pop(0), lambda x: x.remove(
             x[1]), lambda x: x.extend([1]), lambda x: x.__delitem__(0),
         lambda x: x.__setitem__(0, 6)],
        [lambda x: x.add(-5), lambda x: x.discard(min(x)),
         lambda x: x.remove(max(x)), lambda x: x.update([8, -8]),
         lambda x: x.difference_update([min(x)]),
         lambda x: x.symmetric_difference_update([0, 1]),
         lambda x: x.intersection_update([0, 1, 2])],
        [lambda x: x.__setitem__(3, 1), lambda x: x.pop(min(x)),
         lambda x: x.__delitem__(max(x)), lambda x: x.update({-8: 1}),
         lambda x: x.setdefault(-7, 1), lambda x: x.popitem()]][kind]
    op = ops[ctx.pick('op', len(ops))]
    op(plain)
    if kind == 0:
        first = plain[0] if plain else None
    else:
        first = min(plain) if plain else None
    good = not plain or (first <= lim and len(plain) != 2)
    ok, err = attempt(op, held)
    if kind == 2 and not good and ok:
        ctx.check(False, 'refused')
    ctx.check(ok == good, 'refused exactly when the validator does')
    now = [(k, held[k]) for k in held] if kind == 2 else list(held)
    if not ok:
        ctx.cover('veto-mutation')
        ctx.check(a.x is held, 'same container')
        ctx.check(exact(now, before), 'as it was')
    else:
        ctx.check(a.x == plain, 'changed')


@scenario('C10')
def many_reasons(ctx):
    """A refusal with several reasons is reported with all of them, once"""
    count = ctx.pick('count', 4)
    more = ctx.flag('more')
    hooked = Log()

    class Odd(p.Property):
        def validate(self, instance, value):
            if value > 0:
                raise p.ValidationError('odd', _error_tuples=[
                    p.utils.ErrorTuple('m%d' % i, 'r%d' % i, self.name,
                                       instance) for i in range(value)])
            return value

    class A(p.HasProperties):
        x = Odd('')
        y = p.Integer('', max=3)

        def _error_hook(self, tuples):
            hooked.append([t.reason for t in tuples])
    v = ctx.int('v', -9, 9)
    kw = {'x': count}
    if more:
        kw['y'] = v
    want = ['r%d' % i for i in range(count)]
    if more and v > 3:
        want.append('invalid')
    ok, err = attempt(A, **kw)
    ctx.check(ok == (not want), 'made exactly when all is well')
    ctx.check(list(hooked) == ([want] if want else []), 'hook called once')
    if want:
        ctx.check(isinstance(err, p.ValidationError) and
                  [t.reason for t in err.error_tuples] == want, 'with all')


@scenario('C10')
def deletion_vetoed(ctx):
    """A deletion a validator refuses leaves the value"""
    v, lim = ctx.int('v', -9, 9), ctx.int('lim', -9, 9)
    exc = [p.ValidationError, ValueError, RuntimeError][ctx.pick('exc', 3)]
    told = []

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y', default=4)

        @p.validator('x')
        def check(self, change):
            if change['value'] is p.undefined and change['previous'] > lim:
                raise exc('stays')

        @p.observer('x')
        def seen(self, change):
            told.append(change['value'])
    a = A(x=v)
    del told[:]
    if ctx.flag('none'):
        ok, err = attempt(setattr, a, 'x', p.undefined)
    else:
        ok, err = attempt(delattr, a, 'x')
    ctx.check(ok == (v <= lim), 'refused exactly when the validator raises')
    ctx.check(exact(a.x, None if ok else v) and a.y == 4, 'kept')
    ctx.check(('x' in a._backend) == (not ok), 'kept')
    ctx.check(len(told) == (1 if ok else 0), 'told when done')
    if ok:
        ctx.check(told[0] is p.undefined, 'deleted')
    else:
        ctx.check(isinstance(err, exc), 'the error of the validator')


@scenario('C10', weight=2)
def long_constructor(ctx):
    """Wherever the refused one of many arguments stands"""
    n = 6
    at = ctx.pick('at', n)
    v = ctx.int('v', -9, 9)
    bad = ctx.choice('bad', ['refused', 'text', 'unknown', 'dynamic'])
    told = []

    class A(p.HasProperties):
        a = p.Integer('', min=0)
        b = p.Integer('', min=0)
        c = p.Integer('', min=0)
        d = p.Integer('', min=0)
        e = p.Integer('', min=0)
        f = p.Integer('', min=0)

        @property
        def plain(self):
            return 1

        @p.observer(p.everything)
        def _tell(self, change):
            told.append(change['name'])
    order = list('abcdef')
    kw = dict((k, i) for i, k in enumerate(order))
    if bad == 'refused':
        kw[order[at]] = v
    elif bad == 'text':
        kw[order[at]] = 'x'
    else:
        items = list(kw.items())
        items.insert(at, ('other' if bad == 'unknown' else 'plain', v))
        kw = dict(items)
    ok, a = attempt(A, **kw)
    ctx.check(ok == (bad == 'refused' and v >= 0), 'made when all are good')
    if ok:
        ctx.check(told == order, 'all told in order')
        for i, k in enumerate(order):
            ctx.check(getattr(a, k) == kw[k], 'stored')
    # an object that exists
    b = A(a=1)
    ok, err = attempt(setattr, b, order[at], v)
    ctx.check(ok == (v >= 0), 'assigned when good')
    for i, k in enumerate(order):
        want = v if ok and i == at else 1 if i == 0 else None
        ctx.check(getattr(b, k) == want if want is not None
                  else getattr(b, k) is None, 'others as they were')


@scenario('C10')
def attributes_given(ctx):
    """A constructor takes attributes the object has by then, of its class or
    its own, and refuses the rest"""
    n, v = ctx.int('n', -9, 9), ctx.int('v', -9, 9)

    class A(p.HasProperties):
        x = p.Integer('', min=0)
        level = 1

        def __init__(self, depth=0, **kwargs):
            self.depth = depth
            super(A, self).__init__(**kwargs)

    class B(A):
        def __init__(self, **kwargs):
            self.mark = None
            super(B, self).__init__(**kwargs)
    cls = [A, B][ctx.pick('cls', 2)]
    key = ctx.choice('key', ['mark', 'level', 'depth', 'other', '_private'])
    ok, a = attempt(cls, **{'x': n, key: v})
    there = key in ('level', 'depth') or (key == 'mark' and cls is B)
    ctx.check(ok == (there and n >= 0), 'made exactly when all are known')
    if ok:
        ctx.check(getattr(a, key) == v and a.x == n, 'set')
        ctx.check(A.level == 1, 'of the object')
    else:
        ctx.check(isinstance(a, (AttributeError, p.ValidationError)),
                  'kind of error')
