"""C11 change notifications: who is told, when, how often and with what"""
import properties as p
from harness.common import any_value, exact, same_num
from harness.reg import attempt, scenario

BOUNDS = ('objects with two properties and up to three listeners of any mode, '
          'declared in the class or added to the object; histories of up to 3 '
          'symbolic assignments and deletions (4 thorough)')
ASSUMPTIONS = ['listeners do not raise here (C10 covers vetoes)']
WITNESSES = ['change', 'no-change', 'delete', 'coerced', 'everything',
             'modified']

MODES = ['validate', 'observe_set', 'observe_change']


class Rec(list):
    pass


def listener(log, tag, obj_value):
    def fn(inst, change):
        log.append((tag, dict(change), obj_value(inst, change['name'])))
    return fn


def stored(inst, name):
    return inst._backend.get(name, p.undefined)


def add(inst, mode, names, fn):
    if mode == 'validate':
        p.validator(inst, names, fn)
    else:
        p.observer(inst, names, fn, change_only=mode == 'observe_change')


def declare(mode, names, fn):
    if mode == 'validate':
        return p.validator(names)(fn)
    return p.observer(names, change_only=mode == 'observe_change')(fn)


def expected(listeners, name, prev, new, changed):
    """(tag, mode) sequence a single operation must produce"""
    out = []
    for mode in MODES[:1] + ['observe_change', 'observe_set']:
        if mode == 'observe_change' and not changed:
            continue
        for tag, lmode, names in listeners:
            if lmode == mode and (names is p.everything or name in names):
                out.append((tag, mode))
    return out


NAMES = [('x',), ('y',), ('x', 'y'), p.everything]


def history(ctx, ops, nl):
    log = Rec()
    listeners = []
    body = {}
    inst_level = []
    for i in range(nl):
        mode = MODES[ctx.pick('mode%d' % i, 3)]
        names = NAMES[ctx.pick('names%d' % i, 4)]
        tag = 'L%d' % i
        fn = listener(log, tag, stored)
        if ctx.flag('cls%d' % i):
            body['h%d' % i] = (mode, names, tag, fn)
        else:
            inst_level.append((mode, names, tag, fn))
    ns = dict(x=p.Integer('x'), y=p.Integer('y'))
    for k in body:
        mode, names, tag, fn = body[k]
        ns[k] = declare(mode, list(names) if names is not p.everything
                        else names, fn)
        listeners.append((tag, mode, names))
    A = type('A', (p.HasProperties,), ns)
    a = A()
    ctx.check(len(log) == 0, 'construction without arguments is silent')
    for mode, names, tag, fn in inst_level:
        add(a, mode, list(names) if names is not p.everything else names, fn)
        listeners.append((tag, mode, names))
    state = dict(x=p.undefined, y=p.undefined)
    for j in range(ops):
        op = ctx.pick('op%d' % j, 3)
        name = 'y' if op == 1 else 'x'
        prev = state[name]
        del log[:]
        if op == 2:
            new = p.undefined
            del a.x
            ctx.cover('delete')
        else:
            new = ctx.int('v%d' % j, -9, 9)
            setattr(a, name, new)
        if prev is p.undefined or new is p.undefined:
            changed = prev is not new
        else:
            changed = prev != new
        ctx.cover('change' if changed else 'no-change')
        state[name] = new
        want = expected(listeners, name, prev, new, changed)
        ctx.check(len(log) == len(want), 'number of notifications')
        for (tag, change, seen), (wtag, wmode) in zip(log, want):
            ctx.check(tag == wtag and change['mode'] == wmode,
                      'who is told, in order')
            ctx.check(change['name'] == name, 'name of the property')
            ctx.check(same(change['previous'], prev), 'previous value')
            ctx.check(same(change['value'], new), 'new value')
            ctx.check(set(change) == set(['name', 'previous', 'value',
                                          'mode']), 'contents')
            ctx.check(same(seen, prev if wmode == 'validate' else new),
                      'validators run before, observers after the change')
        for n in state:
            ctx.check(same(stored(a, n), state[n]), 'stored values')


def same(a, b):
    if a is p.undefined or b is p.undefined:
        return a is b
    return exact(a, b)


@scenario('C11', weight=4)
def two_listeners(ctx):
    history(ctx, 2, 2)


@scenario('C11', weight=3)
def one_listener(ctx):
    history(ctx, 3, 1)


@scenario('C11', tier='thorough', weight=9)
def three_listeners(ctx):
    history(ctx, 2, 3)


@scenario('C11', tier='thorough', weight=9)
def two_listeners_long(ctx):
    history(ctx, 4, 2)


@scenario('C11', weight=3)
def coerced_values(ctx):
    """Listeners see the coerced value; equality is that of the property"""
    log = Rec()
    k = ctx.pick('k', 4)
    if k == 0:
        prop, v1, v2 = p.Float('x'), ctx.int('a', -99, 99), \
            ctx.float('b', q=40, m=128)
    elif k == 1:
        prop, v1, v2 = p.String('x', change_case='upper'), \
            ctx.str('a', 2, 'abA'), ctx.str('b', 2, 'abA')
    elif k == 2:
        prop, v1, v2 = p.List('x', prop=p.Integer('e')), \
            [ctx.int('a')], [ctx.int('b')] * (1 + ctx.pick('n', 2))
    else:
        prop, v1, v2 = p.Boolean('x', cast=True), ctx.int('a'), ctx.bool('b')
    A = type('A', (p.HasProperties,), dict(
        x=prop,
        s=p.observer('x')(listener(log, 's', stored)),
        c=p.observer('x', change_only=True)(listener(log, 'c', stored))))
    a = A()
    a.x = v1
    prev = a.x
    del log[:]
    a.x = v2
    new = a.x
    changed = not prop.equal(prev, new)
    ctx.cover('coerced')
    tags = [t for t, _, _ in log]
    ctx.check(tags == (['c', 's'] if changed else ['s']), 'change-only '
              'observers are told exactly when the values differ')
    for _, change, seen in log:
        ctx.check(change['previous'] is prev and change['value'] is new and
                  seen is new, 'values as stored')
    if k == 0 and abs(prev - new) >= 1e-6:
        ctx.check(changed, 'different numbers differ')
    if k == 1 and prev != new:
        ctx.check(changed, 'different text differs')
    if k == 2 and prev != new:
        ctx.check(changed, 'different lists differ')
    if k == 3:
        ctx.check(changed == (prev != new), 'different truth values differ')


@scenario('C11', weight=3)
def modifying_validator(ctx):
    """A validator may replace the value; later listeners see the replacement"""
    log = Rec()
    lo = ctx.int('lo')
    first = ctx.int('first')
    v = ctx.int('v')

    class A(p.HasProperties):
        x = p.Integer('x')

        @p.validator('x')
        def clip(self, change):
            log.append(('v1', change['value']))
            if change['value'] is not p.undefined and change['value'] < lo:
                change['value'] = lo

        @p.validator('x')
        def second(self, change):
            log.append(('v2', change['value']))

        @p.observer('x')
        def seen(self, change):
            log.append(('s', change['value']))

        @p.observer('x', change_only=True)
        def seen2(self, change):
            log.append(('c', change['value']))
    a = A()
    ctx.assume(first >= lo)
    a.x = first
    del log[:]
    a.x = v
    new = lo if v < lo else v
    if v < lo:
        ctx.cover('modified')
    ctx.check(a.x == new, 'replacement stored')
    want = [('v1', v), ('v2', new)]
    if new != first:
        want.append(('c', new))
    want.append(('s', new))
    ctx.check(len(log) == len(want), 'who is told')
    for got, exp in zip(log, want):
        ctx.check(got[0] == exp[0] and got[1] == exp[1], 'replacement seen')


@scenario('C11', weight=2)
def removing_validator(ctx):
    """A validator may undo the assignment by making the value undefined"""
    v, w = ctx.int('v'), ctx.int('w')
    log = Rec()

    class A(p.HasProperties):
        x = p.Integer('x')

        @p.validator('x')
        def none_below(self, change):
            if change['value'] is not p.undefined and change['value'] < 0:
                change['value'] = p.undefined

        @p.observer('x', change_only=True)
        def seen(self, change):
            log.append(change['value'])
    a = A()
    ctx.assume(v >= 0)
    a.x = v
    del log[:]
    a.x = w
    ctx.check(exact(a.x, w if w >= 0 else None), 'value kept or removed')
    ctx.check(('x' in a._backend) == (w >= 0), 'undefined means absent')
    ctx.check(len(log) == (0 if w == v else 1), 'told once if different')


@scenario('C11', weight=2)
def chained(ctx):
    """An observer that sets another property triggers that one's listeners"""
    log = Rec()
    v, w = ctx.int('v'), ctx.int('w')

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y')

        @p.observer('x')
        def copy_over(self, change):
            log.append(('x', change['value']))
            self.y = change['value']

        @p.observer('y', change_only=True)
        def seen(self, change):
            log.append(('y', change['value']))
    a = A()
    a.x = v
    ctx.check(a.y == v and log == [('x', v), ('y', v)], 'first')
    del log[:]
    a.x = w
    ctx.check(a.y == w, 'second')
    ctx.check(log == ([('x', w)] if v == w else [('x', w), ('y', w)]),
              'chained notification')


@scenario('C11', weight=2)
def constructor_notifies(ctx):
    """Constructor arguments notify like assignments; defaults do not"""
    log = Rec()
    v = ctx.int('v')
    d = ctx.int('d')
    A = type('A', (p.HasProperties,), dict(
        x=p.Integer('x', default=d), y=p.Integer('y', default=d),
        s=p.observer(p.everything)(listener(log, 's', stored)),
        c=p.observer('x', change_only=True)(listener(log, 'c', stored))))
    ctx.cover('everything')
    a = A(x=v)
    tags = [(t, c['name']) for t, c, _ in log]
    ctx.check(tags == ([('s', 'x')] if v == d else
                       [('c', 'x'), ('s', 'x')]), 'arguments only')
    for _, c, _ in log:
        ctx.check(exact(c['previous'], d) and exact(c['value'], v),
                  'from the default to the argument')
    ctx.check(a.y == d, 'default')


@scenario('C11', weight=2)
def separate_objects(ctx):
    """Listeners added to one object stay with it"""
    log = Rec()
    v = ctx.int('v')
    mode = MODES[ctx.pick('mode', 3)]

    class A(p.HasProperties):
        x = p.Integer('x')
    a, b = A(), A()
    add(a, mode, 'x', listener(log, 'a', stored))
    b.x = v
    ctx.check(len(log) == 0, 'other object silent')
    A().x = v
    ctx.check(len(log) == 0, 'later object silent')
    a.x = v
    ctx.check(len(log) == 1, 'own object told')


@scenario('C11')
def bad_names(ctx):
    """Listeners can only name mutable properties of the class"""
    name = ctx.choice('name', ['x', 'g', 'd', 'nothing'])
    mode = MODES[ctx.pick('mode', 3)]

    @p.Integer('d')
    def d(self):
        return 1
    ns = dict(x=p.Integer('x'), g=p.GettableProperty('g', default=1), d=d,
              h=declare(mode, name, lambda self, change: None))
    ok, err = attempt(type, 'A', (p.HasProperties,), ns)
    ctx.check(ok == (name == 'x'), 'mutable properties only')
    if not ok:
        ctx.check(isinstance(err, TypeError), 'TypeError')


@scenario('C11', weight=2)
def private_names(ctx):
    """Names are only names: private, renamed over or inherited ones are
    told like others"""
    name = ctx.choice('name', ['_x', '__y', 'x', '_'])
    mode = MODES[ctx.pick('mode', 3)]
    how = ctx.pick('how', 3)
    sub = ctx.flag('sub')
    n, m = ctx.int('n', -9, 9), ctx.int('m', -9, 9)
    log = []

    def fn(inst, change):
        log.append((change['name'], change['previous'], change['value']))
    names = [p.everything, name, [name, 'z']][how]
    late = ctx.flag('late')
    body = {name: p.Integer(''), 'z': p.Integer('')}
    if not late:
        body['h'] = declare(mode, names, fn)
    A = type(p.HasProperties)('A', (p.HasProperties,), body)
    if sub:
        A = type(p.HasProperties)('B', (A,), {'w': p.Integer('')})
    a = A()
    if late:
        add(a, mode, names, fn)
    for v in (n, m):
        prev = a._backend.get(name, p.undefined)
        del log[:]
        setattr(a, name, v)
        told = mode != 'observe_change' or prev is p.undefined or prev != v
        ctx.check(len(log) == (1 if told else 0), 'told')
        if told and log:
            ctx.check(log[0][0] == name and same(log[0][1], prev) and
                      same(log[0][2], v), 'of the change')
    del log[:]
    setattr(a, 'z', n)
    ctx.check(len(log) == (0 if how == 1 else 1), 'and of others if asked')
    del log[:]
    delattr(a, name)
    ctx.check(len(log) == 1 and log[0][0] == name and
              log[0][2] is p.undefined, 'told of the deletion')


@scenario('C11', weight=2)
def scribbling(ctx):
    """What listeners of one kind do to the record of a change does not reach
    those of another, except for the value a validator puts in"""
    n, m, w = ctx.int('n', -9, 9), ctx.int('m', -9, 9), ctx.int('w', -9, 9)
    mode = ctx.choice('mode', ['validate', 'observe_change'])
    key = ctx.choice('key', ['name', 'previous', 'mode', 'all'])
    replace = ctx.flag('replace') and mode == 'validate'
    junk = [lambda: w, lambda: 'y', lambda: p.undefined][ctx.pick('junk', 3)]()
    log = []

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y')

    def scribble(inst, change):
        for k in ('name', 'previous', 'mode'):
            if key in (k, 'all'):
                change[k] = junk
        if replace:
            change['value'] = w
    a = A(x=n, y=5)
    add(a, mode, ctx.choice('names', ['x', ('x', 'y')]), scribble)
    for other in (MODES[1:] if mode == 'validate' else MODES[1:2]):
        add(a, other, p.everything,
            lambda inst, change: log.append(dict(change)))
    unset = ctx.flag('unset')
    if unset:
        a._backend.pop('x')
    if ctx.flag('delete') and not unset and not replace:
        del a.x
        new = p.undefined
    else:
        a.x = m
        new = w if replace else m
    prev = p.undefined if unset else n
    changed = unset or new is p.undefined or prev != new
    want = ['observe_change'] if mode == 'validate' and changed else []
    ctx.check([c['mode'] for c in log] == want + ['observe_set'], 'told')
    for c in log:
        ctx.check(c['name'] == 'x' and same(c['previous'], prev) and
                  same(c['value'], new), 'of the change itself')
    ctx.check(a.y == 5 and same(stored(a, 'x'), new), 'stored')


@scenario('C11')
def many_names(ctx):
    """Listeners may be given their names in any kind of collection"""
    names = ['a', 'b', 'c', 'd']
    mine = [n for n in names if ctx.flag('on_' + n)]
    ctx.assume(len(mine) > 0)
    kind = [list, tuple, set][ctx.pick('kind', 3)]
    mode = MODES[ctx.pick('mode', 3)]
    late = ctx.flag('late')
    log = []

    def fn(inst, change):
        log.append(change['name'])
    body = {n: p.Integer('') for n in names}
    if not late:
        body['h'] = declare(mode, kind(mine), fn)
    a = type(p.HasProperties)('A', (p.HasProperties,), body)()
    given = kind(mine)
    if late:
        add(a, mode, given, fn)
        if kind is not tuple:
            given.clear()
    v = ctx.int('v')
    for n in names:
        setattr(a, n, v)
    ctx.check(log == mine, 'each once')


@scenario('C11')
def one_function_twice(ctx):
    """Every registration is told, also of a function registered before"""
    mode = MODES[ctx.pick('mode', 3)]
    other = MODES[ctx.pick('other', 3)]
    names = [['x'], ['x', 'y'], p.everything]
    first, second = names[ctx.pick('n1', 3)], names[ctx.pick('n2', 3)]
    late = ctx.pick('late', 3)
    log = []

    def fn(inst, change):
        log.append(change['mode'])
    body = dict(x=p.Integer('x'), y=p.Integer('y'))
    if late < 2:
        body['h'] = declare(mode, first, fn)
    if late < 1:
        body['g'] = declare(other, second, fn)
    a = type(p.HasProperties)('A', (p.HasProperties,), body)()
    if late > 1:
        add(a, mode, first, fn)
    if late > 0:
        add(a, other, second, fn)
    n, m = ctx.int('n'), ctx.int('m')
    a.x = n
    del log[:]
    a.x = m
    want = sorted([k for k in (mode, other)
                   if k != 'observe_change' or n != m])
    ctx.check(sorted(log) == want, 'each is told')
    del log[:]
    a.y = n
    want = sorted([k for k, w in ((mode, first), (other, second))
                   if w != ['x']])
    ctx.check(sorted(log) == want, 'each is told')


class Fickle(p.Integer):
    """Never the same"""

    def equal(self, value_a, value_b):
        return False


class Parity(p.Integer):
    def equal(self, value_a, value_b):
        return (value_a - value_b) % 2 == 0


@scenario('C11')
def own_equality(ctx):
    """What counts as a change is up to the property, also for the object it
    already has"""
    prop = ctx.choice('prop', [Fickle, Parity])
    n, m = ctx.int('n', -9, 9), ctx.int('m', -9, 9)
    same_one = ctx.flag('same')
    log = []

    class A(p.HasProperties):
        x = prop('')

        @p.observer('x', change_only=True)
        def seen(self, change):
            log.append((change['previous'], change['value']))
    a = A(x=n)
    del log[:]
    new = a.x if same_one else m
    a.x = new
    told = prop is Fickle or (new - n) % 2 != 0
    ctx.check(log == ([(n, new)] if told else []), 'told when it differs')
    ctx.check(a.x == new, 'set in any case')


@scenario('C11')
def everything_without_value(ctx):
    """Listeners of everything hear about properties that had no value when
    they were added"""
    mode = ctx.choice('mode', MODES)
    n = ctx.int('n')
    log = []
    on_class = ctx.flag('class')

    def fn(self, change):
        log.append((change['name'], change['value']))
    body = {'x': p.Integer('x'), 'y': p.Integer('y', default=1),
            'z': p.List('z', p.Integer('')),
            '__module__': __name__}
    if on_class:
        body['fn'] = declare(mode, p.everything, fn)
    A = type(p.HasProperties)('A', (p.HasProperties,), body)
    first = ctx.pick('set before', 3)
    a = A()
    if first == 1:
        a.x = 5
    elif first == 2:
        del a.y
    if not on_class:
        add(a, mode, p.everything, fn)
    del log[:]
    name = ctx.choice('name', ['x', 'y', 'z'])
    new = [n] if name == 'z' else n
    old = stored(a, name)
    setattr(a, name, new)
    same = mode == 'observe_change' and old is not p.undefined and old == new
    ctx.check(log == ([] if same else [(name, new)]), 'told')


@scenario('C11', weight=2)
def many_listeners(ctx):
    """Many listeners are told in the order they were registered, whatever
    they listen to"""
    mode = ctx.choice('mode', MODES)
    late = ctx.pick('late', 3)
    n = ctx.int('n')
    log = []
    body = {'__module__': __name__}
    for q in 'xyzw':
        body[q] = p.Integer(q)
    wants = []
    which = [ctx.pick('l%d' % i, 3) for i in range(4)]

    def told(i):
        def fn(self, change):
            log.append(i)
        return fn
    names = [['x'], p.everything, ['y', 'x']]
    for i in range(4 - late):
        body['fn%d' % i] = declare(mode, names[which[i]], told(i))
    A = type(p.HasProperties)('A', (p.HasProperties,), body)
    a = A()
    for i in range(4 - late, 4):
        add(a, mode, names[which[i]], told(i))
    name = ctx.choice('name', ['x', 'y', 'w'])
    for i in range(4):
        if which[i] == 1 or name == 'x' or name == 'y' and which[i] == 2:
            wants.append(i)
    setattr(a, name, n)
    ctx.check(log == wants, 'each once, in order')
    del log[:]
    delattr(a, name)
    ctx.check(log == wants, 'each once, in order, at deletion')


@scenario('C11')
def set_again_when_told(ctx):
    """A listener that sets the property again causes a change of its own;
    both are told"""
    n, m, k = ctx.int('n', -9, 9), ctx.int('m', -9, 9), ctx.int('k', -9, 9)
    mode = ctx.choice('mode', ['observe_set', 'observe_change'])
    log = []

    class A(p.HasProperties):
        x = p.Integer('', default=0)
        busy = False

        def again(self, change):
            if not self.busy:
                self.busy = True
                self.x = m
                self.busy = False
        again = declare(mode, ['x'], again)

        @p.observer('x')
        def seen(self, change):
            log.append((change['name'], change['previous'], change['value']))
    a = A(x=k)
    a.busy = True
    a.x = k
    del log[:]
    a.busy = False
    a.x = n
    fired = mode == 'observe_set' or n != k
    ctx.check(a.x == (m if fired else n), 'value')
    ctx.check(len(log) == 1 + fired, 'both are told')
    ctx.check(('x', k, n) in log and (not fired or ('x', n, m) in log),
              'what happened')


@scenario('C11', weight=2)
def validator_decides(ctx):
    """What a validator leaves in the change is what is stored and told,
    whatever was asked"""
    n, v, w = ctx.int('n', 0, 2), ctx.int('v', 0, 2), ctx.int('w', 0, 2)
    had, ask, leave = [ctx.choice(k, o) for k, o in [
        ('had', ['nothing', 'value']), ('ask', ['value', 'nothing']),
        ('leave', ['as it is', 'value', 'nothing', 'none'])]]
    log, on = [], [False]

    class A(p.HasProperties):
        x = p.Property('')

        @p.validator('x')
        def _v(self, change):
            if on[0] and leave != 'as it is':
                change['value'] = {'value': w, 'nothing': p.undefined,
                                   'none': None}[leave]

        @p.observer('x', change_only=True)
        def _c(self, change):
            log.append(('change', change['previous'], change['value'],
                        change['name'], change['mode']))

        @p.observer('x')
        def _s(self, change):
            log.append(('set', change['previous'], change['value'],
                        change['name'], change['mode']))
    a = A()
    if had == 'value':
        a.x = n
    prev = n if had == 'value' else p.undefined
    new = v if ask == 'value' else p.undefined
    del log[:]
    on[0] = True
    if ask == 'value':
        a.x = v
    else:
        del a.x
    if leave != 'as it is':
        new = {'value': w, 'nothing': p.undefined, 'none': None}[leave]
    held = a._backend.get('x', p.undefined)
    ctx.check(held is new if new is p.undefined or new is None
              else held == new, 'stored')
    if prev is p.undefined or new is p.undefined:
        differs = not (prev is p.undefined and new is p.undefined)
    else:
        differs = new is None or prev != new
    want = ['change', 'set'] if differs else ['set']
    ctx.check([l[0] for l in log] == want, 'told')
    for kind, before, value, name, mode in log:
        ctx.check(before is prev if prev is p.undefined else before == prev,
                  'previous')
        ctx.check(value is new if new is p.undefined or new is None
                  else value == new, 'value')
        ctx.check(name == 'x' and mode == 'observe_' + kind, 'name and mode')


@scenario('C11')
def a_dozen(ctx):
    """All of many listeners of one property are told, in order"""
    size = ctx.choice('size', [9, 12, 17])
    at = ctx.pick('at', 3)
    mode = ctx.choice('mode', ['validate', 'set', 'change'])
    v = ctx.int('v', 1, 9)
    log = []

    class A(p.HasProperties):
        x = p.Integer('', default=0)
        y = p.Integer('')
    a = A()

    def one(i):
        def fn(self, change):
            log.append(i)
        names = p.everything if i % 3 == at else 'x'
        if mode == 'validate':
            p.validator(a, names, fn)
        else:
            p.observer(a, names, fn, change_only=mode == 'change')
    for i in range(size):
        one(i)
    a.x = v
    ctx.check(log == list(range(size)), 'all told, in order')
    del log[:]
    a.y = v
    ctx.check(log == [i for i in range(size) if i % 3 == at],
              'only those of everything')


@scenario('C11')
def names_of_the_caller(ctx):
    """Names given as a collection can be changed later"""
    kind = ctx.choice('kind', [list, set])
    how = ctx.choice('how', [p.observer, p.validator])
    v = ctx.int('v')
    names = kind(['x'])
    log = []

    def fn(self, change):
        log.append(change['name'])
    own = ctx.flag('on_object')
    body = {'x': p.Integer(''), 'y': p.Integer('')}
    if not own:
        body['fn'] = how(names)(fn)
    A = type(p.HasProperties)('A', (p.HasProperties,), body)
    a = A()
    if own:
        how(a, names, fn)
    early = ctx.flag('early')
    names.clear()
    (names.append if kind is list else names.add)('y')
    b = a if own or early else A()
    b.y = v
    b.x = v
    ctx.check(log == ['x'], 'the names as they were')
