"""C34 splitting dictionaries by properties, and methods that stop recursion"""
import properties as p
from harness.common import Boom, any_value
from harness.reg import attempt, scenario

BOUNDS = ('dictionaries of up to four keys over properties of six kinds, '
          'inherited and hidden ones, attributes and unknown names, with '
          'symbolic values; methods on graphs of up to three objects with '
          'symbolic references, up to six calls deep, with every kind of '
          'alternative and failures at any object')
ASSUMPTIONS = ['alternatives are given before objects meet']
WITNESSES = ['property', 'other', 'immutable', 'nothing-lost', 'recursion',
             'no-recursion', 'alternative-raises', 'method-raises', 'two']


class Base(p.HasProperties):
    a = p.Integer('a')
    hidden = p.Integer('h')
    u = p.GettableProperty('u', default=3)


class Thing(Base):
    b = p.List('b')
    _priv = p.Integer('p', required=False)
    old = p.Renamed('b')
    hidden = 5
    plain = 6

    @p.Integer('d')
    def d(self):
        return 4

    @p.Integer('e')
    def e(self):
        return 4

    @e.setter
    def e(self, value):
        self.a = value


MUTABLE = ['a', 'b', '_priv', 'old']
FIXED = ['u', 'd', 'e']
OTHER = ['hidden', 'plain', 'nope', '_backend', 'A', 7]


@scenario('C34', weight=4)
def split(ctx):
    """Every pair lands on exactly one side, untouched"""
    names = MUTABLE + FIXED + OTHER
    n = ctx.pick('n', 4)
    given = {}
    first = ctx.pick('first', len(names))
    step = ctx.choice('step', [1, 3, 5]) if n > 1 else 1
    for i in range(n):
        key = names[(first + i * step) % len(names)]
        given[key] = any_value(ctx, 'v%d' % i, 'in' if i else 'isnol',
                               maxlen=1)
    imm = ctx.choice('immutable', [True, False, 'unsaid'])
    args = {} if imm == 'unsaid' else {'include_immutable': imm}
    target = Thing if ctx.flag('cls') else Thing(a=1)
    before = dict(given)
    res = p.filter_props(target, given, **args)
    ctx.check(isinstance(res, tuple) and len(res) == 2, 'a pair')
    props, others = res
    fits = MUTABLE + (FIXED if imm else [])
    ctx.check(list(props) == [k for k in before if k in fits], 'properties')
    ctx.check(list(others) == [k for k in before if k not in fits], 'others')
    for k in before:
        side = props if k in fits else others
        ctx.check(side[k] is before[k], 'same value')
        ctx.cover('property' if k in fits else 'other')
        if k in FIXED and not imm:
            ctx.cover('immutable')
    ctx.check(given == before and props is not given and others is not given,
              'given dictionary unchanged')
    ctx.cover('nothing-lost')


class Stop(Exception):
    pass


class Node(object):
    def __init__(self, name):
        self.name = name
        self.refs = []


@scenario('C34', weight=4)
def recursion(ctx):
    """A method entered again on the same object gives the alternative; the
    guard ends with the call"""
    kind = ctx.choice('kind', ['value', 'callable', 'error', 'makes-error'])
    asked = []
    log = []

    def alternative(self, *args, **kw):
        asked.append((self.name, args, kw))
        return Stop('made') if kind == 'makes-error' else 'again'
    err = Stop('given')
    backup = {'value': 'again', 'callable': alternative, 'error': err,
              'makes-error': alternative}[kind]
    bad = ctx.pick('bad', 4)

    class Item(Node):
        @p.stop_recursion_with(backup)
        def walk(self, x, y=2):
            """documented"""
            log.append(self.name)
            out = [self.name]
            for r in self.refs:
                out.append(r.walk(x, y=y))
            if self.name == bad:
                raise KeyError(self.name)
            return out
    items = [Item(i) for i in range(3)]
    for i in range(3):
        for j in range(2):
            t = ctx.pick('ref%d%d' % (i, j), 4) if (i, j) in (
                (0, 0), (0, 1), (1, 0), (2, 0)) else 3
            if t < 3:
                items[i].refs.append(items[t])
    x = ctx.int('x')

    def model(i, stack, seen, asks):
        """Result, or raises"""
        if i in stack:
            if kind in ('callable', 'makes-error'):
                asks.append((i, (x,), {'y': 5}))
            if kind in ('error', 'makes-error'):
                raise Stop()
            return 'again'
        seen.append(i)
        out = [i]
        for r in items[i].refs:
            out.append(model(r.name, stack + [i], seen, asks))
        if i == bad:
            raise KeyError(i)
        return out
    for turn in range(2):
        del log[:], asked[:]
        seen, asks = [], []
        mok, want = attempt(model, 0, [], seen, asks)
        ok, got = attempt(items[0].walk, x, y=5)
        ctx.check(ok == mok, 'ends as the method does')
        ctx.check(list(log) == seen, 'runs once per object on the way')
        ctx.check(list(asked) == asks, 'alternative asked with the arguments')
        if ok:
            ctx.check(got == want, 'result')
            ctx.cover('recursion' if asks or 'again' in str(want) else
                      'no-recursion')
        else:
            ctx.check(type(got) is type(want), 'error')
            ctx.cover('alternative-raises' if isinstance(got, Stop) else
                      'method-raises')
            if kind == 'error' and isinstance(got, Stop):
                ctx.check(got is err, 'the given error')
    ctx.check(Item.walk.__name__ == 'walk' and
              Item.walk.__doc__ == 'documented', 'still the method')


@scenario('C34')
def independent(ctx):
    """Guards of different methods do not see each other"""
    n = ctx.int('n', 0, 3)
    same = ctx.flag('same')

    class Item(Node):
        @p.stop_recursion_with('one')
        def first(self, k):
            return ['f', (self.first if same else self.second)(k - 1)] \
                if k > 0 else ['f']

        @p.stop_recursion_with('two')
        def second(self, k):
            return ['s', self.first(k - 1)] if k > 0 else ['s']
    ctx.cover('two')
    a = Item(0)
    got = a.first(n)
    if n == 0:
        want = ['f']
    elif same:
        want = ['f', 'one']
    elif n == 1:
        want = ['f', ['s']]
    else:
        want = ['f', ['s', 'one']]
    ctx.check(got == want, 'result')
    ctx.check(a.first(0) == ['f'] and a.second(0) == ['s'], 'free again')


@scenario('C34', tier='thorough', weight=15)
def more_recursion(ctx):
    """Two methods calling each other on any graph of three objects"""
    kind = ctx.choice('kind', ['value', 'error'])
    log = []
    err = Stop('given')
    bad = ctx.pick('bad', 4)
    backup = {'value': 'again', 'error': err}[kind]
    alike = ctx.flag('alike')

    class Item(Node):
        @p.stop_recursion_with(backup)
        def walk(self):
            log.append(('w', self.name))
            return ['w', self.name] + [r.turn() for r in self.refs]

        @p.stop_recursion_with(backup)
        def turn(self):
            log.append(('t', self.name))
            if self.name == bad:
                raise KeyError(self.name)
            return ['t', self.name] + [r.walk() for r in self.refs]

        def __eq__(self, other):
            return self is other or alike

        __hash__ = None
    items = [Item(i) for i in range(3)]
    for i in range(3):
        for j in range(2 if i == 0 else 1):
            t = ctx.pick('ref%d%d' % (i, j), 4)
            if t < 3:
                items[i].refs.append(items[t])

    def model(m, i, held, seen):
        if (m, i) in held:
            if kind == 'error':
                raise Stop()
            return 'again'
        seen.append((m, i))
        if m == 't' and i == bad:
            raise KeyError(i)
        return [m, i] + [model('t' if m == 'w' else 'w', r.name,
                               held + [(m, i)], seen)
                         for r in items[i].refs]
    for turn in range(2):
        m = ctx.choice('first%d' % turn, 'wt')
        i = ctx.pick('at%d' % turn, 2)
        del log[:]
        seen = []
        mok, want = attempt(model, m, i, [], seen)
        ok, got = attempt(items[i].walk if m == 'w' else items[i].turn)
        ctx.check(ok == mok and list(log) == seen, 'once per object and '
                  'method on the way')
        ctx.check(got == want if ok else type(got) is type(want), 'result')


@scenario('C34')
def alike(ctx):
    """Objects that compare equal are still different objects"""
    n = ctx.int('n', 0, 4)
    odd = ctx.flag('array_like')
    log = []

    class Item(Node):
        @p.stop_recursion_with('again')
        def walk(self, k):
            log.append(self.name)
            return [self.name] + ([self.refs[0].walk(k - 1)] if k > 0 else [])

        def __eq__(self, other):
            if odd:
                raise ValueError('ambiguous')
            return True

        __hash__ = None
    items = [Item(i) for i in range(3)]
    for i in range(3):
        items[i].refs.append(items[(i + 1) % 3])
    want = ['again']
    for i in range(2, -1, -1):
        if n > i:
            want = [i, want if i < 2 else 'again']
        elif n == i:
            want = [i]
    for turn in range(2):
        del log[:]
        ok, got = attempt(items[0].walk, n)
        ctx.check(ok, 'ends')
        ctx.check(not ok or got == want, 'each runs once')
        ctx.check(list(log) == [0, 1, 2][:n + 1 if n < 2 else 3], 'in order')


@scenario('C34')
def arguments(ctx):
    """The alternative is asked with what the method was"""
    k, w = ctx.int('k'), ctx.int('w')
    n = ctx.pick('n', 3)
    asked = []

    def backup(*args, **kwargs):
        asked.append((args, kwargs))
        return 'again'

    class Item(Node):
        @p.stop_recursion_with(backup)
        def walk(self, *args, **kwargs):
            return self.walk(*args, **kwargs)
    args = (k, 'b')[:n]
    kwargs = {'w': w} if ctx.flag('named') else {}
    a = Item(0)
    ctx.check(a.walk(*args, **kwargs) == 'again', 'result')
    ctx.cover('recursion')
    ctx.check(list(asked) == [((a,) + args, kwargs)], 'asked once, in order')
    other = Item(1)
    ctx.check(Item.walk(other, *args, **kwargs) == 'again' and
              asked[1] == ((other,) + args, kwargs), 'and of the class')


@scenario('C34')
def classes(ctx):
    """An alternative that can be called is called, whatever it is"""
    k = ctx.int('k')
    made = []

    class Result(object):
        def __init__(self, *args):
            made.append(args)

    class Failure(Exception):
        def __init__(self, *args):
            made.append(args)

    class Called(object):
        def __call__(self, *args):
            made.append(args)
            return 'again'

        def __len__(self):
            return 0
    which = ctx.pick('which', 5)
    backup = [Result, Failure, Called(), list, ''][which]
    if which == 3:
        backup = lambda *args: made.append(args)

    class Item(Node):
        @p.stop_recursion_with(backup)
        def walk(self, k):
            return self.walk(k)
    a = Item(0)
    for turn in range(2):
        ok, got = attempt(a.walk, k)
        if which == 4:
            ctx.check(ok and got == '' and not made, 'the value')
            continue
        ctx.check(len(made) == turn + 1 and made[turn] == (a, k),
                  'asked once, in order')
        ctx.check(ok == (which != 1), 'errors are raised')
        want = [Result, Failure, str, type(None)][which]
        ctx.check(type(got) is want, 'its result')


@scenario('C34')
def options_of_functions(ctx):
    """A function that writes or reads values is called once, and what it
    raises is what is raised"""
    v = ctx.int('v')
    error = [None, KeyError, ValueError, Boom, AttributeError][
        ctx.pick('error', 5)]
    takes = ctx.flag('takes_options')
    calls = []

    def plain(value):
        calls.append(value)
        if error is not None:
            raise error('x')
        return value + 1

    def full(value, **kwargs):
        return plain(value)
    fn = full if takes else plain
    write = ctx.flag('write')

    class A(p.HasProperties):
        x = p.Integer('', **{'serializer' if write else 'deserializer': fn})
    a = A(x=v)
    ok, got = attempt(a.serialize, include_class=False) if write else \
        attempt(A.deserialize, {'x': v})
    ctx.check(ok == (error is None), 'done')
    ctx.check(list(calls) == [v], 'called once')
    if ok:
        ctx.check((got['x'] if write else got.x) == v + 1, 'the value')
    else:
        ctx.check(isinstance(got, error), 'its error')
