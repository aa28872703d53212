"""C12 contexts that silence listeners"""
import properties as p
from harness.reg import attempt, scenario

BOUNDS = ('up to 3 nested contexts (4 thorough) of every kind, including the '
          'same context object entered again, left normally or by an '
          'exception; one symbolic assignment at every point')
ASSUMPTIONS = ['contexts are left in the reverse order of entering']
WITNESSES = ['silenced', 'told', 'reused', 'raised']

MODES = ('validate', 'observe_set', 'observe_change')
NONE = ([], (), set())


def watched():
    log = []

    class A(p.HasProperties):
        x = p.Integer('x', min=-100)

        @p.validator('x')
        def v(self, change):
            log.append('validate')

        @p.observer('x')
        def s(self, change):
            log.append('observe_set')

        @p.observer('x', change_only=True)
        def c(self, change):
            log.append('observe_change')
    return A(), log


def new_context(ctx, name):
    """(context object, modes it silences)"""
    k = ctx.pick(name, 8)
    return [
        lambda: (p.listeners_disabled(), set(MODES)),
        lambda: (p.validators_disabled(), set(['validate'])),
        lambda: (p.observers_disabled(),
                 set(['observe_set', 'observe_change'])),
        lambda: (p.listeners_disabled('validate'), set(['validate'])),
        lambda: (p.listeners_disabled('observe_set'), set(['observe_set'])),
        lambda: (p.listeners_disabled(['observe_change']),
                 set(['observe_change'])),
        lambda: (p.listeners_disabled(('observe_change', 'validate')),
                 set(['observe_change', 'validate'])),
        lambda: (p.listeners_disabled(NONE[ctx.pick(name + '.none', 3)]),
                 set()),
    ][k]()


def probe(ctx, a, log, silenced, step):
    del log[:]
    v = 10 * step + ctx.pick('d%d' % step, 2)
    old = a.x
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok, 'assignment works')
    want = [m for m in ('validate', 'observe_change', 'observe_set')
            if m not in silenced and (m != 'observe_change' or old != v)]
    ctx.cover('silenced' if silenced else 'told')
    ctx.check(log == want, 'exactly the listeners not silenced are told')
    ctx.check(a.x == v, 'value stored')
    ok, err = attempt(setattr, a, 'x', -1000)
    ctx.check(not ok and a.x == v, 'validation of values is not silenced')


def nest(ctx, depth):
    a, log = watched()
    stack = []
    objs = []
    step = [0]

    def silenced():
        out = set()
        for _, m in stack:
            out |= m
        return out

    def look():
        step[0] += 1
        probe(ctx, a, log, silenced(), step[0])
    look()
    for i in range(depth):
        reuse = ctx.pick('reuse%d' % i, len(objs) + 1) if objs else 0
        if reuse:
            c, m = objs[reuse - 1]
            ctx.cover('reused')
        else:
            c, m = new_context(ctx, 'c%d' % i)
            objs.append((c, m))
        c.__enter__()
        stack.append((c, m))
        look()
        if ctx.flag('leave%d' % i):
            c, m = stack.pop()
            c.__exit__(None, None, None)
            look()
    while stack:
        c, m = stack.pop()
        c.__exit__(None, None, None)
        look()


@scenario('C12', weight=3)
def nested(ctx):
    nest(ctx, 2)


@scenario('C12', tier='thorough', weight=9)
def nested_deep(ctx):
    nest(ctx, 3)


@scenario('C12', weight=2)
def left_by_exception(ctx):
    """An error inside the context restores the listeners and surfaces"""
    a, log = watched()
    c1, m1 = new_context(ctx, 'c1')
    c2, m2 = new_context(ctx, 'c2')
    same = ctx.flag('same')
    if same:
        c2, m2 = c1, m1
        ctx.cover('reused')
    kind = ctx.choice('kind', ['invalid', 'own', 'base', 'stop', 'close',
                               'exit'])
    got = None
    try:
        with c1:
            try:
                with c2:
                    if kind == 'invalid':
                        a.x = 'text'
                    elif kind == 'own':
                        raise RuntimeError('x')
                    elif kind == 'stop':
                        raise StopIteration()
                    elif kind == 'close':
                        raise GeneratorExit()
                    elif kind == 'exit':
                        raise SystemExit(0)
                    else:
                        raise KeyboardInterrupt()
            finally:
                probe(ctx, a, log, m1, 1)
    except BaseException as err:       # noqa
        got = err
        if type(err).__name__ in ('Failed', 'PathEnd'):
            raise
        if not isinstance(err, (p.ValidationError, RuntimeError, SystemExit,
                                StopIteration, GeneratorExit,
                                KeyboardInterrupt)):
            raise
    ctx.cover('raised')
    ctx.check(isinstance(got, {'invalid': p.ValidationError,
                               'own': RuntimeError,
                               'stop': StopIteration,
                               'close': GeneratorExit, 'exit': SystemExit,
                               'base': KeyboardInterrupt}[kind]),
              'the error surfaces')
    probe(ctx, a, log, set(), 2)


@scenario('C12', weight=2)
def between_objects(ctx):
    """Silencing is global; it holds for objects created meanwhile, their
    later behaviour is normal"""
    a, log = watched()
    c, m = new_context(ctx, 'c')
    with c:
        b, blog = watched()
        probe(ctx, b, blog, m, 1)
        probe(ctx, a, log, m, 2)
    probe(ctx, b, blog, set(), 3)
    probe(ctx, a, log, set(), 4)


@scenario('C12', weight=2)
def constructing_inside_listener(ctx):
    """Creating objects inside a listener or context leaves silencing as it
    was"""
    c, m = new_context(ctx, 'c')
    inner = []

    class B(p.HasProperties):
        y = p.Integer('y', default=3)

    class A(p.HasProperties):
        x = p.Integer('x')

        @p.observer('x')
        def first(self, change):
            inner.append(B().y)
            B.deserialize({'y': 4})

        @p.observer('x')
        def second(self, change):
            inner.append('second')
    a = A()
    with c:
        B()
        B.deserialize({'y': 5})
        a.x = 1
        ctx.check(inner == ([] if 'observe_set' in m else [3, 'second']),
                  'inside')
        a2, log = watched()
        probe(ctx, a2, log, m, 1)
    del inner[:]
    a.x = 2
    ctx.check(inner == [3, 'second'], 'outside')


@scenario('C12')
def bad_modes(ctx):
    mode = ctx.choice('mode', ['observe', '', 'validate ', 'set'])
    wrap = ctx.pick('wrap', 3)
    v = mode if wrap == 0 else [mode] if wrap == 1 else ['validate', mode]
    ok, err = attempt(p.listeners_disabled, v)
    ctx.check(not ok and isinstance(err, TypeError), 'unknown mode refused')
    a, log = watched()
    probe(ctx, a, log, set(), 1)


@scenario('C12')
def bad_modes_number(ctx):
    v = ctx.int('v')
    ok, err = attempt(p.listeners_disabled, v)
    ctx.check(not ok and isinstance(err, TypeError), 'not a mode')


@scenario('C12')
def one_context_again(ctx):
    """One context entered several times restores what each entry found"""
    a, log = watched()
    c, m = new_context(ctx, 'c')
    other = p.listeners_disabled('observe_change')
    m2 = {'observe_change'}
    depth = 3 + ctx.pick('depth', 2)
    at = ctx.pick('at', depth + 1)
    value = [0]

    def enter(i, silent):
        if i == depth:
            return
        mine, what = (other, m2) if i == at else (c, m)
        now = silent | set(what)
        with mine:
            value[0] += 1
            probe(ctx, a, log, now, value[0])
            enter(i + 1, now)
            value[0] += 1
            probe(ctx, a, log, now, value[0])
    enter(0, set())
    value[0] += 1
    probe(ctx, a, log, set(), value[0])
