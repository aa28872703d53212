"""C15 guards against recursion end with the call, however it ends"""
import properties as p
from harness.common import Boom
from harness.reg import attempt, scenario

BOUNDS = ('graphs of up to three objects with symbolic links (any of the '
          'objects or none, directly, in lists or unions), symbolic values; '
          'one error of any kind at any point of construction, validation, '
          'serialization, comparison or reading')
ASSUMPTIONS = []
WITNESSES = ['cycle', 'acyclic', 'diamond', 'raised', 'base-error']

ERRORS = [lambda: ValueError('e'), lambda: p.ValidationError('e'),
          lambda: TypeError('e'), lambda: Boom('e'),
          lambda: KeyboardInterrupt('e'), lambda: SystemExit('e')]


def catch(fn):
    """(worked, result or exception) including exceptions that are not
    errors; engine signals pass"""
    try:
        return True, fn()
    except BaseException as err:        # noqa
        if type(err).__module__.startswith('symx'):
            raise
        return False, err


def pick_error(ctx):
    k = ctx.pick('error', len(ERRORS))
    if k > 3:
        ctx.cover('base-error')
    ctx.cover('raised')
    return ERRORS[k]()


def node_class():
    hooked = []

    class Node(p.HasProperties):
        n = p.Integer('n')
        kid = p.Instance('kid', p.HasProperties, required=False)
        kids = p.List('kids', p.HasProperties, required=False)

        def _error_hook(self, tuples):
            hooked.append((self, list(tuples)))
    return Node, hooked


def graph(ctx, Node, size):
    """Nodes with symbolic links; returns (nodes, adjacency)"""
    nodes = [Node() for _ in range(size)]
    links = {}
    for i in range(size):
        k = ctx.pick('kid%d' % i, size + 1)
        out = []
        if k:
            nodes[i].kid = nodes[k - 1]
            out.append(k - 1)
        if i == 0:
            k2 = ctx.pick('kids%d' % i, size + 1)
            if k2:
                nodes[i].kids = [nodes[k2 - 1]]
                out.append(k2 - 1)
        links[i] = out
    return nodes, links


def reachable(links, i):
    seen, todo = [], [i]
    while todo:
        j = todo.pop()
        if j not in seen:
            seen.append(j)
            todo.extend(links[j])
    return seen


def cyclic_from(links, i):
    """Can a cycle be reached from i"""
    for j in reachable(links, i):
        for k in links[j]:
            if j in reachable(links, k):
                return True
    return False


def visits(links, i, stack=()):
    """How often validation visits each node, never re-entering one"""
    if i in stack:
        return {}
    out = {i: 1}
    for j in links[i]:
        for k, c in visits(links, j, stack + (i,)).items():
            out[k] = out.get(k, 0) + c
    return out


def validate_graph(ctx, size):
    Node, hooked = node_class()
    nodes, links = graph(ctx, Node, size)
    unset = []
    for i in range(size):
        if ctx.flag('set%d' % i):
            nodes[i].n = i
        else:
            unset.append(i)
    ctx.cover('cycle' if cyclic_from(links, 0) else 'acyclic')
    want = {}
    for k, c in visits(links, 0).items():
        if k in unset:
            want[k] = c
    for again in range(2):
        del hooked[:]
        ok, err = attempt(nodes[0].validate)
        ctx.check(ok == (not want), 'valid exactly when all reachable are')
        if not ok:
            have = {}
            for t in err.error_tuples:
                k = [j for j in range(size) if nodes[j] is t.instance][0]
                have[k] = have.get(k, 0) + 1
                ctx.check(t.prop == 'n' and t.reason == 'missing', 'problem')
            ctx.check(have == want, 'problems of all reachable objects')
    for k in want:
        nodes[k].n = 5
    ok, err = attempt(nodes[0].validate)
    ctx.check(ok and err is True, 'valid once repaired')


@scenario('C15', weight=3)
def validation_cycles(ctx):
    """Validation reaches every object, ends, and can be repeated"""
    validate_graph(ctx, 2)


@scenario('C15', tier='thorough', weight=9)
def validation_cycles_three(ctx):
    validate_graph(ctx, 3)


def tree(links, nodes, i):
    out = {'__class__': 'Node', 'n': nodes[i].n}
    if nodes[i].kid is not None:
        k = [j for j in range(len(nodes)) if nodes[j] is nodes[i].kid][0]
        out['kid'] = tree(links, nodes, k)
    if nodes[i].kids is not None:
        k = [j for j in range(len(nodes)) if nodes[j] is nodes[i].kids[0]][0]
        out['kids'] = [tree(links, nodes, k)]
    return out


def serialize_graph(ctx, size):
    Node, hooked = node_class()
    nodes, links = graph(ctx, Node, size)
    for i in range(size):
        nodes[i].n = ctx.int('n%d' % i)
    for again in range(2):
        if cyclic_from(links, 0):
            ctx.cover('cycle')
            ok, err = attempt(nodes[0].serialize)
            ctx.check(not ok and isinstance(err, p.SelfReferenceError),
                      'a self reference cannot be written')
            # break every cycle
            for i in range(size):
                nodes[i].kid = p.undefined
                nodes[i].kids = p.undefined
                links[i] = []
            nodes[0].kid = nodes[1]
            nodes[0].kids = [nodes[1]]
            links[0] = [1, 1]
        ctx.cover('acyclic')
        if len(set(sum(links.values(), []))) < len(sum(links.values(), [])):
            ctx.cover('diamond')
        ok, got = attempt(nodes[0].serialize)
        ctx.check(ok and got == tree(links, nodes, 0), 'written')


@scenario('C15', weight=3)
def serialization_cycles(ctx):
    """A self reference is refused; sharing is not a self reference"""
    serialize_graph(ctx, 2)


@scenario('C15', tier='thorough', weight=9)
def serialization_cycles_three(ctx):
    serialize_graph(ctx, 3)


def equal_graph(ctx, size):
    Node, hooked = node_class()
    nodes, links = graph(ctx, Node, size)
    m = ctx.int('m')
    for i in range(size):
        nodes[i].n = m if i else 0
    before = []
    for i in range(size):
        for j in range(size):
            ok, got = attempt(p.equal, nodes[i], nodes[j])
            ctx.check(ok, 'comparison ends')
            if i == j:
                ctx.check(got is True, 'equal to itself')
            elif not cyclic_from(links, i) and not cyclic_from(links, j):
                ctx.check(got == (tree(links, nodes, i) ==
                                  tree(links, nodes, j)), 'structure compared')
            before.append(got)
    after = []
    for i in range(size):
        for j in range(size):
            after.append(p.equal(nodes[i], nodes[j]))
    ctx.check(before == after, 'same answer again')


@scenario('C15', weight=3)
def comparison_cycles(ctx):
    equal_graph(ctx, 2)


@scenario('C15', tier='thorough', weight=9)
def comparison_cycles_three(ctx):
    equal_graph(ctx, 3)


@scenario('C15', weight=3)
def interrupted_validation(ctx):
    err = pick_error(ctx)
    where = ctx.pick('where', 4)
    armed = []

    class Part(p.HasProperties):
        n = p.Integer('n')

        @p.validator
        def check(self):
            if armed and where == 0:
                raise err

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y')
        part = p.Instance('part', Part)

        @p.validator('x')
        def v(self, change):
            if armed and where == 1:
                raise err

        @p.validator
        def w(self):
            if armed and where == 2:
                raise err

        def _error_hook(self, tuples):
            if armed and where == 3:
                raise err
    a = A(x=1, part=Part(n=1))
    armed.append(1)
    ok, got = catch(a.validate)
    ctx.check(not ok, 'error')
    del armed[:]
    for o in (a, a.part):
        ok, got = catch(o.validate)
        ctx.check(ok == (o is a.part), 'validation works again')
        if not ok:
            ctx.check(isinstance(got, p.ValidationError) and
                      [t.prop for t in got.error_tuples] == ['y'],
                      'and is complete')
    a.y = 1
    ctx.check(a.validate() is True, 'valid')
    del a.part.n
    ok, got = catch(a.validate)
    ctx.check(not ok, 'the part is validated again')


@scenario('C15', weight=3)
def interrupted_construction(ctx):
    """An object whose construction failed but which is still referred to
    behaves like any other"""
    err = pick_error(ctx)
    armed = [1]
    seen, hooked = [], []
    where = ctx.pick('where', 4)

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y')

        @p.observer('x')
        def o(self, change):
            seen.append(self)
            if armed and where == 0:
                raise err

        @p.validator('x')
        def v(self, change):
            if armed and where == 1:
                raise err

        def _error_hook(self, tuples):
            hooked.append([t.prop for t in tuples])
            if armed and where == 3:
                raise err

        z = property(lambda self: 1, lambda self, v: self.fail())

        def fail(self):
            if where == 2:
                raise err
    kw = {'x': 1}
    if where == 2:
        kw['z'] = 1
    if where == 3:
        kw['y'] = 'bad'
    if where == 1:
        # reach the object some other way
        kw = {'y': 1, 'x': 1}
        p.observer

        class A(A):                          # noqa
            def __init__(self, **kwargs):
                seen.append(self)
                super(A_[0], self).__init__(**kwargs)
        A_ = [A]
    ok, got = catch(lambda: A(**kw))
    ctx.check(not ok, 'refused')
    ctx.check(len(seen) == 1, 'one object')
    a = seen[0]
    del armed[:], hooked[:]
    ok, got = catch(lambda: setattr(a, 'x', 'bad'))
    ctx.check(not ok and isinstance(got, p.ValidationError) and
              hooked == [['x']], 'errors are reported at once')
    a._backend.pop('y', None)
    del hooked[:]
    ok, got = catch(a.validate)
    ctx.check(not ok and isinstance(got, p.ValidationError), 'validates')
    ctx.check(['y'] in [h[-1:] for h in hooked], 'reports what is missing')


@scenario('C15', weight=3)
def interrupted_writing(ctx):
    err = pick_error(ctx)
    armed = [1]
    v = ctx.int('v')
    where = ctx.pick('where', 2)

    def write(value):
        if armed and where == 0:
            raise err
        return value

    class Part(p.HasProperties):
        n = p.Integer('n', serializer=write)

    class A(p.HasProperties):
        x = p.Integer('x', default=3)
        parts = p.List('part', Part)
        one = p.Instance('one', Part)

        @p.Integer('d')
        def dyn(self):
            if armed and where == 1:
                raise err
            return 4
    part = Part(n=v)
    a = A(parts=[part, part], one=part)
    for again in range(2):
        ok, got = catch(lambda: a.serialize(save_dynamic=True))
        ctx.check(not ok and got is err, 'the error surfaces')
    del armed[:]
    pj = {'n': v, '__class__': 'Part'}
    ctx.check(a.serialize(save_dynamic=True) ==
              {'__class__': 'A', 'x': 3, 'parts': [pj, pj], 'one': pj,
               'dyn': 4}, 'writing works again')
    ctx.check(part.serialize() == pj, 'also of the part')


@scenario('C15', weight=3)
def interrupted_comparison(ctx):
    err = pick_error(ctx)
    armed = [1]
    v, w = ctx.int('v'), ctx.int('w')

    class Odd(p.Integer):
        def equal(self, value_a, value_b):
            if armed:
                raise err
            return value_a == value_b

    class Part(p.HasProperties):
        n = Odd('n')

    class A(p.HasProperties):
        one = p.Instance('one', Part)
    a, b = A(one=Part()), A(one=Part())
    a.one._backend['n'], b.one._backend['n'] = v, w
    other = ctx.pick('other', 3)
    if other:
        ctx.check(not p.equal(*(a.one, b) if other == 1 else (b, a.one)),
                  'different classes')
    for again in range(2):
        ok, got = catch(lambda: p.equal(a, b))
        ctx.check(not ok and got is err, 'the error surfaces')
    del armed[:]
    ctx.check(p.equal(a, b) == (v == w), 'comparison works again')
    ctx.check(p.equal(b, a) == (v == w), 'both ways')
    ctx.check(p.equal(a.one, b.one) == (v == w), 'also of the parts')
    ctx.check(p.equal(a, a), 'with itself')


@scenario('C15', weight=2)
def interrupted_reading(ctx):
    """A failed reading leaves listeners as they were"""
    err = pick_error(ctx)
    log = []

    def read(value):
        raise err

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y', deserializer=read)
        z = p.Integer('z')

        @p.observer(['x', 'z'])
        def o(self, change):
            log.append(change['value'])
    where = ctx.pick('where', 3)
    data = [{'y': 1}, {'x': 'bad'}, {'z': 1}][where]
    if where == 2:
        old = A._props['z'].validate

        def bad(instance, value):
            raise err
        A._props['z'].validate = bad
    ok, got = catch(lambda: A.deserialize(data))
    ctx.check(not ok, 'refused')
    if where == 2:
        A._props['z'].validate = old
    v = ctx.int('v')
    a = A(x=v)
    a.z = v
    ctx.check(log == [v, v], 'listeners hear')
    b = A.deserialize({'x': v})
    ctx.check(log == [v, v] and b.x == v, 'reading is silent')


@scenario('C15', weight=2)
def interrupted_defaults(ctx):
    """A failing default leaves listeners as they were"""
    err = pick_error(ctx)
    armed, log = [], []

    def default():
        if armed:
            raise err
        return 3

    class A(p.HasProperties):
        x = p.Integer('x', default=default)
        y = p.Integer('y')

        @p.observer('y')
        def o(self, change):
            log.append(change['value'])
    armed.append(1)
    ok, got = catch(A)
    ctx.check(not ok and got is err, 'the error surfaces')
    del armed[:]
    v = ctx.int('v')
    a = A(y=v)
    ctx.check(log == [v] and a.x == 3, 'listeners hear')


@scenario('C15', weight=2)
def refusals_caught(ctx):
    """Writers that cope with a self reference do so every time"""
    tries = []
    v = ctx.int('v')
    size = 1 + ctx.pick('size', 2)

    def write(value, **kwargs):
        tries.append(1)
        if len(tries) > 40:
            raise KeyError('endless')
        try:
            return value.serialize(**kwargs)
        except p.SelfReferenceError:
            return 'again'

    class Node(p.HasProperties):
        n = p.Integer('')
        one = p.Instance('', p.HasProperties, serializer=write)
        two = p.Instance('', p.HasProperties, serializer=write)
    nodes = [Node(n=v) for _ in range(size)]
    for i in range(size):
        nodes[i].one = nodes[(i + 1) % size]
        nodes[i].two = nodes[ctx.pick('two%d' % i, size)]

    def tree(i, stack):
        if i in stack:
            return 'again'
        out = {'__class__': 'Node', 'n': v}
        for key in ('one', 'two'):
            j = [k for k in range(size)
                 if nodes[k] is getattr(nodes[i], key)][0]
            out[key] = tree(j, stack + [i])
        return out
    for again in range(2):
        del tries[:]
        ok, got = attempt(nodes[0].serialize)
        ctx.cover('cycle')
        ctx.check(ok and got == tree(0, []), 'written')


@scenario('C15', weight=2)
def asked_within(ctx):
    """Hooks, validators and functions may ask for the validation or the
    writing of the object they belong to"""
    where = ctx.pick('where', 3)
    v, lim = ctx.int('v', -9, 9), ctx.int('lim', -9, 9)
    count = []

    def ask(obj):
        count.append(1)
        if len(count) > 20:
            raise KeyError('endless')
        return obj.validate()

    class A(p.HasProperties):
        x = p.Integer('')
        y = p.Integer('', required=False)

        def _error_hook(self, tuples):
            if where == 0:
                count.append(ask(self))

        @p.validator
        def good(self):
            if where == 1:
                count.append(ask(self))
            if self.x > lim:
                raise p.ValidationError('large', 'large', 'x', self)

        @p.validator('y')
        def also(self, change):
            if where == 2:
                count.append(ask(self))
    a = A(x=v)
    with p.listeners_disabled():
        a.y = 3
    for again in range(2):
        del count[:]
        ok, err = attempt(a.validate)
        ctx.check(ok == (v <= lim), 'valid exactly when it is')
        if where == 0 or where == 2:
            ctx.check(len(count) < 20, 'ends')
        if not ok:
            ctx.check(isinstance(err, p.ValidationError) and
                      [t.reason for t in err.error_tuples] == ['large'],
                      'the problem')
    ctx.cover('acyclic')
