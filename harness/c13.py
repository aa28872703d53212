"""C13 observed containers behave as plain ones and report every mutation"""
import operator

import properties as p
from properties.base import containers
from harness.reg import attempt, scenario

BOUNDS = ('lists, sets and dictionaries of up to 2 symbolic integers; every '
          'mutating method, operator and in-place operator with symbolic '
          'arguments; histories of up to 2 operations (3 thorough)')
ASSUMPTIONS = ['operations on a container are issued through the owner, '
               'through a reference taken before, or on a detached copy; '
               'element refusal is C10']
WITNESSES = ['mutated', 'failed', 'in-place', 'stale', 'no-change', 'set-op',
             'dict-op', 'list-op']


def owner(prop):
    log = []

    class A(p.HasProperties):
        x = prop

        @p.validator('x')
        def v(self, change):
            log.append(('validate', change['previous'], change['value']))

        @p.observer('x')
        def s(self, change):
            log.append(('set', change['previous'], change['value']))

        @p.observer('x', change_only=True)
        def c(self, change):
            log.append(('change', change['previous'], change['value']))
    return A, log


LIST_OPS = ['append', 'extend', 'insert', 'pop', 'popi', 'remove', 'reverse',
            'sort', 'clear', 'setitem', 'delitem', 'setslice', 'delslice']


def list_op(op, v, i):
    return {
        'append': lambda c: c.append(v),
        'extend': lambda c: c.extend([v, 7]),
        'insert': lambda c: c.insert(i, v),
        'pop': lambda c: c.pop(),
        'popi': lambda c: c.pop(i),
        'remove': lambda c: c.remove(v),
        'reverse': lambda c: c.reverse(),
        'sort': lambda c: c.sort(),
        'clear': lambda c: c.clear(),
        'setitem': lambda c: c.__setitem__(i, v),
        'delitem': lambda c: c.__delitem__(i),
        'setslice': lambda c: c.__setitem__(slice(i, 2), [v, v]),
        'delslice': lambda c: c.__delitem__(slice(0, i)),
    }[op]


SET_OPS = ['add', 'discard', 'remove', 'clear', 'update',
           'difference_update', 'intersection_update',
           'symmetric_difference_update']


def set_op(op, v, w):
    return {
        'add': lambda c: c.add(v),
        'discard': lambda c: c.discard(v),
        'remove': lambda c: c.remove(v),
        'clear': lambda c: c.clear(),
        'update': lambda c: c.update([v], [w]),
        'difference_update': lambda c: c.difference_update([v]),
        'intersection_update': lambda c: c.intersection_update([v, w]),
        'symmetric_difference_update':
            lambda c: c.symmetric_difference_update([v, w]),
    }[op]


DICT_OPS = ['setitem', 'delitem', 'pop', 'popdef', 'popitem', 'setdefault',
            'update', 'clear']


def dict_op(op, k, v):
    return {
        'setitem': lambda c: c.__setitem__(k, v),
        'delitem': lambda c: c.__delitem__(k),
        'pop': lambda c: c.pop(k),
        'popdef': lambda c: c.pop(k, v),
        'popitem': lambda c: c.popitem(),
        'setdefault': lambda c: c.setdefault(k, v),
        'update': lambda c: c.update({k: v}, z=v),
        'clear': lambda c: c.clear(),
    }[op]


def same(c, ref):
    """Same contents, in order for lists"""
    if isinstance(ref, (list, dict)):
        return c == ref
    if len(c) != len(ref):
        return False
    for e in ref:
        if e not in c:
            return False
    return True


def fresh(ctx, kind, name, n):
    """(property, initial plain contents)"""
    if kind == 'list':
        return p.List('x', p.Integer(''), observe_mutations=True), \
            [ctx.int('%s%d' % (name, i), -64, 64) for i in range(n)]
    if kind == 'set':
        out = set()
        for i in range(n):
            out.add(ctx.int('%s%d' % (name, i), -64, 64))
        return p.Set('x', p.Integer(''), observe_mutations=True), out
    return (p.Dictionary('x', key_prop=p.String(''), value_prop=p.Integer(''),
                         observe_mutations=True),
            dict(('ab'[i], ctx.int('%s%d' % (name, i), -64, 64))
                 for i in range(n)))


def draw(ctx, kind, name):
    ctx.cover(kind + '-op')
    if kind == 'list':
        op = ctx.choice(name, LIST_OPS)
        v = ctx.int(name + 'v', -64, 64)
        i = 0
        if op in ('insert', 'popi', 'setitem', 'delitem', 'setslice',
                  'delslice'):
            i = ctx.pick(name + 'i', 4) - 1
        return list_op(op, v, i)
    if kind == 'set':
        op = ctx.choice(name, SET_OPS)
        return set_op(op, ctx.int(name + 'v', -64, 64),
                      ctx.int(name + 'w', -64, 64))
    op = ctx.choice(name, DICT_OPS)
    return dict_op(op, ctx.choice(name + 'k', ['a', 'c']),
                   ctx.int(name + 'v', -64, 64))


def told(ctx, a, log, before, what):
    """One complete round of notifications for the assignment of a.x"""
    now = a.x
    modes = [m for m, _, _ in log]
    prop = a._props['x']
    changed = not prop.equal(before, now)
    ctx.check(modes == ['validate'] + (['change'] if changed else []) +
              ['set'], what + ': one notification per mutation')
    if not changed:
        ctx.cover('no-change')
    for m, prev, val in log:
        ctx.check(prev is before, what + ': previous container')
        ctx.check(val is now, what + ': new container')


def operate(ctx, a, log, ref, op, what):
    """Apply op to the owner's container and to the plain one"""
    before = a.x
    plain_before = ref.copy()
    del log[:]
    ok, got = attempt(op, a.x)
    rok, want = attempt(op, ref)
    ctx.check(ok == rok, what + ': works when plain containers do')
    if not ok:
        ctx.cover('failed')
        ctx.check(type(got) is type(want), what + ': same error')
        ctx.check(a.x is before and same(a.x, plain_before),
                  what + ': unchanged')
        ctx.check(log == [], what + ': nobody told')
        return
    ctx.cover('mutated')
    ctx.check(same(a.x, ref), what + ': same contents as a plain container')
    ctx.check(got == want, what + ': same result')
    ctx.check(a.x is not before and same(before, plain_before),
              what + ': the previous container is kept as it was')
    told(ctx, a, log, before, what)


def history(ctx, kind, n, steps):
    prop, ref = fresh(ctx, kind, 'e', n)
    A, log = owner(prop)
    a = A(x=ref.copy())
    for s in range(steps):
        operate(ctx, a, log, ref, draw(ctx, kind, 'op%d' % s), 'step')


@scenario('C13', weight=3)
def lists(ctx):
    history(ctx, 'list', ctx.pick('n', 3), 1)


@scenario('C13', weight=3)
def sets(ctx):
    history(ctx, 'set', ctx.pick('n', 3), 1)


@scenario('C13', weight=3)
def dicts(ctx):
    history(ctx, 'dict', ctx.pick('n', 3), 1)


@scenario('C13', weight=3)
def two_steps(ctx):
    history(ctx, ctx.choice('kind', ['list', 'set', 'dict']), 1, 2)


@scenario('C13', tier='thorough', weight=9)
def three_steps(ctx):
    history(ctx, ctx.choice('kind', ['list', 'set', 'dict']), 1, 3)


@scenario('C13', tier='thorough', weight=9)
def two_steps_wide(ctx):
    history(ctx, ctx.choice('kind', ['list', 'set', 'dict']), 2, 2)


def in_place_op(ctx, kind, name):
    v = ctx.int(name + 'v', -64, 64)
    if kind == 'list':
        k = ctx.pick(name, 3)
        return [(operator.iadd, [v]), (operator.iadd, (v, 1)),
                (operator.imul, 2)][k]
    if kind == 'set':
        k = ctx.pick(name, 4)
        return ([operator.ior, operator.iand, operator.isub,
                 operator.ixor][k], set([v, 1]))
    return operator.ior, {ctx.choice(name + 'k', ['a', 'c']): v}


@scenario('C13', weight=3)
def in_place(ctx):
    """a.x += ... is one assignment; a refused one leaves a.x observed"""
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    prop, ref = fresh(ctx, kind, 'e', ctx.pick('n', 2))
    A, log = owner(prop)
    a = A(x=ref.copy())
    before, plain_before = a.x, ref.copy()
    how = ctx.pick('how', 4)
    if how == 0:
        f, arg = in_place_op(ctx, kind, 'op')
        del log[:]
        a.x = f(a.x, arg)
        ref = f(ref, arg)
        ctx.check(same(a.x, ref), 'same contents as a plain container')
        told(ctx, a, log, before, 'in place')
    elif how == 1:
        # refused by element validation: the owner keeps its container
        f, arg = {'list': (operator.iadd, ['bad']),
                  'set': (operator.ior, set(['bad'])),
                  'dict': (operator.ior, {'a': 'bad'})}[kind]

        def refused():
            a.x = f(a.x, arg)
        del log[:]
        ok, err = attempt(refused)
        ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
        ctx.check(a.x is before and same(a.x, plain_before), 'kept')
    elif how == 2:
        # refused by the container itself
        def wrong():
            a.x = (operator.iadd if kind == 'list' else operator.ior)(a.x, 5)
        ok, err = attempt(wrong)
        ctx.check(not ok and isinstance(err, TypeError), 'refused')
        ctx.check(a.x is before and same(a.x, plain_before), 'kept')
    else:
        # on another name: the owner is not told, and keeps observing
        f, arg = in_place_op(ctx, kind, 'op')
        del log[:]
        other = f(a.x, arg)
        ctx.check(same(other, f(ref.copy(), arg)), 'result')
        ctx.check(same(a.x, plain_before) and log == [], 'owner unchanged')
    ctx.cover('in-place')
    # whatever happened, the container the owner holds is still observed
    operate(ctx, a, log, ref, draw(ctx, kind, 'next'), 'afterwards')


@scenario('C13', weight=3)
def stale(ctx):
    """A container that was replaced no longer acts on its former owner"""
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    prop, ref = fresh(ctx, kind, 'e', 1)
    A, log = owner(prop)
    a = A(x=ref.copy())
    old = a.x
    how = ctx.pick('how', 3)
    if how == 0:
        a.x = ref.copy()
    elif how == 1:
        a.x.clear()
    else:
        del a.x
    now = a.x
    if now is not None:
        now_plain = now.copy()
    del log[:]
    op = draw(ctx, kind, 'op')
    ok, got = attempt(op, old)
    rok, want = attempt(op, ref)
    ctx.cover('stale')
    ctx.check(ok == rok, 'works as a plain container')
    ctx.check(same(old, ref), 'contents as a plain container')
    if ok:
        ctx.check(got == want, 'result as a plain container')
    ctx.check(log == [] and a.x is now, 'former owner untouched')
    ctx.check(now is None or same(now, now_plain), 'contents untouched')


@scenario('C13', weight=3)
def operators(ctx):
    """Operators that make new containers change nothing"""
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    prop, ref = fresh(ctx, kind, 'e', 1)
    A, log = owner(prop)
    a = A(x=ref.copy())
    v = ctx.int('v', -64, 64)
    before = a.x
    del log[:]
    if kind == 'list':
        f = ctx.choice('f', [
            lambda c: c + [v], lambda c: c * 2, lambda c: 2 * c,
            lambda c: c.copy(), lambda c: c[:], lambda c: list(c)])
    elif kind == 'set':
        o = set([v, 1])
        f = ctx.choice('f', [
            lambda c: c | o, lambda c: c & o, lambda c: c - o,
            lambda c: c ^ o, lambda c: o | c, lambda c: o & c,
            lambda c: o - c, lambda c: o ^ c, lambda c: c.union(o),
            lambda c: c.intersection(o), lambda c: c.difference(o),
            lambda c: c.symmetric_difference(o), lambda c: c.copy()])
    else:
        o = {'a': v, 'c': v}
        f = ctx.choice('f', [lambda c: c | o, lambda c: o | c,
                             lambda c: c.copy(),
                             lambda c: c.fromkeys(['q'], v)])
    got, want = f(a.x), f(ref)
    ctx.check(same(got, want) and len(got) == len(want), 'same result')
    ctx.check(isinstance(got, type(ref)), 'same kind of container')
    ctx.check(a.x is before and same(a.x, ref) and log == [], 'no mutation')
    # the new container is independent
    if isinstance(got, list):
        got.append(5)
    elif isinstance(got, set):
        got.add(5)
    else:
        got['new'] = 5
    ctx.check(a.x is before and same(a.x, ref) and log == [], 'independent')


@scenario('C13', weight=2)
def two_owners(ctx):
    """A container given to another property is copied; each owner is told
    of its own mutations only"""
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    prop, ref = fresh(ctx, kind, 'e', 1)
    A, log = owner(prop)
    a, b = A(x=ref.copy()), A()
    b.x = a.x
    ctx.check(b.x is not a.x, 'copied')
    ref2 = ref.copy()
    first = a.x
    operate(ctx, b, log, ref2, draw(ctx, kind, 'op'), 'second owner')
    ctx.check(a.x is first and same(first, ref), 'first owner untouched')
    operate(ctx, a, log, ref, draw(ctx, kind, 'op2'), 'first owner')
    ctx.check(same(b.x, ref2), 'second owner untouched')


@scenario('C13', weight=2)
def unobserved(ctx):
    """Without observe_mutations containers are plain"""
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    prop, ref = fresh(ctx, kind, 'e', 1)
    prop.observe_mutations = False
    A, log = owner(prop)
    a = A(x=ref.copy())
    before = a.x
    ctx.check(type(a.x) is type(ref), 'plain container')
    del log[:]
    op = draw(ctx, kind, 'op')
    ok, got = attempt(op, a.x)
    rok, want = attempt(op, ref)
    ctx.check(ok == rok and same(a.x, ref), 'as a plain container')
    ctx.check(a.x is before and log == [], 'nobody told')


@scenario('C13', weight=2)
def default_container(ctx):
    """Containers from defaults are observed, one per object"""
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    prop, ref = fresh(ctx, kind, 'e', 1)
    callable_default = ctx.flag('callable')
    init = ref.copy()
    prop.default = (lambda: init) if callable_default else init
    A, log = owner(prop)
    a, b = A(), A()
    ctx.check(log == [], 'defaults do not notify')
    ctx.check(a.x is not b.x and a.x is not init, 'separate containers')
    operate(ctx, a, log, ref.copy(), draw(ctx, kind, 'op'), 'default')
    ctx.check(same(b.x, ref) and same(init, ref), 'others untouched')
    ctx.check(same(A().x, ref), 'default untouched')


@scenario('C13')
def reassigned(ctx):
    """Watched containers can be assigned again, to the same or another
    property, any number of times"""
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    make, given = {
        'list': (lambda n: p.List(n, p.Integer(''), observe_mutations=True),
                 lambda: [1]),
        'set': (lambda n: p.Set(n, p.Integer(''), observe_mutations=True),
                lambda: set([1])),
        'dict': (lambda n: p.Dictionary(n, observe_mutations=True),
                 lambda: {'k': 1})}[kind]

    class A(p.HasProperties):
        x = make('x')
        y = make('y')
        log = None

        @p.observer(p.everything)
        def saw(self, change):
            if self.log is not None:
                self.log.append(change['name'])
    a, b = A(x=given()), A()
    cls = type(a.x)
    for i in range(3):
        k = ctx.pick('k%d' % i, 4)
        if k == 0:
            a.x = a.x
        elif k == 1:
            a.y = a.x
            a.x = a.y
        elif k == 2:
            b.y = a.x
            a.x = b.y
        else:
            a.x = given()
    ctx.check(type(a.x) is cls, 'same class')
    ctx.check(a.x == given(), 'same content')
    v = ctx.int('v', 2, 9)
    a.log, b.log = [], []
    if kind == 'list':
        a.x.append(v)
        want = [1, v]
    elif kind == 'set':
        a.x.add(v)
        want = set([1, v])
    else:
        a.x['w'] = v
        want = {'k': 1, 'w': v}
    ctx.check(a.x == want, 'changed')
    ctx.check(a.log == ['x'] and b.log == [], 'told once, by its owner')


class OwnList(list):
    """A list of the user's"""


class OwnSet(set):
    pass


class OwnDict(dict):
    pass


@scenario('C13', weight=2)
def own_classes(ctx):
    """Containers of a class of the user's stay of that class when watched,
    and plain ones stay plain, whichever were watched before"""
    known = getattr(containers, 'OBSERVABLE_REGISTRY', None)
    if isinstance(known, dict):
        known.clear()       # as in a fresh interpreter
    kind = ctx.choice('kind', ['list', 'set', 'dict'])
    v, w = ctx.int('v', 0, 3), ctx.int('w', 0, 3)
    if kind == 'list':
        prop, plain, own = p.List('', p.Integer(''), observe_mutations=True), \
            list, OwnList
        content = [v]
    elif kind == 'set':
        prop, plain, own = p.Set('', p.Integer(''), observe_mutations=True), \
            set, OwnSet
        content = set([v])
    else:
        prop, plain, own = p.Dictionary('', observe_mutations=True), dict, \
            OwnDict
        content = {'k': v}
    A, log = owner(prop)
    for i in range(3):
        mine = ctx.flag('own%d' % i)
        given = (own if mine else plain)(content)
        a = A(x=given)
        del log[:]
        ctx.check(isinstance(a.x, plain), 'a container of its kind')
        ctx.check(not isinstance(a.x, own) if not mine else True,
                  'plain stays plain')
        ctx.check(a.x == content, 'its content')
        if kind == 'list':
            a.x.append(w)
            want = [v, w]
        elif kind == 'set':
            a.x.update([w])
            want = set([v, w])
        else:
            a.x['w'] = w
            want = {'k': v, 'w': w}
        ctx.check(a.x == want and given == content, 'changed alone')
        ctx.check([l[0] for l in log if l[0] == 'set'] == ['set'], 'told')


@scenario('C13', weight=2)
def after_a_refusal(ctx):
    """A refused change leaves the container as it was, and observed: the next
    one is told again"""
    kind = ctx.pick('kind', 3)
    n, v, w = ctx.int('n', 1, 4), ctx.int('v', 5, 9), ctx.int('w', 10, 14)
    told = []
    why = ctx.choice('why', ['validator', 'element', 'observer'])
    on = [True]

    class A(p.HasProperties):
        x = [p.List('', p.Integer('', max=99), observe_mutations=True),
             p.Set('', p.Integer('', max=99), observe_mutations=True),
             p.Dictionary('', value_prop=p.Integer('', max=99),
                          observe_mutations=True)][kind]

        @p.validator('x')
        def v(self, change):
            if why == 'validator' and on[0]:
                raise p.ValidationError('no')

        @p.observer('x')
        def o(self, change):
            told.append(change['value'])
            if why == 'observer' and on[0]:
                raise KeyError('x')
    on[0] = False
    a = A(x=[[n], {n}, {'a': n}][kind])
    del told[:]
    c = a.x

    def change(value):
        return [lambda: c.append(value), lambda: c.add(value),
                lambda: c.__setitem__('b', value)][kind]
    for turn in range(1 + ctx.pick('times', 2)):
        on[0] = True
        ok, err = attempt(change(100 if why == 'element' else v))
        ctx.check(not ok, 'refused')
        if why == 'observer':
            # stored before the observers were told
            ctx.check(len(a.x) == 2, 'stored')
            c = a.x
            break
        ctx.check(a.x is c and len(c) == 1, 'as it was')
        ctx.check(told == [], 'told nobody')
    on[0] = False
    del told[:]
    ok, err = attempt(change(w))
    ctx.check(ok, 'taken')
    ctx.check(len(told) == 1 and told[0] is a.x, 'told once')
    size = 3 if why == 'observer' and kind != 2 else 2
    ctx.check(len(a.x) == size, 'held')
    ctx.check((w in a.x) if kind < 2 else a.x['b'] == w, 'with the value')


@scenario('C13', weight=2)
def classes_alike(ctx):
    """Container classes of the same name are still different classes"""
    known = getattr(containers, 'OBSERVABLE_REGISTRY', None)
    if isinstance(known, dict):
        known.clear()       # as in a fresh interpreter
    v, w = ctx.int('v', 0, 3), ctx.int('w', 0, 3)

    def own(mark):
        class Many(list):
            def mark(self):
                return mark + len(self)
        return Many
    one, two = own(10), own(20)
    A, log = owner(p.List('', p.Integer(''), observe_mutations=True))
    order = [one, two] if ctx.flag('turn') else [two, one]
    for cls in order + order[:1]:
        a = A(x=cls([v]))
        del log[:]
        ctx.check(isinstance(a.x, cls), 'of its class')
        ctx.check(a.x.mark() == (11 if cls is one else 21), 'its method')
        a.x.append(w)
        ctx.check(a.x == [v, w] and isinstance(a.x, cls), 'changed')
        ctx.check([l[0] for l in log if l[0] == 'set'] == ['set'], 'told')


@scenario('C13', weight=2)
def inner_containers(ctx):
    """Changing a container inside a watched one leaves the outer one with
    it"""
    v, w = ctx.int('v', 0, 3), ctx.int('w', 4, 6)
    n = ctx.pick('n', 3)
    kind = ctx.choice('kind', ['list', 'dict', 'set'])
    inner = p.Set('', p.Integer(''), observe_mutations=True) \
        if kind == 'set' else p.List('', p.Integer(''),
                                     observe_mutations=ctx.flag('both'))
    prop = p.Dictionary('', value_prop=inner, observe_mutations=True) \
        if kind == 'dict' else p.List('', inner, observe_mutations=True)
    A, log = owner(prop)
    content = [v + 10 * i for i in range(n)]
    if kind == 'set':
        content = set(content)
    a = A(x={'k': content} if kind == 'dict' else [content])
    at = 'k' if kind == 'dict' else 0
    c = a.x[at]
    ctx.check(c == content, 'as given')
    if kind == 'set':
        c.add(w)
        want = content | set([w])
    else:
        c.append(w)
        want = content + [w]
    ctx.check(a.x[at] == want, 'changed')
    ctx.check(a.x == ({'k': want} if kind == 'dict' else [want]),
              'in its place')
