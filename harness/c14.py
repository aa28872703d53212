"""C14 validate() reports exactly what is wrong with an object"""
import properties as p
from harness.common import Boom
from harness.reg import attempt, scenario

BOUNDS = ('objects with up to four properties (required or not, set or not, '
          'symbolic values, stored values made invalid in place) and up to '
          'three class validators with every outcome; one nested object')
ASSUMPTIONS = ['property validators that raise something else than a '
               'ValidationError during validate() are outside',
               'the owner\'s error hook is not counted inside unions']
WITNESSES = ['valid', 'missing', 'invalid', 'validator-false',
             'validator-error', 'other-error', 'several', 'nested']


def run(ctx, a, hooked, want, other, what=''):
    """validate() on a: want lists (prop, reason) in order; other is the
    first unrelated error expected, if any"""
    del hooked[:]
    before = dict(a._backend)
    ok, got = attempt(a.validate)
    if want:
        if len(want) > 1:
            ctx.cover('several')
        ctx.check(not ok and isinstance(got, p.ValidationError),
                  what + 'refused')
        if ok or not isinstance(got, p.ValidationError):
            return
        have = [(t.prop, t.reason) for t in got.error_tuples]
        ctx.check(have == want, what + 'every problem reported, in order')
        ctx.check(len(hooked) == 1, what + 'hook called once')
        ctx.check([(t.prop, t.reason) for t in hooked[0]] == want,
                  what + 'hook gets every problem')
    elif other is not None:
        ctx.cover('other-error')
        ctx.check(not ok and got is other, what + 'unrelated error surfaces')
        ctx.check(hooked == [], what + 'hook not called')
    else:
        ctx.cover('valid')
        ctx.check(ok and got is True, what + 'valid')
        ctx.check(hooked == [], what + 'hook not called')
    now = a._backend
    ctx.check(set(now) == set(before), what + 'same values set')
    for k in before:
        ctx.check(now[k] is before[k], what + 'values untouched')


@scenario('C14', weight=3)
def required(ctx):
    """Missing required properties, whatever their kind"""
    hooked = []
    props = {}
    want = []
    vals = {}
    kinds = [lambda **k: p.Integer('i', **k), lambda **k: p.String('s', **k),
             lambda **k: p.List('l', p.Integer(''), **k),
             lambda **k: p.Union('u', [p.Integer(''), p.String('')], **k)]
    good = [ctx.int('n'), 'text', [], 0]
    for i, name in enumerate(('d', 'a', 'c', 'b')):
        req = ctx.flag('req_' + name)
        isset = ctx.flag('set_' + name)
        props[name] = kinds[i](required=req)
        if isset:
            vals[name] = good[i]
        elif req:
            ctx.cover('missing')
            want.append((name, 'missing'))

    class A(p.HasProperties):
        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    B = type('B', (A,), dict(props))
    b = B(**vals)
    run(ctx, b, hooked, want, None)
    if want:
        err = attempt(b.validate)[1]
        for t in err.error_tuples:
            ctx.check(t.message in str(err) and t.prop in t.message,
                      'message names all')
        # setting what is missing makes it valid
        for i, name in enumerate(('d', 'a', 'c', 'b')):
            setattr(b, name, good[i])
        run(ctx, b, hooked, [], None, 'completed: ')
    for name in list(vals):
        delattr(b, name)
        if props[name].required:
            want = [(name, 'missing')]
            run(ctx, b, hooked, want, None, 'deleted: ')
            return


@scenario('C14', weight=3)
def spoiled(ctx):
    """Values made invalid after the assignment are reported"""
    hooked = []

    class Part(p.HasProperties):
        n = p.Integer('n')

    class A(p.HasProperties):
        f = p.List('f', p.Integer('', min=0), max_length=2)
        e = p.Dictionary('e', key_prop=p.String(''), value_prop=p.Integer(''))
        d = p.Instance('d', Part)
        c = p.Set('c', p.Integer('', max=9), min_length=1)
        b = p.Tuple('b', p.Instance('', Part))

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    x, y = ctx.int('x'), ctx.int('y')
    part = Part(n=1)
    a = A(f=[0], e={'k': 1}, d=Part(n=1), c=set([1]), b=(part,))
    run(ctx, a, hooked, [], None)
    want = []
    k = ctx.pick('k', 4)
    if k == 1:
        a.f.append(x)
        if x < 0:
            want.append(('f', 'invalid'))
    elif k == 2:
        a.f.extend([1, 2])
        want.append(('f', 'invalid'))
    elif k == 3:
        a.f[0] = 'text'
        want.append(('f', 'invalid'))
    if ctx.flag('e'):
        a.e[ctx.choice('key', ['k', 5])] = y
        if 5 in a.e:
            want.append(('e', 'invalid'))
    if ctx.flag('d'):
        ctx.cover('nested')
        del a.d.n
        want.append(('n', 'missing'))
    j = ctx.pick('c', 3)
    if j == 1:
        a.c.clear()
        want.append(('c', 'invalid'))
    elif j == 2:
        a.c.add(x)
        if x > 9:
            want.append(('c', 'invalid'))
    if ctx.flag('b'):
        ctx.cover('nested')
        del part.n
        want.append(('n', 'missing'))
    if want:
        ctx.cover('invalid')
    run(ctx, a, hooked, want, None)


OUTCOMES = ['none', 'true', 'false', 'invalid', 'two', 'value', 'zero']


def outcome(how, name, err, inst):
    if how == 'true':
        return True
    if how == 'false':
        return False
    if how == 'zero':
        return 0
    if how == 'invalid':
        raise p.ValidationError('bad ' + name, 'why ' + name, name, inst)
    if how == 'two':
        raise p.ValidationError('both', _error_tuples=[
            p.utils.ErrorTuple('one', 'r1', name, inst),
            p.utils.ErrorTuple('two', 'r2', name, inst)])
    if how == 'value':
        raise err
    return None


@scenario('C14', weight=4)
def class_validators(ctx):
    """Every class validator runs, after the properties, base class first,
    whatever the others report"""
    hooked, ran = [], []
    hows = [ctx.choice('how%d' % i, OUTCOMES) for i in range(2)]
    hows.append(ctx.choice('how2', ['none', 'invalid', 'value']))
    kind = ctx.choice('err', [ValueError, KeyError, TypeError,
                              AttributeError])
    errs = [kind('e%d' % i) for i in range(3)]
    isset = ctx.flag('set')

    class A(p.HasProperties):
        x = p.Integer('x')

        @p.validator
        def z(self):
            ran.append(0)
            return outcome(hows[0], 'z', errs[0], self)

        def _error_hook(self, tuples):
            hooked.append(list(tuples))

    class B(A):
        @p.validator
        def c(self):
            ran.append(1)
            return outcome(hows[1], 'c', errs[1], self)

        @p.validator
        def b(self):
            ran.append(2)
            return outcome(hows[2], 'b', errs[2], self)
    b = B(x=1) if isset else B()
    want = [] if isset else [('x', 'missing')]
    other = None
    for i, name in enumerate('zcb'):
        how = hows[i]
        if how == 'false':
            ctx.cover('validator-false')
            want.append((None, None))
        elif how == 'invalid':
            ctx.cover('validator-error')
            want.append((name, 'why ' + name))
        elif how == 'two':
            want.extend([(name, 'r1'), (name, 'r2')])
        elif how == 'value' and other is None:
            other = errs[i]
    run(ctx, b, hooked, want, other)
    ctx.check(ran == [0, 1, 2], 'every validator ran once, in order')


@scenario('C14', weight=3)
def property_validators(ctx):
    """validate() asks property validators about the values that are set;
    observers are not told"""
    hooked, log = [], []
    lim = ctx.int('lim')
    x = ctx.int('x')
    how = ctx.choice('how', ['plain', 'replace', 'remove'])
    isset = ctx.flag('set')
    armed = []

    class A(p.HasProperties):
        x = p.Integer('x', required=False)
        y = p.Integer('y', required=False, default=2)

        @p.validator('x')
        def v(self, change):
            log.append((change['name'], change['previous'], change['value'],
                        change['mode']))
            if not armed:
                return
            if how == 'plain':
                if change['value'] > lim:
                    raise p.ValidationError('above', 'above', 'x', self)
            elif how == 'replace':
                change['value'] = lim

        @p.observer(p.everything)
        def o(self, change):
            log.append('observer')

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    a = A(x=x) if isset else A()
    del log[:]
    armed.append(1)
    want = []
    if isset and how == 'plain' and x > lim:
        want = [('x', 'above')]
    if isset and how == 'replace' and x != lim:
        want = [('x', 'invalid')]
    if want:
        ctx.cover('invalid')
    run(ctx, a, hooked, want, None)
    ctx.check(log == ([('x', x, x, 'validate')] if isset else []),
              'property validators asked once, observers not told')
    with p.validators_disabled():
        run(ctx, a, hooked, [], None, 'silenced: ')


@scenario('C14', weight=3)
def nested(ctx):
    """Each object's hook hears of its own problems once; the owner's of
    all"""
    hooked = {'part': [], 'whole': []}

    class Part(p.HasProperties):
        n = p.Integer('n')
        m = p.Integer('m', required=False)

        @p.validator
        def small(self):
            if self.m is not None and self.m > 5:
                raise p.ValidationError('large', 'large', 'm', self)

        def _error_hook(self, tuples):
            hooked['part'].append((self, list(tuples)))

    class Whole(p.HasProperties):
        a = p.Instance('a', Part)
        b = p.Instance('b', Part, required=False)
        c = p.Integer('c')

        def _error_hook(self, tuples):
            hooked['whole'].append(list(tuples))
    m = ctx.int('m')
    one = Part(m=m) if ctx.flag('one_n') else Part(n=1, m=m)
    kw = {'a': one}
    shared = ctx.pick('b', 3)
    if shared == 1:
        kw['b'] = one
    elif shared == 2:
        kw['b'] = Part(n=2)
    if ctx.flag('c'):
        kw['c'] = 3
    w = Whole(**kw)
    part_want = []
    if one.n is None:
        part_want.append(('n', 'missing'))
    if m > 5:
        part_want.append(('m', 'large'))
    if part_want:
        ctx.cover('nested')
    times = 2 if shared == 1 else 1
    want = part_want * times
    if 'c' not in kw:
        want = want + [('c', 'missing')]
    del hooked['part'][:]
    run(ctx, w, hooked['whole'], want, None)
    ctx.check(len(hooked['part']) == (times if part_want else 0),
              'the part hears of its problems')
    for who, tuples in hooked['part']:
        ctx.check(who is one and
                  [(t.prop, t.reason) for t in tuples] == part_want,
                  'and of nothing else')


@scenario('C14', weight=2)
def agrees_with_assignment(ctx):
    """An object with a required property set through a changed stored value
    is valid exactly when the value could be assigned"""
    v = ctx.number('v', 'ifb', ints=64, q=4, m=64)
    k = ctx.pick('k', 3)

    class A(p.HasProperties):
        x = [lambda: p.Integer('x', min=-3, max=ctx.int('hi', -3, 64)),
             lambda: p.Float('x', min=-2), lambda: p.Boolean('x')][k]()
    a, b = A(), A()
    ok, err = attempt(setattr, a, 'x', v)
    b._backend['x'] = v
    okv, errv = attempt(b.validate)
    if ok:
        same = A._props['x'].equal(v, a.x)
        ctx.check(okv == same, 'valid')
        ctx.cover('valid')
    else:
        ctx.check(not okv and isinstance(errv, p.ValidationError), 'invalid')
        ctx.cover('invalid')


@scenario('C14', weight=2)
def unknown_error(ctx):
    """An error the library does not know stops validation and surfaces; the
    object can be validated again afterwards"""
    boom = Boom('x')
    armed = [True]
    where = ctx.pick('where', 3)

    class A(p.HasProperties):
        x = p.Integer('x')
        y = p.Integer('y')

        @p.validator('y')
        def v(self, change):
            if where == 0 and armed[0] and change['value'] == 7:
                raise boom

        @p.validator
        def w(self):
            if where == 1 and armed[0]:
                raise boom

        @p.validator
        def z(self):
            if where == 2 and armed[0]:
                raise boom
    a = A()
    a._backend['y'] = 7
    ok, err = attempt(a.validate)
    ctx.check(not ok and err is boom, 'surfaces')
    armed[0] = False
    run(ctx, a, HookList(a), [('x', 'missing')], None)
    a.x = 1
    ok, err = attempt(a.validate)
    ctx.check(ok and err is True, 'valid afterwards')


class HookList(list):
    """Collects the hook calls of one object"""

    def __init__(self, obj):
        super(HookList, self).__init__()
        obj._error_hook = lambda tuples: self.append(list(tuples))


@scenario('C14', weight=2)
def part_classes(ctx):
    """Parts are validated whatever their class declares"""
    k = ctx.pick('k', 3)
    where = ctx.pick('where', 6)
    bad = ctx.flag('bad')
    how = ctx.pick('how', 2)
    asked = []
    body = {}
    if k:
        body['x'] = p.Integer('x', required=k == 2, default=1)

    def check(self):
        asked.append(self)
        if bad:
            if how:
                return False
            raise p.ValidationError('bad', 'bad', 'x', self)
    body['check'] = p.validator(check)
    Part = type(p.HasProperties)('Part', (p.HasProperties,), body)

    class Whole(p.HasProperties):
        a = [lambda: p.Instance('', Part), lambda: p.List('', Part),
             lambda: p.Tuple('', Part), lambda: p.Set('', Part),
             lambda: p.Dictionary('', value_prop=Part),
             lambda: p.Union('', [p.Integer(''), Part])][where]()
    part = Part()
    w = Whole(a=[part, [part], (part,), set([part]), {'k': part},
                 part][where])
    ok, err = attempt(w.validate)
    ctx.check(ok == (not bad), 'valid exactly when its part is')
    ctx.check([o for o in asked if o is not part] == [] and len(asked) >= 1,
              'the part was asked')
    ctx.check(ok or isinstance(err, p.ValidationError), 'kind of error')


class Near(p.Float):
    def equal(self, value_a, value_b):
        return abs(value_a - value_b) < 1


@scenario('C14', weight=2)
def agreeing_validators(ctx):
    """A validator that puts in a value the property takes for the same one
    keeps the object valid; one that puts in another does not"""
    kind = ctx.pick('kind', 4)
    v = ctx.float('v', 4, 64, special=kind in (1, 3))
    w = ctx.float('w', 4, 64, special=False)
    how = ctx.pick('how', 3)
    prop = [lambda: Near('x'), lambda: p.Float('x'),
            lambda: p.Vector3('x'), lambda: p.List('x', p.Float(''))][kind]()
    armed = []

    class A(p.HasProperties):
        x = prop

        @p.validator('x')
        def check(self, change):
            if not armed or how == 0:
                return
            if how == 1 and kind > 1:
                change['value'] = type(change['value'])(change['value'])
            elif how == 2:
                change['value'] = w if kind < 2 else \
                    prop.validate(self, [w, 0, 0])
    a = A(x=v if kind < 2 else [v, 0, 0])
    before = a.x
    armed.append(1)
    ok, err = attempt(a.validate)
    if how < 2:
        good = True
    elif kind == 0:
        good = abs(v - w) < 1
    else:
        good = v == w
    ctx.check(ok == good, 'valid when equal')
    ctx.check(a.x is before, 'nothing changed')
    if ok:
        ctx.check(err is True, 'true')
    else:
        ctx.check(isinstance(err, p.ValidationError) and
                  [t.prop for t in err.error_tuples] == ['x'], 'reported')


@scenario('C14')
def spoiled_keys(ctx):
    """Objects serving as keys or values of dictionaries are checked too"""
    hooked = []
    n = ctx.int('n')

    class Part(p.HasProperties):
        n = p.Integer('n')

    class A(p.HasProperties):
        def _error_hook(self, tuples):
            hooked.append(list(tuples))
        e = p.Dictionary('e', **{
            k: v for k, v in (('key_prop', p.Instance('', Part)),
                              ('value_prop', p.Instance('', Part)))
            if ctx.flag(k)})
    k, v = Part(n=n), Part(n=n)
    a = A(e={Part(n=1): Part(n=1), k: v})
    run(ctx, a, hooked, [], None)
    checked = [A._props['e'].key_prop, A._props['e'].value_prop]
    want = []
    for part, prop, name in zip((k, v), checked, 'kv'):
        if ctx.flag('spoil_' + name):
            del part.n
            if isinstance(prop, p.Instance):
                want.append(('n', 'missing'))
    run(ctx, a, hooked, want[:1], None)


@scenario('C14')
def full_containers(ctx):
    """Parts in containers of every admissible length are checked"""
    cls = ctx.choice('cls', [p.List, p.Tuple, p.Set])
    n = ctx.pick('n', 4)
    lo = ctx.int('lo', 0, 3)
    hi = ctx.int('hi', 0, 3)
    ctx.assume(lo <= n and n <= hi)
    hooked = []

    class Part(p.HasProperties):
        n = p.Integer('n')

    class A(p.HasProperties):
        x = cls('', Part, min_length=lo, max_length=hi)

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    parts = [Part(n=i) for i in range(n)]
    a = A(x={p.List: list, p.Tuple: tuple, p.Set: set}[cls](parts))
    run(ctx, a, hooked, [], None)
    bad = False
    for i in range(n):
        if ctx.flag('bad%d' % i):
            bad = True
            del parts[i].n
    run(ctx, a, hooked, [('n', 'missing')] if bad else [], None)


@scenario('C14', weight=2)
def empty_parts(ctx):
    """A part that lacks something is a problem wherever it is held"""
    req = ctx.flag('req')
    where = ctx.pick('where', 6)
    hooked = []
    full = ctx.flag('full')
    opt = ctx.flag('opt')

    class Part(p.HasProperties):
        n = p.Integer('n')

    class Sub(Part):
        m = p.Integer('m', required=False)
    cls = [Part, Sub][ctx.pick('cls', 2)]
    part = cls(n=ctx.int('v')) if full else cls()
    if opt and cls is Sub:
        part.m = 3
    inst = p.Instance('', Part, required=ctx.flag('inner'))
    prop, value = [
        lambda: (p.Instance('', Part, required=req), part),
        lambda: (p.List('', inst, required=req), [part]),
        lambda: (p.Tuple('', inst, required=req), (part,)),
        lambda: (p.Dictionary('', value_prop=inst, required=req),
                 {'k': part}),
        lambda: (p.Union('', [p.Integer(''), inst], required=req), part),
        lambda: (p.List('', p.Tuple('', inst), required=req), [(), (part,)]),
    ][where]()

    class A(p.HasProperties):
        x = prop

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    a = A(x=value)
    ok, err = attempt(a.validate)
    ctx.check(ok == full, 'valid exactly when the part is')
    ctx.check(len(hooked) == (0 if full else 1), 'hook')
    if not full:
        part.n = 4
        ctx.check(attempt(a.validate) == (True, True), 'repaired')


@scenario('C14', weight=2)
def nested_lengths(ctx):
    """Limits hold for every container at any depth"""
    lo, hi = ctx.int('lo', 0, 2), ctx.int('hi', 0, 3)
    ctx.assume(lo <= hi)
    where = ctx.pick('where', 4)
    sizes = [ctx.pick('n%d' % i, 4) for i in range(3)]
    inner = p.Tuple('', p.Integer(''), min_length=lo, max_length=hi)
    rows = [tuple(range(k)) for k in sizes]
    prop, value = [
        lambda: (p.List('', inner), rows),
        lambda: (p.Tuple('', inner), tuple(rows)),
        lambda: (p.Dictionary('', value_prop=inner),
                 dict(zip('abc', rows))),
        lambda: (p.List('', p.Union('', [p.Integer(''), inner])), rows),
    ][where]()

    class A(p.HasProperties):
        x = prop
    a = A(x=value)
    ok, err = attempt(a.validate)
    want = True
    for k in sizes:
        want = want and lo <= k and k <= hi
    ctx.check(ok == want, 'valid exactly when every row fits')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError), 'ValidationError')


class Sure(p.Integer):
    """Refuses by its verdict"""
    def assert_valid(self, instance, value=None):
        super(Sure, self).assert_valid(instance, value)
        return value is None or value != 3


@scenario('C14', weight=2)
def large(ctx):
    """A spoiled value is found wherever it is"""
    n = ctx.choice('size', [1, 4, 6])
    at = ctx.pick('at', n)
    v = ctx.int('v', -20, 20)
    k = ctx.choice('kind', ['list', 'tuple', 'dict', 'verdict', 'nested',
                            'properties', 'deep', 'alike'])

    class Part(p.HasProperties):
        v = p.Integer('', min=0)
    parts = [Part(v=i) for i in range(n)]
    bad = v < 0
    if k == 'properties':
        body = dict(('p%d' % i, p.Instance('', Part)) for i in range(n))
        A = type(p.HasProperties)('A', (p.HasProperties,),
                                  dict(body, __module__=__name__))
        a = A(**dict(('p%d' % i, q) for i, q in enumerate(parts)))
        parts[at]._backend['v'] = v
    elif k == 'deep':
        class Node(Part):
            kid = p.Instance('', Part, required=False)
        a = None
        nodes = []
        for i in range(n):
            a = Node(v=i, **({} if a is None else {'kid': a}))
            nodes.append(a)
        nodes[at]._backend['v'] = v
    elif k == 'verdict':
        class A(p.HasProperties):
            x = p.List('', Sure(''))
        a = A(x=[0] * n)
        a.x[at] = v
        bad = v == 3
    elif k == 'alike':
        class A(p.HasProperties):
            x = p.Dictionary('', key_prop=p.Tuple('', p.Integer('')),
                             value_prop=p.Tuple('', p.Integer(''),
                                                max_length=2))
        a = A(x=dict(((i, i), (i,)) for i in range(n)))
        other = (v,) * (1 + ctx.pick('long', 3))
        a.x[other] = other
        bad = len(other) > 2
    else:
        class A(p.HasProperties):
            x = {'list': lambda: p.List('', Part),
                 'tuple': lambda: p.Tuple('', Part),
                 'dict': lambda: p.Dictionary('', value_prop=Part),
                 'nested': lambda: p.List('', p.Tuple('', Part))}[k]()
        a = A(x={'list': lambda: parts, 'tuple': lambda: tuple(parts),
                 'dict': lambda: dict((str(i), q)
                                      for i, q in enumerate(parts)),
                 'nested': lambda: [(q,) for q in parts]}[k]())
        parts[at]._backend['v'] = v
    ctx.assume(k not in ('verdict', 'alike') or v >= -9)
    if k not in ('verdict', 'alike'):
        if ctx.flag('gone'):
            parts[at]._backend.pop('v', None)
            if k == 'deep':
                nodes[at]._backend.pop('v')
            bad = True
        else:
            bad = v < 0
    ok, err = attempt(a.validate)
    ctx.check(ok == (not bad), 'valid exactly when every part is')
    if not ok:
        ctx.cover('invalid')
        ctx.check(isinstance(err, p.ValidationError), 'reported')


@scenario('C14')
def replaced_by_equal(ctx):
    """A validator that replaces the value by an equal one keeps nothing from
    being checked"""
    n = ctx.pick('n', 5)
    swap = ctx.flag('swap')

    class A(p.HasProperties):
        x = p.List('', p.Integer(''), max_length=2)

        @p.validator('x')
        def again(self, change):
            if swap:
                change['value'] = list(change['value'])
    a = A(x=[1])
    a.x[:] = [7] * n
    ok, err = attempt(a.validate)
    ctx.check(ok == (n <= 2), 'its length counts')


@scenario('C14', weight=2)
def everything_asked(ctx):
    """Validators of everything are asked about every value held, also of
    read-only properties"""
    lim = ctx.int('lim', -9, 9)
    c, x = ctx.int('c', -9, 9), ctx.int('x', -9, 9)
    seen = []

    class A(p.HasProperties):
        c = p.GettableProperty('', default=lambda: c)
        x = p.Integer('')
        none = p.Integer('', required=False)

        @p.validator(p.everything)
        def _v(self, change):
            seen.append((change['name'], change['value'], change['previous'],
                         change['mode']))
            if on[0] and change['value'] > lim:
                raise p.ValidationError('no', 'invalid', change['name'], self)
    on = [False]
    a = A(x=x)
    on[0] = True
    del seen[:]
    ok, err = attempt(a.validate)
    ctx.check(sorted(s[0] for s in seen) == ['c', 'x'], 'every value')
    for name, value, prev, mode in seen:
        want = c if name == 'c' else x
        ctx.check(value == want and prev == want and mode == 'validate',
                  'as held')
    ctx.check(ok == (c <= lim and x <= lim), 'valid when all say so')
    if not ok:
        ctx.check(sorted(t.prop for t in err.error_tuples) ==
                  [k for k, v in (('c', c), ('x', x)) if v > lim],
                  'every refusal')
