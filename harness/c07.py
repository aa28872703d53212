"""C07 unions behave as the first alternative that accepts the value"""
import properties as p
from harness.common import any_value, exact, finite
from harness.reg import attempt, scenario

BOUNDS = ('unions of 1 to 3 alternatives drawn from Integer/Float with '
          'symbolic bounds, Boolean with and without cast, String, '
          'StringChoice, List of Integer, three HasProperties classes; one symbolic value of any kind, text up '
          'to 2 characters')
ASSUMPTIONS = []
WITNESSES = ['first', 'later', 'none', 'read', 'instance']


class P0(p.HasProperties):
    pass


class P1(P0):
    a = p.Integer('a')


class P2(P0):
    b = p.Integer('b')


class P3(P1):
    b = p.Integer('b')


def alternative(ctx, name):
    k = ctx.pick(name, 10)
    if k == 0:
        lo = ctx.int(name + '.lo', -4, 4)
        return lambda: p.Integer('i', min=lo)
    if k == 1:
        hi = ctx.int(name + '.hi', -4, 4)
        return lambda: p.Float('f', max=hi)
    return [lambda: p.Boolean('b'),
            lambda: p.String('s', change_case='upper'),
            lambda: p.StringChoice('c', choices={'x': ['a', 'b']}),
            lambda: p.List('l', prop=p.Integer('e', min=0)),
            lambda: p.Instance('o', P1),
            lambda: p.Boolean('t', cast=True),
            lambda: p.Instance('o', P2),
            lambda: p.Instance('o', P0)][k - 2]


def alternatives(ctx, most):
    n = ctx.pick('n', most) + 1
    return [alternative(ctx, 'alt%d' % i) for i in range(n)]


def value(ctx):
    k = ctx.pick('v.kind', 9)
    if k == 0:
        return ctx.int('v', -(1 << 53), 1 << 53)
    if k == 1:
        return ctx.float('v', q=4, m=64)
    if k == 2:
        return ctx.bool('v')
    if k == 3:
        return ctx.str('v', 2, 'ab1')
    if k == 4:
        return [ctx.int('v')]
    if k == 5:
        return P1(a=ctx.int('v'))
    if k == 6:
        return {'a': ctx.int('v')}
    if k == 7:
        return None
    return {'b': ctx.int('v')}


def judge(alts, v):
    """(accepted, value, index) by trying the alternatives one by one"""
    for i, alt in enumerate(alts):
        ok, res = attempt(alt().validate, None, v)
        if ok:
            return True, res, i
        if not isinstance(res, (ValueError, KeyError, TypeError,
                                AttributeError)):
            return False, None, None
    return False, None, None


def same(a, b):
    if isinstance(a, P0) and isinstance(b, P0):
        return a is b or type(a) is type(b) and (
            exact(a.a, b.a) if isinstance(a, P1) else
            exact(a.b, b.b) if isinstance(a, P2) else True)
    return exact(a, b)


def assign(ctx, most):
    alts = alternatives(ctx, most)
    v = value(ctx)

    class A(p.HasProperties):
        x = p.Union('x', props=[alt() for alt in alts])
    a = A()
    ok, err = attempt(setattr, a, 'x', v)
    good, want, idx = judge(alts, v)
    ctx.check(ok == good, 'accepted exactly when an alternative accepts')
    if not ok:
        ctx.cover('none')
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')
        ctx.check(a.x is None, 'nothing stored')
        return
    ctx.cover('later' if idx else 'first')
    ctx.check(same(a.x, want), 'stored as the first accepting alternative '
              'stores it')
    if isinstance(v, P1):
        ctx.cover('instance')
        ctx.check(a.x is want, 'instances kept by identity')
    ok, err = attempt(a.validate)
    if not isinstance(a.x, P0):
        ctx.check(ok, 'a stored union value validates')


@scenario('C07', weight=3)
def assignment(ctx):
    assign(ctx, 2)


@scenario('C07', tier='thorough', weight=6)
def assignment_three(ctx):
    assign(ctx, 3)


@scenario('C07', weight=3)
def writing(ctx):
    """Serialized by the first alternative that accepts the stored value"""
    alts = alternatives(ctx, 2)
    v = value(ctx)

    class A(p.HasProperties):
        x = p.Union('x', props=[alt() for alt in alts])
    a = A()
    ok, err = attempt(setattr, a, 'x', v)
    if not ok:
        return
    stored = a.x
    good, _, idx = judge(alts, stored)
    ctx.check(good, 'stored values are acceptable')
    want = alts[idx]().serialize(stored, include_class=False)
    got = a.serialize(include_class=False)
    ctx.check(exact(got.get('x'), want), 'written as that alternative')
    ok, b = attempt(A.deserialize, got)
    if 'x' in got and not (isinstance(stored, P0)):
        ctx.check(ok, 'can be read back')
        rgood, want, _ = read(alts, got['x'])
        g2, want, _ = judge(alts, want)
        ctx.check(rgood and same(b.x, want), 'read as the first alternative '
                  'that loads and accepts it')


def read(alts, v):
    for i, alt in enumerate(alts):
        prop = alt()
        ok, res = attempt(prop.deserialize, v, strict=False)
        if not ok:
            continue
        ok, err = attempt(prop.validate, None, res)
        if ok:
            return True, res, i
    return False, None, None


@scenario('C07', weight=3)
def reading(ctx):
    """Loaded by the first alternative that loads and accepts"""
    alts = alternatives(ctx, 2)
    v = value(ctx)
    if isinstance(v, P1) or v is None or not finite(v):
        return

    class A(p.HasProperties):
        x = p.Union('x', props=[alt() for alt in alts])
    ok, b = attempt(A.deserialize, {'x': v})
    good, want, idx = read(alts, v)
    if good:
        ctx.cover('read')
        # assignment after loading goes through the union again
        g2, want, _ = judge(alts, want)
        ctx.check(ok and same(b.x, want), 'loaded by the first alternative '
                  'that takes it')
    elif ok:
        g2, want, _ = judge(alts, v)
        ctx.check(g2 and same(b.x, want), 'otherwise taken as it is')


@scenario('C07', weight=2)
def by_class_name(ctx):
    """A dictionary naming a class goes to the alternative of that class"""
    flip = ctx.flag('flip')
    alts = [P2, P1] if flip else [P1, P2]
    v = ctx.int('v')
    which, key = ctx.choice('which', [(P1, 'a'), (P2, 'b')])
    strict = ctx.flag('strict')

    class A(p.HasProperties):
        x = p.Union('x', props=alts, strict_instances=strict)
    got = A.deserialize({'x': {key: v, '__class__': which.__name__}})
    ctx.check(type(got.x) is which, 'the class named')
    ctx.check(getattr(got.x, key) == v, 'its value')


@scenario('C07', weight=2)
def strict_instances(ctx):
    """Without a class name, strict unions skip alternatives the data does
    not fit"""
    flip = ctx.flag('flip')
    alts = [P2, P1] if flip else [P1, P2]
    v = ctx.int('v')
    which, key = ctx.choice('which', [(P1, 'a'), (P2, 'b')])

    class A(p.HasProperties):
        x = p.Union('x', props=alts, strict_instances=True)
    got = A.deserialize({'x': {key: v}})
    ctx.check(type(got.x) is which, 'the class whose properties match')
    ctx.check(getattr(got.x, key) == v, 'its value')


@scenario('C07')
def required(ctx):
    """Unions are required unless told otherwise, and accept deletion"""
    req = ctx.flag('req')
    alts = alternatives(ctx, 2)

    class A(p.HasProperties):
        x = p.Union('x', props=[alt() for alt in alts], required=req)
    a = A()
    ok, err = attempt(a.validate)
    ctx.check(ok == (not req), 'missing value reported when required')


@scenario('C07')
def default_of_alternative(ctx):
    """The first alternative with a default provides it, unless the union has
    one"""
    d1, d2, d3 = ctx.int('d1'), ctx.int('d2'), ctx.int('d3')
    shape = ctx.pick('shape', 4)
    own = ctx.choice('own', ['none', 'value', 'callable', 'undefined'])
    props = []
    for bit, d in ((1, d1), (2, d2)):
        props.append(p.Integer('i', default=d) if shape & bit
                     else p.Integer('i'))
    kw = {'none': {}, 'value': dict(default=d3),
          'callable': dict(default=lambda: d3),
          'undefined': dict(default=p.undefined)}[own]
    later = ctx.flag('later')

    class A(p.HasProperties):
        x = p.Union('x', props=props, **({} if later else kw))
    if later and kw:
        A._props['x'].default = kw['default']
    a = A()
    want = d3 if own in ('value', 'callable') else None \
        if own == 'undefined' else d1 if shape & 1 else d2 if shape & 2 \
        else None
    ctx.check(exact(a.x, want), 'default')
    ctx.check(('x' in a._backend) == (want is not None), 'set or not')


@scenario('C07')
def bad_alternatives(ctx):
    v = any_value(ctx, 'v', 'isndo', maxlen=1, alphabet='a')
    listed = ctx.flag('listed')
    ok, err = attempt(p.Union, 'x', props=[v] if listed else v)
    ctx.check(not ok and isinstance(err, TypeError),
              'alternatives must be properties')


@scenario('C07', weight=2)
def strict_refusal(ctx):
    """Strict unions refuse data no alternative can read completely, whatever
    its form"""
    k = ctx.pick('k', 5)
    n = ctx.int('n', -9, 9)
    key = ctx.choice('key', ['a', 'b', 'zzz', ''])
    both = ctx.flag('both')
    inner = {key: n} if key else {}
    if both:
        inner['b'] = 1
    strict = ctx.flag('strict')
    alts, data, pick = [
        (lambda: [p.Instance('', P1), p.Integer('')], inner, lambda v: v),
        (lambda: [p.List('', P1), p.Integer('')], [inner], lambda v: v[0]),
        (lambda: [p.Integer(''), p.Tuple('', p.Instance('', P1))], [inner],
         lambda v: v[0]),
        (lambda: [p.Dictionary('', value_prop=p.Instance('', P1)),
                  p.Boolean('')], {'k': inner}, lambda v: v['k']),
        (lambda: [p.List('', p.List('', P1))], [[inner]],
         lambda v: v[0][0])][k]

    class A(p.HasProperties):
        x = p.Union('x', alts(), strict_instances=strict)
    good = key == 'a' and not both
    ok, got = attempt(A.deserialize, {'x': data})
    if good:
        ctx.check(ok, 'complete data is read')
    if strict:
        ctx.check(ok == good, 'anything else is refused')
        if not ok:
            ctx.check(isinstance(got, ValueError), 'as invalid')
    if ok:
        part = pick(got.x)
        ctx.check(type(part) is P1 and
                  part.a is None if key != 'a' else part.a == n, 'read')


@scenario('C07', weight=2)
def other_class_name(ctx):
    """A dictionary naming a class that no alternative is for goes to the
    first alternative that reads it, related classes or not"""
    classes = [P1, P2, P3, P0]
    alts = [classes[ctx.pick('alt%d' % i, 4)] for i in range(2)]
    named = ctx.choice('named', [None, 'P0', 'P1', 'P2', 'P3',
                                 'HasProperties', 'Nothing', 'p2', 'P',
                                 'P22', ' P2'])
    v = ctx.int('v')
    key = ctx.choice('key', ['a', 'b'])
    data = {key: v}
    if named:
        data['__class__'] = named

    class A(p.HasProperties):
        x = p.Union('x', props=alts)
    ok, got = attempt(A.deserialize, {'x': data})
    want = alts[0]
    for c in reversed(alts):
        if c.__name__ == named:
            want = c
    ctx.check(ok and type(got.x) is want, 'the named class or the first')
    if ok:
        ctx.check(exact(getattr(got.x, key, None),
                        v if key in want._props else None), 'its value')


@scenario('C07', weight=2)
def dictionaries_and_parts(ctx):
    """Data of a dictionary or of a part: the first alternative reading it"""
    flip = ctx.flag('flip')
    v = ctx.int('v', -9, 9)
    lim = ctx.int('lim', -9, 9)
    key = ctx.choice('key', ['a', 'z'])
    strict = ctx.flag('strict')
    more = ctx.flag('more')

    def alts():
        d = p.Dictionary('', value_prop=p.Integer('', max=lim))
        out = [P1, d] if flip else [d, P1]
        return out + [p.Integer('')] if more else out

    class A(p.HasProperties):
        x = p.Union('x', props=alts())
    ok, got = attempt(A.deserialize, {'x': {key: v}}, strict=strict)
    as_dict = v <= lim
    as_part = key == 'a' or not strict
    if as_dict and not (flip and as_part):
        ctx.check(ok and isinstance(got.x, dict) and got.x == {key: v},
                  'read as a dictionary')
    elif as_part:
        ctx.check(ok and type(got.x) is P1 and
                  got.x.a == (v if key == 'a' else None), 'read as a part')
    else:
        ctx.check(not ok and isinstance(got, p.ValidationError), 'refused')


@scenario('C07')
def alternatives_replaced(ctx):
    """The alternatives given last count, also after the union was used"""
    first = [alternative(ctx, 'first')]
    second = [alternative(ctx, 'second')]
    x, _ = value(ctx), None

    class A(p.HasProperties):
        x = p.Union('x', props=[alt() for alt in first])

    class Ref(p.HasProperties):
        x = p.Union('x', props=[alt() for alt in second])
    a, ref = A(), Ref()
    attempt(setattr, a, 'x', x)
    attempt(a.validate)
    A._props['x'].props = [alt() for alt in second]
    b = A()
    ok, got = attempt(setattr, b, 'x', x)
    rok, want = attempt(setattr, ref, 'x', x)
    ctx.check(ok == rok, 'accepted by the new ones')
    if ok:
        ctx.cover('first')
        ctx.check(type(b.x) is type(ref.x), 'kind')
    else:
        ctx.cover('none')
        ctx.check(b.x is None, 'nothing stored')


@scenario('C07', weight=2)
def many_alternatives(ctx):
    """The first of many alternatives that accepts decides"""
    kinds = [('int', lambda: p.Integer('', max=5)),
             ('bool', lambda: p.Boolean('')),
             ('text', lambda: p.String('', change_case='upper')),
             ('list', lambda: p.List('', p.Integer(''))),
             ('float', lambda: p.Float(''))]
    turn = ctx.pick('turn', 5)
    kinds = kinds[turn:] + kinds[:turn]
    if ctx.flag('back'):
        kinds = kinds[::-1]
    v = any_value(ctx, 'v', 'ibfsldn', ints=9, q=2, m=4, maxlen=1)
    used = ctx.flag('used')

    class A(p.HasProperties):
        x = p.Union('', [make() for _, make in kinds])
    want, found = None, False
    for _, make in kinds:
        ok, got = attempt(make().validate, None, v)
        if ok:
            want, found = got, True
            break
    a = A()
    if used:
        attempt(setattr, a, 'x', ctx.choice('first', [7, True, 'a', [1],
                                                      0.5]))
    before = a._backend.get('x')
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok == found, 'accepted when any accepts')
    if ok:
        ctx.cover('later')
        ctx.check(exact(a.x, want), 'as the first that does')
        ok, err = attempt(a.validate)
        ctx.check(ok, 'valid')
        if not isinstance(want, float) or finite(want):
            js = a.serialize(include_class=False)['x']
            ctx.check(exact(js, want), 'written')
    else:
        ctx.cover('none')
        ctx.check(a._backend.get('x') is before, 'nothing stored')


@scenario('C07', weight=2)
def nothing_inside(ctx):
    """Empty values are values: the first alternative that takes one is the
    one"""
    n = ctx.int('n')

    class Part(p.HasProperties):
        n = p.Integer('', default=1)
    makers = [lambda: p.Instance('', Part), lambda: p.Dictionary(''),
              lambda: p.List('', p.Integer('')), lambda: p.String(''),
              lambda: p.Set('', p.Integer(''))]
    order = [ctx.pick('a', 5), ctx.pick('b', 5)]
    v = ctx.choice('v', [{}, [], '', set()])
    alts = [makers[i]() for i in order]

    class A(p.HasProperties):
        x = p.Union('', [makers[i]() for i in order])
    want = None
    for alt in alts:
        ok, got = attempt(alt.validate, None, v)
        if ok:
            want = (got,)
            break
    ok, a = attempt(A, x=v)
    ctx.check(ok == (want is not None), 'taken when one takes it')
    if ok:
        ctx.check(type(a.x) is type(want[0]), 'the first one')
        if isinstance(a.x, Part):
            a.x.n = n
        else:
            ctx.check(a.x == want[0], 'the value')


@scenario('C07', weight=2)
def default_made(ctx):
    """A default of a union may be a class or function that makes a value one
    of the alternatives takes"""
    n = ctx.int('n', -9, 9)

    class Part(p.HasProperties):
        n = p.Integer('', default=lambda: n)

    class Other(object):
        pass
    first = ctx.flag('first')
    d = [Part, lambda: n, Other, lambda: Part(n=n), lambda: 'x', list,
         dict][ctx.pick('default', 7)]
    alts = [p.Integer('', min=0), p.Instance('', Part)]
    if first:
        alts = alts[::-1]

    def declare():
        class A(p.HasProperties):
            x = p.Union('', alts, default=d)
        return A
    made = d()
    good = isinstance(made, (Part, dict)) or \
        (isinstance(made, int) and made >= 0)
    ok, A = attempt(declare)
    ctx.check(ok == good, 'declared exactly when taken')
    if ok:
        a, b = A(), A()
        if isinstance(made, int):
            ctx.check(a.x == n, 'the value')
        else:
            ctx.check(type(a.x) is Part and a.x.n == n and a.x is not b.x,
                      'its own')
