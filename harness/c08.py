"""C08 instance properties"""
import properties as p
from harness.common import Thing, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('one nesting level of HasProperties and of plain classes; symbolic '
          'ints, text up to 2 characters; keyword dictionaries of up to 2 '
          'entries')
ASSUMPTIONS = []
WITNESSES = ['kept', 'from-dict', 'from-arg', 'refused', 'auto']


class Part(p.HasProperties):
    n = p.Integer('n', min=0)
    s = p.String('s', required=False)


class SubPart(Part):
    m = p.Integer('m', required=False)


class Plain(object):
    def __init__(self, n=0, **kw):
        if isinstance(n, str):
            raise ValueError('no text')
        if n == 13:
            raise AttributeError('unlucky')
        self.n = n
        self.kw = kw


class Box(dict):
    pass


class Row(list):
    pass


class NeedsArg(p.HasProperties):
    n = p.Integer('n')

    def __init__(self, n, **kw):
        super(NeedsArg, self).__init__(**kw)
        self.n = n


def owner(prop):
    class A(p.HasProperties):
        x = prop
    return A()


def settle(ctx, a, ok, err):
    if not ok:
        ctx.cover('refused')
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')
        ctx.check(a.x is None, 'nothing stored on refusal')


@scenario('C08', weight=2)
def given_instance(ctx):
    """Instances of the class (or a subclass) are kept by identity"""
    n = ctx.int('n', 0, 9)
    k = ctx.pick('k', 6)
    v = [Part(n=n), SubPart(n=n), Plain(n), Thing(), Box(n=n), Row([n])][k]
    want = ctx.choice('want', [Part, SubPart, Plain, Box, Row, dict, list])
    a = owner(p.Instance('x', want))
    ok, err = attempt(setattr, a, 'x', v)
    settle(ctx, a, ok, err)
    if isinstance(v, want):
        ctx.cover('kept')
        ctx.check(ok, 'instances of the class are accepted')
        ctx.check(a.x is v, 'kept by identity')
        ctx.check(v == [n] if k == 5 else v == {'n': n} if k == 4 else
                  k == 3 or v.n == n, 'and unchanged')
    else:
        jok, part = attempt(lambda: want(**v) if isinstance(v, dict)
                            else want(v))
        ctx.check(ok == jok, 'anything else exactly when the class takes it')


@scenario('C08', weight=3)
def from_keywords(ctx):
    """A dictionary builds an instance exactly when the class accepts it"""
    d = {}
    key = ctx.choice('key', ['n', 's', 'other', '__class__', 'name'])
    d[key] = any_value(ctx, 'v', 'isnd', maxlen=2, alphabet='a1')
    if ctx.flag('two'):
        d['s'] = any_value(ctx, 'w', 'is', maxlen=1, alphabet='a')
    before = dict(d)
    a = owner(p.Instance('x', Part))
    ok, err = attempt(setattr, a, 'x', d)
    settle(ctx, a, ok, err)
    jok, part = attempt(Part, **before)
    ctx.check(ok == jok, 'accepted exactly when the class accepts')
    ctx.check(d == before, 'input untouched')
    if ok:
        ctx.cover('from-dict')
        ctx.check(type(a.x) is Part, 'instance of the class')
        ctx.check(exact(a.x.n, part.n) and exact(a.x.s, part.s),
                  'with those values')


@scenario('C08', weight=2)
def plain_class(ctx):
    """Non-HasProperties classes are built from one argument or keywords"""
    v = any_value(ctx, 'v', 'ifsndlte', maxlen=2, alphabet='a1')
    if isinstance(v, (list, tuple)) and ctx.flag('more'):
        v = v + v
    a = owner(p.Instance('x', Plain))
    ok, err = attempt(setattr, a, 'x', v)
    settle(ctx, a, ok, err)
    jok, want = attempt(lambda: Plain(**v) if isinstance(v, dict)
                        else Plain(v))
    ctx.check(ok == jok, 'accepted exactly when the class accepts')
    if ok:
        ctx.cover('from-arg')
        ctx.check(type(a.x) is Plain and exact(a.x.n, want.n) and
                  exact(a.x.kw, want.kw), 'built from the value')


@scenario('C08')
def needs_argument(ctx):
    v = any_value(ctx, 'v', 'isn', maxlen=1, alphabet='a')
    a = owner(p.Instance('x', NeedsArg))
    ok, err = attempt(setattr, a, 'x', v)
    settle(ctx, a, ok, err)
    ctx.check(ok == isinstance(v, int), 'argument passed to the class')
    if ok:
        ctx.check(a.x.n == v, 'argument used')


@scenario('C08')
def positional_refused(ctx):
    """Anything else handed to a class without positional arguments"""
    v = any_value(ctx, 'v', 'ifbsnltox', maxlen=2, alphabet='a1')
    a = owner(p.Instance('x', Part))
    ok, err = attempt(setattr, a, 'x', v)
    settle(ctx, a, ok, err)
    ctx.check(not ok, 'refused')


@scenario('C08', weight=2)
def validity_is_deep(ctx):
    """validate() of the owner validates the instance as it is now"""
    n = ctx.int('n', 0, 9)
    wrapped = ctx.pick('wrapped', 4)
    part = Part(n=n)
    prop, val, get = [
        (p.Instance('x', Part), part, lambda a: a.x),
        (p.List('x', prop=Part), [part], lambda a: a.x[0]),
        (p.Dictionary('x', value_prop=Part), {'k': part},
         lambda a: a.x['k']),
        (p.Union('x', props=[p.Integer('i'), Part]), part, lambda a: a.x),
    ][wrapped]
    a = owner(prop)
    a.x = val
    ok, _ = attempt(a.validate)
    ctx.check(ok, 'valid part')
    what = ctx.pick('what', 3)
    if what == 0:
        del part.n
    elif what == 1:
        part._backend['n'] = ctx.int('bad')
    else:
        part._backend['n'] = 'text'
    ok, err = attempt(a.validate)
    good = what == 1 and part.n >= 0
    ctx.check(ok == good, 'owner valid exactly when its part is')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')
    ctx.check(get(a) is part, 'validation does not replace the part')


@scenario('C08')
def default_instances(ctx):
    """A class as default gives every owner its own instance"""
    auto = ctx.flag('auto')
    n = ctx.int('n', 0, 9)

    class A(p.HasProperties):
        x = p.Instance('x', Part, auto_create=True) if auto else \
            p.Instance('x', Part, default=Part)
    a, b = A(), A()
    ctx.cover('auto')
    ctx.check(type(a.x) is Part and type(b.x) is Part, 'created')
    ctx.check(a.x is not b.x, 'not shared')
    a.x.n = n
    ctx.check(b.x.n is None, 'not shared')


@scenario('C08')
def bad_class(ctx):
    v = any_value(ctx, 'v', 'isndlo', maxlen=1, alphabet='a')
    ok, err = attempt(p.Instance, 'x', v)
    ctx.check(not ok and isinstance(err, (TypeError, AttributeError)),
              'instance class must be a class')


@scenario('C08', weight=2)
def unknown_errors_pass(ctx):
    """Only ordinary argument errors mean refusal; others are not hidden"""
    k = ctx.pick('k', 6)
    exc = [ValueError, KeyError, TypeError, AttributeError, RuntimeError,
           KeyboardInterrupt][k]

    class Odd(object):
        def __init__(self, v):
            raise exc('odd')
    a = owner(p.Instance('x', Odd))
    v = ctx.int('v')
    got = None
    try:
        a.x = v
    except BaseException as err:        # noqa
        got = err
    if k < 4:
        ctx.check(isinstance(got, p.ValidationError), 'refusal')
    else:
        ctx.check(type(got) is exc, 'other errors surface')
    ctx.check(a.x is None, 'nothing stored')


class Group(p.HasProperties):
    one = p.Instance('', Part, required=False)
    many = p.List('', Part, required=False)
    deep = p.Dictionary('', value_prop=p.List('', Part), required=False)
    nums = p.List('', p.Integer('', min=0), required=False)


@scenario('C08', weight=2)
def validity_is_current(ctx):
    """Parts are looked at again at every validation, however deep"""
    where = ctx.pick('where', 4)
    n = ctx.int('n', 0, 9)
    bad = ctx.int('bad', -9, 9)
    part = Part(n=n)
    g = [lambda: Group(one=part), lambda: Group(many=[Part(n=1), part]),
         lambda: Group(deep={'k': [part]}), lambda: Group(nums=[n])][where]()
    wrapped = ctx.pick('wrapped', 4)
    prop, val = [
        (p.Instance('x', Group), g),
        (p.Tuple('x', prop=Group), (g,)),
        (p.Dictionary('x', value_prop=Group), {'k': g}),
        (p.Union('x', props=[p.Integer('i'), Group]), g),
    ][wrapped]
    a = owner(prop)
    a.x = val
    for i in range(1 + ctx.pick('again', 2)):
        ok, _ = attempt(a.validate)
        ctx.check(ok, 'valid')
    if where == 3:
        g.nums[0] = bad
    else:
        part._backend['n'] = bad
    ok, err = attempt(a.validate)
    ctx.check(ok == (bad >= 0), 'owner valid exactly when its parts are')
    ctx.check(ok or isinstance(err, p.ValidationError), 'kind of error')
    if where == 3:
        g.nums[0] = n
    else:
        part.n = n
    ok, err = attempt(a.validate)
    ctx.check(ok, 'valid again')


@scenario('C08')
def of_the_same_name(ctx):
    """A class is not told by its name, its module or its attributes"""
    n, m = ctx.int('n', -3, 9), ctx.int('m', -3, 9)
    k = ctx.pick('k', 5)
    mixed = ctx.flag('mixed')

    def other(base):
        body = {'n': p.Integer('n', required=False),
                '__module__': Part.__module__}
        if base is object:
            body['n'] = n
        return type(base if base is type else type(base))(
            'Part', (base,), body) if base is not object else \
            type(str('Part'), (object,), body)
    made = [other(object)(), other(p.HasProperties)(n=n),
            other(SubPart)(n=max(n, 0)), Plain(n), NeedsArg(n)][k]
    good = isinstance(made, Part)
    prop = p.Instance('x', Part)
    if mixed:
        prop = p.List('x', prop)
    a = owner(prop)
    ok, err = attempt(setattr, a, 'x', [made] if mixed else made)
    ctx.check(ok == good, 'accepted exactly when of the class')
    if ok:
        ctx.cover('kept')
        ctx.check((a.x[0] if mixed else a.x) is made, 'kept by identity')
    else:
        settle(ctx, a, ok, err)
    ok, b = attempt(setattr, a, 'x', [{'n': m}] if mixed else {'n': m})
    ctx.check(ok == (m >= 0), 'a dictionary makes one of the class')
    if ok:
        ctx.check(type(a.x[0] if mixed else a.x) is Part, 'its class')
