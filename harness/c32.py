"""C32 errors say what was refused, where and why"""
import numpy as np

import properties as p
from properties.extras import Pointer, HasUID, URL
from harness.common import Thing, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('one refused value of every property type, alone, in containers, '
          'unions and parts, with and without an owner; texts of values of up '
          'to 300 characters; error objects made from up to four arguments '
          'of any kind')
ASSUMPTIONS = ['the words between the named parts of a message are free']
WITNESSES = ['refused', 'short', 'long', 'no-owner', 'array', 'missing',
             'in-container', 'in-union', 'in-instance', 'other-class',
             'made', 'not-made', 'hook', 'extra']


class Part(p.HasProperties):
    n = p.Integer('n', min=0)


class Shown(object):
    """A value of a known text"""
    def __init__(self, text):
        self.text = text

    def __repr__(self):
        return self.text


TABLE = [
    ('Integer', lambda: p.Integer('d'), 'sndo', 'an integer'),
    ('Integer', lambda: p.Integer('d', min=3, max=7), 'ns',
     'an integer in range [3, 7]'),
    ('Float', lambda: p.Float('d'), 'sndo', 'a float'),
    ('Complex', lambda: p.Complex('d'), 'ndo', 'a complex number'),
    ('Boolean', lambda: p.Boolean('d'), 'isndo', 'a boolean'),
    ('String', lambda: p.String('d'), 'inldo', 'a unicode string'),
    ('StringChoice', lambda: p.StringChoice('d', ['aa', 'bb']), 'isndo',
     'either "aa" or "bb"'),
    ('Color', lambda: p.Color('d'), 'inldo', 'a color'),
    ('DateTime', lambda: p.DateTime('d'), 'isndo', 'a datetime object'),
    ('Uuid', lambda: p.Uuid('d'), 'isndo', 'a unique ID'),
    ('File', lambda: p.File('d', 'rb'), 'inldo', 'an open file'),
    ('Tuple', lambda: p.Tuple('d', p.Integer('')), 'isldo',
     'a tuple (each item is an integer)'),
    ('List', lambda: p.List('d', p.Integer('')), 'isto',
     'a list (each item is an integer)'),
    ('Set', lambda: p.Set('d'), 'isldo', 'a set'),
    ('Dictionary', lambda: p.Dictionary('d'), 'islto', 'a dictionary'),
    ('Instance', lambda: p.Instance('d', Part), 'islto',
     'an instance of Part'),
    ('Union', lambda: p.Union('d', [p.Integer(''), p.Boolean('')]), 'snldo',
     'an integer or a boolean'),
    ('URL', lambda: URL('d'), 'isldo', ''),
    ('Vector3', lambda: p.Vector3('d'), 'indo', ''),
    ('Vector2Array', lambda: p.Vector2Array('d'), 'indo', ''),
]


def message_parts(ctx, err, kind, name, owner, info, value, message=None):
    text = str(err) if message is None else message
    ctx.check(kind in text, 'names the kind of property')
    if name:
        ctx.check("'%s'" % name in text, 'names the property')
    if owner is not None:
        ctx.check(type(owner).__name__ in text, 'names the class')
    ctx.check(info in text, 'says what is allowed')
    if isinstance(value, (Thing, Shown, dict, bytes)) or value is None:
        shown = repr(value)
        if len(shown) <= 107:
            ctx.check(shown in text, 'shows the value')
    ctx.check(repr(type(value)) in text, 'names its type')


@scenario('C32', weight=4)
def kinds(ctx):
    """The message and the report of a refused assignment"""
    kind, make, bad, info = TABLE[ctx.pick('kind', len(TABLE))]
    v = any_value(ctx, 'v', bad, maxlen=1, alphabet='%', ints=2)
    prop = make()
    hooked = []

    class Owner(p.HasProperties):
        some_name = prop

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    a = Owner()
    owned = kind != 'Uuid' and ctx.flag('owned')
    if owned:
        ok, err = attempt(setattr, a, 'some_name', v)
    else:
        ctx.cover('no-owner')
        ok, err = attempt(make().validate, None, v)
    ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
    if ok:
        return
    ctx.cover('refused')
    ctx.check(len(err.error_tuples) == 1, 'one report')
    t = err.error_tuples[0]
    ctx.check(t.message == str(err) and t.reason == 'invalid', 'what and why')
    ctx.check(t.prop == ('some_name' if owned else '') and
              t.instance is (a if owned else None), 'where')
    message_parts(ctx, err, kind, 'some_name' if owned else '',
                  a if owned else None, info, v)
    ctx.check((list(hooked) == [err.error_tuples]) if owned else
              hooked == [], 'the owner is told, once')
    ctx.check(isinstance(err, ValueError), 'a ValueError')


@scenario('C32', weight=2)
def shown(ctx):
    """Long values are shortened in the middle, others shown in full"""
    n = ctx.choice('n', [0, 1, 49, 50, 51, 99, 100, 101, 106, 107, 108, 109,
                         150, 300])
    text = ''.join(chr(0x4e00 + i) for i in range(n))
    v = Shown(text)
    kind = ctx.choice('kind', ['Integer', 'Boolean', 'String', 'Uuid'])
    prop = getattr(p, kind)('d')
    ok, err = attempt(prop.validate, None, v)
    ctx.check(not ok, 'refused')
    msg = str(err)
    if n <= 107:
        ctx.cover('short')
        ctx.check(text in msg, 'shown in full')
    else:
        ctx.cover('long')
        ctx.check(text not in msg and text[:50] in msg and
                  text[-50:] in msg and text[:51] not in msg and
                  text[-51:] not in msg and
                  msg.index(text[:50]) < msg.index(text[-50:]),
                  'shown from both ends')


@scenario('C32', weight=2)
def described(ctx):
    """Arrays are described by their size"""
    k = ctx.pick('k', 5)
    v = [lambda: [1, 2], lambda: (1,), lambda: np.zeros((2, 2)),
         lambda: np.array(['a', 'b', 'c']), lambda: [[1, 2, 3]] * 4][k]()
    owned = ctx.flag('owned')

    class Owner(p.HasProperties):
        some_name = p.Vector3('d')
    a = Owner()
    ok, err = attempt(setattr, a, 'some_name', v) if owned else \
        attempt(p.Vector3('d').validate, None, v)
    ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
    ctx.cover('array')
    msg = str(err)
    if k in (0, 1, 4) and not isinstance(v, np.ndarray):
        ctx.check('A %s of length %d' % (type(v).__name__, len(v)) in msg or
                  'array of shape' in msg, 'size')
    else:
        ctx.check('shape %s' % (v.shape,) in msg and str(v.dtype) in msg,
                  'shape and kind')
    ctx.check(('some_name' in msg and 'Owner' in msg) == owned, 'where')
    t = err.error_tuples[0]
    ctx.check(t.reason == 'invalid' and t.instance is (a if owned else None),
              'report')


@scenario('C32', weight=2)
def extras(ctx):
    """Reasons particular to the value are given too"""
    n = ctx.int('n', -99, 99)
    k = ctx.pick('k', 8)
    prop, bad, say = [
        (lambda: p.Integer('d', min=100), n, 'range'),
        (lambda: p.Float('d', max=-100), n, 'range'),
        (lambda: p.Integer('d'), 0.5, 'tolerance'),
        (lambda: p.String('d', regex='^a'), 'b', 'egex'),
        (lambda: p.StringChoice('d', ['a', 'b']), 'c', 'choice'),
        (lambda: p.Color('d'), (1, 2), 'length 3'),
        (lambda: p.Color('d'), (1, 2, 256 + abs(n)), '0-255'),
        (lambda: p.DateTime('d'), 'x', 'format')][k]
    owned = ctx.flag('owned')

    class Owner(p.HasProperties):
        some_name = prop()
    a = Owner()
    ok, err = attempt(setattr, a, 'some_name', bad) if owned else \
        attempt(prop().validate, None, bad)
    ctx.cover('extra')
    ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
    if not ok:
        ctx.check(say in str(err), 'reason given')
        ctx.check(("'some_name'" in str(err) and 'Owner' in str(err)) ==
                  owned, 'where')
        t = err.error_tuples[-1]
        ctx.check(t.prop == ('some_name' if owned else '') and
                  t.instance is (a if owned else None) and
                  t.reason == 'invalid', 'report')


@scenario('C32', weight=3)
def inside(ctx):
    """Errors of elements, alternatives and parts name the property of the
    owner and tell why the value inside was refused"""
    k = ctx.pick('k', 6)
    n = ctx.int('n', -9, 9)
    ctx.assume(n < 0)
    bad = [lambda: [1, n], lambda: (n,), lambda: {'k': n}, lambda: n,
           lambda: {'n': n}, lambda: [{'n': n}]][k]()
    hooked = []

    class Owner(p.HasProperties):
        some_name = [lambda: p.List('d', p.Integer('', min=0)),
                     lambda: p.Tuple('d', p.Integer('', min=0)),
                     lambda: p.Dictionary('d', value_prop=p.Integer('',
                                                                    min=0)),
                     lambda: p.Union('d', [p.Integer('', min=0),
                                           p.Boolean('')]),
                     lambda: p.Instance('d', Part),
                     lambda: p.List('d', Part)][k]()

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    a = Owner()
    ok, err = attempt(setattr, a, 'some_name', bad)
    ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
    if ok:
        return
    ctx.cover(['in-container', 'in-container', 'in-container', 'in-union',
               'in-instance', 'in-instance'][k])
    t = err.error_tuples[-1]
    ctx.check(len(err.error_tuples) == 1 and t.prop == 'some_name' and
              t.instance is a and t.reason == 'invalid', 'one report')
    ctx.check(list(hooked) == [err.error_tuples], 'the owner is told, once')
    msg = str(err)
    ctx.check("'some_name'" in msg and 'Owner' in msg, 'where')
    if k == 3:
        ctx.check('not within' in msg.lower() and
                  'Boolean' in msg, 'why no alternative took it')
    if k == 4:
        ctx.check('not within' in msg.lower() and 'Part' in msg, 'why the '
                  'part was not made')


@scenario('C32', weight=2)
def accepted(ctx):
    """What is accepted reports nothing, even if alternatives refused it"""
    k = ctx.pick('k', 4)
    v = any_value(ctx, 'v', 'ib', ints=9)
    hooked = []
    alts = lambda: [p.String(''), p.List('', p.String('')), p.Boolean(''),
                    p.Integer('')]
    good = [lambda: v, lambda: [v], lambda: {'k': v}, lambda: [[v]]][k]()

    class Owner(p.HasProperties):
        x = [lambda: p.Union('d', alts()),
             lambda: p.List('d', p.Union('', alts())),
             lambda: p.Dictionary('d', value_prop=p.Union('', alts())),
             lambda: p.List('d', p.Union('', [p.Integer(''), p.List(
                 '', p.Union('', alts()))]))][k]()

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    a = Owner()
    ok, err = attempt(setattr, a, 'x', good)
    ctx.check(ok, 'accepted')
    ctx.check(hooked == [], 'nothing reported')
    ok, err = attempt(a.validate)
    ctx.check(ok and hooked == [], 'nothing reported when validated')
    # and still reports
    ok, err = attempt(setattr, a, 'x', Thing())
    ctx.check(not ok and len(hooked) == 1, 'still reports')


@scenario('C32', weight=2)
def missing(ctx):
    """Required values that are missing"""
    kind = ctx.choice('kind', ['Integer', 'List', 'Union', 'Instance',
                               'Array'])
    prop = {'Integer': lambda: p.Integer('d'), 'List': lambda: p.List('d'),
            'Union': lambda: p.Union('d', [p.Integer('')]),
            'Instance': lambda: p.Instance('d', Part),
            'Array': lambda: p.Array('d')}[kind]()
    other = ctx.flag('other')

    class Owner(p.HasProperties):
        some_name = prop
        n = p.Integer('n', default=1)
    a = Owner()
    ok, err = attempt(prop.assert_valid, a) if other else attempt(a.validate)
    ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
    ctx.cover('missing')
    ctx.check(len(err.error_tuples) == 1, 'one report')
    t = err.error_tuples[0]
    ctx.check(t.prop == 'some_name' and t.instance is a and
              t.reason == 'missing' and "'some_name'" in t.message and
              'Owner' in t.message and 'required' in t.message, 'report')
    ctx.check(t.message in str(err), 'message')


@scenario('C32', weight=3)
def made(ctx):
    """Errors made by the user's own validators"""
    class Owner(p.HasProperties):
        x = p.Integer('x')

        def _error_hook(self, tuples):
            hooked.append(list(tuples))

        @p.validator
        def _make(self):
            if kw is not None:
                results.append(attempt(lambda: p.ValidationError('text',
                                                                 **kw)))
                results.append(list(hooked))
    hooked, results, kw = [], [], None
    a = Owner(x=1)
    reason = any_value(ctx, 'reason', 'snio', maxlen=1)
    prop = any_value(ctx, 'prop', 'snio', maxlen=1)
    inst = [lambda: None, lambda: a, lambda: Thing(),
            lambda: 'Owner'][ctx.pick('inst', 4)]()
    busy = ctx.flag('busy')
    kw = {}
    if reason is not None or ctx.flag('r'):
        kw['reason'] = reason
    if prop is not None or ctx.flag('p'):
        kw['prop'] = prop
    if inst is not None or ctx.flag('i'):
        kw['instance'] = inst
    if busy:
        # made while the owner is being validated
        a.validate()
        ok, err = results[0]
        del hooked[:]
        hooked.extend(results[1])
    else:
        ok, err = attempt(lambda: p.ValidationError('text', **kw))
    valid = (reason is None or isinstance(reason, str)) and \
        (prop is None or isinstance(prop, str)) and \
        (inst is None or inst is a)
    ctx.check(ok == bool(valid), 'made exactly when the parts are of their '
              'kinds')
    if not ok:
        ctx.cover('not-made')
        ctx.check(isinstance(err, TypeError) and hooked == [], 'TypeError')
        return
    ctx.cover('made')
    ctx.check(str(err) == 'text' and len(err.error_tuples) == 1, 'message')
    t = err.error_tuples[0]
    ctx.check(exact(tuple(t)[:3], ('text', reason, prop)) and
              t.instance is inst, 'report')
    ctx.check((t.message, t.reason, t.prop, t.instance) == tuple(t), 'by name')
    told = inst is a and not busy
    if told:
        ctx.cover('hook')
    ctx.check(list(hooked) == ([err.error_tuples] if told else []),
              'the owner is told unless it is being validated')


@scenario('C32', weight=2)
def merged(ctx):
    """Reports of other errors are taken over, the own one added last if
    there is any"""
    hooked = []

    class Owner(p.HasProperties):
        x = p.Integer('x')

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    a = Owner()
    n = ctx.pick('n', 3)
    first = []
    for i in range(n):
        first += p.ValidationError('e%d' % i, 'r', 'x').error_tuples
    given = list(first)
    k = ctx.pick('k', 4)
    kw = [{}, {'reason': 'own'}, {'prop': 'x'}, {'instance': a}][k]
    err = p.ValidationError('all', _error_tuples=given, **kw)
    ctx.check(err.error_tuples[:n] == first and
              len(err.error_tuples) == n + (1 if k else 0), 'in order')
    if k:
        t = err.error_tuples[-1]
        ctx.check(t.message == 'all' and t.reason == kw.get('reason') and
                  t.prop == kw.get('prop') and
                  t.instance is kw.get('instance'), 'own report last')
    ctx.check(hooked == ([err.error_tuples] if k == 3 else []),
              'and all of it is passed to the hook of the object')


class Odd(Exception):
    pass


class Deep(p.ValidationError):
    pass


@scenario('C32')
def other_class(ctx):
    """A property can report with another class of errors"""
    v = ctx.int('v', -9, 9)
    cls = ctx.choice('cls', [TypeError, KeyError, Odd, Deep,
                             p.ValidationError, None])
    arr = ctx.flag('array')
    prop = p.Array('d') if arr else p.Integer('d')

    class Owner(p.HasProperties):
        some_name = prop
    a = Owner()
    val = [v] if arr and ctx.flag('list') else v
    ok, err = attempt(prop.error, a, val, cls, 'because')
    want = cls or p.ValidationError
    ctx.cover('other-class')
    ctx.check(not ok and type(err) is want, 'of the class asked for')
    ctx.check('because' in str(err) and 'some_name' in str(err) and
              'Owner' in str(err), 'same message')
    if issubclass(want, p.ValidationError):
        t = err.error_tuples[0]
        ctx.check(t.prop == 'some_name' and t.instance is a and
                  t.reason == 'invalid', 'report')


def deep_prop(ctx, name, depth):
    """(property, wrap) of some nesting around integers of at least zero;
    wrap puts an integer, or something else, inside"""
    if not depth:
        return p.Integer('', min=0), lambda v: v
    inner, put = deep_prop(ctx, name + 'i', depth - 1)
    k = ctx.pick(name, 6)
    if k == 0:
        return p.List('', inner), lambda v: [put(0), put(v)]
    if k == 1:
        return p.Tuple('', inner), lambda v: (put(v),)
    if k == 2:
        return p.Dictionary('', value_prop=inner), lambda v: {'k': put(v)}
    if k == 3:
        return p.Union('', [p.Boolean(''), inner]), put
    if k == 4:
        return p.Union('', [inner, p.Boolean('')]), put

    class Inner(p.HasProperties):
        n = inner

        def _error_hook(self, tuples):
            pass
    return p.Instance('', Inner), lambda v: {'n': put(v)}


@scenario('C32', tier='thorough', weight=20)
def more_inside(ctx):
    """Whatever is nested in whatever, the owner is told once"""
    prop, put = deep_prop(ctx, 'w', 1 + ctx.pick('depth', 3))
    n = ctx.int('n', -9, 9)
    hooked = []

    class Owner(p.HasProperties):
        some_name = prop

        def _error_hook(self, tuples):
            hooked.append(list(tuples))
    how = ctx.choice('how', ['attribute', 'constructor', 'stored'])
    good = n >= 0
    a = Owner()
    val = put(n)
    if how == 'attribute':
        ok, err = attempt(setattr, a, 'some_name', val)
    elif how == 'constructor':
        ok, err = attempt(Owner, some_name=val)
    else:
        ok, err = attempt(Owner.deserialize, {'some_name': val})
    ctx.check(ok == good, 'accepted exactly when valid')
    if ok:
        ctx.check(hooked == [], 'nothing reported')
        return
    ctx.check(isinstance(err, ValueError), 'refused')
    if how == 'stored':
        ctx.check(len(hooked) < 2, 'at most one report')
        return
    t = err.error_tuples[-1]
    ctx.check(len(err.error_tuples) == 1 and t.prop == 'some_name' and
              isinstance(t.instance, Owner) and t.reason == 'invalid',
              'one report')
    ctx.check(list(hooked) == [err.error_tuples], 'the owner is told, once')


@scenario('C32', weight=2)
def named_properties(ctx):
    """A property that has a name names itself also without an owner"""
    kind, make, bad, info = TABLE[ctx.pick('kind', len(TABLE))]
    v = any_value(ctx, 'v', bad, maxlen=1, alphabet='%', ints=2)
    prop = make()
    how = ctx.pick('how', 2)
    if how:
        class Owner(p.HasProperties):
            some_name = prop
    else:
        prop.name = 'some_name'
    ok, err = attempt(prop.validate, None, v)
    ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
    if ok:
        return
    ctx.cover('no-owner')
    message_parts(ctx, err, kind, 'some_name', None, info, v)
    t = err.error_tuples[0]
    ctx.check(len(err.error_tuples) == 1 and t.instance is None and
              t.prop == 'some_name' and t.message == str(err), 'report')


@scenario('C32', weight=2)
def all_at_once(ctx):
    """A failed construction or validation tells every failure, in order,
    with every message"""
    n = 2 + ctx.pick('n', 2)
    bad = [ctx.flag('bad%d' % i) for i in range(n)]
    alike = ctx.flag('alike')
    told = []

    class Owner(p.HasProperties):
        x = p.Integer('', required=False)

        def _error_hook(self, tuples):
            told.append(list(tuples))

    def fails(i):
        text = 'same' if alike else 'zyx'[i] + ' went wrong'

        def check(self):
            if bad[i]:
                raise p.ValidationError(text)
        return text, p.validator(check)
    texts, body = [], {'__module__': __name__}
    for i in range(n):
        text, body['check%d' % i] = fails(i)
        if bad[i]:
            texts.append(text)
    Sub = type(p.HasProperties)('Sub', (Owner,), body)
    ok, err = attempt(Sub)
    ctx.check(ok, 'made')
    a = err
    ok, err = attempt(a.validate)
    ctx.check(ok == (not texts), 'valid exactly when nothing fails')
    if not ok:
        ctx.cover('hook')
        ctx.check([t.message for t in err.error_tuples] == texts,
                  'every failure, in order')
        ctx.check([t.message for t in told[0]] == texts and len(told) == 1,
                  'told once')
        msg, at = str(err), 0
        for t in texts:
            ctx.check(t in msg[at:], 'every message, in order')
            at = at + msg[at:].index(t) + len(t)


@scenario('C32', weight=2)
def arguments(ctx):
    """A refused construction tells every refused argument, in order"""
    names = ['x', 'y', 'z']
    order = [['x', 'y', 'z'], ['z', 'x', 'y'], ['y', 'z', 'x']][
        ctx.pick('order', 3)]
    vals = {k: ctx.int(k, -9, 9) for k in names}
    alike = ctx.flag('alike')

    class Num(p.Property):
        def validate(self, instance, value):
            if value < 0:
                raise p.ValidationError(
                    'negative' if alike else 'negative ' + self.name,
                    'invalid', self.name, instance)
            return value

    class Owner(p.HasProperties):
        x = Num('')
        y = Num('')
        z = Num('')
    ok, err = attempt(Owner, **{k: vals[k] for k in order})
    bad = [k for k in order if vals[k] < 0]
    ctx.check(ok == (not bad), 'made exactly when all are accepted')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError), 'kind of error')
        ctx.check([t.prop for t in err.error_tuples] == bad,
                  'every refused argument, in order')
        msg = str(err)
        ctx.check(msg.count('negative') == len(bad), 'every message')


@scenario('C32', weight=2)
def every_problem(ctx):
    """Validation tells everything that is wrong, however much it is"""
    names = ['p%d' % i for i in range(6)]
    gone = [n for n in names if ctx.flag('no_' + n)]
    v = ctx.int('v', -9, 9)
    A = type(p.HasProperties)('A', (p.HasProperties,), dict(
        dict((n, p.Integer('', min=0)) for n in names), __module__=__name__))
    a = A(**dict((n, 1) for n in names if n not in gone))
    at = names[ctx.pick('at', 2)]
    if at not in gone:
        a._backend[at] = v
    nested = ctx.flag('nested')

    class Owner(p.HasProperties):
        x = p.Instance('', A)
    o = Owner(x=a) if nested else a
    bad = [n for n in names if n in gone or (n == at and v < 0)]
    ok, err = attempt(o.validate)
    ctx.check(ok == (not bad), 'valid exactly when nothing is wrong')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError), 'kind of error')
        told = [t.prop for t in err.error_tuples]
        ctx.check(sorted(t for t in told if t != 'x') == bad,
                  'every problem is told')


@scenario('C32', weight=2)
def long_report(ctx):
    """A report with several entries is told in full, whatever raised it"""
    n = 1 + ctx.pick('n', 4)
    m = ctx.pick('m', 3)
    at = ctx.flag('validator')
    v = ctx.int('v', -9, 9)

    def refuse(name, k, inst):
        found = []
        for i in range(k - 1):
            found += p.ValidationError('e%d %s' % (i, name), 'invalid', name,
                                       inst).error_tuples
        raise p.ValidationError('last ' + name, 'invalid', name, inst,
                                _error_tuples=found)

    class Num(p.Property):
        many = 1

        def validate(self, instance, value):
            if value < 0 and not at:
                refuse(self.name, self.many, instance)
            return value

    class First(Num):
        many = n

    class Second(Num):
        many = m

    class Owner(p.HasProperties):
        x = First('')
        y = Second('')

        @p.validator(['x', 'y'])
        def _look(self, change):
            if change['value'] < 0 and at:
                refuse(change['name'], n if change['name'] == 'x' else m,
                       self)

    def told(err):
        return [(t.prop, t.message) for t in err.error_tuples]

    def of(name, k):
        return [(name, 'e%d %s' % (i, name)) for i in range(k - 1)] + [
            (name, 'last ' + name)]
    other = v if m else 0
    want = (of('x', n) + (of('y', m) if m else [])) if v < 0 else []
    ok, err = attempt(Owner, x=v, y=other)
    ctx.check(ok == (not want), 'made when accepted')
    if not ok:
        ctx.check(told(err) == want, 'all of it')
        ctx.check(all(t in str(err) for _, t in want), 'every message')
    a = Owner(x=1, y=1)
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok or told(err) == of('x', n), 'also in an assignment')
    a._backend.update(x=v, y=other)
    ok, err = attempt(a.validate)
    ctx.check(ok == (not want), 'valid when accepted')
    if not ok:
        ctx.check(told(err) == want, 'all of it when validated')


@scenario('C32', weight=2)
def every_reason(ctx):
    """A refused part is explained by every reason, in order"""
    x, y, z = ctx.int('x', -9, 9), ctx.int('y', -9, 9), ctx.int('z', -9, 9)
    where = ctx.choice('where', ['part', 'alternative', 'second', 'both'])

    class Num(p.Property):
        def validate(self, instance, value):
            if not isinstance(value, int) or value < 0:
                raise p.ValidationError('reason ' + self.name, 'invalid',
                                        self.name, instance)
            return value

    class Part(p.HasProperties):
        z = Num('')
        x = Num('')
        y = Num('')

    class Other(Part):
        pass
    alts = {'part': None, 'alternative': [Part, p.List('')],
            'second': [p.List(''), Part], 'both': [Part, Other]}[where]

    class A(p.HasProperties):
        part = p.Instance('', Part) if alts is None else p.Union('', alts)
    ok, err = attempt(A, part={'x': x, 'z': z, 'y': y})
    bad = [k for k, v in (('x', x), ('z', z), ('y', y)) if v < 0]
    ctx.check(ok == (not bad), 'made exactly when all are accepted')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError), 'kind of error')
        times = 2 if where == 'both' else 1
        msg, at = str(err), 0
        for turn in range(times):
            for k in bad:
                ctx.check(('reason ' + k) in msg[at:], 'every reason')
                at += msg[at:].index('reason ' + k) + 1
        ctx.check(msg.count('reason') == times * len(bad), 'no other')
