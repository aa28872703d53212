"""C09 what was accepted stays acceptable"""
import properties as p
from properties.extras import URL
from harness.common import any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('one property of each kind with symbolic configuration, one '
          'symbolic value of any kind (floats k/2**40 up to 64 with nan and '
          'infinities, text up to 3 characters), containers of up to 2 '
          'elements')
ASSUMPTIONS = ['text rules that contradict each other (stripping characters '
               'that the case change produces, patterns the cleaned text no '
               'longer matches) are outside the claim']
WITNESSES = ['number', 'text', 'color', 'container', 'union', 'date']


def stable(ctx, make, v, mark):
    class A(p.HasProperties):
        x = make()
        y = p.Integer('other', default=1)
    a = A()
    ok, err = attempt(setattr, a, 'x', v)
    if not ok:
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')
        return
    ctx.cover(mark)
    stored = a.x
    ctx.check(stored is not None, 'an accepted value is stored')
    ok, err = attempt(a.validate)
    ctx.check(ok, 'the owner validates after an accepted assignment')
    ctx.check(a.x is stored, 'validation leaves the value alone')
    ok, again = attempt(make().validate, None, stored)
    ctx.check(ok, 'the stored value is acceptable again')
    ctx.check(make().equal(stored, again), 'and equal to what it was')
    ctx.check(exact(plain(stored), plain(again)), 'and the same')
    b = A()
    ok, err = attempt(setattr, b, 'x', stored)
    ctx.check(ok, 'the stored value may be assigned elsewhere')
    ctx.check(p.equal(a, b), 'objects holding it are equal')


def plain(v):
    if isinstance(v, set):
        return len(v)
    return v


def bounds(ctx, kinds):
    kw = {}
    shape = ctx.pick('bounds', 4)
    if shape & 1:
        kw['min'] = ctx.number('lo', kinds, q=4, m=64, special=False, ints=64)
    if shape & 2:
        kw['max'] = ctx.number('hi', kinds, q=4, m=64, special=False, ints=64)
    if shape == 3:
        ctx.assume(kw['min'] <= kw['max'])
    return kw


@scenario('C09', weight=4)
def numbers(ctx):
    cls = ctx.choice('cls', [p.Integer, p.Float, p.Complex])
    kw = {} if cls is p.Complex else bounds(
        ctx, 'if' if cls is p.Float or ctx.deep else 'i')
    kw['cast'] = ctx.flag('cast')
    v = ctx.number('v', 'ifbc' if cls is p.Complex else 'ifb', q=40, m=64,
                   ints=64)
    stable(ctx, lambda: cls('x', **kw), v, 'number')


@scenario('C09', weight=2, conc=64)
def number_text(ctx):
    cls = ctx.choice('cls', [p.Integer, p.Float, p.Complex])
    v = ctx.str('v', 2, '1-.jain')
    stable(ctx, lambda: cls('x', cast=True), v, 'number')


@scenario('C09', weight=2, conc=64)
def booleans(ctx):
    cast = ctx.flag('cast')
    v = any_value(ctx, 'v', 'ifbsnldtoxe', maxlen=1, alphabet='a1', q=4, m=64, ints=64)
    stable(ctx, lambda: p.Boolean('x', cast=cast), v, 'number')


@scenario('C09', weight=3)
def strings(ctx):
    case = ctx.choice('case', ['upper', 'lower', None])
    strip = ctx.choice('strip', [None, ' ', ' -'])
    kw = dict(strip=strip, unicode=True)
    if case:
        kw['change_case'] = case
    if strip is None:
        del kw['strip']
    v = any_value(ctx, 'v', 'sin', maxlen=3, alphabet=((32, 32), (45, 45),
                                                       (65, 66), (97, 98)))
    stable(ctx, lambda: p.String('x', **kw), v, 'text')


@scenario('C09', weight=2)
def choices(ctx):
    cs = ctx.flag('cs')
    v = any_value(ctx, 'v', 'sin', maxlen=2, alphabet='abAB')
    stable(ctx, lambda: p.StringChoice('x', {'a': ['b', 'ab'], 'B ': 'ba'},
                                       case_sensitive=cs), v, 'text')


@scenario('C09', weight=3)
def colors(ctx):
    k = ctx.pick('k', 4)
    if k == 0:
        v = '#' + ctx.str('v', 3, ((48, 57), (97, 103)))
    elif k == 1:
        v = ctx.str('v', 6, ((48, 49), (97, 97), (70, 71)), minlen=6)
    elif k == 2:
        v = ctx.choice('v', ['red', 'Fuchsia', 'k', 'random'])
    else:
        v = [any_value(ctx, 'e%d' % i, 'if' if i else 'ib', q=4, m=64, ints=64)
             for i in range(ctx.pick('n', 5))]
        if ctx.flag('tuple'):
            v = tuple(v)
    stable(ctx, lambda: p.Color('x'), v, 'color')


@scenario('C09', weight=2)
def dates(ctx):
    d = ctx.str('d', 2, ((48, 51),), minlen=2)
    sep = ctx.choice('sep', ['-', '/'])
    v = '2019' + sep + '02' + sep + d
    stable(ctx, lambda: p.DateTime('x'), v, 'date')


@scenario('C09', weight=3)
def urls(ctx):
    host = ctx.str('host', 1, 'a.')
    tail = ctx.str('tail', 3, ((97, 97), (35, 35), (63, 63), (59, 59),
                               (47, 47)))
    rp, rf = ctx.flag('rp'), ctx.flag('rf')
    stable(ctx, lambda: URL('x', remove_parameters=rp, remove_fragment=rf),
           'http://' + host + tail, 'text')


def element(ctx, k):
    if k == 0:
        return p.Integer('e', min=-3)
    if k == 1:
        return p.Float('e', cast=True)
    if k == 2:
        return p.String('e', change_case='lower')
    if k == 3:
        return p.Boolean('e')
    return p.Color('e')


@scenario('C09', weight=4, conc=64)
def containers(ctx):
    cls, base = ctx.choice('cls', [(p.Tuple, tuple), (p.List, list),
                                   (p.Set, set)])
    k = ctx.pick('elem', 4)
    coerce = ctx.flag('coerce')
    n = ctx.pick('n', 3)
    els = [any_value(ctx, 'e%d' % i, ['if', 'fi', 'sb', 'bi'][k], q=4, m=64, ints=64,
                     maxlen=1, alphabet='aA1') for i in range(n)]
    v = ctx.choice('form', [base, list])(els)
    kw = {} if base is tuple else dict(observe_mutations=ctx.flag('obs'))
    stable(ctx, lambda: cls('x', prop=element(ctx, k), coerce=coerce, **kw),
           v, 'container')


@scenario('C09', weight=3)
def dictionaries(ctx):
    k = ctx.pick('elem', 3)
    obs = ctx.flag('obs')
    d = {}
    for i in range(ctx.pick('n', 3)):
        d[ctx.str('k%d' % i, 1, 'aAb')] = any_value(
            ctx, 'e%d' % i, ['if', 'fi', 'sb'][k], q=4, m=64, ints=64, maxlen=1,
            alphabet='aA')
    stable(ctx, lambda: p.Dictionary(
        'x', key_prop=p.String('k', change_case='lower'),
        value_prop=element(ctx, k), observe_mutations=obs), d, 'container')


class Part(p.HasProperties):
    n = p.Integer('n', min=0)


@scenario('C09', weight=2)
def instances(ctx):
    n = ctx.int('n')
    given = {'n': n} if ctx.flag('dict') else None
    if given is None:
        ctx.assume(n >= 0)
        given = Part(n=n)
    stable(ctx, lambda: p.Instance('x', Part), given, 'container')


@scenario('C09', weight=2)
def unions(ctx):
    order = ctx.flag('order')
    v = any_value(ctx, 'v', 'ifbs', q=4, m=64, ints=64, maxlen=1, alphabet='aA')

    def make():
        props = [p.Float('f', max=5), p.Integer('i', min=0),
                 p.Boolean('b'), p.String('s', change_case='lower')]
        return p.Union('x', props=props[::-1] if order else props)
    stable(ctx, make, v, 'union')
