"""C06 containers validate element by element and keep their own copy"""
import properties as p
from harness.common import Thing, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('containers of up to 2 elements (3 thorough) of symbolic ints, '
          'floats, booleans, 1-character strings and None; element types '
          'Integer with symbolic bounds, String, Boolean, Float, unrestricted '
          'and nested lists; length limits 0-3')
ASSUMPTIONS = ['numpy arrays as input containers are outside the model']
WITNESSES = ['seq-ok', 'seq-bad-element', 'seq-bad-container', 'set-ok',
             'dict-ok', 'dict-bad-key', 'dict-bad-value', 'length-ok',
             'length-bad', 'coerced']


def element_type(ctx, name, kinds=5):
    """An element property and the kinds of values worth trying on it"""
    k = ctx.pick(name, kinds)
    if k == 0:
        lo = ctx.int(name + '.lo', -3, 3)
        return (lambda: p.Integer('e', min=lo)), 'if'
    if k == 1:
        return (lambda: p.String('e', change_case='upper')), 'si'
    if k == 2:
        return (lambda: p.Boolean('e')), 'bi'
    if k == 3:
        return (lambda: p.Float('e', cast=True)), 'fs'
    return None, 'in'


def make(cls, elem, **kw):
    if elem is not None:
        kw['prop'] = elem()
    return cls('x', **kw)


def judge(elem, v):
    """(accepted, stored value) for one element on its own"""
    if elem is None:
        return True, v
    return attempt(elem().validate, None, v)


def owner(prop):
    class A(p.HasProperties):
        x = prop
        y = p.Integer('bystander', default=3)
    return A()


def items(ctx, kinds, n, name='v', **kw):
    return [any_value(ctx, '%s%d' % (name, i), kinds, q=4, m=64, maxlen=1,
                      alphabet='a1', **kw) for i in range(n)]


def settle(ctx, a, ok, err):
    if not ok:
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')
        ctx.check(a.x is None, 'nothing stored on refusal')
    ctx.check(a.y == 3, 'bystander untouched')


def run_sequence(ctx, most, kinds=5):
    cls, base = ctx.choice('cls', [(p.Tuple, tuple), (p.List, list)])
    elem, ek = element_type(ctx, 'elem', kinds)
    n = ctx.pick('n', most + 1)
    els = items(ctx, ek, n)
    coerce = ctx.flag('coerce')
    form = ctx.choice('form', [list, tuple])
    value = form(els)
    a = owner(make(cls, elem, coerce=coerce))
    ok, err = attempt(setattr, a, 'x', value)
    settle(ctx, a, ok, err)
    judged = [judge(elem, e) for e in els]
    fits = coerce or form is base
    good = fits
    for j in judged:
        if not j[0]:
            good = False
            if fits:
                ctx.cover('seq-bad-element')
    if not fits:
        ctx.cover('seq-bad-container')
    ctx.check(ok == good, 'accepted exactly when every element is')
    ctx.check(exact(list(value), els), 'input left as it was')
    if not ok:
        return
    ctx.cover('seq-ok')
    if form is not base:
        ctx.cover('coerced')
    ctx.check(type(a.x) is base, 'stored as the container type')
    ctx.check(exact(list(a.x), [j[1] for j in judged]),
              'stored elements are the coerced elements in order')
    ctx.check(base is tuple or a.x is not value, 'own copy')
    if form is list:
        value.append(99)
        ctx.check(len(a.x) == n, 'later changes of the input do not reach '
                  'the stored value')


@scenario('C06', weight=3)
def sequence(ctx):
    run_sequence(ctx, 2)


@scenario('C06', tier='thorough', weight=6)
def sequence_long(ctx):
    run_sequence(ctx, 3)


@scenario('C06', weight=2, conc=64)
def not_a_container(ctx):
    """Scalars, dicts and other objects"""
    cls, base = ctx.choice('cls', [(p.Tuple, tuple), (p.List, list),
                                   (p.Set, set), (p.Dictionary, dict)])
    elem, ek = element_type(ctx, 'elem')
    coerce = ctx.flag('coerce')
    kinds = 'ibfsnox' if base is not dict else 'ibfnox'
    v = any_value(ctx, 'v', kinds, q=4, m=64, maxlen=1, alphabet='a1')
    if base is dict:
        prop = p.Dictionary('x', coerce=coerce)
    else:
        prop = make(cls, elem, coerce=coerce)
    a = owner(prop)
    ok, err = attempt(setattr, a, 'x', v)
    settle(ctx, a, ok, err)
    if base is dict or not coerce:
        ctx.check(not ok, 'not a container')
        return
    jok, jval = judge(elem, v)
    ctx.check(ok == jok, 'a single item becomes a container of one')
    if ok:
        ctx.check(type(a.x) is base and len(a.x) == 1, 'container of one')
        for e in a.x:
            ctx.check(exact(e, jval), 'holding that item')


@scenario('C06', weight=2)
def set_values(ctx):
    elem, ek = element_type(ctx, 'elem', 3)
    n = ctx.pick('n', 3)
    els = items(ctx, ek, n)
    coerce = ctx.flag('coerce')
    form = ctx.choice('form', [set, list, tuple])
    value = form(els)
    a = owner(make(p.Set, elem, coerce=coerce))
    ok, err = attempt(setattr, a, 'x', value)
    settle(ctx, a, ok, err)
    judged = [judge(elem, e) for e in value]
    good = coerce or form is set
    for j in judged:
        if not j[0]:
            good = False
    ctx.check(ok == good, 'accepted exactly when every element is')
    if not ok:
        return
    ctx.cover('set-ok')
    ctx.check(type(a.x) is set, 'stored as a set')
    ctx.check(a.x is not value, 'own copy')
    for j in judged:
        ctx.check(j[1] in a.x, 'every coerced element is in the set')
    for e in a.x:
        found = False
        for j in judged:
            if e == j[1]:
                found = True
        ctx.check(found, 'nothing else is in the set')


@scenario('C06', weight=3)
def dict_values(ctx):
    kk = ctx.pick('key', 3)
    kelem, kkinds = [(None, 's'), (lambda: p.Integer('k'), 'is'),
                     (lambda: p.String('k', change_case='upper'), 's')][kk]
    velem, vkinds = element_type(ctx, 'val', 4)
    n = ctx.pick('n', 3 if ctx.deep else 2)
    value = {}
    for i in range(n):
        value[any_value(ctx, 'k%d' % i, kkinds, maxlen=1, alphabet='ab')] = \
            any_value(ctx, 'v%d' % i, vkinds, q=4, m=64, maxlen=1,
                      alphabet='a1')
    kw = {}
    if kelem is not None:
        kw['key_prop'] = kelem()
    if ctx.flag('valued'):
        kw['value_prop'] = velem()
    else:
        velem = None
    coerce = ctx.flag('coerce')
    form = ctx.choice('form', ['dict', 'pairs'])
    pairs = [(k, value[k]) for k in value]
    given = value if form == 'dict' else pairs
    a = owner(p.Dictionary('x', coerce=coerce, **kw))
    ok, err = attempt(setattr, a, 'x', given)
    settle(ctx, a, ok, err)
    good = coerce or form == 'dict'
    want = []
    for k, v in pairs:
        jk, jv = judge(kelem, k), judge(velem, v)
        if not jk[0]:
            ctx.cover('dict-bad-key')
        if not jv[0]:
            ctx.cover('dict-bad-value')
        if not (jk[0] and jv[0]):
            good = False
        want.append((jk[1], jv[1]))
    ctx.check(ok == good, 'accepted exactly when every key and value is')
    if not ok:
        return
    ctx.cover('dict-ok')
    ctx.check(type(a.x) is dict, 'stored as a dict')
    ctx.check(a.x is not given, 'own copy')
    last = {}
    for k, v in want:
        last[k] = v
    ctx.check(len(a.x) == len(last), 'one entry per coerced key')
    for k in last:
        ctx.check(k in a.x and exact(a.x[k], last[k]), 'entries coerced')
    if form == 'dict':
        value['zz'] = 1
        ctx.check('zz' not in a.x, 'later changes of the input do not reach '
                  'the stored value')


@scenario('C06', weight=2)
def lengths(ctx):
    """validate() enforces the length limits, inclusively"""
    cls, base = ctx.choice('cls', [(p.Tuple, tuple), (p.List, list),
                                   (p.Set, set)])
    shape = ctx.pick('shape', 4)
    kw = {}
    lo, hi = 0, 10
    if shape & 1:
        lo = kw['min_length'] = ctx.int('lo', 0, 3)
    if shape & 2:
        hi = kw['max_length'] = ctx.int('hi', 0, 3)
    ok, prop = attempt(cls, 'x', **kw)
    if shape == 3:
        ctx.check(ok == (lo <= hi), 'contradictory limits refused')
    else:
        ctx.check(ok, 'limits accepted')
    if not ok:
        ctx.check(isinstance(prop, (TypeError, AttributeError)),
                  'refused as a declaration error')
        return
    n = ctx.pick('n', 5)
    obs = base is not tuple and ctx.flag('observe')
    if obs:
        prop.observe_mutations = True
    a = owner(prop)
    ok, err = attempt(setattr, a, 'x', base(range(n)))
    ctx.check(ok, 'assignment does not check lengths')
    ok, err = attempt(a.validate)
    ctx.check(ok == (lo <= n and n <= hi), 'validated within the limits')
    ctx.cover('length-ok' if ok else 'length-bad')
    if not ok:
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')


@scenario('C06')
def bad_limits(ctx):
    """Negative or non-integer limits are declaration errors"""
    cls = ctx.choice('cls', [p.Tuple, p.List, p.Set])
    which = ctx.choice('which', ['min_length', 'max_length'])
    v = any_value(ctx, 'v', 'ifsn')
    ok, err = attempt(cls, 'x', **{which: v})
    ctx.check(ok == (isinstance(v, int) and v >= 0),
              'limits are non-negative integers')
    if not ok:
        ctx.check(isinstance(err, (TypeError, AttributeError)),
                  'declaration error')


class MyList(list):
    pass


class MyDict(dict):
    pass


class MySet(set):
    pass


class MyTuple(tuple):
    pass


@scenario('C06')
def subclasses(ctx):
    """Subclasses of the container are kept"""
    cls, sub = ctx.choice('cls', [(p.Tuple, MyTuple), (p.List, MyList),
                                  (p.Set, MySet), (p.Dictionary, MyDict)])
    e = ctx.int('e')
    v = sub({e: e}) if sub is MyDict else sub([e])
    obs = sub is not MyTuple and ctx.flag('observe')
    kw = dict(observe_mutations=True) if obs else {}
    a = owner(cls('x', **kw))
    a.x = v
    ctx.check(isinstance(a.x, sub), 'subclass kept')
    ctx.check(a.x == v, 'same contents')
    ctx.check(a.x is not v, 'own copy')


@scenario('C06', weight=2)
def nested(ctx):
    """Containers of containers"""
    lo = ctx.int('lo', -2, 2)
    outer, ob = ctx.choice('outer', [(p.List, list), (p.Tuple, tuple)])
    n = ctx.pick('n', 3)
    rows = []
    for i in range(n):
        m = ctx.pick('m%d' % i, 2 if not ctx.deep else 3)
        rows.append([any_value(ctx, 'e%d_%d' % (i, j), 'in')
                     for j in range(m)])
    a = owner(outer('x', prop=p.List('r', prop=p.Integer('e', min=lo))))
    ok, err = attempt(setattr, a, 'x', ob(rows))
    settle(ctx, a, ok, err)
    good = True
    for r in rows:
        for e in r:
            if e is None or e < lo:
                good = False
    ctx.check(ok == good, 'accepted exactly when every inner element is')
    if ok:
        ctx.check(exact([list(r) for r in a.x], rows), 'contents kept')
        for r, s in zip(rows, a.x):
            ctx.check(r is not s, 'inner containers copied')
            r.append(7)
            ctx.check(len(s) == len(r) - 1, 'inner containers independent')


class Part(p.HasProperties):
    n = p.Integer('n')


@scenario('C06', weight=2)
def of_instances(ctx):
    """Instances are kept as they are, keyword dicts become instances"""
    cls, base = ctx.choice('cls', [(p.List, list), (p.Tuple, tuple)])
    k = ctx.pick('k', 4)
    v = ctx.int('v')
    part = Part(n=v)
    e = [part, {'n': v}, {'n': 'a'}, 'nothing'][k]
    a = owner(cls('x', prop=Part))
    ok, err = attempt(setattr, a, 'x', base([part, e]))
    settle(ctx, a, ok, err)
    ctx.check(ok == (k < 2), 'accepted exactly when each is an instance')
    if ok:
        ctx.check(a.x[0] is part, 'instances kept by identity')
        ctx.check(isinstance(a.x[1], Part) and a.x[1].n == v,
                  'instance built from keywords')
        ctx.check((a.x[1] is part) == (k == 0), 'fresh unless given')


@scenario('C06')
def two_owners(ctx):
    """Two objects given one container do not share it"""
    kind = ctx.pick('kind', 3)
    obs = ctx.flag('obs')
    e = ctx.int('e')
    cls, val = [(p.List, [e]), (p.Set, set([e])),
                (p.Dictionary, {e: e})][kind]
    class A(p.HasProperties):
        x = cls('x', observe_mutations=obs)
    a, b = A(x=val), A()
    b.x = a.x
    ctx.check(a.x is not b.x, 'separate containers')
    if kind == 0:
        a.x.append(1)
    elif kind == 1:
        a.x.discard(e)
    else:
        a.x.clear()
    ctx.check(len(b.x) == 1, 'no sharing')
    ctx.check(len(val) == 1, 'input not touched')


@scenario('C06', weight=2)
def same_key(ctx):
    """Keys that become the same one leave the entry that comes last"""
    ks = [ctx.str('k%d' % i, 1, 'aAb') for i in range(3)]
    vs = [ctx.int('v%d' % i) for i in range(3)]
    ctx.assume(ks[0] != ks[1] and ks[0] != ks[2] and ks[1] != ks[2])
    value = {}
    for k, v in zip(ks, vs):
        value[k] = v
    a = owner(p.Dictionary('x', key_prop=p.String('k', change_case='upper'),
                           value_prop=p.Integer('v'),
                           observe_mutations=ctx.flag('obs')))
    a.x = value
    want = {}
    for k, v in zip(ks, vs):
        want[k.upper()] = v
    ctx.check(exact(dict(a.x), want), 'the last of them')


@scenario('C06', weight=2)
def one_dictionary(ctx):
    """A dictionary is one item where coercion makes a container of one"""
    cls, base = ctx.choice('cls', [(p.List, list), (p.Tuple, tuple)])
    n = ctx.int('n')
    k = ctx.pick('k', 3)
    prop = [lambda: Part, lambda: p.Dictionary('d'), lambda: None][k]()
    kw = {} if prop is None else dict(prop=prop)
    coerce = ctx.flag('coerce')
    d = {'n': n}
    if ctx.flag('empty'):
        d = {}
    a = owner(cls('x', coerce=coerce, **kw))
    ok, err = attempt(setattr, a, 'x', d)
    settle(ctx, a, ok, err)
    ctx.check(ok == coerce, 'taken when coercing')
    if ok:
        ctx.check(type(a.x) is base and len(a.x) == 1, 'container of one')
        e = a.x[0]
        if k == 0:
            ctx.check(type(e) is Part and exact(e.n, n if d else None),
                      'made of it')
        else:
            ctx.check(exact(e, d), 'the dictionary')


@scenario('C06', weight=2)
def long_ones(ctx):
    """Every element counts, wherever it is and however many there are"""
    n = ctx.choice('size', [3, 5, 12])
    at = ctx.pick('at', n)
    v = any_value(ctx, 'v', 'isnb', ints=99, maxlen=1)
    kind = ctx.choice('kind', ['list', 'tuple', 'set', 'keys', 'values'])
    lo = ctx.int('lo', -3, 3)
    rest = [lo + 1 + i for i in range(n)]
    if kind in ('set', 'keys') and type(v) is int:
        for r in rest:
            ctx.assume(v != r)
    given = rest[:at] + [v] + rest[at + 1:]
    elem = lambda: p.Integer('e', min=lo)      # noqa
    accepted, stored = judge(elem, v)
    want = rest[:at] + [stored] + rest[at + 1:]
    if kind == 'list':
        a, given = owner(p.List('x', elem())), given
    elif kind == 'tuple':
        a, given, want = owner(p.Tuple('x', elem())), tuple(given), tuple(want)
    elif kind == 'set':
        ctx.assume(type(v) is int)
        a, given = owner(p.Set('x', elem())), set(given)
        want = set(want)
    elif kind == 'keys':
        ctx.assume(type(v) is not bool)
        a = owner(p.Dictionary('x', key_prop=elem()))
        given = dict((k, str(i)) for i, k in enumerate(given))
        want = dict((k, str(i)) for i, k in enumerate(want))
    else:
        a = owner(p.Dictionary('x', value_prop=elem()))
        given = dict((str(i), k) for i, k in enumerate(given))
        want = dict((str(i), k) for i, k in enumerate(want))
    before = type(given)(given)
    ok, err = attempt(setattr, a, 'x', given)
    settle(ctx, a, ok, err)
    ctx.check(ok == accepted, 'accepted exactly when every element is')
    ctx.check(given == before, 'input untouched')
    if ok:
        ctx.check(a.x == want and type(a.x) is type(want) and
                  a.x is not given, 'every element')


@scenario('C06')
def spoiled_entries(ctx):
    """Every key and value is checked, also nothing, and values under keys
    that become the same one"""
    k1, k2 = ctx.choice('keys', [('a', 'b'), ('a', 'A'), ('A', 'a')])
    v1 = any_value(ctx, 'v1', 'ins', ints=9, maxlen=0)
    v2 = any_value(ctx, 'v2', 'ins', ints=9, maxlen=0)
    req = ctx.flag('req')
    a = owner(p.Dictionary('x', key_prop=p.String('', change_case='upper'),
                           value_prop=p.Integer('', required=req)))
    ok, err = attempt(setattr, a, 'x', {k1: v1, k2: v2})
    settle(ctx, a, ok, err)
    ctx.check(ok == (type(v1) is int and type(v2) is int), 'every value')


@scenario('C06')
def made_elements(ctx):
    """Elements made of equal values are objects of their own"""
    cls = ctx.choice('cls', [p.List, p.Tuple])
    k = ctx.pick('k', 3)
    n = ctx.int('n', -9, 9)

    class Text(p.HasProperties):
        t = p.Property('')

        def __init__(self, t, **kwargs):
            super(Text, self).__init__(t=t, **kwargs)
    v = [n if ctx.flag('any') else 7, 'a', None][k]
    a = owner(cls('x', p.Instance('', Text), coerce=True))
    ok, err = attempt(setattr, a, 'x', [v, v, v])
    ctx.check(ok, 'made')
    ctx.check(len(a.x) == 3 and a.x[0] is not a.x[1] and
              a.x[1] is not a.x[2] and a.x[0] is not a.x[2], 'apart')
    ctx.check(all(type(e) is Text and exact(e.t, v) for e in a.x), 'of it')
