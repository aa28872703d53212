"""C21 equality of objects"""
import datetime

import properties as p
from harness.common import TOL, Thing, any_value, same_backend, same_num
from harness.reg import attempt, scenario

BOUNDS = ('pairs of symbolic values of each kind, unset included; containers '
          'of up to 2 elements; instances nested twice; every link graph of 3 '
          '(4 thorough) objects')
ASSUMPTIONS = ['float values on a grid coarser or finer than the tolerance',
               'no nan keys in dictionaries']
WITNESSES = ['equal', 'different', 'close', 'nan', 'unset', 'container',
             'class', 'graph', 'cycle', 'union', 'calculated']


def num_equal(a, b):
    """Equal within the tolerance"""
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    d = a - b
    return -TOL <= d and d <= TOL


def both(ctx, a, b, want, label='as its values'):
    """The verdict, in both directions, changing nothing"""
    ba, bb = dict(a._backend), dict(b._backend)
    ok, r = attempt(p.equal, a, b)
    ok2, r2 = attempt(p.equal, b, a)
    ctx.check(ok and ok2, 'decided')
    if ok and ok2:
        ctx.check(r == want, label)
        ctx.check(r2 == want, label + ' (reversed)')
    ctx.check(p.equal(a, a) and p.equal(b, b), 'equal to itself')
    ctx.check(same_backend(a._backend, ba) and same_backend(b._backend, bb),
              'nothing changed')
    ctx.cover('equal' if want else 'different')


def scalar_pair(ctx, kind, na, nb, small=False):
    """(property, value, value, expected verdict)"""
    if kind == 0:
        a, b = ctx.int(na), ctx.int(nb)
        return p.Integer(''), a, b, a == b
    if kind == 1:
        # close to each other or apart, on a grid finer than the tolerance
        if small:
            a, b = [ctx.float(n, q=2, m=4, special=False) if
                    ctx.flag(n + 'ord') else float('nan') for n in (na, nb)]
        else:
            a = ctx.number(na, 'if', ints=8, q=2, m=16, special=True)
            b = ctx.number(nb, 'if', ints=8, q=2, m=16, special=True)
        if a != a or b != b:
            ctx.cover('nan')
        return p.Float(''), a, b, num_equal(a, b)
    if kind == 2:
        a = ctx.complex(na, q=2, m=4)
        b = ctx.complex(nb, q=2, m=4)
        return (p.Complex(''), a, b, num_equal(a.real, b.real) and
                num_equal(a.imag, b.imag))
    if kind == 3:
        a, b = ctx.bool(na), ctx.bool(nb)
        return p.Boolean(''), a, b, a == b
    if kind == 4:
        a = ctx.str(na, 1 if small else 2, 'ab')
        b = ctx.str(nb, 1 if small else 2, 'ab')
        return p.String(''), a, b, a == b
    if kind == 5:
        a = ctx.choice(na, ['A', 'b', 'c'])
        b = ctx.choice(nb, ['a', 'B', 'c'])
        m = {'A': 'a', 'b': 'a', 'c': 'c', 'a': 'a', 'B': 'a'}
        return (p.StringChoice('', {'a': ['b'], 'c': []}), a, b,
                m[a] == m[b])
    if kind == 6:
        a = tuple(ctx.int('%s%d' % (na, i), 0, 255) for i in range(3))
        b = tuple(ctx.int('%s%d' % (nb, i), 0, 255) for i in range(3))
        return p.Color(''), a, b, a == b
    if kind == 7:
        a = datetime.datetime(2000, 1, 1 + ctx.pick(na, 2))
        b = datetime.datetime(2000, 1, 1 + ctx.pick(nb, 2), 0, 0,
                              ctx.pick(nb + 's', 2))
        return p.DateTime(''), a, b, a == b
    a, b = Thing(), Thing()
    if ctx.flag(nb):
        b = a
    return p.Property(''), a, b, a is b


@scenario('C21', weight=4)
def scalars(ctx):
    kind = ctx.pick('kind', 9)
    prop, v, w, eq = scalar_pair(ctx, kind, 'v', 'w')
    prop.required = False
    sv, sw = ctx.flag('sv'), ctx.flag('sw')

    class A(p.HasProperties):
        y = p.Integer('', default=0)
        x = prop
        z = p.String('', default='')
    a, b = A(), A()
    if sv:
        a.x = v
    if sw:
        b.x = w
    dy = ctx.flag('y')
    dz = ctx.flag('z')
    if dy:
        a.y = 1
    if dz:
        b.z = 'z'
    same = eq if sv and sw else sv == sw
    if not sv or not sw:
        ctx.cover('unset')
    both(ctx, a, b, same and not dy and not dz)


@scenario('C21', weight=1)
def tolerance(ctx):
    """Floats differing by less than the tolerance are equal"""
    a = ctx.int('a', -8, 8)
    # multiples of half the tolerance
    k = ctx.pick('k', 5)
    d = [0.0, 0.5e-9, -0.5e-9, 4e-9, -4e-9][k]
    cx = ctx.flag('complex')
    obs = ctx.flag('in list')

    class A(p.HasProperties):
        x = (p.Complex if cx else p.Float)('')
        l = p.List('', p.Float(''), default=list)
    base = [0.0, 0.25, -0.25][ctx.pick('base', 3)]
    one, two = A(x=base), A(x=complex(base, d) if cx else base + d)
    if obs:
        one.l, two.l = [a, base], [a, base + d]
    ctx.cover('close')
    both(ctx, one, two, k < 3)


@scenario('C21', weight=4)
def containers(ctx):
    form = ctx.pick('form', 4)
    kind = [0, 1, 4, 3][ctx.pick('kind', 4)]
    prop, v0, w0, e0 = scalar_pair(ctx, kind, 'v0', 'w0', True)
    n, m = ctx.pick('n', 3), ctx.pick('m', 3)
    obs = ctx.flag('obs')
    vs, ws, pairs = [v0], [w0], {}
    v1 = w1 = None
    if n == 2 or m == 2:
        _, v1, w1, _ = scalar_pair(ctx, kind, 'v1', 'w1', True)
    vs, ws = [v0, v1][:n], [w0, w1][:m]

    def eq(a, b):
        return num_equal(a, b) if kind == 1 else a == b
    kw = dict(observe_mutations=obs)

    class A(p.HasProperties):
        x = [lambda: p.Tuple('', prop), lambda: p.List('', prop, **kw),
             lambda: p.Set('', prop, **kw),
             lambda: p.Dictionary('', value_prop=prop, **kw)][form]()
    ctx.cover('container')
    if form == 2:
        a, b = A(x=set(vs)), A(x=set(ws))

        def within(one, two):
            for s in one:
                found = False
                for t in two:
                    if eq(s, t):
                        found = True
                if not found:
                    return False
            return True
        want = within(vs, ws) and within(ws, vs)
        if kind == 1:
            # nan is not identical to nan as a set sees it
            ctx.assume(not [s for s in vs + ws if s != s])
    elif form == 3:
        ka = ctx.choice('ka', ['ij', 'ji', 'jk'])
        a = A(x=dict(zip(ka, vs)))
        b = A(x=dict(zip('ij', ws)))
        want = set(ka[:n]) == set('ij'[:m])
        if want:
            for i in range(n):
                want = want and eq(vs[i], ws['ij'.index(ka[i])])
    else:
        ct = tuple if form == 0 else list
        a, b = A(x=ct(vs)), A(x=ct(ws))
        want = n == m
        if want:
            for s, t in zip(vs, ws):
                want = want and eq(s, t)
    both(ctx, a, b, want)


@scenario('C21', weight=3)
def classes(ctx):
    """Objects of different classes are never equal; parts are compared the
    same way; anything else by =="""
    v, w = ctx.int('v'), ctx.int('w')

    class P(p.HasProperties):
        n = p.Integer('', required=False)

    class Q(P):
        pass

    class R(p.HasProperties):
        n = p.Integer('', required=False)

    class A(p.HasProperties):
        one = p.Instance('', p.HasProperties, required=False)
        many = p.List('', p.HasProperties, default=list)
        table = p.Dictionary('', value_prop=p.HasProperties, default=dict)
    ca, cb = ctx.pick('ca', 3), ctx.pick('cb', 3)
    x, y = [P, Q, R][ca](n=v), [P, Q, R][cb](n=w)
    ctx.cover('class')
    both(ctx, x, y, ca == cb and v == w)
    where = ctx.pick('where', 4)
    a, b = A(), A()
    if where == 0:
        a.one, b.one = x, y
    elif where == 1:
        a.many, b.many = [x, x], [x, y]
    elif where == 2:
        a.table, b.table = {'k': x}, {'k': y}
    else:
        a.one, b.one = A(many=[x]), A(many=[y])
    both(ctx, a, b, ca == cb and v == w)
    other = any_value(ctx, 'o', 'isnlo', ints=64, maxlen=1)
    r = p.equal(x, other)
    r2 = p.equal(other, x)
    ctx.check(r is False and r2 is False, 'never equal to other values')
    ctx.check(p.equal(v, w) == (v == w), 'other values by ==')


@scenario('C21', weight=2)
def calculated(ctx):
    """Calculated values count, and are asked only of objects compared"""
    v, w, k = ctx.int('v'), ctx.int('w'), ctx.int('k', 0, 1)
    asked = []

    class A(p.HasProperties):
        x = p.Integer('')
        scale = 1

        @p.Integer('')
        def d(self):
            asked.append(self)
            return self.scale * 2 if self.scale else None
    a, b = A(x=v), A(x=w)
    b.scale = k
    ctx.cover('calculated')
    both(ctx, a, b, v == w and k == 1)


@scenario('C21', weight=3)
def unions(ctx):
    """Values of a union are equal when an alternative says so"""
    k = ctx.pick('k', 4)
    kinds = ['if', 'ifs', 'ilt', 'bsn'][k]
    v = any_value(ctx, 'v', kinds, ints=8, q=2, m=16, maxlen=1,
                  alphabet='ab')
    w = any_value(ctx, 'w', kinds, ints=8, q=2, m=16, maxlen=1,
                  alphabet='ab')

    class A(p.HasProperties):
        x = p.Union('', [
            [p.Integer(''), p.Float('')], [p.String(''), p.Float('')],
            [p.Integer(''), p.List('', p.Integer('')),
             p.Tuple('', p.Integer(''))],
            [p.Boolean(''), p.String('')]][k], required=False)
    a, b = A(), A()
    if v is not None:
        a.x = v
    if w is not None:
        b.x = w
    sv, sw = a.x, b.x
    ctx.cover('union')
    if sv is None or sw is None:
        want = sv is None and sw is None
    elif isinstance(sv, (int, float)) and isinstance(sw, (int, float)):
        want = num_equal(sv, sw)
    elif isinstance(sv, (list, tuple)) and isinstance(sw, (list, tuple)):
        want = sv[0] == sw[0]
    else:
        want = type(sv) is type(sw) and sv == sw
    both(ctx, a, b, want)


def unfold(links, vals, i, j, depth):
    """Are the (finite) trees under i and j the same?"""
    if vals[i] != vals[j] or len(links[i]) != len(links[j]):
        return False
    for s, t in zip(links[i], links[j]):
        if (s is None) != (t is None):
            return False
        if s is not None and s != t and not unfold(links, vals, s, t,
                                                   depth - 1):
            return False
    return True


def cyclic(links, i, stack=()):
    if i in stack:
        return True
    for j in links[i]:
        if j is not None and cyclic(links, j, stack + (i,)):
            return True
    return False


def graph(ctx, size, lists):
    class Node(p.HasProperties):
        n = p.Integer('')
        kid = p.Instance('', p.HasProperties, required=False)
        kids = p.List('', p.HasProperties, required=False)
    vals = [ctx.pick('n0', 2)] + [0] * (size - 1)
    nodes = [Node(n=v) for v in vals]
    links = {}
    for i in range(size):
        k = ctx.pick('kid%d' % i, size + 1)
        links[i] = [k - 1 if k else None]
        if k:
            nodes[i].kid = nodes[k - 1]
        if lists:
            k = ctx.pick('kids%d' % i, size + 1) if i < 2 else 0
            links[i].append(k - 1 if k else None)
            if k:
                nodes[i].kids = [nodes[k - 1]]
    ctx.cover('graph')
    for i in range(size):
        for j in range(i, size):
            r, r2 = p.equal(nodes[i], nodes[j]), p.equal(nodes[j], nodes[i])
            ctx.check(r == r2, 'symmetric')
            if i == j:
                ctx.check(r is True, 'equal to itself')
            elif not cyclic(links, i) and not cyclic(links, j):
                ctx.check(r == unfold(links, vals, i, j, 9), 'by structure')
            else:
                ctx.cover('cycle')
    for n in nodes:
        ctx.check(not getattr(n, '_testing_equality', False), 'over')


@scenario('C21', weight=4)
def links(ctx):
    graph(ctx, 3, False)


@scenario('C21', weight=4)
def list_links(ctx):
    graph(ctx, 3, True)


@scenario('C21', tier='thorough', weight=6)
def more_links(ctx):
    graph(ctx, 4, True)


@scenario('C21', weight=2)
def once_differing(ctx):
    """What objects were compared with before makes no difference"""
    n, m = ctx.int('n', -9, 9), ctx.int('m', -9, 9)

    class Part(p.HasProperties):
        n = p.Integer('n')

    class Sub(Part):
        pass

    class Other(p.HasProperties):
        n = p.Integer('n')

    class A(p.HasProperties):
        x = p.List('x', Part)
    one, two = Part(n=n), Part(n=m)
    for i in range(2):
        against = [lambda: Sub(n=n), lambda: Other(n=n), lambda: Part(n=m + 1),
                   lambda: 5, lambda: None, lambda: Part(), lambda: two,
                   lambda: one][ctx.pick('o%d' % i, 8)]()
        who = [one, two][ctx.pick('w%d' % i, 2)]
        got = p.equal(against, who) if ctx.flag('turn%d' % i) else \
            p.equal(who, against)
        want = against is who or (type(against) is Part and
                                  against.n is not None and
                                  against.n == who.n)
        ctx.check(got == want, 'first comparison')
    ctx.check(p.equal(one, two) == (n == m), 'then')
    ctx.check(p.equal(two, one) == (n == m), 'either way')
    a, b = A(x=[one, two]), A(x=[two, one])
    ctx.check(p.equal(a, b) == (n == m), 'inside others')
    ctx.check(p.equal(a, A(x=[Part(n=n), Part(n=m)])), 'like others')


@scenario('C21', weight=2)
def same_names(ctx):
    """Classes are told apart by identity; private values count"""
    v, w = ctx.int('v'), ctx.int('w')
    hidden = ctx.flag('hidden')

    def declare():
        class A(p.HasProperties):
            _REGISTRY = {}
            _x = p.Integer('', required=False)
            x = p.Integer('', required=False)
        return A
    A = declare()
    B = declare() if ctx.flag('two') else A
    key = '_x' if hidden else 'x'
    a, b = A(**{key: v}), B(**{key: w})
    ctx.cover('class')
    both(ctx, a, b, A is B and v == w)

    class Owner(p.HasProperties):
        one = p.Instance('', p.HasProperties)
        many = p.Tuple('', p.HasProperties, default=tuple)
    if ctx.flag('in_tuple'):
        o, q = Owner(many=(a,)), Owner(many=(b,))
    else:
        o, q = Owner(one=a), Owner(one=b)
    both(ctx, o, q, A is B and v == w)


class Rows(object):
    """Compares element by element, as arrays do"""

    def __init__(self, vals):
        self.vals = vals

    def __eq__(self, other):
        return [s == t for s, t in zip(self.vals, other.vals)]

    def __ne__(self, other):
        return [s != t for s, t in zip(self.vals, other.vals)]
    __hash__ = None


@scenario('C21', weight=2)
def elementwise(ctx):
    """Values that compare element by element are equal when all are"""
    n = ctx.pick('n', 4)
    vs = [ctx.int('v%d' % i) for i in range(n)]
    ws = [ctx.int('w%d' % i) for i in range(n)]
    where = ctx.pick('where', 4)

    class A(p.HasProperties):
        x = [lambda: p.Property(''), lambda: p.Tuple(''),
             lambda: p.Dictionary(''),
             lambda: p.List('', p.Property(''))][where]()
    wrap = [lambda r: r, lambda r: (r,), lambda r: {'k': r},
            lambda r: [r]][where]
    want = True
    for s, t in zip(vs, ws):
        want = want and s == t
    both(ctx, A(x=wrap(Rows(vs))), A(x=wrap(Rows(ws))), want)


@scenario('C21', weight=2)
def large(ctx):
    """One difference counts, wherever it is"""
    k = ctx.choice('kind', ['properties', 'list', 'tuple', 'dictionary',
                            'set', 'deep', 'parts', 'alternatives', 'lists'])
    n = ctx.choice('size', [4, 7])
    at = ctx.pick('at', n)
    v, w = ctx.int('v', 100, 120), ctx.int('w', 100, 120)
    names = ['p%d' % i for i in range(n)]
    if k == 'properties':
        body = dict((m, p.Integer('')) for m in names)
        A = type(p.HasProperties)('A', (p.HasProperties,),
                                  dict(body, __module__=__name__))

        def build(x):
            return A(**dict((m, x if i == at else i)
                            for i, m in enumerate(names)))
    elif k == 'deep':
        class Node(p.HasProperties):
            v = p.Integer('')
            kid = p.Instance('', p.HasProperties, required=False)
            after = p.Integer('', default=0)

        def build(x):
            o = None
            for i in range(n):
                o = Node(v=x if i == at else i, **(
                    {} if o is None else {'kid': o}))
            return o
    else:
        class Part(p.HasProperties):
            v = p.Integer('')
        elem = {'parts': lambda: p.Instance('', Part),
                'lists': lambda: p.List('', p.Integer('')),
                'alternatives': lambda: p.Union('', [
                    p.String(''), p.Boolean(''), p.Color(''),
                    p.Integer('')])}.get(k, lambda: p.Integer(''))
        prop = {'tuple': lambda: p.Tuple('', elem()),
                'set': lambda: p.Set('', elem()),
                'dictionary': lambda: p.Dictionary('', value_prop=elem())
                }.get(k, lambda: p.List('', elem()))

        class A(p.HasProperties):
            x = prop()

        def build(x):
            vals = [x if i == at else i for i in range(n)]
            if k == 'parts':
                vals = [Part(v=e) for e in vals]
            elif k == 'lists':
                vals = [[0, e] for e in vals]
            elif k == 'tuple':
                vals = tuple(vals)
            elif k == 'set':
                vals = set(vals)
            elif k == 'dictionary':
                vals = dict(zip(names, vals))
            return A(x=vals)
    a, b = build(v), build(w)
    both(ctx, a, b, v == w)
    if k in ('list', 'tuple', 'parts', 'lists') and ctx.flag('shifted'):
        c = A(x=type(b.x)(list(b.x)[1:] + list(b.x)[:1]))
        both(ctx, a, c, False, 'order counts')
        c = A(x=type(b.x)(reversed(list(a.x))))
        both(ctx, a, c, False, 'direction counts')


@scenario('C21', weight=2)
def equal_as_a_later_alternative(ctx):
    """Values of an alternative are compared as that one does, wherever it
    stands"""
    class Part(p.HasProperties):
        v = p.Integer('')
    v, w = ctx.int('v', -9, 9), ctx.int('w', -9, 9)
    first = [p.Integer(''), p.Boolean(''), p.String(''), p.Color('')]
    at = ctx.pick('at', 5)
    kind = ctx.pick('kind', 3)
    last = [lambda: p.Instance('', Part),
            lambda: p.List('', p.Instance('', Part)),
            lambda: p.Dictionary('', value_prop=p.Instance('', Part))][kind]
    alts = first[:at] + [last()] + first[at:]

    class A(p.HasProperties):
        x = p.Union('', alts)

    def build(n):
        return A(x=[lambda: Part(v=n), lambda: [Part(v=n)],
                    lambda: {'k': Part(v=n)}][kind]())
    a, b = build(v), build(w)
    ctx.check(p.equal(a, b) == (v == w), 'equal exactly when the values are')
    ctx.check(p.equal(b, a) == (v == w), 'both ways')
    ctx.check(p.equal(a, build(v)), 'built alike')


@scenario('C21')
def nothing_to_compare(ctx):
    """Objects without properties are equal when of one class, and empty
    values when of one kind"""
    import numpy as np

    def make(base, name):
        return type(p.HasProperties)(name, (base,),
                                     {'__module__': __name__})
    Base = make(p.HasProperties, 'Base')
    classes = [make(p.HasProperties, 'A'), make(p.HasProperties, 'A'), Base,
               make(Base, 'Base')]
    i, j = ctx.pick('i', 4), ctx.pick('j', 4)
    both(ctx, classes[i](), classes[j](), i == j)

    class Held(p.HasProperties):
        x = p.Property('')
        n = p.Integer('', required=False)
    n, m = ctx.int('n'), ctx.int('m')
    shape = ctx.choice('shape', [(0,), (0, 3), (3, 0)])
    a = Held(x=np.zeros(shape), n=n)
    b = Held(x=np.zeros(shape), n=m)
    both(ctx, a, b, n == m, 'empty arrays')


@scenario('C21', weight=3, conc=8)
def arrays_anywhere(ctx):
    """Arrays of any shape are values like others, also where any value or
    an array object is held: equal when shape and elements are"""
    import numpy as np
    shapes = [(2,), (1,), (1, 2), (2, 1), (2, 2), (2, 0), ()]
    s, t = [shapes[ctx.pick(k, 7)] for k in ('s', 't')]
    n, m = ctx.int('n', 0, 3), ctx.int('m', 0, 3)
    at = ctx.pick('at', 2)
    kind = ctx.pick('kind', 4)

    def make(shape, v):
        size = 1
        for d in shape:
            size *= d
        flat = [v if i == at else 1 for i in range(size)]
        return np.array(flat).reshape(shape), at < size
    (v, inv), (w, inw) = make(s, n), make(t, m)
    want = s == t and (not inv or n == m)

    class Part(p.HasProperties):
        z = p.Property('')
    told = []

    class A(p.HasProperties):
        x = [lambda: p.Property(''), lambda: p.Instance('', np.ndarray),
             lambda: p.List('', p.Property('')),
             lambda: p.Instance('', Part)][kind]()

        @p.observer('x', change_only=True)
        def _c(self, change):
            told.append('change')

        @p.observer('x')
        def _s(self, change):
            told.append('set')
    wrap = [lambda u: u, lambda u: u, lambda u: [u],
            lambda u: Part(z=u)][kind]
    a, b = A(x=wrap(v)), A(x=wrap(w))
    both(ctx, a, b, want)
    ok, res = attempt(a.validate)
    ctx.check(ok and res is True, 'valid')
    del told[:]
    ok, err = attempt(setattr, a, 'x', b.x)
    ctx.check(ok, 'assigned')
    ctx.check(told == (['set'] if want else ['change', 'set']),
              'told as by equality')
    ctx.check(p.equal(a, b), 'equal now')
