"""C33 the documentation of a class lists its properties"""
import properties as p
from harness.common import any_value
from harness.reg import attempt, scenario

BOUNDS = ('classes of up to five properties of six kinds, private ones '
          'included, over up to three generations and two parents, with every '
          'order of up to four names, wrong orders and switches of wrong '
          'kinds')
ASSUMPTIONS = ['only the order, groups, names, descriptions and defaults are '
               'claimed, not the formatting around them']
WITNESSES = ['ordered', 'alphabetical', 'bad-order', 'private', 'inherited',
             'default', 'no-default', 'lost-order', 'two-parents']

HEADS = [('Required', '**Required Properties:**'),
         ('Optional', '**Optional Properties:**'),
         ('Other', '**Other Properties:**'),
         ('Private', '**Private Properties:**')]


def parse(doc):
    """Groups of (name, line) in the order they are listed"""
    out = []
    for line in doc.split('\n'):
        for name, head in HEADS:
            if line == head:
                out.append((name, []))
        if line.startswith('* **'):
            out[-1][1].append((line[4:line.index('**', 4)], line))
    return out


KINDS = 'rognda'


def prop(kind, i):
    doc = 'text of %d' % i
    if kind == 'r':
        return p.Integer(doc)
    if kind == 'o':
        return p.String(doc, required=False)
    if kind == 'g':
        return p.GettableProperty(doc, default=3)
    if kind == 'n':
        return p.List(doc, p.Integer('e'), default=list)
    if kind == 'd':
        return p.Float(doc)(lambda self: 1.0)
    return p.Renamed('a', doc=doc)


def group(name, kind):
    if name[0] == '_':
        return 'Private'
    return {'r': 'Required', 'n': 'Required', 'o': 'Optional'}.get(kind,
                                                                   'Other')


def expect(ctx, cls, kinds, order, text, what=''):
    """order: names in the documented order"""
    doc = cls.__doc__
    ctx.check(isinstance(doc, str) and doc.startswith(text), what + 'own text')
    want = []
    for g, _ in HEADS:
        names = [n for n in order if group(n, kinds[n]) == g]
        if names:
            want.append((g, names))
    got = parse(doc)
    ctx.check([(g, [n for n, _ in ns]) for g, ns in got] == want,
              what + 'each property once, in its group, in order')
    for g, ns in got:
        for n, line in ns:
            ctx.check(cls._props[n].doc in line, what + 'description')


def perms(names):
    if len(names) < 2:
        return [list(names)]
    return [[n] + r for i, n in enumerate(names)
            for r in perms(names[:i] + names[i + 1:])]


def make(name, bases, **kw):
    return type(p.HasProperties)(name, bases, kw)


@scenario('C33', weight=4)
def order(ctx):
    """The order asked for, inside the groups; names sorted otherwise"""
    names = ['c', 'b', 'a', 'd'][:2 + ctx.pick('n', 3)]
    kinds = {}
    for n in names:
        kinds[n] = ctx.choice('kind_' + n, 'ro' if n == 'a' else
                              'rogd' if n == 'b' else 'rga')
        if kinds[n] == 'a' and 'a' not in names:
            kinds[n] = 'r'
    props = {n: prop(kinds[n], i) for i, n in enumerate(names)}
    for n in names:
        if kinds[n] == 'd':
            props[n] = p.Float('text of d')(getter(n))
    text = ctx.choice('text', ['', 'A class'])
    asked = ctx.pick('asked', len(perms(names)) + 1 if len(names) < 4 else 7)
    kw = dict(props)
    if text:
        kw['__doc__'] = text
    if asked:
        o = perms(names)[(asked - 1) * (1 if len(names) < 4 else 4)]
        kw['_doc_order'] = tuple(o) if ctx.flag('tuple') else o
        ctx.cover('ordered')
    else:
        o = sorted(names)
        ctx.cover('alphabetical')
    ok, cls = attempt(make, 'A', (p.HasProperties,), **kw)
    ctx.check(ok, 'declared')
    if ok:
        expect(ctx, cls, kinds, o, text)


def getter(name):
    import types

    def f(self):
        return 1.0
    return types.FunctionType(f.__code__, {}, name)


@scenario('C33', weight=3)
def bad_order(ctx):
    """An order must list every documented name once and nothing else"""
    private = ctx.flag('private')
    docs = ctx.flag('document_private')
    props = {'a': p.Integer('a'), 'b': p.String('b')}
    documented = ['a', 'b']
    if private:
        props['_p'] = p.Integer('p')
        if docs:
            documented = ['_p', 'a', 'b']
            ctx.cover('private')
    k = ctx.pick('k', 9)
    o = [['a', 'b'], ['b', 'a', '_p'], ['a'], ['a', 'a', 'b'], ['b', 'a', 'c'],
         'ab', {'a': 1, 'b': 2}, [], None][k]
    valid = o is None or isinstance(o, list) and sorted(o) == documented
    kw = dict(props, _doc_order=o)
    if docs:
        kw['_doc_private'] = True
    ok, cls = attempt(make, 'A', (p.HasProperties,), **kw)
    ctx.check(ok == valid, 'declared exactly when complete')
    if not ok:
        ctx.cover('bad-order')
        ctx.check(isinstance(cls, AttributeError), 'AttributeError')
    else:
        expect(ctx, cls, {'a': 'r', 'b': 'r', '_p': 'r'},
               o if o is not None else documented, '')


@scenario('C33', weight=2)
def switch(ctx):
    """Private properties are listed on demand, last; the switch is True or
    False"""
    v = any_value(ctx, 'v', 'binso', maxlen=1)
    parent = ctx.choice('parent', [None, True, False])
    kw = {'_doc_private': parent} if parent is not None else {}
    B = make('B', (p.HasProperties,), _q=p.Integer('q'), z=p.Integer('z'),
             **kw)
    own = ctx.flag('own')
    kw = {'_doc_private': v} if own else {}
    ok, A = attempt(make, 'A', (B,), a=p.String('a', required=False),
                    _b=p.GettableProperty('b'), **kw)
    ctx.check(ok == (not own or isinstance(v, bool)), 'a boolean')
    if not ok:
        ctx.check(isinstance(A, AttributeError), 'AttributeError')
        return
    shown = v if own else parent is True
    kinds = {'a': 'o', 'z': 'r', '_q': 'r', '_b': 'g'}
    if shown:
        ctx.cover('private')
    expect(ctx, A, kinds, ['_b', '_q', 'a', 'z'] if shown else ['a', 'z'], '')


@scenario('C33', weight=4)
def inherited(ctx):
    """An order is inherited as long as it is complete; the nearest one
    counts"""
    ctx.cover('inherited')
    ord1 = ctx.choice('ord1', [None, ['b', 'a'], ['a', 'b']])
    B = make('B', (p.HasProperties,), a=p.Integer('a'), b=p.String('b'),
             **({'_doc_order': ord1} if ord1 else {}))
    add = ctx.choice('add', ['nothing', 'new', 'private', 'redeclared',
                             'hidden'])
    kinds = {'a': 'r', 'b': 'r', 'c': 'r', '_c': 'r'}
    kw = {}
    names = ['a', 'b']
    if add == 'new':
        kw['c'] = p.Integer('c')
        names = ['a', 'b', 'c']
    elif add == 'private':
        kw['_c'] = p.Integer('c')
    elif add == 'redeclared':
        kw['b'] = p.String('again', required=False)
        kinds['b'] = 'o'
    elif add == 'hidden':
        kw['b'] = 5
        names = ['a']
    own = ctx.flag('own')
    if own:
        kw['_doc_order'] = names[::-1]
    C = make('C', (B,), **kw)
    if own:
        o = names[::-1]
    elif ord1 and len(names) == 2:
        o = ord1
    else:
        o = names
        if ord1:
            ctx.cover('lost-order')
    expect(ctx, C, kinds, o, '', 'child: ')
    # parents keep theirs
    expect(ctx, B, {'a': 'r', 'b': 'r'}, ord1 or ['a', 'b'], '', 'parent: ')
    D = make('D', (C,), __doc__='More')
    if not own and add in ('new', 'hidden'):
        o = names
    expect(ctx, D, kinds, o, 'More', 'grandchild: ')


@scenario('C33', weight=2)
def two_parents(ctx):
    """With two parents, both lists are merged"""
    ctx.cover('two-parents')
    fam = ctx.flag('family')
    S = make('S', (p.HasProperties,), s=p.Integer('s'))
    L = make('L', (S if fam else p.HasProperties,), a=p.Integer('left'),
             c=p.Integer('c'))
    R = make('R', (S if fam else p.HasProperties,), a=p.Integer(
        'right', required=False), b=p.GettableProperty('b'))
    flip = ctx.flag('flip')
    names = ['a', 'b', 'c'] + ['s'] * fam
    own = ctx.flag('own')
    kw = {'_doc_order': names[::-1]} if own else {}
    A = make('A', (R, L) if flip else (L, R), **kw)
    kinds = {'a': 'o' if flip else 'r', 'b': 'g', 'c': 'r', 's': 'r'}
    expect(ctx, A, kinds, names[::-1] if own else names, '')
    ctx.check(('right' in A.__doc__) == flip and
              ('left' in A.__doc__) == (not flip), 'nearest description')


@scenario('C33', weight=3)
def entries(ctx):
    """One entry: name, description, what is allowed and the default"""
    k = ctx.pick('k', 11)
    n = ctx.choice('n', [-3, 0, 17])
    make_prop, info, default = [
        (lambda: p.Integer('text', default=n), 'an integer', str(n)),
        (lambda: p.Integer('text'), 'an integer', None),
        (lambda: p.Integer('text', min=0), 'an integer in range [0, inf]',
         None),
        (lambda: p.Boolean('text', default=False), 'a boolean', 'False'),
        (lambda: p.List('text', p.Integer(''), default=list),
         'a list (each item is an integer)', None),
        (lambda: p.List('text', p.Integer(''), default=[1, 2]),
         'a list (each item is an integer)', '[1, 2]'),
        (lambda: p.String('text', default='abc'), 'a unicode string', 'abc'),
        (lambda: p.Float('text', default=lambda: 2.5), 'a float',
         'new instance of float'),
        (lambda: p.Integer('text', default=p.undefined), 'an integer', None),
        (lambda: p.Instance('text', Made, default=Made),
         'an instance of Made', 'new instance of Made'),
        (lambda: p.StringChoice('text', ['x', 'y'], default='y'),
         'either "x" or "y"', 'y')][k]
    A = make('A', (p.HasProperties,), some_name=make_prop())
    lines = [l for l in A.__doc__.split('\n') if l.startswith('* ')]
    ctx.check(len(lines) == 1, 'one entry')
    line = lines[0]
    ctx.check(line.startswith('* **some_name**'), 'name')
    rest = line[line.index('text'):] if 'text' in line else ''
    ctx.check(rest.startswith('text, ' + info), 'description and what is '
              'allowed')
    cls = type(A._props['some_name']).__name__
    if cls == 'List':
        cls = 'Integer'
    if cls == 'Instance':
        cls = 'Made'
    ctx.check(':class:`%s <' % cls in line and '.%s>`' % cls in line, 'kind')
    if default is None:
        ctx.cover('no-default')
        ctx.check('Default' not in line, 'no default')
    else:
        ctx.cover('default')
        ctx.check(line.endswith(', Default: ' + default), 'default')
    # the attribute is documented the same way
    ctx.check(A.some_name.__doc__ == line[2:] if isinstance(
        A.some_name, property) else True, 'attribute')


class Made(p.HasProperties):
    n = p.Integer('n', required=False)


@scenario('C33', weight=3)
def two_orders(ctx):
    """The order of the first parent that has one counts, if it is complete"""
    full = ['a', 'b', 'c']
    orders = [None, ['b', 'a', 'c'], ('c', 'a', 'b'), ['a', 'b'], 'abc',
              ['b', 'c', 'a', 'b'], ['a', 'b', 'd']]
    first = orders[ctx.pick('first', 7)]
    second = orders[ctx.pick('second', 7)]

    def plain(o):
        return type('Mix', (object,), {} if o is None else {'_doc_order': o})
    spot = ctx.pick('spot', 3)
    M, N = plain(first), plain(second)
    B = make('B', (p.HasProperties,), a=p.Integer('a'))
    bases = [(M, N, B), (M, B, N), (B, M, N)][spot]
    ok, A = attempt(make, 'A', bases, b=p.Integer('b'), c=p.Integer('c'))
    ctx.check(ok, 'an inherited order never refuses a class')
    if not ok:
        return
    near = first if first is not None else second
    whole = isinstance(near, (list, tuple)) and sorted(near) == full
    expect(ctx, A, {'a': 'r', 'b': 'r', 'c': 'r'}, near if whole else full,
           '')
    if whole:
        ctx.cover('ordered')
    elif near is not None:
        ctx.cover('lost-order')


@scenario('C33', tier='thorough', weight=12)
def more_generations(ctx):
    """Orders asked for at any of three generations, with names added or
    replaced on the way"""
    cls, have, near = p.HasProperties, [], None
    kinds = {}
    for i in range(3):
        add = ['', 'a', 'b', 'ba', 'cb', 'dcb'][
            ctx.pick('add%d' % i, 3 if i else 6) + (3 if i == 1 else 0)]
        kw = {}
        for n in add:
            kinds[n] = ctx.choice('kind%d%s' % (i, n), 'ro' if i else 'rg')
            kw[n] = prop(kinds[n], i)
            if n not in have:
                have.append(n)
        names = sorted(have)
        o = [None, names[::-1], names[1:] + names[:1], names[:-1],
             names + names[:1]][ctx.pick('order%d' % i, 5)]
        if o is not None:
            kw['_doc_order'] = o
        ok, new = attempt(make, 'G%d' % i, (cls,), **kw)
        good = o is None or sorted(o) == names
        ctx.check(ok == good, 'declared exactly when complete')
        if not ok:
            ctx.cover('bad-order')
            return
        if o is not None:
            near = o
        shown = near if near is not None and sorted(near) == names else names
        if shown is not near and near is not None:
            ctx.cover('lost-order')
        expect(ctx, new, kinds, shown, '', 'generation %d: ' % i)
        cls = new


@scenario('C33', weight=2)
def own_text(ctx):
    """The own text is kept as written, with its layout"""
    text = ctx.choice('lead', ['', ' ', '\n', '\n    ', 'A']) + \
        ctx.choice('body', ['', 'A class', 'A\n    long\n\n    class']) + \
        ctx.choice('end', ['', '\n', '  ', '\n\n    '])
    A = make('A', (p.HasProperties,), x=p.Integer('text of x'), __doc__=text)
    ctx.check(A.__doc__.startswith(text), 'own text')
    rest = A.__doc__[len(text):]
    ctx.check('**x**' in rest and rest.count('**x**') == 1, 'one entry')
    B = make('B', (p.HasProperties,), __doc__=text)
    ctx.check(B.__doc__.startswith(text), 'own text')


@scenario('C33', weight=2)
def lengths_told(ctx):
    """What is told of lengths is what is allowed"""
    mn = ctx.choice('min', [None, 0, 1, 2])
    mx = ctx.choice('max', [None, 0, 1, 2])
    ctx.assume(mn is None or mx is None or mn <= mx)
    kw = {}
    if mn is not None:
        kw['min_length'] = mn
    if mx is not None:
        kw['max_length'] = mx
    kind = ctx.choice('kind', [p.List, p.Tuple, p.Set])
    prop = kind('text', p.Integer(''), **kw)
    told = prop.info
    words = told.split(' with ')
    ctx.check('None' not in told and 'inf' not in told, 'no nonsense')
    ctx.check((len(words) == 2) == bool(kw), 'told when limited')
    if kw:
        nums = sorted(int(w) for w in words[1].split() if w.isdigit())
        ctx.check(nums == sorted(set([mn or 0] if mx is None else [mx]
                                     if mx == mn else [mn or 0, mx])) or
                  nums == [mn or 0, mx], 'the limits')
    A = make('A', (p.HasProperties,), x=prop)
    ctx.check(told in A.__doc__, 'in the documentation')


@scenario('C33', weight=2)
def any_description(ctx):
    """Properties are listed whatever their text or default"""
    kind = ctx.choice('kind', 'rogn')
    text = ctx.choice('text', ['', ' ', 'a', 'text' * 40])
    q = prop(kind, 0)
    q.doc = text
    A = make('A', (p.HasProperties,), x=q, a=p.Integer('a'))
    expect(ctx, A, {'x': kind, 'a': 'r'}, ['a', 'x'], '')
    n = ctx.choice('size', [0, 1, 40, 120, 3000])
    what = ctx.choice('what', ['text', 'list', 'tuple', 'set', 'number'])
    val = {'text': 'b' * n, 'list': [1] * n, 'tuple': (1,) * n,
           'set': set(range(n)), 'number': n}[what]
    d = {'text': lambda: p.String('t', default=val),
         'list': lambda: p.List('t', p.Integer(''), default=val),
         'tuple': lambda: p.Tuple('t', p.Integer(''), default=val),
         'set': lambda: p.Set('t', p.Integer(''), default=val),
         'number': lambda: p.Integer('t', default=val)}[what]()
    B = make('B', (p.HasProperties,), x=d)
    told = ', Default: %s' % (val,) if n or what == 'number' else ''
    if what == 'tuple':
        told = ', Default: ' + str(val) if n else ''
    ctx.check(B.__doc__.endswith(told) if told else
              'Default' not in B.__doc__, 'default')
    ctx.cover('default' if told else 'no-default')


@scenario('C33')
def own_kinds(ctx):
    """Kinds made by the user are named by their module, and tell what they
    allow"""
    module = ctx.choice('module', ['properties_more', 'propertiesx.y', 'other',
                                   'my.properties', 'properties',
                                   'properties.extra'])
    told = ctx.choice('told', [None, 'a thing', ''])
    word = ctx.choice('word', ['', 'some words'])
    body = {'__module__': module, 'class_info': word}
    if told is not None:
        body['info'] = property(lambda self: told)
    base = ctx.choice('base', [p.Property, p.GettableProperty])
    Kind = type(base)('Kind', (base,), body)
    A = make('A', (p.HasProperties,), x=Kind('text'))
    where = 'properties' if module.split('.')[0] == 'properties' else module
    say = word if told is None else told
    ctx.check('* **x** (:class:`Kind <%s.Kind>`): text%s' % (
        where, ', ' + say if say else '') in A.__doc__, 'entry')


@scenario('C33', weight=2)
def switches_of_parents(ctx):
    """The switch of the first parent that has one counts"""
    one = ctx.choice('one', [None, True, False])
    two = ctx.choice('two', [None, True, False])
    own = ctx.choice('own', [None, True, False])
    deep = ctx.flag('deep')

    def kw(v):
        return {} if v is None else {'_doc_private': v}
    L = make('L', (p.HasProperties,), a=p.Integer('a'), _l=p.Integer('l'),
             **kw(one))
    R = make('R', (p.HasProperties,), b=p.Integer('b'), **kw(two))
    if deep:
        L = make('L2', (L,))
    A = make('A', (L, R), **kw(own))
    shown = [v for v in (own, one, two) if v is not None][:1] == [True]
    expect(ctx, A, {'a': 'r', 'b': 'r', '_l': 'r'},
           ['_l', 'a', 'b'] if shown else ['a', 'b'], '')
    if shown:
        ctx.cover('private')
