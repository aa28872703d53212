"""C17 inheritance follows the method resolution order"""
import properties as p
from harness.reg import attempt, scenario

BOUNDS = ('class hierarchies of up to five classes (chain, diamond, crossed, '
          'plain mixins); in each class each name is absent, a property with '
          'its own symbolic default, a calculated property or a plain '
          'attribute; listeners likewise')
ASSUMPTIONS = []
WITNESSES = ['property', 'plain', 'dynamic', 'absent', 'listener',
             'no-listener', 'class-validator', 'mixin']

SHAPES = {
    # name: [(class, bases)] with the last one examined
    'chain': [('A', ''), ('B', 'A'), ('C', 'B')],
    'diamond': [('A', ''), ('B', 'A'), ('C', 'A'), ('D', 'BC')],
    'crossed': [('X', ''), ('Y', ''), ('A', 'XY'), ('B', 'X'),
                ('D', 'AB')],
    'two': [('A', ''), ('B', ''), ('D', 'AB')],
    'mixin-first': [('m', None), ('A', ''), ('D', 'mA')],
    'mixin-last': [('A', ''), ('m', None), ('D', 'Am')],
    'mixin-middle': [('A', ''), ('m', None), ('B', 'A'), ('D', 'Bm')],
}


def build(shape, content):
    """Classes of the shape; content(class name) -> class dictionary"""
    classes = {}
    for name, bases in SHAPES[shape]:
        if bases is None:
            cls = type(name, (object,), content(name))
        else:
            cls = type(name, tuple(classes[b] for b in bases) or
                       (p.HasProperties,), content(name))
        classes[name] = cls
    return classes, classes[SHAPES[shape][-1][0]]


def check_props(ctx, shape, skip=()):
    decl = {}

    def content(name):
        k = 0 if name in skip else ctx.pick('k' + name, 3 if name == 'm' else 4)
        if name == 'm':
            ctx.cover('mixin')
            k = [0, 3, 4][k]
        d = {'__module__': __name__}
        if k == 1:
            v = ctx.int('v' + name)
            d['x'] = p.Integer('in ' + name, default=v)
            decl[name] = ('prop', v)
        elif k == 2:
            v = ctx.int('v' + name)

            def x(self):
                return v
            d['x'] = p.Integer('dynamic in ' + name)(x)
            decl[name] = ('dynamic', v)
        elif k == 3:
            v = 'plain ' + name if name in 'AC' else None
            d['x'] = v
            decl[name] = ('plain', v)
        elif k == 4:
            d['x'] = property(lambda self: 'mixed in')
            decl[name] = ('plain', 'mixed in')
        return d
    classes, last = build(shape, content)
    for cname, cls in classes.items():
        if cname == 'm':
            continue
        kind, v = 'absent', None
        for c in cls.__mro__:
            if c.__name__ in decl:
                kind, v = decl[c.__name__]
                where = c.__name__
                break
        ctx.cover({'prop': 'property'}.get(kind, kind))
        ctx.check(('x' in cls._props) == (kind in ('prop', 'dynamic')),
                  'a property exactly when the nearest definition is one')
        ok, a = attempt(cls)
        ctx.check(ok, 'can be created')
        if not ok:
            continue
        if kind == 'absent':
            ctx.check(not hasattr(a, 'x'), 'no such attribute')
            ok, err = attempt(lambda: cls(x=1))
            ctx.check(not ok and isinstance(err, AttributeError),
                      'no such argument')
            continue
        ctx.check(a.x == v, 'nearest definition')
        ctx.check(a.serialize(include_class=False) ==
                  ({'x': v} if kind == 'prop' else {}), 'written')
        w = ctx.int('w' + cname)
        if kind == 'prop':
            ctx.check(cls._props['x'].doc == 'in ' + where, 'nearest')
            ok, err = attempt(setattr, a, 'x', 'text')
            ctx.check(not ok and isinstance(err, p.ValidationError),
                      'validated')
            b = cls(x=w)
            ctx.check(b.x == w and a.x == v, 'assigned')
        elif kind == 'dynamic':
            ok, err = attempt(setattr, a, 'x', w)
            ctx.check(not ok and isinstance(err, AttributeError),
                      'not assignable')
        ok, err = attempt(a.validate)
        ctx.check(ok, 'valid')


@scenario('C17', weight=3)
def chain(ctx):
    check_props(ctx, 'chain')


@scenario('C17', weight=5)
def diamond(ctx):
    check_props(ctx, 'diamond')


@scenario('C17', weight=3)
def crossed(ctx):
    check_props(ctx, 'crossed', skip=() if ctx.deep else ('D', 'B'))


@scenario('C17', tier='thorough', weight=9)
def crossed_all(ctx):
    check_props(ctx, 'crossed')


@scenario('C17', weight=3)
def small_shapes(ctx):
    check_props(ctx, ctx.choice('shape', ['two', 'mixin-first', 'mixin-last',
                                          'mixin-middle']))


def check_listeners(ctx, shape, skip=()):
    """Methods that listen: the nearest definition counts, once"""
    log = []
    decl = {}
    mode = ctx.choice('mode', ['observe_set', 'validate', 'class'])

    def content(name):
        d = {'__module__': __name__}
        k = 0 if name in skip else ctx.pick('k' + name, 3)

        def o(self, change=None):
            log.append(name)
        if k == 1:
            d['o'] = {'observe_set': lambda: p.observer('x')(o),
                      'validate': lambda: p.validator('x')(o),
                      'class': lambda: p.validator(o)}[mode]()
            decl[name] = True
        elif k == 2:
            d['o'] = o
            decl[name] = False
        return d
    first = SHAPES[shape]

    def content_x(name):
        d = content(name)
        if dict(first)[name] == '':
            d['x'] = p.Integer('x', default=0)
        return d
    classes, last = build(shape, content_x)
    for cname, cls in classes.items():
        want = []
        for c in cls.__mro__:
            if c.__name__ in decl:
                if decl[c.__name__]:
                    want = [c.__name__]
                break
        del log[:]
        a = cls()
        ctx.check(log == [], 'silent on creation')
        ctx.cover('listener' if want else 'no-listener')
        if mode == 'class':
            ctx.cover('class-validator')
            ok, err = attempt(a.validate)
            ctx.check(ok, 'valid')
        else:
            a.x = ctx.int('v' + cname)
        ctx.check(log == want, 'nearest definition listens, once')


@scenario('C17', weight=3)
def listeners_chain(ctx):
    check_listeners(ctx, 'chain')


@scenario('C17', weight=4)
def listeners_diamond(ctx):
    check_listeners(ctx, 'diamond')


@scenario('C17', weight=3)
def listeners_crossed(ctx):
    check_listeners(ctx, 'crossed', skip=() if ctx.deep else ('D', 'B'))


@scenario('C17', weight=2)
def listeners_survive(ctx):
    """A listener keeps hearing of a property that a subclass redeclares, and
    of all properties a subclass adds if it listens to everything"""
    log = []
    v, w = ctx.int('v'), ctx.int('w')
    redeclare = ctx.flag('redeclare')

    class A(p.HasProperties):
        x = p.Integer('x')

        @p.observer('x')
        def one(self, change):
            log.append(('one', change['name']))

        @p.observer(p.everything)
        def every(self, change):
            log.append(('every', change['name']))

    class B(A):
        y = p.Integer('y')
        if redeclare:
            x = p.Integer('x', min=-3)
    b = B()
    ok, err = attempt(setattr, b, 'x', v)
    ctx.check(ok == (not redeclare or v >= -3), 'redeclared rules')
    ctx.check(log == ([('one', 'x'), ('every', 'x')] if ok else []), 'x')
    del log[:]
    b.y = w
    ctx.check(log == [('every', 'y')], 'y')


@scenario('C17', weight=2)
def names_checked(ctx):
    """Listeners must name assignable properties of the class or its bases"""
    name = ctx.choice('name', ['x', 'y', 'd', 'i', 'r', 'plain', 'none'])
    mode = ctx.pick('mode', 3)
    wrap = ctx.flag('wrap')

    class A(p.HasProperties):
        x = p.Integer('x')
        gone = p.Integer('gone')

    def declare():
        class B(A):
            y = p.Integer('y')
            i = p.GettableProperty('i')
            r = p.Renamed('y')
            plain = 3
            gone = None

            @p.Integer('d')
            def d(self):
                return 1
            names = ['x', name] if wrap else name
            o = [p.observer(names), p.observer(names, change_only=True),
                 p.validator(names)][mode](lambda self, change: None)
            del names
        return B
    ok, err = attempt(declare)
    ctx.check(ok == (name in ('x', 'y')), 'declared exactly when listenable')
    if not ok:
        ctx.check(isinstance(err, TypeError), 'kind of error')


@scenario('C17', weight=2)
def registry(ctx):
    """Classes are found by name in the registry they belong to"""
    own = ctx.flag('own')

    class A(p.HasProperties):
        x = p.Integer('x')
        if own:
            _REGISTRY = {}

    class B(A):
        y = p.Integer('y')
    v = ctx.int('v')
    ctx.check(A._REGISTRY['A'] is A and A._REGISTRY['B'] is B, 'registered')
    ctx.check((A._REGISTRY is p.HasProperties._REGISTRY) == (not own),
              'in the registry declared')
    if own:
        ctx.check(set(A._REGISTRY) == set(['A', 'B']), 'and no other')
        ctx.check(p.HasProperties._REGISTRY.get('B') is not B, 'not global')
    got = A.deserialize({'__class__': 'B', 'x': v, 'y': v}, trusted=True)
    ctx.check(type(got) is B and got.y == v, 'found')
    got = p.HasProperties.deserialize({'__class__': 'B', 'x': v},
                                      trusted=True)
    ctx.check((type(got) is B) == (not own), 'not found elsewhere')
