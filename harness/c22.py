"""C22 copies"""
import uuid

import properties as p
from harness.common import Boom, any_value, exact, same_backend
from harness.reg import attempt, scenario

BOUNDS = ('objects of two classes holding symbolic values, containers of up '
          'to two elements nested twice and parts in every kind of place, '
          'shared or not, observed or not; one mutation of either side')
ASSUMPTIONS = ['values that can be written and read (C19)']
WITNESSES = ['copied', 'original-changed', 'copy-changed', 'shared', 'refused',
             'subclass', 'reported']


def family(log, obs):
    class Part(p.HasProperties):
        _REGISTRY = {}
        n = p.Integer('', required=False)
        ns = p.List('', p.Integer(''), observe_mutations=obs, default=list)

        @p.observer(['n', 'ns'])
        def saw(self, change):
            log.append((id(self), change['name']))

    class Sub(Part):
        m = p.Float('', required=False)

    class A(p.HasProperties):
        _REGISTRY = Part._REGISTRY
        n = p.Integer('', default=0)
        u = p.Uuid('')
        l = p.List('', p.Integer(''), observe_mutations=obs, default=list)
        e = p.Set('', p.Integer(''), observe_mutations=obs, default=set)
        d = p.Dictionary('', key_prop=p.String(''), value_prop=p.List(
            '', p.Integer('')), observe_mutations=obs, default=dict)
        t = p.Tuple('', p.List('', p.Integer('')), default=())
        part = p.Instance('', Part, required=False)
        parts = p.List('', Part, observe_mutations=obs, default=list)
        table = p.Dictionary('', key_prop=p.String(''), value_prop=Part,
                             observe_mutations=obs, default=dict)
        either = p.Union('', [p.Integer(''), Part], required=False)

        @p.observer(p.everything)
        def saw(self, change):
            log.append((id(self), change['name']))

        @p.validator
        def whole(self):
            log.append('validated')
    return Part, Sub, A


def mutable(obj, out, depth=6):
    """Every mutable object reachable from obj"""
    if isinstance(obj, p.HasProperties):
        out.append(obj)
        for v in obj._backend.values():
            mutable(v, out, depth - 1)
    elif isinstance(obj, dict):
        out.append(obj)
        for v in obj.values():
            mutable(v, out, depth - 1)
    elif isinstance(obj, (list, set)):
        out.append(obj)
        for v in obj:
            mutable(v, out, depth - 1)
    elif isinstance(obj, tuple):
        for v in obj:
            mutable(v, out, depth - 1)
    return out


def build(ctx, A, Part, Sub):
    """An object with one or two places filled"""
    n, m = ctx.int('n'), ctx.int('m')
    a = A(n=n)
    sub = ctx.flag('sub')
    if sub:
        ctx.cover('subclass')
    part = Sub(n=m, ns=[1]) if sub else Part(n=m, ns=[1])
    fill = ctx.pick('fill', 9)
    if fill == 0:
        a.l = [n, m]
    elif fill == 1:
        a.e = set([1, 2])
    elif fill == 2:
        a.d = {'k': [m]}
    elif fill == 3:
        a.t = ([n], [m])
    elif fill == 4:
        a.part = part
    elif fill == 5:
        a.parts = [part, part]
        ctx.cover('shared')
    elif fill == 6:
        a.table = {'k': part}
    elif fill == 7:
        a.either = part
    else:
        a.part = part
        a.either = part
        a.parts = [part]
        ctx.cover('shared')
    return a, fill


@scenario('C22', weight=5)
def independent(ctx):
    log = []
    obs = ctx.flag('obs')
    Part, Sub, A = family(log, obs)
    a, fill = build(ctx, A, Part, Sub)
    before = dict(a._backend)
    plain = a.serialize()
    del log[:]
    ok, b = attempt(p.copy, a)
    ctx.check(ok, 'can be copied')
    if not ok:
        return
    ctx.cover('copied')
    ctx.check(log == [], 'nobody is told')
    ctx.check(same_backend(before, a._backend) and a.serialize() == plain,
              'original unchanged')
    ctx.check(type(b) is A and p.equal(a, b) and p.equal(b, a), 'equal')
    ctx.check(b.serialize() == plain, 'same contents')
    if fill >= 4:
        for x, y in ((a.part, b.part), (a.either, b.either)):
            ctx.check(type(x) is type(y), 'class of the part')
        for x, y in zip(a.parts, b.parts):
            ctx.check(type(x) is type(y), 'class of the part')
    ids = [id(o) for o in mutable(a, [])]
    ctx.check(not [o for o in mutable(b, []) if id(o) in ids],
              'nothing shared')
    # change one side
    src, other = (a, b) if ctx.flag('side') else (b, a)
    ctx.cover('original-changed' if src is a else 'copy-changed')
    other_plain = other.serialize()
    told = src
    if fill == 0:
        how = ctx.pick('how', 5)
        [lambda: src.l.append(5), lambda: src.l.pop(),
         lambda: src.l.__setitem__(0, src.l[0] + 1),
         lambda: src.l.extend([1]), lambda: src.l.sort()][how]()
    elif fill == 1:
        how = ctx.pick('how', 3)
        [lambda: src.e.add(9), lambda: src.e.discard(1),
         lambda: src.e.clear()][how]()
    elif fill == 2:
        how = ctx.pick('how', 3)
        told = src if how else None
        [lambda: src.d['k'].append(4), lambda: src.d.update({'j': []}),
         lambda: src.d.pop('k')][how]()
    elif fill == 3:
        told = None
        src.t[ctx.pick('i', 2)].append(7)
    else:
        part = [src.part, lambda: src.parts[0], lambda: src.table['k'],
                src.either, src.part][fill - 4]
        part = part if isinstance(part, p.HasProperties) else part()
        how = ctx.pick('how', 3)
        told = part if how != 1 or obs else None
        if how == 0:
            part.n = part.n + 1
        elif how == 1:
            part.ns.append(3)
        else:
            del part.n
    ctx.check(other.serialize() == other_plain, 'other side unchanged')
    if obs and told is not None and not (fill == 0 and how == 4):
        ctx.cover('reported')
        ctx.check(len(log) > 0, 'told')
    ctx.check(all(e[0] == id(told) for e in log), 'reports to its own object')


@scenario('C22', weight=2)
def listeners(ctx):
    """Listeners added to an object are not copied; those of the class work"""
    log = []
    Part, Sub, A = family(log, True)
    v = ctx.int('v')
    a = A(n=v, part=Part(n=v))
    extra = []
    p.observer(a, 'n', lambda o, c: extra.append(o))
    p.observer(a.part, 'n', lambda o, c: extra.append(o))
    b = p.copy(a)
    del log[:]
    b.n = 1 + v
    b.part.n = 1 + v
    ctx.check(extra == [], 'not copied')
    ctx.check(log == [(id(b), 'n'), (id(b.part), 'n')], 'class ones work')
    a.n = v + 2
    ctx.check(len(extra) == 1 and extra[0] is a, 'kept on the original')
    ctx.check(b.u == a.u, 'unique id is kept')


@scenario('C22', weight=2)
def again(ctx):
    """A copy of a copy; a changed copy"""
    log = []
    Part, Sub, A = family(log, ctx.flag('obs'))
    a, fill = build(ctx, A, Part, Sub)
    b = p.copy(a)
    b.n = b.n + 1
    c = p.copy(b)
    ctx.check(p.equal(b, c) and not p.equal(a, c), 'copy of the copy')
    ids = [id(o) for o in mutable(a, []) + mutable(b, [])]
    ctx.check(not [o for o in mutable(c, []) if id(o) in ids],
              'nothing shared')


@scenario('C22', weight=1)
def refused(ctx):
    """Only objects with properties can be copied; failures leave no trace"""
    v = any_value(ctx, 'v', 'isnldo', ints=64, maxlen=1)
    ok, err = attempt(p.copy, v)
    ctx.cover('refused')
    ctx.check(not ok and isinstance(err, ValueError), 'refused')

    class A(p.HasProperties):
        x = p.Integer('', serializer=bad)
        me = p.Instance('', p.HasProperties, required=False)
    a = A(x=1)
    if ctx.flag('loop'):
        a.me = a
        ok, err = attempt(p.copy, a)
        ctx.check(not ok, 'loops are refused')
        del a.me
    ok, err = attempt(p.copy, a)
    ctx.check(not ok and isinstance(err, Boom), 'error passed on')
    log = []
    p.observer(a, 'x', lambda o, c: log.append(c['value']))
    a.x = 2
    ctx.check(log == [2], 'listeners still run')
    ctx.check(a._backend == {'x': 2}, 'unchanged')


def bad(value, **kwargs):
    raise Boom()


@scenario('C22', weight=1)
def options(ctx):
    """Options reach writers and readers"""
    got = []

    def write(value, **kw):
        got.append(kw)
        return value

    def read(value, **kw):
        got.append(kw)
        return value

    class A(p.HasProperties):
        x = p.Integer('', serializer=write, deserializer=read)
    kw = {}
    if ctx.flag('inc'):
        kw['include_class'] = ctx.flag('incv')
    if ctx.flag('tr'):
        kw['trusted'] = ctx.flag('trv')
    if ctx.flag('other'):
        kw['other'] = ctx.int('o')
    b = p.copy(A(x=ctx.int('x')), **kw)
    ctx.check(type(b) is A, 'class')
    w, r = got
    ctx.check(w['include_class'] == kw.get('include_class', True), 'class')
    ctx.check(r['trusted'] == kw.get('trusted', True), 'trust')
    ctx.check(w.get('other') == r.get('other') == kw.get('other'), 'others')


@scenario('C22', weight=1)
def untyped(ctx):
    """Values of properties without a type"""
    class Part(p.HasProperties):
        _REGISTRY = {}
        n = p.Integer('')

    class A(p.HasProperties):
        _REGISTRY = Part._REGISTRY
        x = p.Property('', required=False)
        l = p.List('', required=False)
        d = p.Dictionary('', required=False)
        s = p.List('', p.Instance('', Part), required=False)
    v = ctx.int('v')
    val = [v, 'a', None, [v], {'k': v}, (v,), [[v]]][ctx.pick('val', 7)]
    where = ctx.pick('where', 3)
    a = A()
    if where == 0:
        a.x = val
    elif where == 1:
        a.l = [val, val]
    else:
        a.d = {'k': val}
    a.s = [Part(n=v)]
    b = p.copy(a)
    ctx.check(p.equal(a, b), 'equal')
    ctx.check(b.s[0] is not a.s[0], 'parts are copied')
    if where:
        ctx.check(b.l is not a.l or a.l is None, 'lists are copied')
        ctx.check(b.d is not a.d or a.d is None, 'dictionaries are copied')
    ids = [id(o) for o in mutable(a, [])]
    ctx.check(not [o for o in mutable(b, []) if id(o) in ids],
              'nothing shared',
              known=[('untyped-values', isinstance(val, (list, dict)))])


@scenario('C22', weight=1)
def failing_function(ctx):
    """Calculated values are no part of a copy, computable or not"""
    v = ctx.int('v')
    lim = ctx.int('lim')
    asked = []

    class A(p.HasProperties):
        x = p.Integer('')

        @p.Integer('')
        def d(self):
            asked.append(self)
            if self.x > lim:
                raise Boom()
            return self.x
    a = A(x=v)
    ok, b = attempt(p.copy, a)
    ctx.check(ok and b.x == v and b is not a, 'copied')
    ctx.check(asked == [], 'nothing is calculated')


@scenario('C22', weight=1)
def nothing_held(ctx):
    """Copies of objects that hold nothing are as good"""
    n = ctx.int('n')

    class A(p.HasProperties):
        x = p.Integer('', required=False)
        y = p.List('', p.Integer(''), required=False)
        c = p.GettableProperty('')

        @p.Integer('')
        def calc(self):
            return n
    a = A()
    a.y = p.undefined
    ctx.check(dict(a._backend) == {}, 'nothing held')
    ctx.check(a.serialize(save_dynamic=True, include_class=False) ==
              {'calc': n}, 'calculated values are written if asked')
    b = p.copy(a)
    ctx.check(type(b) is A and b is not a and b.x is None and b.calc == n,
              'a copy')
    b.x = 3
    ctx.check(a.x is None, 'of its own')
