"""C23 objects with unique ids"""
import properties as p
from properties.extras import HasUID, Pointer
from harness.common import Boom, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('every link graph of 3 (4 thorough) identified objects through '
          'instances and containers of each kind; histories of up to 4 (5 '
          'thorough) creations, renamings and deletions over two names')
ASSUMPTIONS = ['the reading process has none of the ids in use unless stated',
               'the identified root holds the graph (a plain object writes '
               'each identified part by itself)',
               'ids are not changed while listeners are disabled']
WITNESSES = ['cycle', 'shared', 'subclass', 'place', 'taken', 'freed',
             'refused', 'retry', 'loaded', 'pointer', 'other-root']


def family():
    """Identified objects with an isolated register"""
    class Base(HasUID):
        _REGISTRY = {}
        _INSTANCES = {}

    class Node(Base):
        n = p.Integer('', default=0)
        kid = p.Instance('', Base, required=False)
        kids = p.List('', Base, required=False)

    class Sub(Node):
        m = p.Integer('', required=False)
    return Base, Node, Sub


def consistent(ctx, cls, live, label='register'):
    """The register holds exactly the live objects, each under its uid"""
    reg = cls._INSTANCES
    ctx.check(len(reg) == len(live), label)
    for o in live:
        ctx.check(reg.get(o.uid) is o and cls.load(o.uid) is o, label)


def graph(ctx, size, lists):
    Base, Node, Sub = family()
    vals = [ctx.int('n')] + list(range(1, size))
    sub = ctx.flag('sub')
    nodes = [(Sub if sub and i == 1 else Node)(uid='u%d' % i, n=vals[i])
             for i in range(size)]
    kid, kids = {}, {}
    for i in range(size):
        k = ctx.pick('kid%d' % i, size + 1)
        kid[i] = k - 1 if k else None
        if k:
            nodes[i].kid = nodes[k - 1]
        k = ctx.pick('kids%d' % i, size + 1) if i < lists else 0
        kids[i] = k - 1 if k else None
        if k:
            nodes[i].kids = [nodes[k - 1], nodes[0]] if i == 0 else \
                [nodes[k - 1]]
    reach, todo = [], [0]
    while todo:
        i = todo.pop()
        if i in reach:
            continue
        reach.append(i)
        if kid[i] is not None:
            todo.append(kid[i])
        if kids[i] is not None:
            todo.append(kids[i])
    inc = ctx.flag('include')
    ok, js = attempt(nodes[0].serialize, include_class=inc)
    ctx.check(ok, 'written')
    if not ok:
        return
    want = {'__root__': 'u0'}
    for i in reach:
        d = {'uid': 'u%d' % i, 'n': vals[i]}
        if inc:
            d['__class__'] = type(nodes[i]).__name__
        if kid[i] is not None:
            d['kid'] = 'u%d' % kid[i]
        if kids[i] is not None:
            d['kids'] = ['u%d' % kids[i]] + (['u0'] if i == 0 else [])
        want['u%d' % i] = d
    ctx.check(js == want, 'one entry per object, references by uid')
    consistent(ctx, Base, nodes)
    # elsewhere
    Base._INSTANCES.clear()
    ok, root = attempt(Node.deserialize, js, trusted=True)
    if not inc and len(reach) > 1:
        # without classes the parts are read as the declared class, which
        # does not know their values
        ctx.check(ok, 'read')
        return
    ctx.check(ok, 'read')
    if not ok:
        return
    ctx.check(js == want, 'data unchanged')
    seen = {0: root}
    todo = [0]
    done = []
    while todo:
        i = todo.pop()
        if i in done:
            continue
        done.append(i)
        o = seen[i]
        ctx.check(type(o) is (type(nodes[i]) if inc else Node), 'class')
        ctx.check(o.uid == 'u%d' % i and o.n == vals[i] and
                  o is not nodes[i], 'values')
        links = []
        ctx.check((o.kid is None) == (kid[i] is None), 'links')
        if kid[i] is not None:
            links.append((kid[i], o.kid))
        ctx.check((o.kids is None) == (kids[i] is None), 'links')
        if kids[i] is not None:
            links.append((kids[i], o.kids[0]))
            if i == 0:
                links.append((0, o.kids[1]))
        for j, q in links:
            if j in seen:
                ctx.cover('shared')
                ctx.check(seen[j] is q, 'same object')
            else:
                seen[j] = q
            todo.append(j)
            if j <= i:
                ctx.cover('cycle')
    if sub:
        ctx.cover('subclass')
    consistent(ctx, Base, list(seen.values()))
    ctx.check(root.serialize(include_class=inc) == js, 'writes the same')


@scenario('C23', weight=5)
def graphs(ctx):
    graph(ctx, 3, 1)


@scenario('C23', tier='thorough', weight=6)
def more_graphs(ctx):
    graph(ctx, 4, 1)


@scenario('C23', weight=4)
def places(ctx):
    """Identified parts in every kind of place"""
    Base, Node, Sub = family()
    k = ctx.pick('place', 9)

    class Holder(p.HasProperties):
        _REGISTRY = Base._REGISTRY
        part = p.Instance('', Base)

    class Owner(Base):
        x = [lambda: p.Instance('', Base), lambda: p.List('', Base),
             lambda: p.Tuple('', p.Instance('', Base)), lambda: p.Set('', Base),
             lambda: p.Dictionary('', value_prop=Base),
             lambda: p.Dictionary('', key_prop=Base,
                                  value_prop=p.Integer('')),
             lambda: p.Union('', [p.Integer(''), Base]),
             lambda: p.Instance('', Holder),
             lambda: p.List('', p.Tuple('', p.Instance('', Holder)))][k]()
        y = p.Instance('', Base, required=False)
    v = ctx.int('v')
    part = Node(uid='p', n=v)
    a = Owner(uid='a')
    back = ctx.flag('back')
    if back:
        part.kid = a
        ctx.cover('cycle')
    if ctx.flag('twice'):
        a.y = part
        ctx.cover('shared')
    h = Holder(part=part)
    a.x = [lambda: part, lambda: [part, part], lambda: (part,),
           lambda: set([part]), lambda: {'k': part}, lambda: {part: 3},
           lambda: part, lambda: h, lambda: [(h,), (Holder(part=part),)]][k]()
    ctx.cover('place')
    ok, js = attempt(a.serialize)
    ctx.check(ok, 'written')
    if not ok:
        return
    ctx.check(set(js) == set(['__root__', 'a', 'p']), 'one entry each')
    hd = {'part': 'p', '__class__': 'Holder'}
    want = ['p', ['p', 'p'], ['p'], ['p'], {'k': 'p'}, {'p': 3}, 'p', hd,
            [[hd], [hd]]][k]
    ctx.check(js['a']['x'] == want, 'by uid')
    Base._INSTANCES.clear()
    before = dict(js)
    ok, b = attempt(Owner.deserialize, js, trusted=True)
    ctx.check(ok, 'read')
    if not ok:
        return
    ctx.check(js == before, 'data unchanged')
    x = b.x
    q = [lambda: x, lambda: x[0], lambda: x[0], lambda: list(x)[0],
         lambda: x['k'], lambda: list(x)[0], lambda: x, lambda: x.part,
         lambda: x[0][0].part][k]()
    ctx.check(type(q) is Node and q.uid == 'p' and q.n == v, 'part')
    if k == 1:
        ctx.check(x[1] is q, 'same object')
    if k == 8:
        ctx.check(x[1][0].part is q, 'same object')
    if a.y is not None:
        ctx.check(b.y is q, 'same object')
    ctx.check((q.kid is b) if back else (q.kid is None), 'back link')
    consistent(ctx, Base, [b, q])


def history(ctx, steps):
    """The register follows every change; no uid is used twice"""
    Base, Node, Sub = family()
    log = []

    class Picky(Base):
        n = p.Integer('', min=0)

        @p.observer('uid')
        def saw(self, change):
            log.append(change['value'])
    names = ['a', 'b']
    live = []
    for step in range(steps):
        op = ctx.pick('op%d' % step, 5)
        name = names[ctx.pick('name%d' % step, 2)]
        taken = [o for o in live if o.uid == name]
        if op == 0:
            ok, o = attempt(Picky, uid=name, n=1)
            ctx.check(ok == (not taken), 'created when free')
            if ok:
                live.append(o)
            else:
                ctx.cover('taken')
                ctx.check(isinstance(o, p.ValidationError), 'refused')
        elif op == 1:
            n = ctx.int('n%d' % step, -1, 1)
            first = ctx.flag('order%d' % step)
            ok, o = attempt(lambda: Picky(uid=name, n=n) if first else
                            Picky(n=n, uid=name))
            ctx.check(ok == (not taken and n >= 0), 'created when valid')
            if ok:
                live.append(o)
            else:
                ctx.cover('refused')
        elif not live:
            continue
        elif op == 2:
            o = live[ctx.pick('who%d' % step, len(live))]
            ok, err = attempt(setattr, o, 'uid', name)
            ctx.check(ok == (taken == [] or taken == [o]), 'renamed when free')
        elif op == 3:
            o = live.pop()
            ok, err = attempt(delattr, o, 'uid')
            ctx.check(ok and o.uid is None, 'deleted')
            ctx.cover('freed')
        else:
            o = Picky(n=1)
            live.append(o)
            ctx.check(isinstance(o.uid, str) and o.uid not in names,
                      'generated')
        consistent(ctx, Base, live)


@scenario('C23', weight=4)
def histories(ctx):
    history(ctx, 3)


@scenario('C23', tier='thorough', weight=5)
def more_histories(ctx):
    history(ctx, 4)


@scenario('C23', weight=4)
def reading(ctx):
    """What is refused, and what a refusal leaves"""
    Base, Node, Sub = family()
    n, m = ctx.int('n', -2, 2), ctx.int('m', -2, 2)

    class Owner(Base):
        n = p.Integer('', min=0)
        one = p.Instance('', Base, required=False)
        two = p.Instance('', Node)
        late = p.Integer('', min=0, default=0)
    fault = ctx.pick('fault', 8)
    data = {'__root__': 'a', 'a': {'uid': 'a', '__class__': 'Owner', 'n': n,
                                   'one': 'b', 'two': 'b', 'late': m},
            'b': {'uid': 'b', '__class__': 'Node', 'n': 1, 'kid': 'a'}}
    Base._INSTANCES.clear()
    kw, live = {}, []
    trusted = ctx.flag('t')
    valid = n >= 0 and m >= 0
    if fault == 1:
        live.append(Node(uid='a'))
        ctx.cover('taken')
        valid = False
    elif fault == 2:
        data['b'].pop('kid')
        live.append(Node(uid='b'))
        ctx.cover('taken')
        valid = False
    elif fault == 3:
        live.append(Node(uid='b'))
        del data['b']
        ctx.cover('loaded')
    elif fault == 4:
        data['b']['kid'] = 'nowhere'
        valid = False
    elif fault == 5:
        del data['a']['two']
        kw['assert_valid'] = ctx.flag('av')
        if kw['assert_valid']:
            valid = False
    elif fault == 6:
        data['a']['junk'] = 1
        kw['strict'] = ctx.flag('strict')
        if kw['strict']:
            valid = False
    elif fault == 7:
        kw['root'] = 'b'
        ctx.cover('other-root')
    before = {k: dict(v) if isinstance(v, dict) else v
              for k, v in data.items()}
    cls = Base if fault == 7 and trusted else Owner
    if fault == 7 and not trusted:
        return
    # the objects named by class are read as Node only if trusted
    if not trusted and fault != 3:
        del data['a']['one'], before['a']['one']
    ok, a = attempt(cls.deserialize, data, trusted=trusted, **kw)
    ctx.check(data == before, 'data unchanged')
    ctx.check(ok == valid, 'read exactly when acceptable')
    if not ok:
        ctx.cover('refused')
        consistent(ctx, Base, live, 'nothing stays registered')
        # the same data can be read once the fault is gone
        Base._INSTANCES.clear()
        data['a']['n'] = data['a']['late'] = 1
        data['a']['two'] = 'b'
        data['a'].pop('junk', None)
        if not trusted:
            data['a'].pop('one', None)
        data['b'] = {'uid': 'b', '__class__': 'Node', 'n': 1, 'kid': 'a'}
        ok, a = attempt(Owner.deserialize, data, trusted=trusted)
        ctx.cover('retry')
        ctx.check(ok and a.two.kid is a, 'can be read again')
    elif fault == 7:
        ctx.check(a.uid == 'b' and a.kid.two is a, 'other root')
    else:
        ctx.check(a.uid == 'a' and a.n == n and a.late == m, 'values')
        if fault == 3:
            ctx.check(a.two is live[0] and a.one is live[0], 'object in use')
        elif a.two is not None:
            consistent(ctx, Base, [a, a.two])
            if trusted:
                ctx.check(a.one is a.two, 'same object')


@scenario('C23', weight=2)
def alternatives(ctx):
    """In a union the first class able to read an object does"""
    Base, Node, Sub = family()
    v = any_value(ctx, 'v', 'is', ints=64, maxlen=1, alphabet='ab')

    class Num(Base):
        x = p.Integer('')

    class Text(Base):
        x = p.String('')
    order = ctx.flag('order')

    class Owner(Base):
        one = p.Union('', [Num, Text] if order else [Text, Num])
        many = p.List('', p.Union('', [Num, Text]))
    src = (Text if isinstance(v, str) else Num)(uid='s', x=v)
    a = Owner(uid='a', one=src, many=[src])
    js = a.serialize()
    Base._INSTANCES.clear()
    ok, b = attempt(Owner.deserialize, js, trusted=ctx.flag('t'))
    ctx.check(ok, 'read')
    if ok:
        ctx.check(type(b.one) is type(src) and b.one.x == v, 'class')
        ctx.check(b.many[0] is b.one, 'same object')
        consistent(ctx, Base, [b, b.one])


@scenario('C23', weight=3)
def pointers(ctx):
    """Pointers take objects and valid uids; loading replaces uids of
    objects in use"""
    Base, Node, Sub = family()
    load = ctx.flag('load')
    asked = []

    class Known(Base):
        uid = p.String('', change_case='upper', required=True)

        @classmethod
        def validate_uid(cls, uid):
            asked.append(uid)
            if uid == 'BAD':
                raise p.ValidationError('no such uid')
            return True

    class Owner(Base):
        x = Pointer('', Known, load=load)
    known = Known(uid='K')
    other = Node(uid='O')
    a = Owner(uid='A')
    k = ctx.pick('k', 8)
    v = [known, other, 'k', 'K', 'new', 'bad', 'o', 5][k]
    ok, err = attempt(setattr, a, 'x', v)
    ctx.cover('pointer')
    if k == 0:
        ctx.check(ok and a.x is known and asked == [], 'object')
    elif k in (1, 7):
        ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
        ctx.check(a.x is None, 'nothing stored')
    elif k == 5:
        ctx.check(not ok and asked == ['BAD'], 'refused uid')
        ctx.check(a.x is None, 'nothing stored')
    elif k == 6 and load:
        ctx.check(not ok and a.x is None, 'loaded object of another class')
    else:
        ctx.check(ok, 'accepted')
        ctx.check(asked[0] == v.upper(), 'uid as the class writes it')
        if load and k in (2, 3):
            ctx.check(a.x is known, 'loaded')
        else:
            ctx.check(exact(a.x, v.upper()), 'kept as uid')
    if a.x is not None:
        js = a.serialize()
        ctx.check(js['A']['x'] == ('K' if k == 0 else v.upper()),
                  'written as uid')
        for o in (known, other, a):
            Base._INSTANCES.pop(o.uid)
        known_again = ctx.flag('again')
        again = Known(uid='K') if known_again else None
        ok, b = attempt(Owner.deserialize, js)
        uid = 'K' if k == 0 else v.upper()
        ctx.check(ok and (b.x is again if load and known_again and uid == 'K'
                          else exact(b.x, uid)), 'read back')


@scenario('C23', weight=2)
def options(ctx):
    """Writing and reading options reach every object of the graph"""
    seen = []

    def write(value, mark='none', save_dynamic=None, include_class=None,
              **others):
        seen.append((mark, save_dynamic, include_class))
        return value

    def read(value, mark='none', trusted=None, strict=None, **others):
        seen.append((mark, trusted, strict))
        return value

    class Base(HasUID):
        _REGISTRY = {}
        _INSTANCES = {}

    class Node(Base):
        n = p.Integer('', serializer=write, deserializer=read)
        kid = p.Instance('', Base, required=False)
        kids = p.List('', Base, required=False)

        @p.Integer('')
        def more(self):
            return self.n + 1
    n = ctx.int('n', -9, 9)
    parts = ctx.pick('parts', 3)
    a, b = Node(uid='a', n=n), Node(uid='b', n=5)
    if parts == 1:
        a.kid = b
    elif parts == 2:
        a.kids = [b]
        b.kid = a
    opts = {}
    inc, dyn = True, False
    if ctx.flag('mark'):
        opts['mark'] = 'yes'
    if ctx.flag('inc'):
        inc = opts['include_class'] = False
    if ctx.flag('dyn'):
        dyn = opts['save_dynamic'] = True
    ok, js = attempt(a.serialize, **opts)
    ctx.check(ok, 'written')
    if not ok:
        return
    count = 2 if parts else 1
    ctx.check(seen == [(opts.get('mark', 'none'), dyn, inc)] * count,
              'writers are told')
    for key in 'ab'[:count]:
        ctx.check(('more' in js[key]) == dyn and
                  ('__class__' in js[key]) == inc, 'options of entries')
    if dyn:
        ctx.check(js['a']['more'] == n + 1, 'calculated')
    if dyn or not inc and count == 2:
        return
    Base._INSTANCES.clear()
    del seen[:]
    opts.pop('include_class', None)
    strict = ctx.flag('strict')
    ok, c = attempt(Node.deserialize, js, trusted=True, strict=strict, **opts)
    ctx.check(ok, 'read')
    if ok:
        ctx.check(seen == [(opts.get('mark', 'none'), True, strict)] * count,
                  'readers are told')
        ctx.check(c.n == n, 'value')


@scenario('C23')
def forgotten(ctx):
    """Objects left over from a failed reading hold no uid: they cannot free
    that of another object by changing or losing theirs"""
    made = []

    class Node(HasUID):
        n = p.Integer('n', min=0)
        _INSTANCES = {}

        def __init__(self, **kw):
            made.append(self)
            super(Node, self).__init__(**kw)
    n = ctx.int('n', -1, 1)
    data = {'a': {'__class__': 'Node', 'uid': 'a', 'n': n}, '__root__': 'a'}
    ok, got = attempt(Node.deserialize, data)
    ctx.check(ok == (n >= 0), 'read when valid')
    left = made[-1]
    ok2, new = attempt(Node, uid='a', n=1)
    ctx.check(ok2 == (not ok), 'free after a failure')
    if not ok2:
        return
    how = ctx.pick('how', 3)
    if how == 0:
        left.uid = 'b'
    elif how == 1:
        del left.uid
    else:
        left.n = 3
    ctx.check(Node._INSTANCES.get('a') is new, 'keeps its place')
    ok3, err = attempt(Node, uid='a', n=1)
    ctx.check(not ok3, 'still taken')


@scenario('C23', weight=2)
def across_classes(ctx):
    """A uid is used once among all classes that share a register; objects
    that lost theirs can be given a new one"""
    Base, Node, Sub = family()

    class Other(Base):
        x = p.Integer('')
    classes = [Base, Node, Sub, Other]
    first = classes[ctx.pick('first', 4)]
    second = classes[ctx.pick('second', 4)]
    a = first(uid='a')
    how = ctx.pick('how', 4)
    live = [a]
    if how == 0:
        ok, b = attempt(second, uid='a')
    elif how == 1:
        b = second(uid='b')
        live.append(b)
        ok, err = attempt(setattr, b, 'uid', 'a')
        ctx.check(b.uid == 'b', 'keeps its own')
    elif how == 2:
        ok, b = attempt(second.deserialize, {
            '__root__': 'a', 'a': {'uid': 'a'}})
    else:
        b = second(uid='b')
        del b.uid
        consistent(ctx, Base, live)
        ok, err = attempt(setattr, b, 'uid', 'a')
        ctx.check(b.uid is None, 'none yet')
    ctx.check(not ok, 'taken')
    ctx.cover('taken')
    consistent(ctx, Base, live)
    if how == 3:
        b.uid = 'c'
        live.append(b)
        consistent(ctx, Base, live)
        ok, err = attempt(second, uid='c')
        ctx.check(not ok, 'taken again')
    del a.uid
    live.remove(a)
    consistent(ctx, Base, live)
    c = second(uid='a')
    ok, err = attempt(setattr, a, 'uid', 'a')
    ctx.check(not ok, 'taken by another')
    a.uid = 'z'
    consistent(ctx, Base, live + [c, a])


@scenario('C23', weight=2)
def other_roots(ctx):
    """Whatever the root, strict reading is strict about every object read
    and validation is of the root"""
    Base, Node, Sub = family()
    root = ctx.choice('root', [None, 'u0', 'u1', 'u2'])
    junk = ctx.pick('junk', 4)
    strict = ctx.flag('strict')
    n = ctx.int('n', -9, 9)

    class Num(Base):
        n = p.Integer('', max=4)
        kid = p.Instance('', Base, required=False)

        @p.validator
        def check(self):
            if self.n < 0:
                raise p.ValidationError('negative')
    data = {'__root__': 'u0'}
    for i in range(3):
        data['u%d' % i] = {'uid': 'u%d' % i, '__class__': 'Num', 'n': i}
        if i < 2:
            data['u%d' % i]['kid'] = 'u%d' % (i + 1)
        if junk == i + 1:
            data['u%d' % i]['junk'] = 1
    at = ctx.pick('at', 3)
    data['u%d' % at]['n'] = n
    kw = {'root': root} if root else {}
    av = ctx.flag('av')
    start = int(root[1]) if root else 0
    ok, got = attempt(Num.deserialize, data, trusted=True, strict=strict,
                      assert_valid=av, **kw)
    ctx.cover('other-root')
    good = not (strict and junk > start)
    if at >= start and (n > 4 or av and n < 0):
        good = False
    ctx.check(ok == good, 'read exactly when acceptable')
    if ok:
        ctx.check(got.uid == 'u%d' % start, 'the root asked for')
    else:
        consistent(ctx, Base, [], 'nothing stays registered')


@scenario('C23', weight=2)
def not_a_graph(ctx):
    """Data that does not name a root it contains is refused and keeps no
    id"""
    Base, Node, Sub = family()
    n = ctx.int('n', -9, 9)
    entry = {'uid': 'a', '__class__': 'Node', 'n': n}
    k = ctx.pick('k', 9)
    data = [{'a': entry}, {'__root__': 'b', 'a': entry},
            {'__root__': None, 'a': entry}, entry, {}, {'__root__': 'a'},
            {'__root__': 'a', 'a': None}, {'__root__': 'a', 'a': n},
            {'__root__': '', 'a': entry}][k]
    trusted = ctx.flag('t')
    before = dict(data)
    ok, got = attempt(Node.deserialize, data, trusted=trusted)
    ctx.check(not ok and isinstance(got, (ValueError, TypeError)), 'refused')
    ctx.check(data == before, 'data unchanged')
    consistent(ctx, Base, [], 'nothing stays registered')
    if k < 3 or k == 8:
        ok, got = attempt(Node.deserialize, data, trusted=trusted, root='a')
        ctx.check(ok and got.n == n and got.uid == 'a', 'root given')
        consistent(ctx, Base, [got])
    for bad in (None, n, 'a', [data]):
        ok, err = attempt(Node.deserialize, bad)
        ctx.check(not ok and isinstance(err, ValueError), 'not a dictionary')


@scenario('C23', weight=2)
def other_uids(ctx):
    """Pointers to ids kept by another property or a plain attribute, and
    values that are no ids at all"""
    lim = ctx.pick('lim', 3)
    own = ctx.pick('own', 3)
    load = ctx.flag('load')

    class Code(p.HasProperties):
        code = p.StringChoice('', ['x', 'y'], case_sensitive=False)
        uid = p.String('', change_case='upper')
        plain = 'whatever'

    class Owner(p.HasProperties):
        x = Pointer('', Code, load=load, **(
            [{}, {'uid_prop': 'code'}, {'uid_prop': 'plain'}][own]))
        y = Pointer('', Code, required=False, load=load)
    a = Owner()
    v = [ctx.str('v', 2, 'xyXa'), 0, [], False, (), {}, ctx.float('f'),
         b'x', None][ctx.pick('k', 9)]
    old = Code(code='y')
    if lim:
        a.x = old
    had = a.x
    ok, err = attempt(setattr, a, 'x', v)
    ctx.cover('pointer')
    if isinstance(v, str):
        if own == 1:
            good = v.lower() in ('x', 'y')
            want = v.lower()
        else:
            good, want = True, v.upper() if own == 0 else v
        ctx.check(ok == good, 'valid ids are those of the property named')
        ctx.check(exact(a.x, want) if ok else a.x is had, 'kept')
        if ok:
            js = a.serialize(include_class=False)
            ctx.check(js == {'x': want}, 'written')
            ok, b = attempt(Owner.deserialize, js)
            ctx.check(ok and exact(b.x, want), 'read back')
    elif isinstance(v, dict):
        # the arguments of an object
        ctx.check(ok and isinstance(a.x, Code), 'made')
    else:
        ctx.check(not ok and isinstance(err, p.ValidationError), 'refused')
        ctx.check(a.x is had, 'nothing stored')


@scenario('C23', weight=3)
def long_chain(ctx):
    """However many objects hang together"""
    Base, Node, Sub = family()
    size = 5 + ctx.pick('size', 3)
    at = ctx.pick('at', size)
    v = ctx.int('v')
    shape = ctx.choice('shape', ['chain', 'star', 'ring', 'tree'])
    special = ctx.flag('sub')
    nodes = [(Sub if special and i == at else Node)(
        uid='u%d' % i, n=v if i == at else i) for i in range(size)]
    if shape in ('chain', 'ring'):
        for i in range(size - 1):
            nodes[i].kid = nodes[i + 1]
        if shape == 'ring':
            nodes[-1].kid = nodes[0]
    elif shape == 'star':
        nodes[0].kids = nodes[1:]
    else:
        for i in range(size):
            nodes[i].kids = nodes[2 * i + 1:2 * i + 3]
    ok, js = attempt(nodes[0].serialize)
    ctx.check(ok, 'written')
    if not ok:
        return
    ctx.check(sorted(js) == ['__root__'] + ['u%d' % i for i in range(size)],
              'one entry per object')
    for i in range(size):
        e = js['u%d' % i]
        ctx.check(e['n'] == (v if i == at else i) and
                  e['__class__'] == type(nodes[i]).__name__, 'entry')
    Base._INSTANCES.clear()
    trusted = ctx.flag('trusted')
    ok, root = attempt(Node.deserialize, js, trusted=trusted)
    ctx.check(ok, 'read')
    if not ok:
        return
    reg = Base._INSTANCES
    # the declared class of the parts has no links
    known = range(size) if trusted else \
        [j for j in range(size) if j == 0 or shape in ('star',) or
         j == 1 or (j == 2 and shape == 'tree')]
    ctx.check(len(reg) == len(known), 'all registered')
    for i in known:
        o = reg.get('u%d' % i)
        ctx.check(o is not None, 'there')
        if o is None:
            continue
        if trusted:
            ctx.check(type(o) is type(nodes[i]), 'class')
            ctx.check(o.n == (v if i == at else i), 'value')
        else:
            ctx.check(type(o) is (Node if i == 0 else Base),
                      'declared class')
        if trusted and nodes[i].kid is not None:
            ctx.check(o.kid is reg[nodes[i].kid.uid], 'same object')
        if trusted and nodes[i].kids is not None:
            ctx.check([q.uid for q in o.kids] ==
                      [q.uid for q in nodes[i].kids], 'all of them')
            for q in o.kids:
                ctx.check(reg[q.uid] is q, 'same object')


@scenario('C23')
def uid_in_use(ctx):
    """Stored data never replaces an object that exists, whatever the data
    is"""
    Base, Node, Sub = family()
    old = Node(uid='a', n=ctx.int('n'))
    entry = ctx.choice('entry', [{}, {'n': 3}, {'uid': 'a'}, None, 'a', 0,
                                 [], False, {'__class__': 'Node'}])
    at = ctx.pick('at', 2)
    data = {'__root__': 'a', 'a': entry} if at == 0 else \
        {'__root__': 'b', 'b': {'uid': 'b', '__class__': 'Node', 'kid': 'a'},
         'a': entry}
    ok, err = attempt(Node.deserialize, data, trusted=ctx.flag('trusted'))
    ctx.check(not ok, 'refused')
    ctx.check(Base._INSTANCES == {'a': old}, 'still registered, alone')


@scenario('C23', weight=2)
def strict_reading(ctx):
    """Strict reading of a graph refuses a wrong class or an unknown key in
    any entry"""
    Base, Node, Sub = family()
    size = 1 + ctx.pick('size', 4)
    at = ctx.pick('at', 4)
    ctx.assume(at < size)
    fault = ctx.choice('fault', [None, 'class', 'key', 'value'])
    trusted = ctx.flag('trusted')
    n = ctx.int('n')
    data = {'__root__': 'u0'}
    for i in range(size):
        data['u%d' % i] = e = {'uid': 'u%d' % i, '__class__': 'Node', 'n': i}
        if i + 1 < size:
            e['kid'] = 'u%d' % (i + 1)
    e = data['u%d' % at]
    if fault == 'class':
        e['__class__'] = 'Nobody'
    elif fault == 'key':
        e['more'] = n
    elif fault == 'value':
        e['n'] = 'x'

    ok, root = attempt(Node.deserialize, data, strict=True, trusted=trusted)
    # parts are of the declared class, which is another than the one named
    want = fault is None and (trusted or size == 1)
    ctx.check(ok == want, 'read exactly when all is as it should be')
    if not ok:
        ctx.check(isinstance(root, ValueError), 'kind of error')
        ctx.check(Base._INSTANCES == {}, 'nothing is kept')


@scenario('C23')
def no_reference(ctx):
    """A stored reference that is no id is refused, whatever it is"""
    Base, Node, Sub = family()

    class Owner(Base):
        x = Pointer('', Node)
    load = ctx.flag('load')
    v = ctx.choice('v', [0, 1, False, [], {}, 1.5, True])
    if v != {} and ctx.flag('assigned'):
        a = Owner(uid='A')
        ok, err = attempt(setattr, a, 'x', v)
        ctx.check(a.x is None, 'nothing stored')
    else:
        ok, err = attempt(Owner.deserialize, {
            '__root__': 'A', 'A': {'uid': 'A', '__class__': 'Owner', 'x': v}})
    ctx.check(not ok, 'refused')


@scenario('C23', weight=2)
def any_text_for_uid(ctx):
    """Any text is an id, the empty one too; ids of data are kept as given"""
    Base, Node, Sub = family()
    u = ctx.str('u', 2, 'a_ ', minlen=0)
    ctx.assume(u != 'r')
    n = ctx.int('n')
    kid = Node(uid=u, n=n)
    many = ctx.flag('many')
    root = Node(uid='r', n=1, **({'kids': [kid, kid]} if many
                                 else {'kid': kid}))
    if ctx.flag('back'):
        kid.kid = root
    ok, js = attempt(root.serialize)
    ctx.check(ok, 'written')
    if not ok:
        return
    ctx.check(js['__root__'] == 'r' and set(js) == {'__root__', 'r', u} and
              js['r']['kids' if many else 'kid'] == ([u, u] if many else u),
              'flat')
    Base._INSTANCES.clear()
    ok, back = attempt(Node.deserialize, js, trusted=True)
    ctx.check(ok, 'read')
    if not ok:
        return
    k = back.kids[0] if many else back.kid
    ctx.check(back.uid == 'r' and k.uid == u and k.n == n, 'read back')
    ctx.check(k.kid is (back if kid.kid is root else None), 'links')
    consistent(ctx, Base, [back, k])


@scenario('C23')
def asked_of_another(ctx):
    """Trusted data says its class, whichever class is asked to read it"""
    Base, Node, Sub = family()
    n = ctx.int('n')

    class Side(Base):
        n = p.Integer('', default=0)
    made = [Node, Sub, Side][ctx.pick('made', 3)]
    asked = [Base, Node, Sub, Side][ctx.pick('asked', 4)]
    trusted = ctx.flag('trusted')
    js = made(uid='a', n=n).serialize()
    Base._INSTANCES.clear()
    ok, back = attempt(asked.deserialize, js, trusted=trusted)
    ctx.check(ok, 'read')
    if ok:
        ctx.check(type(back) is (made if trusted else asked), 'class')
        ctx.check(back.uid == 'a', 'id')
        if type(back) is not Base:
            ctx.check(back.n == n, 'value')
        consistent(ctx, Base, [back])


@scenario('C23')
def loaded_by_any_class(ctx):
    """Any class may say what its ids stand for"""
    known = ctx.flag('known')
    load = ctx.flag('load')
    picky = ctx.flag('picky')
    text = ctx.str('text', 2, 'ab')
    asked = []

    class Plain(object):
        def __init__(self, *args):
            if args:
                raise ValueError('no arguments')

        @classmethod
        def load(cls, uid):
            asked.append(uid)
            return one if known else None
    if picky:
        def validate_uid(cls, uid):
            if uid == 'ab':
                raise p.ValidationError('not ab')
        Plain.validate_uid = classmethod(validate_uid)
    one = Plain()

    class A(p.HasProperties):
        x = Pointer('', Plain, load=load)
    a = A()
    ok, err = attempt(setattr, a, 'x', text)
    ctx.check(ok == (not picky or text != 'ab'), 'taken when valid')
    if not ok:
        ctx.cover('refused')
        ctx.check(isinstance(err, p.ValidationError) and a.x is None,
                  'refused')
        return
    ctx.cover('pointer')
    ctx.check((a.x is one) if load and known else a.x == text,
              'loaded when asked and known')
    ctx.check(len(asked) == load and all(u == text for u in asked),
              'asked once')
