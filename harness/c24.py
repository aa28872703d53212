"""C24 links"""
import traitlets

import properties as p
from harness.common import Boom, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('histories of 3 (4 thorough) symbolic assignments, unlinkings, '
          'relinkings and disabled blocks over every set of up to 3 one-way '
          'links between 3 properties of 1 to 3 objects, two-way links of 2 and 3 properties')
ASSUMPTIONS = ['linked properties hold values; deletion is not propagated',
               'linked properties accept each other\'s values unless stated']
WITNESSES = ['one-way', 'two-way', 'transformed', 'unlinked', 'relinked',
             'refused-value', 'refused-link', 'loop', 'container', 'traits',
             'disabled', 'unchanged']


class HP(p.HasProperties):
    x = p.Integer('', default=0)
    y = p.Integer('', default=0)
    z = p.Integer('', default=0)


def places(ctx):
    """Three properties of one, two or three objects"""
    k = ctx.pick('objects', 3)
    a = HP()
    b = a if k == 0 else HP()
    c = a if k < 2 else HP()
    return [(a, 'x'), (b, 'y' if b is a else 'x'), (c, 'z')]


class Model(object):
    """Links as documented: the target follows the source"""

    def __init__(self, vals, accept=None):
        self.vals = list(vals)
        self.links = []
        self.accept = accept or (lambda i, v: True)

    def link(self, s, t, change_only=True, transform=None):
        self.links.append(dict(s=s, t=t, co=change_only, on=True, busy=False,
                               f=transform or (lambda v: v)))

    def set(self, i, v):
        if not self.accept(i, v):
            return False
        changed = self.vals[i] != v
        self.vals[i] = v
        for l in self.links:
            if l['s'] != i or not l['on'] or l['busy']:
                continue
            if l['co'] and not changed:
                continue
            l['busy'] = True
            ok = self.set(l['t'], l['f'](self.vals[i]))
            l['busy'] = False
            if not ok:
                return False
        return True


def agree(ctx, model, objs, label='values'):
    for i, (o, n) in enumerate(objs):
        ctx.check(getattr(o, n) == model.vals[i], label)


def one_way(ctx, steps, nlinks, objs=None):
    objs = objs or [(HP(), 'x'), (HP(), 'x'), (HP(), 'y')]
    model = Model([0, 0, 0])
    links = []
    edges = [(0, 1), (1, 2), (2, 0), (1, 0), (0, 2)]
    seen = []
    for i in range(nlinks):
        e = edges[ctx.pick('e%d' % i, len(edges))]
        ctx.assume(e not in seen)
        seen.append(e)
        co = ctx.flag('co%d' % i) if i == 0 else True
        tr = ctx.flag('tr%d' % i) if i == 0 else False
        f = (lambda v: v + 1) if tr else None
        if tr:
            ctx.cover('transformed')
        links.append(p.directional_link(objs[e[0]], objs[e[1]],
                                        change_only=co, transform=f))
        model.link(e[0], e[1], co, f)
    ctx.cover('one-way')
    if nlinks == 3 and (0, 1) in seen and (1, 2) in seen and (2, 0) in seen:
        ctx.cover('loop')
    for step in range(steps):
        op = ctx.pick('op%d' % step, 4)
        v = ctx.int('v%d' % step, -9, 9)
        if op == 0:
            i = ctx.pick('i%d' % step, 3)
            setattr(objs[i][0], objs[i][1], v)
            model.set(i, v)
        elif op == 1:
            k = ctx.pick('k%d' % step, nlinks)
            links[k].unlink()
            model.links[k]['on'] = False
            ctx.cover('unlinked')
        elif op == 2:
            k = ctx.pick('k%d' % step, nlinks)
            links[k].relink()
            model.links[k]['on'] = True
            ctx.cover('relinked')
        else:
            i = ctx.pick('i%d' % step, 3)
            with p.listeners_disabled():
                setattr(objs[i][0], objs[i][1], v)
            model.vals[i] = v
            ctx.cover('disabled')
        agree(ctx, model, objs)


@scenario('C24', weight=5, conc=4)
def directional(ctx):
    one_way(ctx, 2, 2)


@scenario('C24', weight=3, conc=4)
def neighbours(ctx):
    """Links between properties of one object"""
    one_way(ctx, 1, 2, places(ctx))


@scenario('C24', tier='thorough', weight=8, conc=4)
def more_neighbours(ctx):
    one_way(ctx, 2, 2, places(ctx))


@scenario('C24', weight=4, conc=4)
def loops(ctx):
    """Loops of links end, with every link run once"""
    objs = places(ctx)
    model = Model([0, 0, 0])
    for i in range(3):
        k = ctx.pick('f%d' % i, 3)
        f = [None, lambda v: v + 1, lambda v: -v][k]
        co = ctx.flag('co%d' % i)
        p.directional_link(objs[i], objs[(i + 1) % 3], transform=f,
                           change_only=co)
        model.link(i, (i + 1) % 3, co, f)
    ctx.cover('loop')
    i = ctx.pick('i', 3)
    v = ctx.int('v', -9, 9)
    setattr(objs[i][0], objs[i][1], v)
    model.set(i, v)
    agree(ctx, model, objs)


@scenario('C24', tier='thorough', weight=6, conc=4)
def more_directional(ctx):
    one_way(ctx, 3, 3)


@scenario('C24', weight=4, conc=4)
def two_way(ctx):
    """Linked properties hold the same value after every assignment"""
    n = 2 + ctx.pick('n', 2)
    traits = ctx.flag('traits')

    class HT(traitlets.HasTraits):
        x = traitlets.Any(0)
    objs = [(HP(), 'x'), (HT() if traits else HP(), 'x'), (HP(), 'y')][:n]
    if traits:
        ctx.cover('traits')
    now = ctx.flag('now')
    w = ctx.int('w', -9, 9)
    objs[0][0].x = w
    k = p.link(*objs, update_now=now)
    ctx.cover('two-way')
    ctx.check(len(k.dlinks) == n * (n - 1), 'one link each way')
    vals = [w if now or i == 0 else 0 for i in range(n)]
    for i in range(n):
        ctx.check(getattr(*objs[i]) == vals[i], 'updated at once if asked')
    on = True
    for step in range(2):
        op = ctx.pick('op%d' % step, 3)
        if op == 0:
            i = ctx.pick('i%d' % step, n)
            v = ctx.int('v%d' % step, -9, 9)
            changed = getattr(*objs[i]) != v
            before = [getattr(*o) for o in objs]
            setattr(objs[i][0], objs[i][1], v)
            if not changed:
                ctx.cover('unchanged')
            for j in range(n):
                ctx.check(getattr(*objs[j]) ==
                          (v if on and changed or j == i else before[j]),
                          'in step')
        elif op == 1:
            k.unlink()
            on = False
        else:
            k.relink()
            on = True


@scenario('C24', weight=3, conc=8)
def refused_value(ctx):
    """A target that refuses the value leaves the link working"""
    class Low(p.HasProperties):
        x = p.Integer('', default=0, max=ctx.int('max', 0, 3))
    a, b, c = HP(), Low(), HP()
    lim = b._props['x'].max
    mode = ctx.pick('mode', 2)
    if mode == 0:
        p.directional_link((a, 'x'), (b, 'x'))
        p.directional_link((b, 'x'), (c, 'x'))
    else:
        p.link((a, 'x'), (b, 'x'), (c, 'x'))
    v, w = ctx.int('v', 0, 5), ctx.int('w', 0, 5)
    for i, x in enumerate((v, w)):
        changed = a.x != x
        old = b.x
        ok, err = attempt(setattr, a, 'x', x)
        if not changed:
            ctx.check(ok and b.x == old, 'nothing to do')
            continue
        ctx.check(ok == (x <= lim), 'accepted by all')
        ctx.check(a.x == x, 'source keeps its value')
        if ok:
            ctx.check(b.x == x and c.x == x, 'in step')
        else:
            ctx.cover('refused-value')
            ctx.check(isinstance(err, p.ValidationError), 'told')
            ctx.check(b.x == old, 'target keeps its value')


@scenario('C24', weight=2, conc=8)
def failing_transform(ctx):
    """Transforms may fail; the link works afterwards"""
    a, b = HP(), HP()

    def f(v):
        if v == 3:
            raise Boom()
        return 2 * v

    class F(object):
        def f(self, v):
            return f(v)

        def __call__(self, v):
            return f(v)
    k = ctx.pick('k', 3)
    ok, l = attempt(p.directional_link, (a, 'x'), (b, 'x'),
                    transform=[f, F().f, F()][k])
    ctx.check(ok, 'any callable of one argument')
    if not ok:
        return
    ctx.cover('transformed')
    for i in range(2):
        v = ctx.int('v%d' % i, 1, 4)
        old, olda = b.x, a.x
        ok, err = attempt(setattr, a, 'x', v)
        ctx.check(a.x == v, 'source')
        if v == olda:
            ctx.check(b.x == old, 'unchanged')
        else:
            ctx.check(ok == (v != 3), 'error passed on')
            ctx.check(b.x == (2 * v if ok else old), 'target')


@scenario('C24', weight=3)
def refused_links(ctx):
    """Impossible links are refused and link nothing"""
    a, b, c = HP(), HP(), HP()
    k = ctx.pick('k', 10)
    bad = [lambda: (a, 'nope'), lambda: (a, 5), lambda: [a, 'y'],
           lambda: a, lambda: (5, 'x'), lambda: (a, 'x', 'y'),
           lambda: (a, 'x'), lambda: None, lambda: (HP, 'x'),
           lambda: (a,)][k]()
    pos = ctx.pick('pos', 3)
    items = [(a, 'x'), (b, 'x')]
    if k == 6:
        pos = 1 + ctx.pick('dup', 2)
    items.insert(pos, bad)
    now = ctx.flag('now')
    ok, err = attempt(p.link, *items, update_now=now)
    ctx.cover('refused-link')
    ctx.check(not ok and isinstance(err, ValueError), 'refused')
    v = ctx.int('v', 1, 9)
    a.x = v
    ctx.check(b.x == 0, 'nothing is linked')
    b.x = v + 1
    ctx.check(a.x == v, 'nothing is linked')
    ok, err = attempt(p.directional_link, *([bad, (b, 'x')] if k != 6 else
                                            [bad, bad]), update_now=now)
    ctx.check(not ok and isinstance(err, ValueError), 'refused one way')
    ok, err = attempt(p.directional_link, *([(b, 'x'), bad] if k != 6 else
                                            [bad, bad]), update_now=now)
    ctx.check(not ok and isinstance(err, ValueError), 'refused one way')
    for fn in (5, 'f', lambda: 0, lambda x, y: x):
        ok, err = attempt(p.directional_link, (a, 'x'), (b, 'x'),
                          transform=fn)
        ctx.check(not ok and isinstance(err, ValueError), 'transform refused')
    ok, err = attempt(p.link, (a, 'x'), (b, 'x'), transform=lambda x: x)
    ctx.check(not ok and isinstance(err, ValueError), 'no transform')
    ok, err = attempt(p.link, (a, 'x'))
    ctx.check(not ok and isinstance(err, ValueError), 'two at least')
    b.x = -1
    a.x = v + 7
    ctx.check(b.x == -1, 'nothing is linked')


@scenario('C24', weight=2)
def containers(ctx):
    """Linked containers follow each other and share nothing"""
    obs = ctx.flag('obs')

    class L(p.HasProperties):
        l = p.List('', p.Integer(''), observe_mutations=obs, default=list)
    a, b = L(), L()
    p.link((a, 'l'), (b, 'l'))
    v, w = ctx.int('v'), ctx.int('w')
    a.l = [v]
    ctx.cover('container')
    ctx.check(b.l == [v] and b.l is not a.l, 'followed')
    src, dst = (a, b) if ctx.flag('side') else (b, a)
    src.l.append(w)
    ctx.check(src.l == [v, w], 'changed')
    ctx.check(dst.l == ([v, w] if obs else [v]), 'told only if observed')
    dst.l.append(w)
    ctx.check(dst.l == ([v, w, w] if obs else [v, w]), 'changed')
    ctx.check(src.l == ([v, w, w] if obs else [v, w]), 'in step')


@scenario('C24', weight=2)
def coerced(ctx):
    """Links between properties that write a value differently settle"""
    class U(p.HasProperties):
        x = p.String('', change_case='upper', default='')

    class D(p.HasProperties):
        x = p.String('', change_case='lower', default='')
    a, b = U(), D()
    p.link((a, 'x'), (b, 'x'))
    s = ctx.str('s', 2, 'aB')
    src, dst = (a, b) if ctx.flag('side') else (b, a)
    src.x = s
    ctx.check(a.x == s.upper() and b.x == s.lower(), 'each in its own way')


@scenario('C24', weight=2)
def any_values(ctx):
    """Values of any kind, none included, pass through the transform"""
    class Any(p.HasProperties):
        x = p.Property('x', default=0)
    a, b = Any(), Any()
    v = any_value(ctx, 'v', 'ifbsnld', ints=64, q=2, m=16, maxlen=1,
                  alphabet='a')
    w = any_value(ctx, 'w', 'isn', ints=64, maxlen=1, alphabet='a')
    asked = []

    def wrap(value):
        asked.append(value)
        return (value,)
    transform = ctx.flag('transform')
    now = ctx.flag('now')
    a.x = w
    p.directional_link((a, 'x'), (b, 'x'), update_now=now,
                       change_only=ctx.flag('change'),
                       transform=wrap if transform else None)
    ctx.check(exact_value(b.x, ((w,) if transform else w) if now else 0),
              'updated at once if asked')
    ctx.assume(v is not w and not (type(v) is type(w) and v == w))
    ctx.assume(not (isinstance(v, (int, float)) and
                    isinstance(w, (int, float)) and v == w))
    del asked[:]
    a.x = v
    ctx.check(exact_value(b.x, (v,) if transform else v), 'followed')
    ctx.check(len(asked) == int(transform), 'transformed once')
    ctx.check(exact_value(a.x, v), 'source kept')


def exact_value(a, b):
    if isinstance(b, tuple):
        return type(a) is tuple and len(a) == len(b) and \
            exact_value(a[0], b[0])
    return a is b or exact(a, b)


@scenario('C24', weight=2, conc=8)
def clipped(ctx):
    """Targets follow what the source holds, also when an observer changes
    it on the way"""
    lim = ctx.int('lim', -9, 9)
    early = ctx.flag('early')
    two = ctx.flag('two')
    co = ctx.flag('co')

    class A(p.HasProperties):
        x = p.Integer('', default=0)
    a, b = A(), HP()

    def clip(inst, change):
        if inst.x is not None and inst.x > lim:
            inst.x = lim
    if early:
        p.observer(a, 'x', clip)
    if two:
        p.link((a, 'x'), (b, 'x'), change_only=co)
    else:
        p.directional_link((a, 'x'), (b, 'x'), change_only=co)
    if not early:
        p.observer(a, 'x', clip)
    v = ctx.int('v', -9, 9)
    ctx.assume(v != 0 and lim != 0)
    a.x = v
    ctx.check(a.x == min(v, lim), 'clipped')
    if not two:
        ctx.check(b.x == a.x, 'followed')


@scenario('C24', weight=2, conc=8)
def kinds_of_objects(ctx):
    """Links work from and to objects of either library"""
    class HT(traitlets.HasTraits):
        x = traitlets.Any(0)
    ctx.cover('traits')
    src = HT() if ctx.flag('src') else HP()
    dst = HT() if ctx.flag('dst') else HP()
    co = ctx.flag('co')
    tr = ctx.flag('tr')
    l = p.directional_link((src, 'x'), (dst, 'x'), change_only=co,
                           transform=(lambda v: v + 1) if tr else None)
    v, w = ctx.int('v', -9, 9), ctx.int('w', -9, 9)
    ctx.assume(v != 0 and v != w)
    src.x = v
    ctx.check(dst.x == v + tr, 'followed')
    dst.x = 77
    ctx.check(src.x == v, 'one way')
    l.unlink()
    src.x = w
    ctx.check(dst.x == 77, 'unlinked')
    l.relink()
    src.x = v
    ctx.check(dst.x == v + tr, 'followed again')


@scenario('C24', weight=2, conc=8)
def linked_again(ctx):
    """After unlinking and linking again every property follows every other
    one"""
    n = 2 + ctx.pick('n', 3)
    objs = [(HP(), ctx.choice('p%d' % i, ['x', 'y']) if i < 2 else 'x')
            for i in range(n)]
    k = p.link(*objs)
    times = ctx.pick('times', 3)
    v, w = ctx.int('v', 1, 9), ctx.int('w', 1, 9)
    for t in range(times):
        k.unlink()
        i = ctx.pick('off%d' % t, n)
        setattr(objs[i][0], objs[i][1], 50 + t)
        for j in range(n):
            ctx.check(getattr(*objs[j]) != 50 + t or j == i, 'unlinked')
        k.relink()
    i = ctx.pick('i', n)
    setattr(objs[i][0], objs[i][1], v)
    for j in range(n):
        ctx.check(getattr(*objs[j]) == v, 'in step')
    k.unlink()
    i = ctx.pick('j', n)
    ctx.assume(v != w)
    setattr(objs[i][0], objs[i][1], w)
    for j in range(n):
        ctx.check(getattr(*objs[j]) == (w if j == i else v), 'unlinked')


@scenario('C24')
def to_itself(ctx):
    """A property is never linked to itself, transformed or not"""
    a, b = HP(), HP()
    tr = [None, lambda v: v + 1, lambda v: v][ctx.pick('tr', 3)]
    x, y = ctx.choice('x', ['x', 'y', 'z']), ctx.choice('y', ['x', 'y', 'z'])
    other = a if ctx.flag('same') else b
    ok, err = attempt(p.directional_link, (a, x), (other, y), transform=tr,
                      update_now=ctx.flag('now'))
    good = other is b or x != y
    ctx.check(ok == good, 'linked unless the same')
    if not ok:
        ctx.check(isinstance(err, ValueError), 'kind of error')
        v = ctx.int('v')
        setattr(a, x, v)
        ctx.check(getattr(a, x) == v, 'nothing is linked')


@scenario('C24', weight=2, conc=8)
def options_later(ctx):
    """The transform of a link can be replaced, removed and refused later"""
    a, b = HP(), HP()
    fs = [None, lambda v: v + 1, lambda v: v * 2]
    k = ctx.pick('first', 3)
    l = p.directional_link((a, 'x'), (b, 'x'), transform=fs[k])
    vs = [ctx.int('v%d' % i, 1, 9) + 10 * i for i in range(3)]
    for i in range(3):
        if i:
            j = ctx.pick('next%d' % i, 4)
            if j == 3:
                ok, err = attempt(setattr, l, 'transform', 5)
                ctx.check(not ok and isinstance(err, ValueError), 'refused')
            else:
                l.transform = fs[j]
                k = j
        a.x = vs[i]
        ctx.check(b.x == (fs[k] or (lambda v: v))(vs[i]), 'transformed')
        ctx.check(a.x == vs[i], 'source kept')


@scenario('C24', weight=2, conc=8)
def failing_update(ctx):
    """Links of which the first update fails in any way link nothing"""
    error = [Boom, TypeError, ValueError, KeyError, p.ValidationError][
        ctx.pick('error', 5)]
    stop = ctx.flag('stop')
    n = 2 + ctx.pick('n', 2)

    class Picky(p.HasProperties):
        x = p.Integer('', default=0)

        @p.observer('x') if ctx.flag('obs') else p.validator('x')
        def saw(self, change):
            if stop and change['value'] == 5:
                raise error('no')
    objs = [HP() for _ in range(n)] + [Picky()]
    v, w = ctx.int('v', 6, 9), ctx.int('w', -9, -6)
    objs[0].x = 5
    ok, got = attempt(p.link, *[(o, 'x') for o in objs], update_now=True)
    ctx.check(ok == (not stop), 'linked unless it fails')
    if not ok:
        ctx.cover('refused-link')
        ctx.check(isinstance(got, error), 'the failure itself')
        i = ctx.pick('i', n + 1)
        before = [o.x for o in objs]
        objs[i].x = v
        for j in range(n + 1):
            ctx.check(objs[j].x == (v if j == i else before[j]),
                      'nothing is linked')
    else:
        for o in objs:
            ctx.check(o.x == 5, 'in step')
        objs[ctx.pick('i', n + 1)].x = w
        for o in objs:
            ctx.check(o.x == w, 'in step')


@scenario('C24', weight=2, conc=8)
def told_twice(ctx):
    """Links are on after relink and off after unlink, however often either
    was asked"""
    two = ctx.flag('two_way')
    objs = [(HP(), 'x'), (HP(), 'y')]
    k = p.link(*objs) if two else p.directional_link(*objs)
    on = True
    for i in range(3):
        on = ctx.flag('on%d' % i)
        ok, err = attempt(k.relink if on else k.unlink)
        ctx.check(ok, 'done')
        v = ctx.int('v%d' % i, 1, 9) + 10 * i
        way = two and ctx.flag('back%d' % i)
        a, b = objs[::-1] if way else objs
        before = getattr(*b)
        setattr(a[0], a[1], v)
        ctx.check(getattr(*a) == v, 'set')
        ctx.check(getattr(*b) == (v if on else before), 'followed while on')
