"""C27 singletons"""
import properties as p
from properties.extras import Singleton
from harness.common import Boom, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('histories of 3 (4 thorough) creations, readings and renamings over '
          'two names and four classes in two registers, symbolic values; '
          'stored data with nine faults')
ASSUMPTIONS = ['names are text up to 2 characters, integers or None',
               'the name of an object is not deleted before it is written']
WITNESSES = ['made', 'found', 'read-new', 'read-found', 'refused', 'renamed',
             'failed', 'coerced', 'copied', 'other-register']


def family(with_name=True):
    """Classes on two registers: A and B (of A), C (own), D (of C)"""
    class A(Singleton):
        _SINGLETONS = dict()
        _REGISTRY = dict()
        if with_name:
            name = p.String('name')
        v = p.Integer('v', default=0, min=-3)

    class B(A):
        w = p.Integer('w', default=0)

    class C(A):
        _SINGLETONS = dict()

    class D(C):
        w = p.Integer('w', default=0)
    return A, B, C, D


@scenario('C27', weight=4)
def identity(ctx):
    """One object per name and register; the first arguments win"""
    cls = family(ctx.flag('named'))
    i, j = ctx.pick('first', 4), ctx.pick('second', 4)
    n, m = ctx.str('n', 1, 'ab'), ctx.str('m', 2, 'ab',
                                             minlen=1)
    x, y = ctx.int('x', -3), ctx.int('y')
    a = cls[i](n, v=x) if ctx.flag('pos') else cls[i](name=n, v=x)
    ctx.cover('made')
    ctx.check(type(a) is cls[i] and a.name == n and a.v == x, 'made')
    shared = (i < 2) == (j < 2)
    if not shared:
        ctx.cover('other-register')
    found = n == m and shared
    ok, b = attempt(cls[j], m, v=y)
    if found:
        ctx.cover('found')
        ctx.check(ok and b is a and a.v == x, 'found as it was')
        ctx.check(type(b) is cls[i], 'of the class that made it')
    else:
        ctx.check(ok == (y >= -3), 'made exactly when valid')
        if not ok:
            ctx.cover('failed')
            ctx.check(isinstance(b, p.ValidationError), 'kind of error')
            c = cls[j](m)
            ctx.check(c is not a and c.v == 0, 'nothing was kept')
            ctx.check(len(cls[j]._SINGLETONS) == 1 + shared, 'register')
            return
        ctx.check(b is not a and type(b) is cls[j] and b.v == y and
                  a.v == x, 'another')
    reg = cls[i]._SINGLETONS
    ctx.check(len(reg) == 1 + (shared and not found), 'register')
    ctx.check(cls[i](n) is a, 'still there')


@scenario('C27', weight=3)
def names(ctx):
    """Any name the class accepts identifies; changing it changes nothing"""
    kinds = ctx.pick('kinds', 3)
    n = any_value(ctx, 'n', 'isnf', ints=64, q=2, m=16, maxlen=2)
    m = any_value(ctx, 'm', 'isnf', ints=64, q=2, m=16, maxlen=2)

    class A(Singleton):
        _SINGLETONS = dict()
        if kinds == 0:
            name = p.String('n')
        if kinds == 1:
            name = p.Integer('n')
        v = p.Integer('v', default=3)
    ctx.assume(not (isinstance(n, float) and n != n))
    ok, a = attempt(A, n)
    vok = kinds == 2 or attempt(A._props['name'].validate, None, n)[0]
    ctx.check(ok == vok, 'made exactly when the name is valid')
    if not ok:
        ctx.cover('refused')
        ctx.check(A._SINGLETONS == {}, 'nothing kept')
        return
    ctx.check(a.name == n, 'name')
    for i in range(2):
        ctx.check(A(n) is a, 'found')
    ok, _ = attempt(setattr, a, 'name', m)
    ctx.check(ok == (kinds == 2 or
                     attempt(A._props['name'].validate, None, m)[0]),
              'renamed exactly when valid')
    if ok:
        ctx.cover('renamed')
        ctx.check(a.name == m or m is None or m != m, 'new name')
    ctx.check(A(n) is a, 'found under the first name')
    ok, b = attempt(A, m)
    ctx.check(not ok or (b is a) == (m == n), 'found under no other')
    ctx.check(A(n) is a and A._SINGLETONS[n] is a, 'still')


@scenario('C27', weight=5)
def storage(ctx):
    """Reading finds the object in use; otherwise it makes the object that
    was written, under its identifying name"""
    named = ctx.flag('named')
    cls = family(named)
    i = ctx.pick('cls', 4)
    n, m = ctx.str('n', 1, minlen=1), ctx.str('m', 1)
    x, y = ctx.int('x', -3), ctx.int('y', -3)
    a = cls[i](n, v=x)
    rename = ctx.flag('rename')
    if rename:
        a.name = m
    if i % 2:
        a.w = y
    include = ctx.flag('include')
    js = a.serialize(include_class=include)
    want = {'v': x, '_singleton_id': n}
    if include:
        want['__class__'] = cls[i].__name__
    if named:
        want['name'] = m if rename else n
    if i % 2:
        want['w'] = y
    ctx.check(js == want, 'written')
    read = cls[ctx.pick('reader', 4)] if include else cls[i]
    trusted = ctx.flag('trusted')
    strict = ctx.flag('strict')
    reg = (cls[i] if trusted and include else read)._SINGLETONS
    kept = ctx.flag('kept')
    if not kept:
        a._SINGLETONS.clear()
        if strict:
            read(n + 'x')
    elif ctx.flag('later'):
        # values in use win
        a.v = x + 1
    if ctx.flag('clash'):
        # the name is in use in the other register too
        cls[2 if i < 2 else 0](n, v=x)
    found = reg.get(n)
    later = found.v if found is not None else None
    size = len(reg)
    before = dict(js)
    ok, b = attempt(read.deserialize, js, trusted=trusted, strict=strict)
    ctx.check(js == before, 'data kept')
    if found is not None:
        ctx.cover('read-found')
        ctx.check(ok and b is found and b.v == later, 'found')
        ctx.check(len(reg) == size, 'nothing made')
        return
    bad = strict and include and not trusted and read is not cls[i]
    out = cls[i] if trusted and include else read
    if strict and not bad and i % 2 and 'w' not in out._props:
        bad = True
    ctx.check(ok == (not bad), 'read')
    if not ok:
        ctx.cover('failed')
        ctx.check(isinstance(b, ValueError) and n not in reg and
                  len(reg) == size, 'nothing kept')
        return
    ctx.cover('read-new')
    ctx.check(type(b) is out and (kept or b is not a) and b.v == x, 'made')
    ctx.check(b.name == (m if rename and named else n), 'name')
    ctx.check('w' not in b._props or b.w == (y if i % 2 else 0), 'values')
    ctx.check(out(n) is b and len(reg) == size + 1, 'in use')
    js2 = b.serialize()
    ctx.check(js2['_singleton_id'] == n and js2['__class__'] == out.__name__,
              'written again')


@scenario('C27', weight=3)
def faults(ctx):
    """Failed readings leave nothing behind"""
    named = ctx.flag('named')
    k = ctx.pick('k', 9)
    n = ctx.str('n', 2, minlen=1)
    v = any_value(ctx, 'v', 'isnl', maxlen=1, alphabet='1a')
    seen = []

    class A(Singleton):
        _SINGLETONS = dict()
        if named:
            name = p.String('name', change_case='lower')
        v = p.Integer('v', default=2, min=0)
        need = p.Integer('need')

        @p.observer(p.everything)
        def o(self, change):
            seen.append(change['name'])
    js = {'_singleton_id': n, 'v': v, 'need': 1}
    kw = {}
    if k == 1:
        del js['_singleton_id']
    if k == 2:
        js['name'] = 5
    if k == 3:
        js = any_value(ctx, 'data', 'isnlo', maxlen=1)
    if k == 4:
        js['_singleton_id'] = None
    if k == 5:
        js['extra'] = 1
        kw['strict'] = True
    if k == 6:
        del js['need']
        kw['assert_valid'] = True
    if k == 7:
        js['name'] = 'other'
        kw['strict'] = named
    if k == 8:
        del js['_singleton_id']
        js['name'] = n
    vok, want = attempt(p.Integer('', min=0).deserialize, v)
    if vok and v is not None:
        vok, want = attempt(p.Integer('', min=0).validate, None, want)
    if vok and v is None:
        want = None
    fine = vok and v is not None and k not in (1, 3, 4, 5, 6) and not (
        k == 2 and named)
    ok, a = attempt(A.deserialize, js, **kw)
    ctx.check(v is None or ok == fine, 'read exactly when sound')
    if not ok:
        ctx.cover('failed')
        ctx.check(isinstance(a, (ValueError, TypeError)), 'kind of error')
        ctx.check(A._SINGLETONS == {}, 'nothing kept')
        ctx.check(seen == [], 'nobody told')
        b = A(n)
        ctx.check(b.v == 2 and A._SINGLETONS == {n: b}, 'free')
        return
    ctx.cover('read-new')
    ctx.check(seen == [], 'nobody told')
    ctx.check(v is None or a.v == want, 'value')
    ctx.check(A(n) is a, 'in use')
    ctx.check(a.name == ('other' if k == 7 else 5 if k == 2 else
                         n.lower() if named else n), 'name')
    ctx.check(A.deserialize({'_singleton_id': n, 'v': 9}) is a and
              (v is None or a.v == want), 'found as it is')


@scenario('C27', weight=3)
def as_parts(ctx):
    """A property holding a singleton takes the object, its name, or its
    stored form"""
    A, B, C, D = family(ctx.flag('named'))
    k = ctx.pick('k', 6)
    n = ctx.str('n', 2, minlen=1)
    x, y = ctx.int('x', -3), ctx.int('y', -3)

    class H(p.HasProperties):
        _REGISTRY = A._REGISTRY
        s = p.Instance('s', A)
        many = p.List('many', p.Instance('', A), default=list)
    exists = ctx.flag('exists')
    a = A(n, v=x) if exists else None
    h = H()
    if k == 0:
        h.s = n
    elif k == 1:
        h.s = {'name': n, 'v': y}
    elif k == 2:
        h.s = B(n, v=y)
    elif k == 3:
        h = H.deserialize({'s': {'_singleton_id': n, 'v': y}})
    elif k == 4:
        h = H(s=n, many=[n, n])
        ctx.check(h.many[0] is h.s and h.many[1] is h.s, 'one object')
    else:
        h = H.deserialize({'s': {'_singleton_id': n, 'v': y},
                           'many': [{'_singleton_id': n, 'v': 7}]})
        ctx.check(h.many[0] is h.s, 'one object')
    ctx.cover('coerced')
    if exists:
        ctx.check(h.s is a and a.v == x, 'the one in use')
    else:
        ctx.check(type(h.s) is (B if k == 2 else A), 'class')
        ctx.check(h.s.v == (0 if k in (0, 4) else y), 'value')
    ctx.check(A(n) is h.s, 'in use')
    ctx.cover('copied')
    ctx.check(p.copy(h.s) is h.s and p.equal(h.s, p.copy(h.s)), 'own copy')
    c = p.copy(h)
    ctx.check(c is not h and c.s is h.s and p.equal(c, h), 'copied')
    js = h.serialize()
    h.s.v = x + 1
    ctx.check(H.deserialize(js).s is h.s and h.s.v == x + 1,
              'values in use win')


def play(ctx, steps):
    """A history over two names against a table of what is in use"""
    A, B, C, D = cls = family()
    use = {True: {}, False: {}}
    stored = {}
    for t in range(steps):
        act = ctx.pick('act%d' % t, 3)
        k = (ctx.pick('cls%d' % t, 3) if not t or steps > 3 else 1 + ctx.pick(
            'cls%d' % t, 2)) if act != 1 else 2 * ctx.pick(
            'reg%d' % t, 2)
        n = ctx.choice('n%d' % t, ['a', 'b']) if t else 'a'
        v = ctx.int('v%d' % t, *([-3] if act or not t else []))
        reg = use[k < 2]
        if act == 0:
            ok, o = attempt(cls[k], n, v=v)
            if n in reg:
                ctx.check(ok and o is reg[n][0], 'found')
            else:
                ctx.check(ok == (v >= -3), 'made exactly when valid')
                if ok:
                    ctx.check(type(o) is cls[k], 'class')
                    reg[n] = [o, v]
        elif act == 1:
            if n not in reg:
                continue
            o = reg[n][0]
            ok, _ = attempt(setattr, o, 'v', v)
            if ok:
                reg[n][1] = v
            o.name = 'b' if n == 'a' else 'a'
            stored[n] = o.serialize(include_class=False)
        else:
            data = stored.get(n) or {'_singleton_id': n, 'v': v}
            ok, o = attempt(cls[k].deserialize, data)
            if n in reg:
                ctx.check(ok and o is reg[n][0], 'found')
            else:
                ctx.check(ok == (data['v'] >= -3), 'read')
                if ok:
                    reg[n] = [o, data['v']]
        for key, c in ((True, A), (False, D)):
            ctx.check(set(c._SINGLETONS) == set(use[key]), 'register')
            for name in use[key]:
                o, val = use[key][name]
                ctx.check(c._SINGLETONS[name] is o and o.v == val and
                          o._singleton_id == name, 'objects in use')


@scenario('C27', weight=8)
def histories(ctx):
    """The register holds exactly the objects made, under their first name"""
    play(ctx, 3)


@scenario('C27', tier='thorough', weight=20)
def more_histories(ctx):
    """Histories of four steps"""
    play(ctx, 4)


@scenario('C27', weight=3)
def in_use(ctx):
    """Whatever is asked for under a name in use, it is found as it is; and
    whatever fails, the others stay in use"""
    A, B, C, D = cls = family(ctx.flag('named'))
    i, j = ctx.pick('made', 4), ctx.pick('asked', 4)
    ctx.assume((i < 2) == (j < 2))
    n = ctx.str('n', 1, minlen=1)
    x, y = ctx.int('x', -3, 3), ctx.int('y', -5, 5)
    a = cls[i](n, v=x)
    unset = ctx.pick('unset', 3)
    if unset == 1:
        del a.v
    elif unset == 2 and i % 2:
        del a.w
    now = a.v, getattr(a, 'w', 'none')
    reg = a._SINGLETONS
    how = ctx.pick('how', 5)
    bad = n
    if how == 0:
        ok, b = attempt(cls[j], n, v=y, **({'w': y} if j % 2 else {}))
    elif how == 1:
        ok, b = attempt(cls[j], n, nothing=y)
    elif how == 2:
        ok, b = attempt(cls[j].deserialize, {
            '_singleton_id': n, 'v': y, 'w': y, 'name': 'z'},
            assert_valid=ctx.flag('av'), strict=ctx.flag('strict'),
            trusted=ctx.flag('trusted'))
    else:
        bad = [5, n + 'x'][ctx.pick('bad', 2)]
        ok, b = attempt(cls[j].deserialize, {
            '_singleton_id': bad, 'v': y if how == 3 else 'no'})
        good = how == 3 and y >= -3 and (
            bad != 5 or 'name' not in A._props)
        ctx.check(ok == good, 'read exactly when sound')
        ctx.check(set(reg) == set([n, bad] if good else [n]), 'register')
        ok, b = attempt(cls[j], n)
    ctx.cover('found')
    ctx.check(ok and b is a and reg[n] is a, 'found')
    ctx.check((a.v, getattr(a, 'w', 'none')) == now, 'as it is')
    ctx.check(a.name == n and type(a) is cls[i], 'as it is')


@scenario('C27', weight=2)
def any_identifier(ctx):
    """The identifier is what was given first, also an empty one"""
    A, B, C, D = family()
    n, m = ctx.str('n', 1, 'ab'), ctx.str('m', 1, 'ab')
    x = ctx.int('x', -3)
    a = A(n, v=x)
    a.name = m
    js = a.serialize()
    ctx.check(js['_singleton_id'] == n and js['name'] == m and
              js['v'] == x, 'written')
    again = ctx.flag('again')
    if not again:
        A._SINGLETONS.clear()
    ok, b = attempt(A.deserialize, js)
    ctx.check(ok, 'read')
    if not ok:
        return
    ctx.check((b is a) == again, 'the same one while it exists')
    ctx.check(b.name == m and b.v == x and A(n) is b and
              list(A._SINGLETONS) == [n], 'under its identifier')
    ctx.check(b.serialize() == js, 'written again')
    ctx.cover('read-found' if again else 'read-new')
