"""C31 a property is declared exactly when its options are known and of their
kinds"""
import properties as p
from properties.basic import DynamicProperty
from properties.extras import Pointer, HasUID, URL
from harness.common import Thing, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('every option of every property type with one symbolic value of any '
          'kind; pairs of limits and a default as symbolic numbers in every '
          'order of writing; getter, setter and deleter functions of up to '
          'three arguments')
ASSUMPTIONS = ['limits are numbers that are not nan']
WITNESSES = ['option-kept', 'option-refused', 'unknown', 'limits',
             'limits-refused', 'default-refused', 'order', 'dynamic',
             'dynamic-refused', 'rebuilt', 'tagged', 'element-refused']

WRONG = (TypeError, AttributeError, ValueError)


class Part(p.HasProperties):
    n = p.Integer('n', required=False)


class Same(object):
    """Something with one argument that can be called"""
    def __call__(self, value):
        return value


MAKERS = {
    'Property': lambda **k: p.Property('d', **k),
    'Integer': lambda **k: p.Integer('d', **k),
    'Float': lambda **k: p.Float('d', **k),
    'Complex': lambda **k: p.Complex('d', **k),
    'Boolean': lambda **k: p.Boolean('d', **k),
    'String': lambda **k: p.String('d', **k),
    'StringChoice': lambda **k: p.StringChoice('d', ['a', 'b'], **k),
    'Color': lambda **k: p.Color('d', **k),
    'DateTime': lambda **k: p.DateTime('d', **k),
    'Uuid': lambda **k: p.Uuid('d', **k),
    'File': lambda **k: p.File('d', **k),
    'Tuple': lambda **k: p.Tuple('d', **k),
    'List': lambda **k: p.List('d', **k),
    'Set': lambda **k: p.Set('d', **k),
    'Dictionary': lambda **k: p.Dictionary('d', **k),
    'Instance': lambda **k: p.Instance('d', Part, **k),
    'Union': lambda **k: p.Union('d', [p.Integer(''), p.String('')], **k),
    'Array': lambda **k: p.Array('d', **k),
    'Vector3': lambda **k: p.Vector3('d', **k),
    'Vector2Array': lambda **k: p.Vector2Array('d', **k),
    'URL': lambda **k: URL('d', **k),
    'Pointer': lambda **k: Pointer('d', HasUID, **k),
    'GettableProperty': lambda **k: p.GettableProperty('d', **k),
    'Renamed': lambda **k: p.Renamed('other', **k),
}
SETTABLE = [k for k in MAKERS if k not in ('GettableProperty', 'Renamed',
                                           'Uuid')]

FLAGS = [('Integer', 'cast'), ('Float', 'cast'), ('Complex', 'cast'),
         ('Boolean', 'cast'), ('String', 'unicode'),
         ('StringChoice', 'case_sensitive'), ('Tuple', 'coerce'),
         ('List', 'coerce'), ('Set', 'coerce'), ('Dictionary', 'coerce'),
         ('List', 'observe_mutations'), ('Set', 'observe_mutations'),
         ('Dictionary', 'observe_mutations'), ('Union', 'strict_instances'),
         ('Array', 'coerce'), ('Vector3', 'coerce'), ('Renamed', 'warn'),
         ('Instance', 'auto_create')]


def declare(ctx, make, option, value, valid, extra=None):
    """An option is taken when declared, or set afterwards, exactly when it
    is valid; it reads back and survives a refused change"""
    later = ctx.flag('later')
    prop = make()
    kept = attempt(getattr, prop, option)
    if later:
        ok, err = attempt(setattr, prop, option, value)
    else:
        ok, err = attempt(lambda: make(**{option: value}))
    ctx.check(ok == bool(valid), 'taken exactly when valid')
    if not ok:
        ctx.cover('option-refused')
        ctx.check(isinstance(err, WRONG), 'refused with an ordinary error')
        if later:
            now = attempt(getattr, prop, option)
            ctx.check(now[0] == kept[0] and (not now[0] or
                                             now[1] is kept[1] or
                                             now[1] == kept[1]),
                      'a refused option stays as it was')
        return None
    ctx.cover('option-kept')
    prop = prop if later else err
    return prop


@scenario('C31', weight=4)
def flags(ctx):
    """Switches are True or False and nothing else"""
    which = ctx.pick('which', len(FLAGS) + len(SETTABLE))
    if which < len(FLAGS):
        kind, option = FLAGS[which]
    else:
        kind, option = SETTABLE[which - len(FLAGS)], 'required'
    v = any_value(ctx, 'v', 'bisnfo', maxlen=1, ints=2)
    prop = declare(ctx, MAKERS[kind], option, v, type(v) is bool)
    if prop is not None:
        ctx.check(getattr(prop, option) is v or getattr(prop, option) == v,
                  'reads back')


@scenario('C31', weight=3)
def texts(ctx):
    """Text options and callables"""
    k = ctx.pick('k', 9)
    kind, option, kinds = [
        (None, 'doc', 'sinbol'), (None, 'name', 'sinbol'),
        (None, 'serializer', 'sino'), (None, 'deserializer', 'sino'),
        ('String', 'strip', 'sinbol'), ('String', 'change_case', 'sino'),
        ('String', 'regex', 'sinol'), ('Renamed', 'new_name', 'sino'),
        ('File', 'mode', 'sin')][k]
    if kind is None:
        kind = ctx.choice('kind', ['Integer', 'List', 'Union', 'Instance',
                                   'GettableProperty'])
    make = MAKERS[kind]
    if option in ('serializer', 'deserializer') and ctx.flag('callable'):
        v = Same()
        valid = True
    else:
        words = {'change_case': ['upper', 'lower', 'Upper', ''],
                 'regex': ['^a+$', '(', '[', 'a|b', ''],
                 'mode': ['r', 'rb+', 'x', '', 'b', 'w+']}.get(option)
        j = kinds[ctx.pick('vk', len(kinds))]
        if words and j == 's':
            v = ctx.choice('w', words)
        else:
            v = any_value(ctx, 'v', j, maxlen=2)
        valid = {'change_case': v is None or isinstance(v, str) and
                 v in ('upper', 'lower'),
                 'regex': isinstance(v, str) and v not in ('(', '['),
                 'mode': v is None or isinstance(v, str) and
                 v in ('r', 'rb+', 'w+'),
                 'serializer': False, 'deserializer': False,
                 }.get(option, isinstance(v, str))
    if option in ('doc', 'new_name'):
        # positional
        def make(**kw):
            if option == 'new_name':
                return p.Renamed(kw.get(option, 'other'))
            cls = {'Integer': p.Integer, 'GettableProperty':
                   p.GettableProperty}.get(kind, p.String)
            return cls(kw.get(option, 'd'))
    prop = declare(ctx, make, option, v, valid)
    if prop is not None and option not in ('serializer', 'deserializer',
                                           'regex'):
        ctx.check(exact(getattr(prop, option), v), 'reads back')


@scenario('C31', weight=2)
def unknown(ctx):
    """Names that are no option are refused, and so are private ones"""
    kind = ctx.choice('kind', sorted(MAKERS))
    key = ctx.choice('key', ['bogus', 'Required', '_default', '_meta', '_name',
                             '__x', 'terms', 'meta', 'info', 'validate_',
                             'class_default', 'class_info_',
                             'class_container', 'length_info',
                             'sphinx_extra', 'error_', 'args',
                             'required', 'min', 'cast', 'choices', 'source'])
    v = [lambda: ctx.int('v'), lambda: True, lambda: 'a'][ctx.pick('vk', 3)]()
    documented = {
        'required': lambda: kind not in ('GettableProperty', 'Uuid',
                                         'Renamed'),
        'min': lambda: kind in ('Integer', 'Float'),
        'cast': lambda: kind in ('Integer', 'Float', 'Complex', 'Boolean'),
        'choices': lambda: kind == 'StringChoice',
    }
    ok, err = attempt(lambda: MAKERS[kind](**{key: v}))
    if key in documented and documented[key]():
        return
    ctx.cover('unknown')
    ctx.check(not ok and isinstance(err, (AttributeError, TypeError)),
              'refused')
    if key != 'choices':
        ctx.check(isinstance(err, AttributeError), 'as an unknown attribute')


ORDERS = [('min', 'max', 'default'), ('max', 'min', 'default'),
          ('default', 'max', 'min'), ('min', 'default', 'max'),
          ('max', 'default'), ('default', 'min'), ('min', 'max')]


@scenario('C31', weight=4)
def limits(ctx):
    """Lower and upper limits must be in order and contain the default,
    however the options are arranged"""
    k = ctx.pick('k', 2)
    order = ctx.choice('order', ORDERS)
    if k == 0:
        val = {n: ctx.int(n, -99, 99) for n in order}
        cls = p.Integer
    else:
        val = {n: ctx.number(n, 'if', ints=99, q=4, m=64,
                             special=False) for n in order}
        cls = p.Float
    lim = [val.get('min'), val.get('max')]
    ordered = lim[0] is None or lim[1] is None or lim[0] <= lim[1]
    inside = 'default' not in val or (
        (lim[0] is None or val['default'] >= lim[0]) and
        (lim[1] is None or val['default'] <= lim[1]))
    ok, prop = attempt(lambda: cls('d', **{n: val[n] for n in order}))
    ctx.check(ok == bool(ordered and inside), 'declared exactly when the '
              'limits are in order and contain the default')
    if not ok:
        ctx.cover('limits-refused')
        ctx.check(isinstance(prop, WRONG), 'ordinary error')
        if ordered:
            ctx.cover('default-refused')
            ctx.check(isinstance(prop, p.ValidationError),
                      'the default is refused as a value is')
        return
    ctx.cover('limits')
    for n in order:
        ctx.check(exact(getattr(prop, n), val[n]), 'reads back')
    # changing a limit afterwards obeys the same rule
    new = ctx.int('new', -99, 99)
    side = ctx.choice('side', ['min', 'max'])
    ok, err = attempt(setattr, prop, side, new)
    other = lim[1] if side == 'min' else lim[0]
    fits = other is None or (new <= other if side == 'min' else new >= other)
    ctx.check(ok == bool(fits), 'changed exactly when in order')
    ctx.check(getattr(prop, side) == (new if fits else val.get(side)),
              'changed or kept')
    ctx.cover('order')


@scenario('C31', weight=4)
def lengths(ctx):
    """Length limits are whole numbers from zero and in order; a default is
    measured only when its owner is validated"""
    kind = ctx.choice('kind', ['Tuple', 'List', 'Set', 'Dictionary'])
    order = ctx.choice('order', [('min_length', 'max_length'),
                                 ('max_length', 'min_length'),
                                 ('min_length',), ('max_length',)])
    val = {}
    for n in order:
        val[n] = any_value(ctx, n, 'ifsn', q=1, m=4, maxlen=1, special=False)
        if isinstance(val[n], int):
            ctx.assume(val[n] >= -3)
            ctx.assume(val[n] <= 3)
    size = ctx.pick('size', 4) - 1
    if kind == 'Dictionary':
        # only with limits if it has them
        ok, err = attempt(lambda: MAKERS[kind](**val))
        if not hasattr(p.Dictionary(''), 'min_length'):
            ctx.check(not ok and isinstance(err, AttributeError), 'unknown')
            return
    whole = True
    for n in order:
        whole = whole and isinstance(val[n], int) and val[n] >= 0
    ordered = whole and (len(order) == 1 or
                         val['min_length'] <= val['max_length'])
    kw = dict(val)
    if size >= 0:
        vals = list(range(size))
        kw['default'] = {'Tuple': tuple, 'List': list, 'Set': set}[kind](vals)
    ok, prop = attempt(lambda: MAKERS[kind](**kw))
    ctx.check(ok == bool(ordered), 'declared exactly when valid')
    if ok:
        for n in order:
            ctx.check(getattr(prop, n) == val[n], 'reads back')
    else:
        ctx.check(isinstance(prop, WRONG), 'ordinary error')


@scenario('C31', weight=3)
def elements(ctx):
    """What a container or union is of must be properties or classes of
    objects; an instance property needs a class"""
    k = ctx.pick('k', 8)
    j = ctx.pick('j', 9)
    given = [lambda: p.Integer('e'), lambda: Part, lambda: p.Integer,
             lambda: p.GettableProperty('e'), lambda: 'Part', lambda: object,
             lambda: ctx.int('n'), lambda: Part(), lambda: p.Renamed('e')][j]()
    good = j in (0, 1)
    second = ctx.flag('second')
    make = [lambda: p.Tuple('d', given), lambda: p.List('d', prop=given),
            lambda: p.Set('d', given),
            lambda: p.Dictionary('d', key_prop=given),
            lambda: p.Dictionary('d', value_prop=given),
            lambda: p.Union('d', [p.String('')] * second + [given]),
            lambda: p.Instance('d', given),
            lambda: p.Union('d', {'a': given} if second else given)][k]
    ok, prop = attempt(make)
    if k == 6:
        good = j in (1, 2, 5)
    if k == 7:
        good = False
    ctx.check(ok == good, 'declared exactly when valid')
    if not ok:
        ctx.cover('element-refused')
        ctx.check(isinstance(prop, TypeError), 'TypeError')
        return
    if k == 6:
        ctx.check(prop.instance_class is given, 'reads back')
        return
    if k == 5:
        ctx.check(isinstance(prop.props, tuple) and
                  len(prop.props) == 1 + second, 'all alternatives')
        whole = p.Union('', [prop])
        ctx.check(whole.props == (prop,), 'alternatives as given')
    held = [lambda: prop.prop, lambda: prop.prop, lambda: prop.prop,
            lambda: prop.key_prop, lambda: prop.value_prop,
            lambda: prop.props[-1]][k]()
    if j == 0:
        ctx.check(held is given, 'reads back')
    else:
        ctx.check(isinstance(held, p.Instance) and
                  held.instance_class is Part, 'a class stands for its '
                  'instances')


@scenario('C31', weight=3)
def arrays(ctx):
    """Shapes, kinds and lengths of arrays and vectors"""
    k = ctx.pick('k', 5)
    if k == 0:
        dims = [ctx.choice('d%d' % i, [1, 3, '*', 'x', 2.5, None])
                for i in range(ctx.pick('n', 3))]
        shape = [lambda: tuple(dims), lambda: list(dims),
                 lambda: set([tuple(dims), (2,)]), lambda: 3][
                     ctx.pick('as', 4)]
        shape = shape()
        valid = isinstance(shape, (tuple, set))
        for d in dims:
            valid = valid and (d == '*' or isinstance(d, int))
        if shape == 3:
            valid = False
        prop = declare(ctx, MAKERS['Array'], 'shape', shape, valid)
        if prop is not None:
            ctx.check(prop.shape == (shape if isinstance(shape, set) else
                                     set([shape])), 'reads back')
    elif k == 1:
        pieces = [ctx.choice('t%d' % i, [int, float, bool, complex, str,
                                         'float', None])
                  for i in range(ctx.pick('n', 3))]
        dtype = pieces[0] if len(pieces) == 1 and ctx.flag('bare') else \
            tuple(pieces)
        valid = len(pieces) > 0
        for t in pieces:
            valid = valid and t in (int, float, bool, complex)
        prop = declare(ctx, MAKERS['Array'], 'dtype', dtype, valid)
        if prop is not None:
            ctx.check(prop.dtype == (dtype if isinstance(dtype, tuple)
                                     else (dtype,)), 'reads back')
    elif k == 2:
        v = any_value(ctx, 'v', 'ifsn', ints=64, q=4, m=64, maxlen=1,
                      special=False)
        valid = isinstance(v, (int, float)) and v > 0
        kind = ctx.choice('kind', ['Vector3', 'Vector2Array'])
        prop = declare(ctx, MAKERS[kind], 'length', v, valid)
        if prop is not None:
            ctx.check(prop.length == v and isinstance(prop.length, float),
                      'reads back')
    elif k == 3:
        kind = ctx.choice('kind', [p.Vector3Array, p.Vector2Array])
        n = 3 if kind is p.Vector3Array else 2
        last = ctx.choice('last', [2, 3, '*'])
        first = ctx.choice('first', [1, '*', None])
        shape = (last,) if first is None else (first, last)
        ok, prop = attempt(lambda: kind('d', shape=shape))
        ctx.check(ok == (len(shape) == 2 and last == n),
                  'rows of components')
        if not ok:
            ctx.check(isinstance(prop, TypeError), 'TypeError')
    else:
        mode = ctx.choice('mode', ['r', 'rb', None])
        modes = ctx.choice('modes', ['r', ['r'], ('rb', 'r'), ['w'], ['x', 'r'],
                                     [], set(['rb'])])
        ok, prop = attempt(lambda: p.File('d', mode, valid_modes=modes))
        ctx.check(ok == (mode is not None and mode in list(
            [modes] if isinstance(modes, str) else modes) and
            'x' not in modes), 'modes that include the mode')
        if ok:
            ctx.check(set(prop.valid_modes) == set(
                [modes] if isinstance(modes, str) else modes), 'reads back')
        else:
            ctx.check(isinstance(prop, TypeError), 'TypeError')


@scenario('C31', weight=3)
def defaults(ctx):
    """A default, or what a callable one gives, must be a value the property
    accepts"""
    kind = ctx.choice('kind', ['Integer', 'Boolean', 'String', 'StringChoice',
                               'Color', 'Tuple', 'List', 'Instance', 'Union',
                               'GettableProperty'])
    v = any_value(ctx, 'v', 'isblt', ints=99, maxlen=2, alphabet='ab1#')
    made = MAKERS[kind]()
    fine, _ = attempt(made.validate, None, v)
    how = ctx.choice('how', ['value', 'callable', 'undefined', 'later'])
    if how == 'undefined':
        ok, prop = attempt(lambda: MAKERS[kind](default=p.undefined))
        ctx.check(ok and prop.default is p.undefined, 'no default')
        return
    if how == 'callable':
        ok, prop = attempt(lambda: MAKERS[kind](default=lambda: v))
    elif how == 'value':
        ok, prop = attempt(lambda: MAKERS[kind](default=v))
    else:
        prop = made
        ok, err = attempt(setattr, prop, 'default', v)
        if not ok:
            ctx.check(made.default is p.undefined, 'kept')
            prop = err
    ctx.check(ok == fine, 'declared exactly when acceptable')
    if ok:
        d = prop.default() if how == 'callable' else prop.default
        ctx.check(d is v, 'reads back')
    else:
        ctx.cover('default-refused')
        ctx.check(isinstance(prop, WRONG), 'ordinary error')


def zero():
    return 1


def one(self):
    return 1


def two(self, value):
    return 1


def three(self, value, more):
    return 1


@scenario('C31', weight=3)
def dynamic(ctx):
    """A calculated property needs functions of the right number of arguments
    and names, and a property without default"""
    def named(fn, name):
        import types
        return types.FunctionType(fn.__code__, {}, name)
    getter = ctx.choice('get', ['zero', 'one', 'two', 'none'])
    fns = {'zero': zero, 'one': one, 'two': two, 'three': three}
    has_default = ctx.flag('default')
    prop = p.Integer('d', default=4) if has_default else p.Integer('d')
    get = 5 if getter == 'none' else named(fns[getter], 'x')
    ok, dyn = attempt(lambda: prop(get))
    ctx.check(ok == (getter == 'one' and not has_default),
              'declared exactly when valid')
    if not ok:
        ctx.cover('dynamic-refused')
        ctx.check(isinstance(dyn, (TypeError, AttributeError)), 'TypeError')
        return
    ctx.cover('dynamic')
    ctx.check(isinstance(dyn, DynamicProperty) and dyn.name == 'x' and
              dyn.prop is prop and dyn.doc == 'd', 'reads back')
    what = ctx.choice('what', ['setter', 'deleter'])
    count = ctx.choice('args', ['zero', 'one', 'two', 'three', 'none'])
    same = ctx.flag('same')
    fn = 5 if count == 'none' else named(fns[count], 'x' if same else 'y')
    ok, res = attempt(getattr(dyn, what), fn)
    good = same and count == ('two' if what == 'setter' else 'one')
    ctx.check(ok == good, 'added exactly when valid')
    attr = 'set_func' if what == 'setter' else 'del_func'
    if ok:
        ctx.check(res is dyn and getattr(dyn, attr) is fn, 'kept')
    else:
        ctx.check(isinstance(res, TypeError) and getattr(dyn, attr) is None,
                  'not kept')


@scenario('C31', weight=3)
def terms(ctx):
    """The terms of a property declare an equal one"""
    k = ctx.pick('k', 5)
    lo, hi = ctx.int('lo', -9, 9), ctx.int('hi', -9, 9)
    ctx.assume(lo <= hi)
    v = ctx.number('v', 'ib', ints=20) if k != 2 else ctx.str('v', 2, 'abc')
    make = [lambda: p.Integer('d', min=lo, max=hi, required=False),
            lambda: p.List('d', p.Integer('e', min=lo), coerce=True,
                           max_length=2),
            lambda: p.StringChoice('d', {'a': ['b'], 'c': []}, True),
            lambda: p.Union('d', props=[p.Integer('', max=hi),
                                        p.Boolean('')]),
            lambda: p.Dictionary('d', value_prop=p.Integer('', min=lo))][k]
    prop = make()
    tags = ctx.flag('tags')
    if tags:
        prop.tag({'a': 1}, b=2).tag(a=3)
        ctx.cover('tagged')
    ctx.check(prop.meta == ({'a': 3, 'b': 2} if tags else {}), 'tags')
    name = 'x'
    prop.name = name
    t = prop.terms
    ctx.check(t.name == name and t.cls is type(prop) and
              t.meta == prop.meta, 'terms')
    again = t.cls(*t.args, **t.kwargs).tag(t.meta)
    ctx.cover('rebuilt')
    ctx.check(again.meta == prop.meta and again.doc == prop.doc and
              getattr(again, 'required', None) == getattr(prop, 'required',
                                                          None),
              'same description')
    if k == 4:
        v = {'k': v}
    a, b = attempt(prop.validate, None, v), attempt(again.validate, None, v)
    ctx.check(a[0] == b[0], 'accepts the same')
    if a[0]:
        ctx.check(exact(a[1], b[1]), 'stores the same')
    # options given as None count too
    given = [{'shape': None}, {'shape': None, 'dtype': int},
             {'default': None}, {}][ctx.pick('none', 4)]
    prop = p.Array('d', **given)
    ctx.check(prop.terms.kwargs == given and prop.terms.args == ('d',),
              'terms as given')
    again = p.Array(*prop.terms.args, **prop.terms.kwargs)
    ctx.check(again.shape == prop.shape and again.dtype == prop.dtype,
              'same shape and kind')


@scenario('C31')
def tags(ctx):
    """Tags come as names or one dictionary"""
    prop = MAKERS[ctx.choice('kind', ['Integer', 'List', 'GettableProperty',
                                      'Renamed', 'Union'])]()
    v = ctx.int('v')
    how = ctx.pick('how', 6)
    before = {'old': 1}
    ctx.check(prop.tag(old=1) is prop, 'returns the property')
    ok, res = attempt([lambda: prop.tag(), lambda: prop.tag({'a': v}),
                       lambda: prop.tag(a=v), lambda: prop.tag({'a': 0}, a=v),
                       lambda: prop.tag({'a': v}, {'b': v}),
                       lambda: prop.tag([('a', v)])][how])
    ctx.check(ok == (how < 4), 'taken exactly when valid')
    if not ok:
        ctx.check(isinstance(res, TypeError), 'TypeError')
    else:
        ctx.check(res is prop, 'returns the property')
    ctx.check(prop.meta == (dict(before, a=v) if 0 < how < 4 else before),
              'merged or unchanged')
    other = p.Integer('')
    ctx.check(other.meta == {}, 'of this property only')
    if how == 2:
        dyn = p.Integer('d').tag(a=v)(one)
        ctx.check(dyn.meta == {'a': v}, 'calculated properties keep them')


TYPES = ('validate', 'observe_set', 'observe_change')


@scenario('C31', weight=3)
def silencing(ctx):
    """What is to be silenced is named by the documented types"""
    def word(i):
        return ctx.choice('w%d' % i, TYPES + ('observe', ''))
    k = ctx.pick('k', 6)
    if k == 0:
        v = None
    elif k == 1:
        v = word(0)
    elif k < 5:
        v = (list, tuple, set)[k - 2](word(i) for i in range(ctx.pick('n', 3)))
    else:
        v = any_value(ctx, 'v', 'ifbo', q=1, m=4)
    words = [v] if isinstance(v, str) else [] if v is None or k == 5 else \
        list(v)
    good = k < 5
    for w in words:
        good = good and w in TYPES
    ok, res = attempt(p.listeners_disabled, v)
    ctx.check(ok == good, 'taken exactly when valid')
    if not ok:
        ctx.check(isinstance(res, TypeError), 'TypeError')
        return
    log = []

    class A(p.HasProperties):
        x = p.Integer('x')

        @p.validator('x')
        def _v(self, change):
            log.append('validate')

        @p.observer('x')
        def _s(self, change):
            log.append('observe_set')

        @p.observer('x', change_only=True)
        def _c(self, change):
            log.append('observe_change')
    a = A()
    with res:
        a.x = 1
    quiet = TYPES if v is None else words
    ctx.check(sorted(log) == sorted(t for t in TYPES if t not in quiet),
              'silences exactly what was named')
    del log[:]
    a.x = 2
    ctx.check(len(log) == 3, 'only inside')


@scenario('C31', weight=3)
def listeners(ctx):
    """Listeners are declared for names of properties, given one by one, as
    a collection or as everything"""
    k = ctx.pick('k', 7)
    if k == 0:
        v = ctx.choice('name', ['x', 'y', 'q', 'r', ''])
    elif k < 4:
        v = (list, tuple, set)[k - 1](
            ctx.choice('n%d' % i, ['x', 'y', 'q'])
            for i in range(ctx.pick('n', 3)))
    elif k == 4:
        v = [ctx.choice('first', ['x', 'y']), ctx.int('second', 0, 3)]
    elif k == 5:
        v = p.everything
    else:
        v = any_value(ctx, 'v', 'ifo', q=1, m=4)
    names = ['x', 'y'] if k == 5 else [v] if k in (0, 6) else list(v)
    texts = True
    known = True
    for n in names:
        texts = texts and isinstance(n, str)
        known = known and isinstance(n, str) and n in ('x', 'y')
    how = ctx.choice('how', [p.observer, p.validator])
    log = []

    def fn(self, change):
        log.append(change['name'])
    body = {'x': p.Integer('x'), 'y': p.Integer('y'),
            'q': p.GettableProperty('q'), 'r': p.Renamed('x')}
    own = ctx.flag('on_object')
    ctx.note('names', names)
    if own:
        A = type(p.HasProperties)('A', (p.HasProperties,), body)
        a = A()
        ok, res = attempt(how, a, v, fn)
        ctx.check(ok == texts, 'added exactly when names are texts')
        if ok and texts:
            ctx.check(res.func is fn, 'the listener is returned')
    else:
        def declare():
            body['fn'] = how(v)(fn)
            return type(p.HasProperties)('A', (p.HasProperties,), body)
        ok, A = attempt(declare)
        ctx.check(ok == known, 'declared exactly when all are mutable '
                  'properties')
        res = A
        a = A() if ok else None
    if not ok:
        ctx.check(isinstance(res, TypeError), 'TypeError')
        return
    a.x = 1
    a.y = 2
    ctx.check(sorted(set(log)) == [n for n in ('x', 'y') if n in names],
              'called for the named ones')
    if names.count('x') < 2 and names.count('y') < 2:
        ctx.check(len(log) < 2 or log == ['x', 'y'], 'once each')


@scenario('C31')
def class_validators(ctx):
    """Something to call is a class validator; anything else names
    properties"""
    log = []

    def fn(self):
        log.append(self)
    good = ctx.flag('callable')
    k = ctx.pick('k', 2 if good else 3)
    given = [fn, lambda self: fn(self)][k] if good else \
        ['x', ('x',), p.everything][k]

    body = {'x': p.Integer('x', required=False)}
    v = p.validator(given)
    if good:
        body['v'] = v
        A = type(p.HasProperties)('A', (p.HasProperties,), body)
        a = A()
        ctx.check(a.validate() is True and log == [a], 'called')
        a.x = 1
        ctx.check(len(log) == 1, 'not on assignment')
    else:
        body['v'] = v(lambda self, change: log.append(change['value']))
        A = type(p.HasProperties)('A', (p.HasProperties,), body)
        a = A()
        a.x = 1
        ctx.check(log == [1], 'called on assignment')



@scenario('C31', tier='thorough', weight=12)
def more_limits(ctx):
    """Any history of changes to limits and default keeps them in order"""
    float_ = ctx.flag('float')
    names = ['min', 'max', 'default']
    prop = (p.Float if float_ else p.Integer)('d')
    now = {}
    for i in range(5):
        n = names[ctx.pick('n%d' % i, 3)]
        v = ctx.number('v%d' % i, 'if', ints=9, q=2, m=16, special=False) \
            if float_ else ctx.int('v%d' % i, -99, 99)
        ok, err = attempt(setattr, prop, n, v)
        if n == 'min':
            good = 'max' not in now or v <= now['max']
        elif n == 'max':
            good = 'min' not in now or v >= now['min']
        else:
            good = ('min' not in now or v >= now['min']) and \
                ('max' not in now or v <= now['max'])
        ctx.check(ok == bool(good), 'changed exactly when in order')
        if good:
            now[n] = v
            ctx.cover('limits')
        else:
            ctx.cover('limits-refused')
            ctx.check(isinstance(err, WRONG), 'ordinary error')
        for m in ('min', 'max'):
            ctx.check(exact(getattr(prop, m), now.get(m)), 'reads back')
        ctx.check(exact(prop.default, now['default']) if 'default' in now
                  else prop.default is p.undefined, 'default')


@scenario('C31', tier='thorough', weight=6)
def more_lengths(ctx):
    """Any history of changes to the length limits keeps them in order"""
    kind = ctx.choice('kind', ['Tuple', 'List', 'Set'])
    prop = MAKERS[kind]()
    now = {}
    for i in range(4):
        n = ['min_length', 'max_length'][ctx.pick('n%d' % i, 2)]
        v = any_value(ctx, 'v%d' % i, 'if', ints=9, q=1, m=4, special=False)
        ok, err = attempt(setattr, prop, n, v)
        good = isinstance(v, int) and v >= 0
        if good and n == 'min_length':
            good = 'max_length' not in now or v <= now['max_length']
        elif good:
            good = 'min_length' not in now or v >= now['min_length']
        ctx.check(ok == bool(good), 'changed exactly when in order')
        if good:
            now[n] = v
            ctx.cover('limits')
        else:
            ctx.cover('limits-refused')
            ctx.check(isinstance(err, WRONG), 'ordinary error')
        for m in ('min_length', 'max_length'):
            ctx.check(getattr(prop, m) == now.get(m), 'reads back')
    size = ctx.pick('size', 5)
    val = {'Tuple': tuple, 'List': list, 'Set': set}[kind](range(size))

    class A(p.HasProperties):
        x = prop
    a = A(x=val)
    ok, err = attempt(a.validate)
    ctx.check(ok == (now.get('min_length', 0) <= size and
                     size <= now.get('max_length', 99)), 'valid exactly when '
              'the length is within limits')


@scenario('C31', weight=2)
def no_default(ctx):
    """An own default, undefined included, goes before any other"""
    n = ctx.int('n', -9, 9)
    k = ctx.choice('k', ['union', 'instance', 'type', 'none'])
    how = ctx.choice('how', ['said', 'unsaid', 'value', 'later'])

    class Own(p.Integer):
        _class_default = 7

    def make_prop(**kw):
        if k == 'union':
            return p.Union('', [p.String(''), p.Integer('', default=n)], **kw)
        if k == 'instance':
            return p.Instance('', Part, auto_create=True, **kw)
        return (Own if k == 'type' else p.Integer)('', **kw)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        own = Part(n=1) if k == 'instance' else 4
        prop = make_prop(**{'said': {'default': p.undefined},
                            'value': {'default': own}}.get(how, {}))
        if how == 'later':
            prop.default = p.undefined

        class A(p.HasProperties):
            x = prop
        a = A()
    ctx.cover('option-kept')
    if how in ('said', 'later'):
        ctx.check(prop.default is p.undefined and a.x is None, 'undefined')
    elif how == 'value':
        ctx.check(prop.default is own and a.x is own, 'own default')
    elif k == 'instance':
        ctx.check(prop.default is Part and isinstance(a.x, Part), 'made')
    else:
        want = {'union': n, 'type': 7, 'none': None}[k]
        ctx.check(exact(a.x, want), 'of the type')


@scenario('C31')
def named(ctx):
    """A property goes by the name of its attribute, whatever it was called
    before"""
    kind = ctx.choice('kind', ['Property', 'Integer', 'String', 'List',
                               'Instance', 'Union', 'GettableProperty',
                               'Array', 'Vector3', 'Dictionary'])
    how = ctx.choice('how', ['option', 'later', 'other class', 'none'])
    make = MAKERS[kind]
    prop = make(name='foo') if how == 'option' else make()
    if how == 'later':
        prop.name = 'foo'
    elif how == 'other class':
        type(p.HasProperties)('B', (p.HasProperties,),
                              {'foo': prop, '__module__': __name__})
    A = type(p.HasProperties)('A', (p.HasProperties,),
                              {'bar': prop, '__module__': __name__})
    ctx.check(list(A._props) == ['bar'] and A._props['bar'].name == 'bar',
              'the name of its attribute')
    a = A()
    ctx.check(a.bar is None or len(a.bar) == 0, 'reads')
    ctx.check('foo' not in a._backend, 'under its own name')
    if kind in ('Integer', 'Property'):
        n = ctx.int('n')
        a.bar = n
        ctx.check(a.bar == n and a.serialize(include_class=False) ==
                  {'bar': n}, 'written under it')
        ctx.check(A.deserialize({'bar': n}).bar == n, 'read')
    ctx.check('bar' in A.__doc__ and 'foo' not in A.__doc__, 'described')


@scenario('C31', weight=2)
def repeated_choices(ctx):
    """A word can lead to one choice only"""
    words = ['a', 'b', 'c']
    x = words[ctx.pick('x', 3)]
    y = words[ctx.pick('y', 3)]
    z = words[ctx.pick('z', 3)]
    cs = ctx.flag('case_sensitive')
    up = ctx.flag('up')
    n = ctx.pick('more', 3)
    first = [x, z.upper() if up else z][:n]
    choices = {'a': first, y: ['d'] if n else []}
    every = ['a'] + first + [y] + (['d'] if n else []) if y != 'a' else \
        ['a', 'd'] if n else ['a']
    if not cs:
        every = [w.upper() for w in every]
    good = len(set(every)) == len(every)
    kw = {'case_sensitive': True} if cs else {}
    ok, prop = attempt(p.StringChoice, 'd', choices, **kw)
    ctx.check(ok == good, 'declared exactly when no word is repeated')
    if not ok:
        ctx.check(isinstance(prop, WRONG), 'refused with an ordinary error')


@scenario('C31')
def own_tags(ctx):
    """Tags given as one dictionary are copied: it can be used again"""
    v, w = ctx.int('v'), ctx.int('w')
    given = {'a': v}
    one, two = p.Integer('').tag(given), p.String('').tag(given)
    ctx.check(one.meta == {'a': v} and two.meta == {'a': v}, 'tagged')
    how = ctx.pick('how', 3)
    if how == 0:
        given['a'] = w
    elif how == 1:
        one.tag(a=w, b=w)
        ctx.check(one.meta == {'a': w, 'b': w}, 'merged')
    else:
        one.tag({'b': w})
        ctx.check(one.meta == {'a': v, 'b': w}, 'merged')
    ctx.check(two.meta == {'a': v}, 'the other keeps its own')
    ctx.check(given == {'a': w if how == 0 else v}, 'and so does the caller')


@scenario('C31')
def tags_of_calculated(ctx):
    """A calculated property starts with the tags of its type and then keeps
    its own"""
    v, w = ctx.int('v'), ctx.int('w')
    prop = p.Integer('')
    if ctx.flag('tagged'):
        prop.tag(a=v)
    start = dict(prop.meta)

    def x(self):
        return 1
    dyn = prop(x)
    ctx.check(dyn.meta == start, 'starts with those of its type')
    which = ctx.pick('which', 2)
    one, two = (dyn, prop) if which else (prop, dyn)
    one.tag(b=w)
    ctx.check(one.meta == dict(start, b=w), 'tagged')
    ctx.check(two.meta == start, 'the other keeps its own')
