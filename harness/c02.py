"""C02 boolean and string properties"""
import properties as p
from harness.common import any_value
from harness.reg import attempt, scenario

BOUNDS = ('text up to 3 (thorough 4) characters over letters, blanks, '
          'underscores, digits and characters whose upper/lower case changes '
          'the length; strip sets, three case modes and five patterns; any '
          'int, bool, float')
ASSUMPTIONS = ['str subclasses are outside the model']
WITNESSES = ['bool-cast', 'string-ok', 'regex-no', 'regex-yes', 'stripped']

ALPHA = ((97, 99), (65, 67), (32, 32), (95, 95), (49, 49), (0xdf, 0xdf),
         (0xe9, 0xe9))
# letters of any kind with one-to-one or growing case mappings


def in_word(v, chars):
    for c in v:
        if c not in chars:
            return False
    return True


# pattern -> independent reading of it
def only_lower_abc(v):
    return len(v) > 0 and in_word(v, 'abc')


def has_b(v):
    return 'b' in v


def starts_a(v):
    return v[:1] == 'a'


def ends_1(v):
    return v[-1:] == '1'


def two_letters(v):
    return len(v) == 2 and in_word(v, 'abcABC')


PATTERNS = [('^[a-c]+$', only_lower_abc), ('b', has_b), ('^a', starts_a),
            ('1$', ends_1), ('^[a-cA-C]{2}$', two_letters)]


def make(ctx, prop):
    class A(p.HasProperties):
        x = prop
    return A()


@scenario('C02')
def boolean_plain(ctx):
    v = any_value(ctx, 'v', 'bifcsnltdoxe', maxlen=2, alphabet=ALPHA)
    a = make(ctx, p.Boolean('x'))
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok == isinstance(v, bool), 'exactly the booleans are accepted')
    if ok:
        ctx.check(type(a.x) is bool and a.x == v, 'boolean kept as it is')
    else:
        ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
        ctx.check(a.x is None, 'nothing stored')


@scenario('C02')
def boolean_cast(ctx):
    v = any_value(ctx, 'v', 'bifcsltdoe', maxlen=1, alphabet=ALPHA)
    a = make(ctx, p.Boolean('x', cast=True))
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok, 'cast accepts anything with a truth value')
    ctx.cover('bool-cast')
    want = True if v else False
    ctx.check(type(a.x) is bool and a.x == want, 'cast stores the truth value')


@scenario('C02')
def string_type(ctx):
    """Only text is a string"""
    v = any_value(ctx, 'v', 'bifcsnltdoxe', maxlen=2, alphabet=ALPHA)
    kw = {}
    if ctx.flag('rx'):
        kw['regex'] = ''
    if ctx.flag('case'):
        kw['change_case'] = 'lower'
    a = make(ctx, p.String('x', **kw))
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok == isinstance(v, str), 'exactly text is accepted')
    if ok:
        ctx.check(type(a.x) is str, 'stored as text')
    else:
        ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
        ctx.check(a.x is None, 'nothing stored')


def my_strip(v, chars):
    if not chars:
        return v
    i, j = 0, len(v)
    while i < j and v[i] in chars:
        i += 1
    while j > i and v[j - 1] in chars:
        j -= 1
    return v[i:j]


@scenario('C02', weight=3)
def string_transform(ctx):
    """strip then change_case, nothing else"""
    strip = ctx.choice('strip', ['', ' ', '_', ' _', 'a', 'ab'])
    case = ctx.choice('case', [None, 'upper', 'lower'])
    kw = dict(strip=strip, change_case=case) if case else dict(strip=strip)
    if ctx.flag('nonunicode'):
        kw['unicode'] = False
    v = ctx.str('v', 3, ALPHA)
    a = make(ctx, p.String('x', **kw))
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok, 'text accepted')
    ctx.cover('string-ok')
    want = my_strip(v, strip)
    if len(want) < len(v):
        ctx.cover('stripped')
    if case == 'upper':
        want = want.upper()
    elif case == 'lower':
        want = want.lower()
    ctx.check(a.x == want, 'stripped and case-changed exactly as configured')


@scenario('C02', weight=2)
def string_regex(ctx):
    pattern, match = ctx.choice('pattern', PATTERNS)
    v = ctx.str('v', 3 if not ctx.deep else 4,
                ((97, 100), (65, 66), (49, 50), (32, 32)))
    if ctx.flag('compiled'):
        import re
        pattern = re.compile(pattern)
    a = make(ctx, p.String('x', regex=pattern))
    ok, err = attempt(setattr, a, 'x', v)
    if match(v):
        ctx.cover('regex-yes')
        ctx.check(ok, 'matching text accepted')
        ctx.check(a.x == v, 'matching text unchanged')
    else:
        ctx.cover('regex-no')
        ctx.check(not ok, 'text that does not match rejected')
        ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
        ctx.check(a.x is None, 'nothing stored')


@scenario('C02', weight=2)
def string_all(ctx):
    """Pattern on the raw input, combined with strip and case"""
    pattern, match = ctx.choice('pattern', PATTERNS)
    strip = ctx.choice('strip', ['', ' ', 'c'])
    case = ctx.choice('case', ['upper', 'lower'])
    v = ctx.str('v', 2 if not ctx.deep else 3,
                ((97, 100), (65, 66), (49, 49), (32, 32)))
    prop = p.String('x', regex=pattern, strip=strip, change_case=case)
    ok, x = attempt(prop.validate, None, v)
    ctx.check(ok == match(v), 'acceptance decided by the pattern')
    if ok:
        want = my_strip(v, strip)
        want = want.upper() if case == 'upper' else want.lower()
        ctx.check(x == want, 'transformed exactly as configured')


@scenario('C02')
def config_rejected(ctx):
    """Nonsense configuration is refused when the property is declared"""
    which = ctx.pick('which', 5)
    v = any_value(ctx, 'v', 'ifnol', maxlen=1)
    if which == 0:
        ok, err = attempt(p.String, 'x', strip=v)
    elif which == 1:
        ctx.assume(v is not None)
        ok, err = attempt(p.String, 'x', change_case=v)
    elif which == 2:
        ok, err = attempt(p.String, 'x', regex=v)
    elif which == 3:
        ok, err = attempt(p.Boolean, 'x', cast=v)
    else:
        ok, err = attempt(p.String, 'x', required=v)
    ctx.check(not ok, 'bad option refused')
    ctx.check(isinstance(err, (TypeError, AttributeError)), 'regular error')


@scenario('C02', weight=2)
def boolean_stored(ctx):
    """Only the documented words, truth values and integers are read"""
    v = any_value(ctx, 'v', 'bifsnldto', maxlen=3, alphabet='truefalsynTYo1')
    cast = ctx.flag('cast')
    if ctx.flag('word'):
        v = ctx.choice('w', ['true', 'TRUE', 'True', 'y', 'Yes', 'ON',
                             'false', 'FALSE', 'n', 'No', 'off', 'yes ', '',
                             ' ', '0', '1', 'f', 't', 'none', 'null'])

    class A(p.HasProperties):
        x = p.Boolean('x', cast=cast)
    ok, a = attempt(A.deserialize, {'x': v})
    if isinstance(v, bool):
        want = v
    elif isinstance(v, str):
        u = v.upper()
        want = True if u in ('TRUE', 'Y', 'YES', 'ON') else \
            False if u in ('FALSE', 'N', 'NO', 'OFF') else None
    elif cast and isinstance(v, int):
        want = v != 0
    else:
        want = None
    if cast and want is None:
        return
    ctx.check(ok == (want is not None), 'read exactly when documented')
    if ok:
        ctx.check(type(a.x) is bool and a.x == want, 'value')
    else:
        ctx.check(isinstance(a, ValueError), 'kind of error')


@scenario('C02', weight=2)
def string_lines(ctx):
    """A pattern is searched in the whole text, not in each of its lines"""
    c = ctx.str('c', 1, ((97, 100), (49, 50)))
    d = ctx.str('d', 1, ((97, 100), (49, 50)))
    pattern, match = ctx.choice('pattern', [
        ('^[a-c]+$', lambda: c == '' and False or
         (d == '' and len(c) == 1 and only_lower_abc(c))),
        ('^b', lambda: c == 'b'),
        ('1$', lambda: d == '1' or (d == '' and c == '1')),
        (r'\A[a-c]\n[a-c]\Z', lambda: len(c) == 1 and len(d) == 1 and
         only_lower_abc(c) and only_lower_abc(d)),
        ('b.a', lambda: False)])
    v = c + '\n' + d
    a = make(ctx, p.String('x', regex=pattern))
    ok, err = attempt(setattr, a, 'x', v)
    ctx.check(ok == bool(match()), 'accepted exactly when the text matches')
    ctx.check(a.x == v if ok else a.x is None, 'kept')
