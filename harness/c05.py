"""C05 dates and URLs"""
import datetime

import properties as p
from properties.extras import URL
from harness.common import any_value
from harness.reg import attempt, scenario

BOUNDS = ('date text of the two documented shapes with every digit symbolic '
          '(years 0000-9999), the same shapes with one arbitrary character, '
          'other text up to 4 characters; datetimes with every field '
          'symbolic, naive, whole seconds; URLs assembled from parts of up '
          'to 2 symbolic characters each')
ASSUMPTIONS = ['C locale; time zones and microseconds outside the claim']
WITNESSES = ['day-ok', 'day-bad', 'stamp-ok', 'url-ok', 'url-bad']

DIGIT = ((48, 57),)


def num(t):
    n = 0
    for c in t:
        n = 10 * n + (ord(c) - 48)
    return n


def days_in(y, m):
    if m == 2:
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        return 29 if leap else 28
    return 30 if m in (4, 6, 9, 11) else 31


def valid_day(y, m, d):
    if not (1 <= y and 1 <= m and m <= 12 and 1 <= d):
        return False
    return d <= days_in(y, m)


def put(ctx, prop, v):
    class A(p.HasProperties):
        x = prop
    a = A()
    ok, err = attempt(setattr, a, 'x', v)
    if not ok:
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')
        ctx.check(a.x is None, 'nothing stored')
    return ok, a


@scenario('C05', weight=4)
def day_text(ctx):
    """YYYY/MM/DD and YYYY-MM-DD"""
    sep = ctx.choice('sep', ['-', '/'])
    y = ctx.str('y', 4, DIGIT, minlen=4)
    m = ctx.str('m', 2, DIGIT, minlen=2)
    d = ctx.str('d', 2, DIGIT, minlen=2)
    ok, a = put(ctx, p.DateTime('x'), y + sep + m + sep + d)
    yy, mm, dd = num(y), num(m), num(d)
    good = valid_day(yy, mm, dd)
    ctx.check(ok == good, 'accepted exactly when a calendar day')
    if ok:
        ctx.cover('day-ok')
        x = a.x
        ctx.check(isinstance(x, datetime.datetime), 'stored as datetime')
        ctx.check(x.year == yy and x.month == mm and x.day == dd,
                  'the day given')
        ctx.check(x.hour == 0 and x.minute == 0 and x.second == 0,
                  'midnight')
    else:
        ctx.cover('day-bad')


@scenario('C05', weight=4)
def stamp_text(ctx):
    """YYYY-MM-DDTHH:MM:SSZ"""
    y = ctx.choice('y', ['2020', '1900', '0001', '9999'])
    m = ctx.str('m', 2, DIGIT, minlen=2)
    d = ctx.str('d', 2, DIGIT, minlen=2)
    h = ctx.str('h', 2, DIGIT, minlen=2)
    mi = ctx.str('mi', 2, DIGIT, minlen=2)
    s = ctx.str('s', 2, DIGIT, minlen=2)
    ok, a = put(ctx, p.DateTime('x'), '%s-%s-%sT%s:%s:%sZ' % (
        y, m, d, h, mi, s))
    yy, mm, dd = num(y), num(m), num(d)
    hh, mn, ss = num(h), num(mi), num(s)
    good = valid_day(yy, mm, dd) and hh < 24 and mn < 60 and ss < 60
    ctx.check(ok == good, 'accepted exactly when a calendar time')
    if ok:
        ctx.cover('stamp-ok')
        x = a.x
        ctx.check(x.year == yy and x.month == mm and x.day == dd and
                  x.hour == hh and x.minute == mn and x.second == ss,
                  'the time given')
        ctx.check(x.microsecond == 0 and x.tzinfo is None, 'nothing else')


@scenario('C05', weight=2)
def spoiled_text(ctx):
    """A documented shape with one foreign character or a missing one"""
    base = ctx.choice('base', ['1995/08/12', '1995-08-12',
                               '1995-08-12T18:00:00Z'])
    i = ctx.pick('i', len(base))
    bad = ctx.str('bad', 1, ((33, 44), (58, 83), (85, 89), (91, 122)))
    if len(bad) == 1:
        ctx.assume(bad != base[i])
    ok, a = put(ctx, p.DateTime('x'), base[:i] + bad + base[i + 1:])
    if len(bad) == 0 and base[i] in '0123456789' and len(base) > 10:
        return                          # single digit fields are left open
    if len(base) > 10 and len(bad) and bad.upper() == base[i]:
        return
    ctx.check(not ok, 'malformed text refused')


@scenario('C05')
def short_text(ctx):
    v = ctx.str('v', 4, ((45, 47), (48, 57), (84, 84), (90, 90), (32, 32)))
    ok, a = put(ctx, p.DateTime('x'), v)
    ctx.check(not ok, 'not a date')


@scenario('C05')
def datetime_other(ctx):
    v = any_value(ctx, 'v', 'bifcnltdoxe')
    if ctx.flag('date'):
        v = datetime.date(2020, 1, 2)
    ok, a = put(ctx, p.DateTime('x'), v)
    ctx.check(not ok, 'not a datetime')


@scenario('C05', weight=4)
def datetime_value(ctx):
    """Datetimes pass unchanged and survive writing and reading"""
    y = ctx.int('y', 1, 9999)
    m = ctx.int('m', 1, 12)
    d = ctx.int('d', 1, 31)
    ctx.assume(d <= days_in(y, m))
    h = ctx.int('h', 0, 23)
    mi = ctx.int('mi', 0, 59)
    s = ctx.int('s', 0, 59)
    v = datetime.datetime(y, m, d, h, mi, s)
    ok, a = put(ctx, p.DateTime('x'), v)
    ctx.check(ok, 'datetime accepted')
    ctx.check(a.x is v, 'datetime kept as it is')
    t = a.serialize(include_class=False)['x']
    ctx.check(isinstance(t, str) and len(t) == 20, 'written as text')
    want = (y, m, d, h, mi, s)
    got = (t[0:4], t[5:7], t[8:10], t[11:13], t[14:16], t[17:19])
    for g, w in zip(got, want):
        ctx.check(num(g) == w, 'field written in place')
    ctx.check(t[4] == '-' and t[7] == '-' and t[10] == 'T' and
              t[13] == ':' and t[16] == ':' and t[19] == 'Z', 'separators')
    b = type(a).deserialize({'x': t})
    ctx.check(b.x == v, 'read back unchanged')


# ------------------------------------------------------------------- URLs

WORD = ((97, 98), (48, 48), (45, 45))


@scenario('C05', weight=4)
def url_parts(ctx):
    """What is kept and what is removed"""
    scheme = ctx.choice('scheme', ['http', 'ftp', 'https'])
    host = ctx.str('host', 2, ((97, 98), (46, 46)), minlen=1)
    path = ctx.choice('hp', ['', '/']) + ctx.str('path', 1, WORD)
    if path[:1] != '/':
        path = ''
    par = ctx.str('par', 1, WORD)
    query = ctx.str('query', 2, ((97, 97), (61, 61), (38, 38), (63, 63)))
    frag = ctx.str('frag', 1, ((97, 97), (47, 47), (63, 63)))
    rp, rf = ctx.flag('rp'), ctx.flag('rf')
    base = scheme + '://' + host + path
    if len(par) and path:
        ps = ';' + par
    else:
        ps = ''
    qs = '?' + query if len(query) else ''
    fs = '#' + frag if len(frag) else ''
    ok, a = put(ctx, URL('x', remove_parameters=rp, remove_fragment=rf),
                base + ps + qs + fs)
    ctx.check(ok, 'URL with scheme and location accepted')
    ctx.cover('url-ok')
    want = base + ('' if rp else ps + qs) + ('' if rf else fs)
    ctx.check(a.x == want, 'only the configured parts are removed')


@scenario('C05', weight=2)
def url_bad(ctx):
    """No scheme or no location"""
    word = ctx.str('w', 3, ((97, 98), (47, 47), (46, 46), (63, 63),
                            (35, 35), (58, 58)))
    shape = ctx.pick('shape', 4)
    if shape == 0:
        v = word
        if len(word) == 3:
            ctx.assume(word[1:] != '//')
    elif shape == 1:
        v = 'http:' + word
        ctx.assume(word[:2] != '//' or word[2:] in ('', '/', '?', '#'))
    elif shape == 2:
        v = '//' + word
    else:
        v = '://' + word
    ok, a = put(ctx, URL('x'), v)
    ctx.cover('url-bad')
    ctx.check(not ok, 'URL without scheme or location refused')


@scenario('C05')
def url_other(ctx):
    v = any_value(ctx, 'v', 'bifcnltdoxe')
    ok, a = put(ctx, URL('x'), v)
    ctx.check(not ok, 'only text can be a URL')


@scenario('C05')
def url_declared(ctx):
    """A URL property can be declared, documented and its errors read"""
    rp, rf = ctx.flag('rp'), ctx.flag('rf')
    prop = URL('x', remove_parameters=rp, remove_fragment=rf)
    ctx.check(isinstance(prop.info, str) and len(prop.info) > 0,
              'URL property describes itself')


@scenario('C05', weight=2)
def separators(ctx):
    """Only the documented separators make a date"""
    a = ctx.str('a', 1, ((32, 63), (84, 84), (95, 95)), minlen=1)
    b = ctx.str('b', 1, ((32, 63), (84, 84), (95, 95)), minlen=1)
    ctx.assume(not ((a == '-' or a == '/') and (b == '-' or b == '/')))
    ok, got = put(ctx, p.DateTime('x'), '2020' + a + '11' + b + '12')
    ctx.check(not ok, 'malformed text refused')


@scenario('C05', weight=2)
def url_case(ctx):
    """The parts that are kept are kept letter by letter"""
    word = ((65, 65), (97, 97), (37, 37), (64, 64))
    host = ctx.str('host', 2, ((65, 65), (97, 97), (46, 46), (64, 64)),
                   minlen=1)
    tail = ctx.str('tail', 2, word)
    where = ctx.choice('where', ['/', '/x?', '/x;', '/x#', '?', '#', '/x/'])
    pre = ctx.choice('pre', ['http://', 'ftp://'])
    rp, rf = ctx.flag('rp'), ctx.flag('rf')
    if where in ('/x?', '/x;', '?'):
        ctx.assume(not rp)
    if where in ('/x#', '#'):
        ctx.assume(not rf)
    ctx.assume(len(tail) > 0 or where in ('/', '/x/'))
    v = pre + host + where + tail
    ok, a = put(ctx, URL('x', remove_parameters=rp, remove_fragment=rf), v)
    ctx.check(ok and a.x == v, 'kept')


@scenario('C05', weight=2)
def around(ctx):
    """Nothing may stand before or after a date"""
    c = ctx.str('c', 1, ((9, 13), (32, 32), (43, 57), (84, 90)), minlen=1)
    text = ctx.choice('text', ['2020-11-12', '2020/11/12',
                               '2020-11-12T13:14:15Z'])
    v = ctx.choice('side', [lambda: c + text, lambda: text + c])()
    ok, got = put(ctx, p.DateTime('x'), v)
    ctx.check(not ok, 'refused')


@scenario('C05', weight=2)
def stamp_separators(ctx):
    """Date and time are only read with the documented separators"""
    marks = list('--T::Z')
    at = ctx.pick('at', 6)
    c = ctx.str('c', 1, ((32, 47), (58, 96), (122, 122)), minlen=1)
    both = ctx.flag('both') and at == 0
    ctx.assume(c != marks[at])
    ctx.assume(not (at == 2 and c == 't') and not (at == 5 and c == 'z'))
    marks[at] = c
    if both:
        marks[1] = c
    v = '2020' + marks[0] + '11' + marks[1] + '12' + marks[2] + '10' + \
        marks[3] + '20' + marks[4] + '30' + marks[5]
    ok, got = put(ctx, p.DateTime('x'), v)
    ctx.check(not ok, 'malformed text refused')


@scenario('C05')
def aware(ctx):
    """A datetime is kept as it is"""
    tz = ctx.choice('tz', [None, datetime.timezone.utc,
                           datetime.timezone(datetime.timedelta(hours=-7))])
    micro = ctx.choice('micro', [0, 1, 999999])
    v = datetime.datetime(2020, 2, 29, 23, 59, 59, micro, tz)
    ok, a = put(ctx, p.DateTime('x'), v)
    ctx.check(ok and a.x is v, 'unchanged')
