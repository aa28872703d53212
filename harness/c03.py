"""C03 string choices"""
import properties as p
from harness.common import any_value
from harness.reg import attempt, scenario

BOUNDS = ('one to three choices of symbolic text up to 2 characters (plus up '
          'to two synonyms each), input text up to 2 characters (thorough 3) '
          'over mixed-case letters and characters with growing upper case')
WITNESSES = ['exact', 'other-case', 'synonym', 'refused', 'duplicate']

ALPHA = ((97, 98), (65, 66), (95, 95), (0xdf, 0xdf))
# ß and ss, and ſ and s, differ only in case
SHARP = ((115, 115), (83, 83), (0xdf, 0xdf), (0x17f, 0x17f))


def fold(v, sensitive):
    return v if sensitive else v.upper()


def setup(ctx, prop):
    class A(p.HasProperties):
        x = prop
    return A()


@scenario('C03', weight=2)
def plain_choices(ctx):
    n = 2 if not ctx.deep else 3
    names = [ctx.str('c%d' % i, 2, ALPHA, minlen=min(i, 1)) for i in range(n)]
    sensitive = ctx.flag('sensitive')
    kind = ctx.choice('kind', ['list', 'tuple', 'set'])
    given = {'list': list, 'tuple': tuple, 'set': set}[kind](names)
    ok, prop = attempt(p.StringChoice, 'x', choices=given,
                       case_sensitive=sensitive)
    dup = False
    for i in range(n):
        for j in range(i):
            if kind == 'set' and names[i] == names[j]:
                ctx.assume(False)
            if fold(names[i], sensitive) == fold(names[j], sensitive):
                dup = True
    if dup:
        ctx.cover('duplicate')
        ctx.check(not ok, 'ambiguous choices refused')
        ctx.check(isinstance(prop, TypeError), 'refused with TypeError')
        return
    ctx.check(ok, 'distinct choices accepted')
    a = setup(ctx, prop)
    v = ctx.str('v', 2, ALPHA)
    ok, err = attempt(setattr, a, 'x', v)
    want = None
    for c in names:
        if fold(c, sensitive) == fold(v, sensitive):
            want = c
    if want is None:
        ctx.cover('refused')
        ctx.check(not ok, 'unknown text refused')
        ctx.check(isinstance(err, p.ValidationError), 'ValidationError')
        ctx.check(a.x is None, 'nothing stored')
        return
    ctx.check(ok, 'a choice is accepted')
    ctx.check(a.x == want, 'stored in the spelling of the choice')
    ctx.cover('exact' if v == want else 'other-case')


@scenario('C03', weight=3)
def synonyms(ctx):
    """{'canonical': ['synonym', ...]}"""
    c0 = ctx.str('c0', 1, ALPHA, minlen=1)
    c1 = ctx.str('c1', 1, ALPHA)
    s0 = ctx.str('s0', 2, ALPHA, minlen=1)
    s1 = ctx.str('s1', 1, ALPHA)
    sensitive = ctx.flag('sensitive')
    shape = ctx.pick('shape', 3)
    ctx.assume(c0 != c1)
    if shape == 0:
        given, syn = {c0: [s0, s1], c1: []}, ([s0, s1], [])
    elif shape == 1:
        given, syn = {c0: s0, c1: (s1,)}, ([s0], [s1])
    else:
        given, syn = {c0: [], c1: {s1}}, ([], [s1])
    ok, prop = attempt(p.StringChoice, 'x', choices=given,
                       case_sensitive=sensitive)
    words = [c0, c1] + syn[0] + syn[1]
    dup = False
    for i in range(len(words)):
        for j in range(i):
            if fold(words[i], sensitive) == fold(words[j], sensitive):
                dup = True
    if dup:
        ctx.check(not ok, 'ambiguous synonyms refused')
        return
    ctx.check(ok, 'distinct choices accepted')
    v = ctx.str('v', 2, ALPHA)
    ok, x = attempt(prop.validate, None, v)
    want = None
    f = fold(v, sensitive)
    for c, ss in ((c0, syn[0]), (c1, syn[1])):
        for w in [c] + ss:
            if fold(w, sensitive) == f:
                want = c
                if w is not c:
                    ctx.cover('synonym')
    if want is None:
        ctx.check(not ok, 'unknown text refused')
        ctx.check(isinstance(x, p.ValidationError), 'ValidationError')
    else:
        ctx.check(ok, 'choice or synonym accepted')
        ctx.check(x == want, 'coerced to the canonical choice')


@scenario('C03')
def not_text(ctx):
    sensitive = ctx.flag('sensitive')
    v = any_value(ctx, 'v', 'bifcnltdoxe')
    prop = p.StringChoice('x', choices=['1', 'true', 'none'],
                          case_sensitive=sensitive)
    ok, err = attempt(prop.validate, None, v)
    ctx.check(not ok, 'only text can be a choice')
    ctx.check(isinstance(err, p.ValidationError), 'ValidationError')


@scenario('C03')
def descriptions(ctx):
    """descriptions must cover exactly the choices"""
    d = {}
    for n in ('a', 'b', 'A'):
        k = ctx.pick('d.' + n, 3)
        if k:
            d[n] = 'text' if k == 1 else ctx.int('n.' + n)
    ok, err = attempt(p.StringChoice, 'x', choices=['a', 'b'],
                      descriptions=d)
    good = sorted(d) == ['a', 'b'] and all(
        isinstance(t, str) for t in d.values())
    ctx.check(ok == good, 'descriptions cover exactly the choices')
    ctx.check(ok or isinstance(err, (TypeError, AttributeError)),
              'regular error')


@scenario('C03', weight=2)
def long_capitals(ctx):
    """Ignoring case compares capitals, which may be longer or shared"""
    names = [ctx.str('c%d' % i, 2, SHARP, minlen=1) for i in range(2)]
    sensitive = ctx.flag('sensitive')
    ctx.assume(names[0] != names[1])
    syn = ctx.flag('syn')
    given = {names[0]: [names[1]]} if syn else names
    ok, prop = attempt(p.StringChoice, 'x', choices=given,
                       case_sensitive=sensitive)
    dup = fold(names[0], sensitive) == fold(names[1], sensitive)
    ctx.check(ok == (not dup), 'refused exactly when ambiguous')
    if not ok:
        ctx.cover('duplicate')
        ctx.check(isinstance(prop, TypeError), 'kind of error')
        return
    v = ctx.str('v', 2, SHARP)
    ok, x = attempt(prop.validate, None, v)
    hit = [c for c in names if fold(c, sensitive) == fold(v, sensitive)]
    ctx.check(ok == (len(hit) == 1), 'accepted exactly when a choice')
    if ok:
        ctx.check(x == (names[0] if syn else hit[0]), 'that choice')


@scenario('C03')
def spaces(ctx):
    """Space around a choice is part of the text"""
    alpha = ((97, 97), (65, 65), (32, 32), (9, 9))
    c = ctx.str('c', 2, alpha)
    sensitive = ctx.flag('sensitive')
    syn = ctx.flag('syn')
    prop = p.StringChoice('x', choices={'z': [c]} if syn else [c, 'z'],
                          case_sensitive=sensitive)
    v = ctx.str('v', 2, alpha)
    ok, x = attempt(prop.validate, None, v)
    ctx.check(ok == (fold(c, sensitive) == fold(v, sensitive)),
              'accepted exactly when the choice')
    if ok:
        ctx.check(x == ('z' if syn else c), 'that choice')


@scenario('C03')
def many_aliases(ctx):
    """Every alias of a long list means its choice"""
    n = 1 + ctx.pick('n', 12)
    i = ctx.pick('i', 12)
    last = ctx.str('last', 2, ALPHA, minlen=1)
    sensitive = ctx.flag('sensitive')
    kind = ctx.choice('kind', [list, tuple, set])
    names = ['w%d' % k for k in range(n)]
    first = ctx.flag('first')
    table = {'top': kind(names + [last])}
    table = dict([('other', [])] + list(table.items())) if first else \
        dict(list(table.items()) + [('other', [])])
    ok, prop = attempt(p.StringChoice, 'x', choices=table,
                       case_sensitive=sensitive)
    ctx.check(ok, 'declared')
    v = last if i >= n else names[i]
    ok, x = attempt(prop.validate, None, v)
    ctx.check(ok and x == 'top', 'means its choice')
    ok, x = attempt(prop.validate, None, 'w%d' % (n + 1))
    ctx.check(not ok and isinstance(x, p.ValidationError), 'refused')
