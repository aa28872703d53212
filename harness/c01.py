"""C01 numeric properties: typing, tolerance, cast and bounds"""
import properties as p
from harness.common import TOL, Thing, any_value, exact, finite
from harness.reg import attempt, scenario

BOUNDS = ('ints: all mathematical integers (to-float conversions exact up to '
          '2**53); floats: k/2**40 with |v| <= 4096, plus nan and both '
          'infinities; strings up to 3 characters; min/max absent or any '
          'int/float; one assignment per path')
ASSUMPTIONS = ['numpy scalars are outside the model']
WITNESSES = ['int-ok', 'int-tol', 'int-bound', 'float-ok', 'float-bound',
             'complex-ok', 'int-cast']

NUMSTR = '017.-+e_ a\u0663'


def bounds(ctx, kinds='if'):
    """kwargs with none/one/both of min and max, and the two values"""
    shape = ctx.pick('bounds', 4)
    lo = hi = None
    kw = {}
    if shape & 1:
        lo = ctx.number('lo', kinds, q=8, m=4096, special=False)
        kw['min'] = lo
    if shape & 2:
        hi = ctx.number('hi', kinds, q=8, m=4096, special=False)
        kw['max'] = hi
    return kw, lo, hi


def inside(v, lo, hi):
    """lo <= v <= hi; nothing outside an ordering counts as inside"""
    if lo is not None and not v >= lo:
        return False
    if hi is not None and not v <= hi:
        return False
    return True


def run(ctx, cls, kw, v):
    class A(p.HasProperties):
        x = cls('x', **kw)
        other = p.Integer('bystander', default=7)
    a = A()
    ok, err = attempt(setattr, a, 'x', v)
    ctx.note('ok', ok)
    if ok:
        ctx.note('x', a.x)
        ctx.check(a.other == 7, 'bystander untouched')
        return True, a.x
    ctx.check(isinstance(err, p.ValidationError),
              'rejection is a ValidationError')
    ctx.check(a.x is None, 'rejected value not stored')
    return False, err


def good_bounds(ctx, lo, hi):
    if lo is not None and hi is not None:
        ctx.assume(lo <= hi)


@scenario('C01', weight=3)
def integer_number(ctx):
    """Integer fed any number"""
    kw, lo, hi = bounds(ctx)
    good_bounds(ctx, lo, hi)
    v = ctx.number('v', 'ifb', q=40, m=4096)
    ok, x = run(ctx, p.Integer, kw, v)
    if isinstance(v, float) and not finite(v):
        ctx.check(not ok, 'non-finite input rejected')
        return
    t = int(v)
    expect = abs(v - t) <= TOL and inside(t, lo, hi)
    ctx.check(ok == expect, 'integer accepted exactly when within tolerance '
              'and bounds')
    if ok:
        ctx.cover('int-ok')
        ctx.check(type(x) is int, 'stored type is exactly int')
        ctx.check(x == t, 'stored integer is the value')
        if isinstance(v, float) and v != t:
            ctx.cover('int-tol')
    elif abs(v - t) <= TOL:
        ctx.cover('int-bound')


@scenario('C01', weight=3)
def float_number(ctx):
    """Float fed any real number"""
    kw, lo, hi = bounds(ctx)
    good_bounds(ctx, lo, hi)
    v = ctx.number('v', 'ifb', q=40, m=4096)
    if isinstance(v, int) and not isinstance(v, bool):
        ctx.assume(v <= 1 << 53)
        ctx.assume(v >= -(1 << 53))
    ok, x = run(ctx, p.Float, kw, v)
    if isinstance(v, float) and not finite(v) and not (lo is None and
                                                       hi is None):
        expect = v == v and inside(v, lo, hi)
        ctx.check(ok == expect, 'non-finite value respects the bounds')
        if not ok:
            return
    if isinstance(v, float) and not finite(v):
        ctx.check(ok, 'a non-finite float is a float')
        ctx.check(exact(x, v), 'non-finite float kept')
        return
    ctx.check(ok == inside(v, lo, hi),
              'float accepted exactly when within bounds')
    if ok:
        ctx.cover('float-ok')
        ctx.check(type(x) is float, 'stored type is exactly float')
        ctx.check(x == v, 'stored float is the value')
    else:
        ctx.cover('float-bound')


@scenario('C01')
def complex_number(ctx):
    v = ctx.number('v', 'ifbc', q=40, m=4096)
    if isinstance(v, int) and not isinstance(v, bool):
        ctx.assume(v <= 1 << 53)
        ctx.assume(v >= -(1 << 53))
    ok, x = run(ctx, p.Complex, {}, v)
    if not (finite(v.real) and finite(v.imag)):
        ctx.check(ok, 'a non-finite number is a complex number')
        ctx.check(type(x) is complex, 'stored type is exactly complex')
        ctx.check(exact(x, complex(v)), 'non-finite complex kept')
        return
    ctx.check(ok, 'every finite number is a complex number')
    ctx.cover('complex-ok')
    ctx.check(type(x) is complex, 'stored type is exactly complex')
    ctx.check(x == v, 'stored complex is the value')


@scenario('C01', conc=64)
def non_number(ctx):
    """Without cast only numbers are accepted"""
    cls = ctx.choice('cls', [p.Integer, p.Float, p.Complex])
    kw, lo, hi = bounds(ctx) if cls is not p.Complex else ({}, None, None)
    good_bounds(ctx, lo, hi)
    v = any_value(ctx, 'v', 'snltdoxe', maxlen=2, alphabet=NUMSTR)
    ok, x = run(ctx, cls, kw, v)
    ctx.check(not ok, 'non-number rejected without cast')


@scenario('C01')
def integer_not_complex(ctx):
    cls = ctx.choice('cls', [p.Integer, p.Float])
    cast = ctx.flag('cast')
    v = ctx.complex('v')
    ok, x = run(ctx, cls, dict(cast=cast), v)
    ctx.check(not ok, 'complex rejected by real-valued types')


@scenario('C01', weight=2)
def cast_number(ctx):
    """cast lifts the tolerance test but not the bounds"""
    cls = ctx.choice('cls', [p.Integer, p.Float])
    kw, lo, hi = bounds(ctx)
    good_bounds(ctx, lo, hi)
    kw['cast'] = True
    v = ctx.number('v', 'ifb', q=40, m=4096)
    if cls is p.Float and isinstance(v, int) and not isinstance(v, bool):
        ctx.assume(v <= 1 << 53)
        ctx.assume(v >= -(1 << 53))
    ok, x = run(ctx, cls, kw, v)
    if isinstance(v, float) and not finite(v):
        if ok:
            ctx.check(cls is p.Float and (exact(x, v)),
                      'non-finite only as a float')
            ctx.check(inside(v, lo, hi), 'non-finite value within bounds')
        return
    t = int(v) if cls is p.Integer else v
    ctx.check(ok == inside(t, lo, hi),
              'cast value accepted exactly when within bounds')
    if ok:
        ctx.cover('int-cast')
        ctx.check(type(x) is (int if cls is p.Integer else float),
                  'cast stores the exact type')
        ctx.check(x == t, 'cast stores the truncated value')


@scenario('C01', conc=64)
def cast_text(ctx):
    """cast accepts what the plain Python conversion accepts"""
    cls, conv = ctx.choice('cls', [(p.Integer, int), (p.Float, float)])
    kw, lo, hi = bounds(ctx, 'i')
    good_bounds(ctx, lo, hi)
    kw['cast'] = True
    v = ctx.str('v', 2 if not ctx.deep else 3, NUMSTR)
    ok, x = run(ctx, cls, kw, v)
    can, want = attempt(conv, v)
    if not can:
        ctx.check(not ok, 'text that is no number rejected')
        return
    ctx.check(ok == inside(want, lo, hi),
              'numeric text accepted exactly when within bounds')
    if ok:
        ctx.check(exact(x, want), 'numeric text converted')


@scenario('C01')
def cast_other(ctx):
    cls = ctx.choice('cls', [p.Integer, p.Float, p.Complex])
    v = any_value(ctx, 'v', 'nltdoe')
    ok, x = run(ctx, cls, dict(cast=True), v)
    ctx.check(not ok, 'unconvertible value rejected with cast')


@scenario('C01')
def bounds_config(ctx):
    """Contradictory bounds cannot be configured, in either order"""
    cls = ctx.choice('cls', [p.Integer, p.Float])
    lo = ctx.number('lo', 'if', q=8, m=4096, special=False)
    hi = ctx.number('hi', 'if', q=8, m=4096, special=False)
    if ctx.flag('max_first'):
        ok, r = attempt(cls, 'x', max=hi, min=lo)
    else:
        ok, r = attempt(cls, 'x', min=lo, max=hi)
    ctx.check(ok == (lo <= hi), 'min > max is refused, anything else allowed')
    if not ok:
        ctx.check(isinstance(r, (TypeError, AttributeError, ValueError)),
                  'refusal is a regular error')


@scenario('C01')
def bounds_inclusive(ctx):
    """The bounds themselves are legal values"""
    cls = ctx.choice('cls', [p.Integer, p.Float])
    lo = ctx.int('lo', -(1 << 52), 1 << 52)
    hi = ctx.int('hi', -(1 << 52), 1 << 52)
    ctx.assume(lo <= hi)
    prop = cls('x', min=lo, max=hi)
    for v in (lo, hi):
        ok, x = attempt(prop.validate, None, v)
        ctx.check(ok and x == v, 'bound itself accepted')
    ok, x = attempt(prop.validate, None, lo - 1)
    ctx.check(not ok, 'below the minimum rejected')
    ok, x = attempt(prop.validate, None, hi + 1)
    ctx.check(not ok, 'above the maximum rejected')


@scenario('C01', weight=2)
def stored_number(ctx):
    """Stored numbers are read as they are assigned: bounds and tolerance
    hold, values come back unchanged"""
    cls = ctx.choice('cls', [p.Integer, p.Float])
    kw, lo, hi = bounds(ctx)
    good_bounds(ctx, lo, hi)
    v = ctx.number('v', 'if', q=40, m=4096)
    if isinstance(v, int):
        ctx.assume(v <= 1 << 53)
        ctx.assume(v >= -(1 << 53))

    class A(p.HasProperties):
        x = cls('x', **kw)
    ok, a = attempt(A.deserialize, {'x': v})
    if isinstance(v, float) and not finite(v):
        ctx.check(cls is p.Float or not ok, 'no integer')
        ctx.check(not ok or exact(a.x, v) and inside(v, lo, hi), 'kept')
        return
    t = int(v) if cls is p.Integer else v
    ctx.check(ok == (abs(v - t) <= TOL and inside(t, lo, hi)),
              'read exactly when it can be assigned')
    if ok:
        ctx.check(type(a.x) is (int if cls is p.Integer else float) and
                  a.x == t, 'value')
    else:
        ctx.check(isinstance(a, ValueError), 'kind of error')


@scenario('C01', weight=2, conc=64)
def stored_text(ctx):
    """Stored text is read as the number Python reads it as"""
    cls, conv = ctx.choice('cls', [(p.Integer, int), (p.Float, float)])
    kw, lo, hi = bounds(ctx, 'i')
    good_bounds(ctx, lo, hi)
    v = ctx.str('v', 2 if not ctx.deep else 3, NUMSTR)

    class A(p.HasProperties):
        x = cls('x', **kw)
    ok, a = attempt(A.deserialize, {'x': v})
    can, want = attempt(conv, v)
    ctx.check(ok == (can and inside(want, lo, hi)),
              'read exactly when a number within bounds')
    if ok:
        ctx.check(exact(a.x, want), 'value')
    else:
        ctx.check(isinstance(a, ValueError), 'kind of error')


@scenario('C01', conc=64)
def stored_other(ctx):
    """Anything else is refused; complex numbers are read from their text"""
    cls = ctx.choice('cls', [p.Integer, p.Float, p.Complex])
    v = any_value(ctx, 'v', 'nldte', maxlen=1)

    class A(p.HasProperties):
        x = cls('x')
    ok, a = attempt(A.deserialize, {'x': v})
    ctx.check(not ok and isinstance(a, (ValueError, TypeError)), 'refused')
    s, c = ctx.choice('text', [('1', 1 + 0j), ('1j', 1j), ('(1-2j)', 1 - 2j),
                               ('x', None), ('', None), ('nan', None)])

    class C(p.HasProperties):
        x = p.Complex('x')
    ok, a = attempt(C.deserialize, {'x': s})
    if c is None:
        ctx.check(s == 'nan' or not ok and isinstance(a, ValueError),
                  'no number')
    else:
        ctx.check(ok and exact(a.x, c), 'number')
