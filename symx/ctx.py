"""What a scenario sees: the same interface for symbolic exploration and for
the concrete replay of one assignment on the un-instrumented code."""
import math

import z3

from . import engine as eng
from . import values as V
from .engine import EngineSignal, PathEnd
from .values import SymBool, SymComplex, SymFloat, SymInt, is_sym, mkstr

ASCII = ((32, 126),)
TEXT = ((9, 10), (32, 126), (0x660, 0x661), (0xdf, 0xe9), (0x130, 0x131),
        (0x3b1, 0x3b2), (0x2003, 0x2003), (0x1f600, 0x1f600))
LOWER = ((97, 122),)


def code_ranges(alphabet):
    if alphabet is None:
        return ASCII
    if isinstance(alphabet, str):
        return tuple((ord(c), ord(c)) for c in sorted(set(alphabet)))
    return alphabet


# ------------------------------------------------------------ value encoding

def enc(v):
    if isinstance(v, float):
        return {'$f': repr(v)}
    if isinstance(v, complex):
        return {'$c': [repr(v.real), repr(v.imag)]}
    if isinstance(v, (list, tuple)):
        return [enc(x) for x in v]
    if isinstance(v, str):
        return {'$s': [ord(c) for c in v]} if any(
            0xd800 <= ord(c) <= 0xdfff for c in v) else v
    return v


def dec(v):
    if isinstance(v, dict):
        if '$f' in v:
            return float(v['$f'])
        if '$c' in v:
            return complex(float(v['$c'][0]), float(v['$c'][1]))
        if '$s' in v:
            return ''.join(map(chr, v['$s']))
    if isinstance(v, list):
        return [dec(x) for x in v]
    return v


class Failed(BaseException):
    """A check failed during a concrete run"""


class Skipped(BaseException):
    """An assumption does not hold during a concrete run"""


class BaseCtx(object):
    symbolic = False

    def flag(self, name):
        return bool(self.pick(name, 2))

    def choice(self, name, options):
        options = list(options)
        return options[self.pick(name, len(options))]

    def number(self, name, kinds='if', **kw):
        k = kinds[self.pick(name + '.kind', len(kinds))] if len(
            kinds) > 1 else kinds
        lim = kw.pop('ints', None)
        if k == 'i':
            if lim is not None:
                return self.int(name, -lim, lim)
            return self.int(name)
        if k == 'b':
            return self.bool(name)
        if k == 'f':
            return self.float(name, **kw)
        return self.complex(name, **{a: b for a, b in kw.items()
                                     if a in ('q', 'm')})

    def cover(self, label):
        """Reachability witness"""
        self.covers[label] = self.covers.get(label, 0) + 1


# ------------------------------------------------------------ symbolic mode

class SymCtx(BaseCtx):
    symbolic = True

    def __init__(self, engine):
        self.eng = engine
        self.names = set()

    @property
    def covers(self):
        return self.eng.covers

    def _name(self, name):
        if name in self.names:
            raise RuntimeError('input %r used twice' % name)
        self.names.add(name)
        return name

    def pick(self, name, n):
        self._name(name)
        var = z3.Int('c.' + name)
        self.eng.register(name, lambda m: self._int(m, var))
        return self.eng.choose('c.' + name, n)

    @staticmethod
    def _int(m, e):
        return m.eval(e, model_completion=True).as_long()

    @staticmethod
    def _frac(m, e):
        v = m.eval(e, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        return float(v.as_fraction())

    def int(self, name, lo=None, hi=None):
        self._name(name)
        var = z3.Int('i.' + name)
        self.eng.register(name, lambda m: self._int(m, var))
        if lo is not None:
            self.eng.assume(var >= lo)
        if hi is not None:
            self.eng.assume(var <= hi)
        return SymInt(var)

    def bool(self, name):
        self._name(name)
        var = z3.Bool('b.' + name)
        self.eng.register(name, lambda m: z3.is_true(
            m.eval(var, model_completion=True)))
        return SymBool(var)

    def float(self, name, q=8, m=1 << 20, special=True):
        """finite floats k/2**q with |value| <= m, and nan/inf/-inf"""
        kind = self.pick(name + '.special', 4) if special else 0
        self._name(name)
        if kind:
            val = [None, float('inf'), float('-inf'), float('nan')][kind]
            self.eng.register(name, lambda model: val)
            return val
        k = z3.Int('k.' + name)
        e = z3.ToReal(k) / z3.RealVal(1 << q)
        self.eng.register(name, lambda model: self._frac(model, e))
        lim = m * (1 << q)
        self.eng.assume(z3.And(k >= -lim, k <= lim))
        return SymFloat(e, q, m)

    def real(self, name, lo, hi):
        """A float in [lo, hi], treated as a real number: results are exact
        and scenarios compare them with a tolerance"""
        self._name(name)
        var = z3.Real('r.' + name)
        self.eng.register(name, lambda m: self._frac(m, var))
        self.eng.assume(z3.And(var >= V.rexpr(lo), var <= V.rexpr(hi)))
        return SymFloat(var, V.APPROX, V.WIDE)

    def complex(self, name, **kw):
        re, im = self.float(name + '.re', **kw), self.float(name + '.im',
                                                            **kw)
        return SymComplex(re, im)

    def str(self, name, maxlen, alphabet=None, minlen=0):
        n = minlen + self.pick(name + '.len', maxlen - minlen + 1) \
            if maxlen > minlen else maxlen
        self._name(name)
        ranges = code_ranges(alphabet)
        chars = []
        for i in range(n):
            c = z3.Int('s.%s.%d' % (name, i))
            self.eng.assume(z3.Or(*[
                c == a if a == b else z3.And(c >= a, c <= b)
                for a, b in ranges]))
            chars.append(c)
        self.eng.register(name, lambda m: ''.join(
            chr(self._int(m, c)) for c in chars))
        return mkstr(chars)

    def assume(self, cond):
        if type(cond) is SymBool:
            self.eng.assume(cond.e)
        elif not cond:
            self.eng.assume(False)

    def check(self, cond, label, known=()):
        if type(cond) is SymBool:
            expr = cond.e
        else:
            expr = bool(cond)
        regions = []
        for kid, region in known:
            regions.append((kid, region.e if type(region) is SymBool
                            else bool(region)))
        self.eng.observed.append(('check', label, None))
        if expr is False:
            self.eng.labels[label] = self.eng.labels.get(label, 0) + 1
            self.eng.stats['checks'] += 1
            hit = [kid for kid, r in regions if r is True]
            ent = self.eng._get_model()
            self.eng._violation(label, ent, hit[0] if hit else None)
            self.eng.die(PathEnd())
        self.eng.check(expr, label, regions)

    def note(self, name, value):
        """Observed outcome, compared with the real code on a sampled model"""
        self.eng.observed.append(('note', name, value))

    def fail(self, label, detail='', known=None):
        self.eng.labels[label] = self.eng.labels.get(label, 0) + 1
        self.eng._violation(label, self.eng._get_model(), known, detail)
        self.eng.die(PathEnd())

    def fork(self, cond):
        """Decide a condition now"""
        return bool(cond)


def observe(model, v, depth=6):
    """Render an observed value under a model, comparable across modes"""
    if type(v) is SymBool:
        return z3.is_true(model.eval(v.e, model_completion=True))
    if type(v) is SymInt:
        return model.eval(v.e, model_completion=True).as_long()
    if type(v) is SymFloat:
        x = model.eval(v.e, model_completion=True)
        if v.q >= V.APPROX:
            return ['float', '?']
        return ['float', repr(x.numerator_as_long() /
                              x.denominator_as_long())]
    if type(v) is SymComplex:
        return ['complex', observe(model, v.real), observe(model, v.imag)]
    if type(v) is V.SymStr:
        return ''.join(chr(c if isinstance(c, int) else model.eval(
            c, model_completion=True).as_long()) for c in v.chars)
    if type(v) is V.SymNumStr:
        src = observe(model, v.src)
        if isinstance(src, list):
            return src[1] if src[0] == 'float' else '?'
        return str(src)
    if is_sym(v) or isinstance(v, V.OpaqueStr):
        return '?'
    if isinstance(v, bool) or v is None or isinstance(v, (int, str)):
        return v if type(v) in (bool, int, str, type(None)) else \
            [type(v).__name__, '?']
    if isinstance(v, float):
        return ['float', repr(float(v))]
    if isinstance(v, complex):
        return ['complex', ['float', repr(v.real)], ['float', repr(v.imag)]]
    if depth and isinstance(v, (list, tuple)):
        return [type(v).__name__] + [observe(model, x, depth - 1) for x in v]
    if depth and isinstance(v, (set, frozenset)):
        return [type(v).__name__, len(v)]
    if depth and isinstance(v, dict):
        return [type(v).__name__] + [
            [observe(model, k, depth - 1), observe(model, x, depth - 1)]
            for k, x in v.items()]
    return type(v).__name__


# ------------------------------------------------------------ concrete mode

class ConcCtx(BaseCtx):

    def __init__(self, inputs):
        self.inputs = inputs
        self.missing = []
        self.covers = {}
        self.observed = []
        self.failed = None
        self.known = None
        self.detail = ''

    def _get(self, name, default):
        if name not in self.inputs:
            self.missing.append(name)
            return default
        return dec(self.inputs[name])

    def pick(self, name, n):
        return min(self._get(name, 0), n - 1)

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo or 0)

    def bool(self, name):
        return self._get(name, False)

    def float(self, name, q=8, m=1 << 20, special=True):
        if special:
            self.pick(name + '.special', 4)
        return self._get(name, 0.0)

    def real(self, name, lo, hi):
        return self._get(name, float(lo))

    def complex(self, name, **kw):
        return complex(self.float(name + '.re', **kw),
                       self.float(name + '.im', **kw))

    def str(self, name, maxlen, alphabet=None, minlen=0):
        if maxlen > minlen:
            self.pick(name + '.len', maxlen - minlen + 1)
        return self._get(name, chr(code_ranges(alphabet)[0][0]) * minlen)

    def assume(self, cond):
        if not cond:
            raise Skipped()

    def check(self, cond, label, known=()):
        self.observed.append(('check', label, None))
        if not cond:
            self.failed = label
            for kid, region in known:
                if region:
                    self.known = kid
                    break
            raise Failed(label)

    def note(self, name, value):
        self.observed.append(('note', name, observe(None, value)))

    def fail(self, label, detail='', known=None):
        self.failed = label
        self.known = known
        self.detail = detail
        raise Failed(label)

    def fork(self, cond):
        return bool(cond)
