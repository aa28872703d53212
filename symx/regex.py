"""Backtracking regular-expression matching over symbolic strings.

The pattern is parsed by CPython's own ``re._parser``; every character test is
decided by the engine, so the result is exact on each path.
"""
import re
from re import _constants as C
from re import _parser as P

import z3

from . import values as V
from .engine import Unsupported
from .values import SymStr, ch, ch_ascii_or_fix, decide, mkstr

LIMIT = 20000


class SymMatch(object):

    def __init__(self, pat, s, regs):
        self.re = pat
        self.string = s
        self.regs_ = regs

    def _idx(self, g):
        if isinstance(g, str):
            try:
                return self.re.groupindex[g]
            except KeyError:
                raise IndexError('no such group')
        if not 0 <= g <= self.re.groups:
            raise IndexError('no such group')
        return g

    def _one(self, g, default=None):
        i = self._idx(g)
        r = self.regs_.get(i)
        return default if r is None else self.string[r[0]:r[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        out = tuple(self._one(g) for g in gs)
        return out[0] if len(out) == 1 else out

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._one(i, default)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default)
                for n, i in self.re.groupindex.items()}

    def span(self, g=0):
        return self.regs_.get(self._idx(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    @property
    def lastindex(self):
        return None

    def __bool__(self):
        return True


def _parse(pat):
    return P.parse(pat.pattern, pat.flags)


_cache = {}


def _tree(pat):
    got = _cache.get(pat)
    if got is None:
        got = _cache[pat] = _parse(pat)
    return got


def _category(c, cat, flags):
    """z3/bool condition: element c in category"""
    neg = cat in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE,
                  C.CATEGORY_NOT_WORD)
    base = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT,
            C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE,
            C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}.get(cat, cat)
    if not isinstance(c, int):
        if flags & re.ASCII:
            if base is C.CATEGORY_DIGIT:
                r = z3.And(c >= 48, c <= 57)
            elif base is C.CATEGORY_SPACE:
                r = z3.Or(c == 32, z3.And(c >= 9, c <= 13))
            else:
                r = z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90),
                          z3.And(c >= 97, c <= 122), c == 95)
            return z3.Not(r) if neg else r
        c2 = ch_ascii_or_fix(c, 'regex class of non-ASCII')
        if not isinstance(c2, int):
            if base is C.CATEGORY_DIGIT:
                r = z3.And(c >= 48, c <= 57)
            elif base is C.CATEGORY_SPACE:
                r = z3.Or(z3.And(c >= 28, c <= 32), z3.And(c >= 9, c <= 13))
            else:
                r = z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90),
                          z3.And(c >= 97, c <= 122), c == 95)
            return z3.Not(r) if neg else r
        c = c2
    pat = {C.CATEGORY_DIGIT: r'\d', C.CATEGORY_SPACE: r'\s',
           C.CATEGORY_WORD: r'\w'}[base]
    r = re.match(pat, chr(c), flags & re.ASCII) is not None
    return r != neg


def _lit(c, code, flags):
    if flags & re.IGNORECASE:
        if isinstance(c, int):
            return re.match(re.escape(chr(code)), chr(c),
                            flags & (re.IGNORECASE | re.ASCII)) is not None
        c2 = ch_ascii_or_fix(c, 'case-insensitive regex')
        if isinstance(c2, int):
            return _lit(c2, code, flags)
        alts = [x for x in range(128)
                if re.match(re.escape(chr(code)), chr(x), re.IGNORECASE)]
        return z3.Or(*[c == x for x in alts]) if alts else False
    return V.ch_eq(c, code)


def _in(c, items, flags):
    neg = False
    conds = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            conds.append(_lit(c, av, flags))
        elif op is C.RANGE:
            lo, hi = av
            if flags & re.IGNORECASE:
                if not isinstance(c, int):
                    c = ch_ascii_or_fix(c, 'case-insensitive regex')
                if isinstance(c, int):
                    conds.append(re.match('[%s-%s]' % (
                        re.escape(chr(lo)), re.escape(chr(hi))), chr(c),
                        re.IGNORECASE) is not None)
                else:
                    conds.append(z3.Or(
                        z3.And(c >= lo, c <= hi),
                        z3.And(c >= 65, c <= 90, c + 32 >= lo, c + 32 <= hi),
                        z3.And(c >= 97, c <= 122, c - 32 >= lo,
                               c - 32 <= hi)))
            else:
                conds.append(V.ch_in(c, lo, hi))
        elif op is C.CATEGORY:
            conds.append(_category(c, av, flags))
        else:
            raise Unsupported('regex set %s' % op)
    if any(x is True for x in conds):
        r = True
    else:
        conds = [x for x in conds if x is not False]
        r = z3.Or(*conds) if conds else False
    if neg:
        return (not r) if isinstance(r, bool) else z3.Not(r)
    return r


class _Matcher(object):

    def __init__(self, pat, s):
        self.pat = pat
        self.chars = V.chars_of(s)
        self.n = len(self.chars)
        self.steps = 0

    def at(self, av, pos, flags):
        if av is C.AT_BEGINNING_STRING:
            return pos == 0
        if av is C.AT_BEGINNING:
            if flags & re.MULTILINE and pos > 0:
                return decide(V.ch_eq(self.chars[pos - 1], 10))
            return pos == 0
        if av is C.AT_END_STRING:
            return pos == self.n
        if av is C.AT_END:
            if pos == self.n:
                return True
            if flags & re.MULTILINE or pos == self.n - 1:
                return decide(V.ch_eq(self.chars[pos], 10))
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            def word(i):
                return 0 <= i < self.n and decide(_category(
                    self.chars[i], C.CATEGORY_WORD, flags))
            b = word(pos - 1) != word(pos)
            return b if av is C.AT_BOUNDARY else not b
        raise Unsupported('regex anchor %s' % av)

    def seq(self, items, i, pos, regs, flags):
        """generator of (pos, regs) after matching items[i:] from pos"""
        self.steps += 1
        if self.steps > LIMIT:
            raise Unsupported('regex too complex')
        if i == len(items):
            yield pos, regs
            return
        op, av = items[i]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos >= self.n:
                return
            c = self.chars[pos]
            if op is C.LITERAL:
                cond = _lit(c, av, flags)
            elif op is C.NOT_LITERAL:
                cond = _lit(c, av, flags)
                cond = (not cond) if isinstance(cond, bool) \
                    else z3.Not(cond)
            elif op is C.ANY:
                cond = True
                if not flags & re.DOTALL:
                    cond = V.ch_eq(c, 10)
                    cond = (not cond) if isinstance(cond, bool) \
                        else z3.Not(cond)
            else:
                cond = _in(c, av, flags)
            if decide(cond):
                for r in self.seq(items, i + 1, pos + 1, regs, flags):
                    yield r
            return
        if op is C.AT:
            if self.at(av, pos, flags):
                for r in self.seq(items, i + 1, pos, regs, flags):
                    yield r
            return
        if op is C.BRANCH:
            for alt in av[1]:
                for p, rg in self.seq(list(alt), 0, pos, regs, flags):
                    for r in self.seq(items, i + 1, p, rg, flags):
                        yield r
            return
        if op is C.SUBPATTERN:
            group, add, rem, sub = av
            fl = (flags | add) & ~rem
            for p, rg in self.seq(list(sub), 0, pos, regs, fl):
                if group is not None:
                    rg = dict(rg)
                    rg[group] = (pos, p)
                for r in self.seq(items, i + 1, p, rg, flags):
                    yield r
            return
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            greedy = op is C.MAX_REPEAT

            def rep(count, p, rg):
                if count < lo:
                    for p2, rg2 in self.seq(sub, 0, p, rg, flags):
                        for r in rep(count + 1, p2, rg2):
                            yield r
                    return
                if not greedy:
                    yield p, rg
                if count < hi:
                    for p2, rg2 in self.seq(sub, 0, p, rg, flags):
                        if p2 == p:
                            continue
                        for r in rep(count + 1, p2, rg2):
                            yield r
                if greedy:
                    yield p, rg
            for p, rg in rep(0, pos, regs):
                for r in self.seq(items, i + 1, p, rg, flags):
                    yield r
            return
        if op is C.GROUPREF:
            if av not in regs:
                return
            a, b = regs[av]
            ref = self.chars[a:b]
            if pos + len(ref) > self.n:
                return
            for k, c in enumerate(ref):
                if not decide(V.ch_eq(self.chars[pos + k], c)):
                    return
            for r in self.seq(items, i + 1, pos + len(ref), regs, flags):
                yield r
            return
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, sub = av
            if direction < 0:
                lo, hi = sub.getwidth()
                if lo != hi:
                    raise Unsupported('variable look-behind')
                start = pos - lo
                found = None
                if start >= 0:
                    for p, rg in self.seq(list(sub), 0, start, regs, flags):
                        if p == pos:
                            found = rg
                            break
            else:
                found = None
                for p, rg in self.seq(list(sub), 0, pos, regs, flags):
                    found = rg
                    break
            ok = found is not None
            if op is C.ASSERT_NOT:
                ok, found = not ok, regs
            if ok:
                for r in self.seq(items, i + 1, pos, found, flags):
                    yield r
            return
        if op is C.ATOMIC_GROUP:
            for p, rg in self.seq(list(av), 0, pos, regs, flags):
                for r in self.seq(items, i + 1, p, rg, flags):
                    yield r
                return
            return
        raise Unsupported('regex node %s' % op)

    def match_at(self, pos, full=False):
        tree = _tree(self.pat)
        flags = self.pat.flags
        for p, regs in self.seq(list(tree), 0, pos, {}, flags):
            if full and p != self.n:
                continue
            regs = dict(regs)
            regs[0] = (pos, p)
            return regs
        return None


def _run(pat, s, positions, full):
    m = _Matcher(pat, s)
    for pos in positions(m.n):
        regs = m.match_at(pos, full)
        if regs is not None:
            return SymMatch(pat, s if isinstance(s, str) else s, regs)
    return None


def search(pat, s):
    if type(s) is not SymStr:
        return pat.search(V.native(s, 'regex'))
    return _run(pat, s, lambda n: range(n + 1), False)


def match(pat, s):
    if type(s) is not SymStr:
        return pat.match(V.native(s, 'regex'))
    return _run(pat, s, lambda n: (0,), False)


def fullmatch(pat, s):
    if type(s) is not SymStr:
        return pat.fullmatch(V.native(s, 'regex'))
    return _run(pat, s, lambda n: (0,), True)
