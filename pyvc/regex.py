"""Regular expressions applied to symbolic strings.

A pattern is parsed with CPython's own parser and turned into z3 regular
expressions.  Whether a string matches is a predicate named by the *language*
(two patterns with the same language share it, decided by z3), the captured
groups are functions of the string named by the languages of the segments.
"""
import re
import functools
import z3
from z3 import And, Implies, Not, IntVal, BoolVal
try:
    from re import _parser as sp, _constants as sc
except ImportError:                                  # pragma: no cover
    import sre_parse as sp, sre_constants as sc
from .smt import *
from .core import *
from .core import PyExc, Unsupported

LANGS = []          # (z3 regex, number)
RS = z3.ReSort(z3.StringSort())
TOP = 0x10ffff


@functools.lru_cache(None)
def leaf_chars(src, flags):
    """the characters (as ranges) matched by a one-character pattern"""
    r = re.compile(src, flags)
    out, start = [], None
    for i in range(0x3100):        # beyond: only decimal digits and word characters, handled as `wide`
        if r.fullmatch(chr(i)):
            if start is None:
                start = i
        elif start is not None:
            out.append((start, i - 1))
            start = None
    if start is not None:
        out.append((start, 0x30ff))
    wide = [i for i in range(0x3100, 0x20000) if r.fullmatch(chr(i))]
    if wide:
        s = p = wide[0]
        for i in wide[1:] + [None]:
            if i is not None and i == p + 1:
                p = i
                continue
            out.append((s, p))
            s = p = i
    return tuple(out)


def zchr(i):
    return z3.StringVal(chr(i)) if 32 <= i < 127 and i != 92 else z3.StringVal('\\u{%x}' % i)


def zranges(rs):
    if not rs:
        return z3.Empty(RS)
    xs = [z3.Re(zchr(a)) if a == b else z3.Range(zchr(a), zchr(b)) for a, b in rs]
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


class Node(object):
    """z3 regex + the characters that can occur"""
    def __init__(self, z, chars, null=False):
        self.z, self.chars, self.null = z, chars, null


EPS = Node(z3.Re(z3.StringVal('')), frozenset(), True)


def concat(xs):
    xs = [x for x in xs if x is not EPS]
    if not xs:
        return EPS
    if len(xs) == 1:
        return xs[0]
    return Node(z3.Concat(*[x.z for x in xs]), frozenset().union(*[x.chars for x in xs]), all(x.null for x in xs))


def esc(op, av, flags):
    """source text of a one-character pattern"""
    if op is sc.LITERAL:
        return re.escape(chr(av))
    if op is sc.NOT_LITERAL:
        return '[^%s]' % re.escape(chr(av))
    if op is sc.ANY:
        return '.'
    if op is sc.IN:
        s = ''
        for o, v in av:
            if o is sc.NEGATE:
                s += '^'
            elif o is sc.LITERAL:
                s += re.escape(chr(v))
            elif o is sc.RANGE:
                s += '%s-%s' % (re.escape(chr(v[0])), re.escape(chr(v[1])))
            elif o is sc.CATEGORY:
                s += {sc.CATEGORY_DIGIT: r'\d', sc.CATEGORY_NOT_DIGIT: r'\D', sc.CATEGORY_SPACE: r'\s', sc.CATEGORY_NOT_SPACE: r'\S',
                      sc.CATEGORY_WORD: r'\w', sc.CATEGORY_NOT_WORD: r'\W'}[v]
            else:
                raise Unsupported('regex class')
        return '[%s]' % s
    raise Unsupported('regex %s' % (op,))


def node(items, flags):
    """Node of a parsed pattern without anchors; groups inside are ignored"""
    out = []
    for op, av in items:
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            rs = leaf_chars(esc(op, av, flags), flags)
            out.append(Node(zranges(rs), frozenset(rs)))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            x = node(sub, flags)
            if hi is sc.MAXREPEAT:
                z = z3.Star(x.z) if lo == 0 else z3.Plus(x.z) if lo == 1 else z3.Concat(z3.Loop(x.z, lo, lo), z3.Star(x.z))
            else:
                z = z3.Option(x.z) if (lo, hi) == (0, 1) else z3.Loop(x.z, lo, hi)
            out.append(Node(z, x.chars, lo == 0 or x.null))
        elif op is sc.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported('regex group flags')
            out.append(node(av[3], flags))
        elif op is sc.BRANCH:
            xs = [node(b, flags) for b in av[1]]
            out.append(Node(z3.Union(*[x.z for x in xs]), frozenset().union(*[x.chars for x in xs]), any(x.null for x in xs)))
        else:
            raise Unsupported('regex %s' % (op,))
    return concat(out)


def same_language(a, b):
    x = z3.Const('x!', z3.StringSort())
    for p, q in ((a, b), (b, a)):
        s = z3.Solver()
        s.set('rlimit', 20000000)
        s.add(z3.InRe(x, p), Not(z3.InRe(x, q)))
        if s.check() != z3.unsat:
            return False
    return True


def subset(a, b):
    x = z3.Const('x!', z3.StringSort())
    s = z3.Solver()
    s.set('rlimit', 20000000)
    s.add(z3.InRe(x, a), Not(z3.InRe(x, b)))
    return s.check() == z3.unsat


def lang(n):
    """number of the language of Node n"""
    for i, m in enumerate(LANGS):
        if m.z.eq(n.z) or same_language(m.z, n.z):
            return i
    LANGS.append(n)
    return len(LANGS) - 1


def of_source(src):
    p = sp.parse(src)
    return node(list(p), p.state.flags)


inlang = Function('in_lang', I, T, B)
seg = Function('segment', I, T, I, T)      # (decomposition, string, number of the segment)
DECOMP = {}


@functools.lru_cache(None)
def plan(src, flags, mode):
    """(whole language, segments, groups as ranges of segments, decomposition number)"""
    p = sp.parse(src, flags)
    flags = p.state.flags
    items = list(p)
    start = end = None
    if items and items[0][0] is sc.AT and items[0][1] in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and not flags & re.M:
        start = items.pop(0)[1]
    if items and items[-1][0] is sc.AT and items[-1][1] in (sc.AT_END, sc.AT_END_STRING) and not flags & re.M:
        end = items.pop()[1]
    if mode == 'search' and start is None:
        raise Unsupported('regex search')
    segs, groups = [], {}
    pend = []

    def flush():
        if pend:
            segs.append(node(pend, flags))
            del pend[:]

    def walk(items):
        for op, av in items:
            if op is sc.SUBPATTERN and not av[1] and not av[2]:
                if av[0] is None:
                    walk(av[3])
                    continue
                flush()
                lo = len(segs)
                walk(av[3])
                flush()
                groups[av[0]] = (lo, len(segs))
            else:
                if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, sc.BRANCH) and re.search(r'SUBPATTERN, \(\d', repr([(op, av)])):
                    raise Unsupported('regex with an optional group')
                pend.append((op, av))
    walk(items)
    flush()
    if mode != 'fullmatch':
        if end is None:
            segs.append(Node(z3.Full(RS), frozenset([(0, TOP)]), True))
        elif end is sc.AT_END:
            segs.append(Node(z3.Option(z3.Re(zchr(10))), frozenset([(10, 10)]), True))
    whole = concat(segs)
    disjoint = all(a[1] < b[0] or b[1] < a[0] for i in range(len(segs)) for j in range(i) for a in segs[i].chars for b in segs[j].chars)
    key = tuple(lang(x) for x in segs) if disjoint else (src, flags, mode)
    d = DECOMP.setdefault(key, len(DECOMP))
    return lang(whole), segs, groups, d, p.state.groupdict


def facts(c, n, t):
    """what membership in the language of Node n says about the string t"""
    j = z3.Int('j!')
    c.assume(t != NONE)
    if n.chars and n.z is not None:
        lo, hi = min(a for a, b in n.chars), max(b for a, b in n.chars)
        c.assume(FA([j], Implies(And(0 <= j, j < slen(t)), And(ordf(nth(t, j)) >= lo, ordf(nth(t, j)) <= hi)), nth(t, j)))
    if not n.null:
        c.assume(t != EMPTY)
        c.assume(slen(t) > 0)
    if subset(n.z, of_source('[0-9]+').z):
        c.assume(And(is_int(t), int_of_str(t) >= 0))
        if subset(n.z, of_source('[0-9]*[1-9][0-9]*').z):
            c.assume(int_of_str(t) >= 1)
        if subset(n.z, of_source('0+').z):
            c.assume(int_of_str(t) == 0)


class SMatch(Sym):
    """a match object"""
    def __init__(self, c, s, segs, groups, names):
        self.s, self.segs, self.groups, self.names = s, segs, groups, names

    def grp(self, c, g):
        if isinstance(g, str):
            g = self.names.get(g, g)
        if g == 0:
            lo, hi = 0, len(self.segs)
        elif g in self.groups:
            lo, hi = self.groups[g]
        else:
            raise PyExc(IndexError, ('no such group',))
        t = EMPTY
        for x in self.segs[lo:hi]:
            t = x if t is EMPTY else cat(t, x)
        c.lit('')
        return SStr(t)

    def sym_getattr(self, c, name):
        if name == 'groups':
            return Native(lambda c, a, k: tuple(self.grp(c, g) for g in sorted(self.groups)), 'groups')
        if name == 'group':
            return Native(lambda c, a, k: self.grp(c, a[0] if a else 0) if len(a) < 2 else tuple(self.grp(c, g) for g in a), 'group')
        if name == 'groupdict':
            return Native(lambda c, a, k: c.new_dict(dict((n, self.grp(c, g)) for n, g in self.names.items())), 'groupdict')
        raise Unsupported('match.%s' % name)

    def sym_getitem(self, c, i):
        return self.grp(c, i)


def match(c, pat, mode, s):
    s = c.resolve_maybe(s)
    if not isinstance(s, (str, SStr)):
        raise PyExc(TypeError, ('expected string',))
    if not isinstance(pat.pattern, str):
        raise Unsupported('bytes pattern')
    if isinstance(s, str):
        c.lit(s)
        t = lit(s)
    else:
        t = s.t
    whole, segs, groups, d, names = plan(pat.pattern, pat.flags, mode)
    if not c.branch(inlang(IntVal(whole), t)):
        return None
    ts = segments(c, whole, segs, d, t)
    return SMatch(c, s, ts, groups, names)


def segments(c, whole, segs, d, t):
    ts = [seg(IntVal(d), t, IntVal(i)) for i in range(len(segs))]
    u = None
    for x in ts:
        u = x if u is None else cat(u, x)
    c.assume(u == t if u is not None else t == EMPTY)
    for n, x in zip(segs, ts):
        facts(c, n, x)
        c.assume(inlang(IntVal(lang(n)), x))
    return ts


def spec(src):
    """(membership formula, segments) of a pattern used in a specification; the pattern must match the whole string"""
    whole, segs, groups, d, names = plan(src, re.U, 'fullmatch')
    return (lambda t: inlang(IntVal(whole), t)), (lambda c, t: segments(c, whole, segs, d, t))
