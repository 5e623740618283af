"""shared by C01, C02, C03: plain text of paragraphs, headings, spans and hyperlinks

render(v)      text a piece of the encoder stands for: the text itself, or the plain text of a whitespace element
flat(a, n)     concatenation of the first n pieces
flow(X,K,P,L,n)  X, followed by the plain text P and the tail L of the first n children K
flatx(X,a,n)   X, followed by the first n pieces
body(e)        own text and flow of all children: the plain text of a paragraph
"""
from .common import *
from pyvc.interp import jn, join_axioms
from ezodf import whitespaces, text as text_
from ezodf.base import GenericWrapper

VARR = z3.ArraySort(I, Val)
flat = z3.Function('flat', VARR, I, T)
ren = z3.Function('ren', I, T)
flatx = z3.Function('flatx', T, VARR, I, T)
flow = z3.Function('flow', T, AII, AIT, AIT, I, T)
fdiff = z3.Function('flow.diff', T, AII, AIT, AIT, AII, AIT, AIT, I, I)
chars = z3.Function('chars', AIT, I, B)      # single characters, no line break or tab, no two spaces in a row
clean = z3.Function('clean', T, B)
TAB, BRK, SPC, SOFT = CN('text:tab'), CN('text:line-break'), CN('text:s'), CN('text:soft-page-break')
CNT = CN('text:c')
WS = (TAB, BRK, SPC)


def s0(t):
    return If(t == NONE, EMPTY, t)


def render(v):
    return If(Val.is_VStr(v), Val.vs(v), ren(Val.vw(v)))


def single(y):
    return And(slen(y) == 1, y != lit('\n'), y != lit('\t'), y != NONE)


def char_ok(b, m):
    return And(single(b[m]), Or(m == 0, b[m] != lit(' '), b[m - 1] != lit(' ')))


def axioms(c, words=True):
    """definitions and lemmas (unit 'lemma' of C02); words: texts are a monoid"""
    a = z3.Const('fa!', VARR)
    b = z3.Const('fb!', AIT)
    v = z3.Const('fv!', Val)
    y = z3.Const('fy!', T)
    k, m = z3.Ints('fk! fm!')
    K, K2 = z3.Consts('K! K2!', AII)
    P, P2, L, L2 = z3.Consts('P! P2! L! L2!', AIT)
    SP = lit(' ')
    X, u, v_ = z3.Consts('X! fu! fv2!', T)
    g, g2 = flow(X, K, P, L, k), flow(X, K2, P2, L2, k)
    w = fdiff(X, K, P, L, K2, P2, L2, k)
    s_, t_, u_ = z3.Consts('s! t! u!', T)
    x = z3.Int('fx!')
    step = lambda X, K, P, L, m: cat(cat(flow(X, K, P, L, m), P[K[m]]), s0(L[K[m]]))
    unfold = lambda X, K, P, L, m: flow(X, K, P, L, m + 1) == step(X, K, P, L, m)
    for f in lit_facts('\n') + lit_facts('\t') + lit_facts(' ') + [
    ] + ([FA([s_, t_, u_], cat(cat(s_, t_), u_) == cat(s_, cat(t_, u_)), cat(cat(s_, t_), u_))] if words else []) + [
        FA([s_], cat(s_, EMPTY) == s_, cat(s_, EMPTY)),
        FA([s_], cat(EMPTY, s_) == s_, cat(EMPTY, s_)),
        FA([s_, t_], And(slen(cat(s_, t_)) == slen(s_) + slen(t_), cat(s_, t_) != NONE), cat(s_, t_)),
        FA([s_], prefix(s_, 0) == EMPTY, prefix(s_, 0)),
        FA([s_], Implies(s_ != NONE, prefix(s_, slen(s_)) == s_), slen(s_)),
        FA([s_, k], And(slen(nth(s_, k)) == 1, nth(s_, k) != NONE), nth(s_, k)),
        FA([s_, k, m], Implies(And(k > 0, m == k - 1), prefix(s_, k) == cat(prefix(s_, m), nth(s_, m))), [prefix(s_, k), prefix(s_, m)]),
        spaces(0) == EMPTY, spaces(1) == SP,
        FA([k], Implies(k >= 0, And(slen(spaces(k)) == k, spaces(k) != NONE)), spaces(k)),
        FA([k, m], Implies(And(k > 0, m == k - 1), And(spaces(k) == cat(spaces(m), SP), spaces(k) == cat(SP, spaces(m)))), [spaces(k), spaces(m)]),
        # texts joined
        FA([b], jn(b, 0) == EMPTY, jn(b, 0)),
        FA([b, k, m], Implies(And(k > 0, m == k - 1), jn(b, k) == cat(jn(b, m), s0(b[m]))), [jn(b, k), jn(b, m)]),
        FA([b, k, y, m], And(Implies(And(0 <= m, m <= k), jn(Store(b, k, y), m) == jn(b, m)), Implies(And(k >= 0, m == k + 1), jn(Store(b, k, y), m) == cat(jn(b, k), s0(y)))), jn(Store(b, k, y), m)),
        FA([b, k], jn(b, k) != NONE, jn(b, k)),
        # pieces joined
        FA([a], flat(a, 0) == EMPTY, flat(a, 0)),
        FA([a, k, m], Implies(And(k > 0, m == k - 1), flat(a, k) == cat(flat(a, m), render(a[m]))), [flat(a, k), flat(a, m)]),
        FA([a, k, v, m], And(Implies(And(0 <= m, m <= k), flat(Store(a, k, v), m) == flat(a, m)), Implies(And(k >= 0, m == k + 1), flat(Store(a, k, v), m) == cat(flat(a, k), render(v)))), flat(Store(a, k, v), m)),
        FA([a, k], flat(a, k) != NONE, flat(a, k)),
        FA([k], ren(k) != NONE, ren(k)),
        FA([X, a], flatx(X, a, 0) == X, flatx(X, a, 0)),
        FA([X, a, k, m], Implies(And(k > 0, m == k - 1), flatx(X, a, k) == cat(flatx(X, a, m), render(a[m]))), [flatx(X, a, k), flatx(X, a, m)]),
        # flow of children
        FA([X, K, P, L], flow(X, K, P, L, 0) == X, flow(X, K, P, L, 0)),
        FA([X, K, P, L, k, m], Implies(And(k > 0, m == k - 1), g == step(X, K, P, L, m)), [g, flow(X, K, P, L, m)]),
        FA([X, K, P, L, k], Implies(X != NONE, g != NONE), g),
        FA([X, K, P, L, m, y, k], Implies(k > 0, And(unfold(X, K, P, Store(L, m, y), k - 1), unfold(X, K, P, L, k - 1))), flow(X, K, P, Store(L, m, y), k)),
        FA([X, K, P, L, m, u, v_, k], Implies(And(k > 0, K[k - 1] == m, u != NONE, v_ != NONE),
                                              flow(X, K, P, Store(L, m, cat(u, v_)), k) == cat(cat(cat(flow(X, K, P, Store(L, m, cat(u, v_)), k - 1), P[m]), u), v_)),
           flow(X, K, P, Store(L, m, cat(u, v_)), k)),
        FA([X, K, P, L, m, x, k], Implies(And(k == m + 1, m >= 0), unfold(X, Store(K, m, x), P, L, m)), flow(X, Store(K, m, x), P, L, k)),
        # lemma (unit 'lemma'): equal flows of equal children
        FA([X, K, P, L, K2, P2, L2, k], Or(g == g2, And(0 <= w, w < k, Or(P[K[w]] != P2[K2[w]], s0(L[K[w]]) != s0(L2[K2[w]])))), [g, g2]),
        # single characters
        FA([b], chars(b, 0), chars(b, 0)),
        FA([b, k, m], Implies(And(k > 0, m == k - 1), chars(b, k) == And(chars(b, m), char_ok(b, m))), [chars(b, k), chars(b, m)]),
        FA([b, k, y, m], And(Implies(And(0 <= m, m <= k), chars(Store(b, k, y), m) == chars(b, m)),
                             Implies(And(k >= 0, m == k + 1), chars(Store(b, k, y), m) == And(chars(b, k), single(y), Or(k == 0, y != SP, b[k - 1] != SP)))), chars(Store(b, k, y), m)),
        FA([b, k], Implies(And(k >= 0, chars(b, k)), And(clean(jn(b, k)), (k > 0) == (jn(b, k) != EMPTY))), jn(b, k)),
    ]:
        c.assume(f)
    for x in ('\n', '\t', ' '):
        c.lit(x)


# ------------------------------------------------------------------ encoder

def new_ws(tag):
    """contract of the constructors of whitespace elements (units of C02)"""
    def f(c, args, kw):
        cls = {TAB: whitespaces.Tabulator, BRK: whitespaces.LineBreak, SPC: whitespaces.Spaces}[tag]
        a = bind(['count', 'xmlnode'] if tag == SPC else ['xmlnode'], args, kw, dict(count=1, xmlnode=None))
        o = c.new_obj(cls)
        if a['xmlnode'] is not None:
            o.f['xmlnode'] = a['xmlnode']
            return o
        e = c.lx.new_element(c, tag)
        t = e.t
        if tag == SPC:
            n = iterm(a['count'])
            if n is None:
                raise Unsupported('Spaces of no number')
            txt = c.fresh('spaces', T)
            c.assume(txt == spaces(If(n > 1, n, IntVal(1))))
        else:
            txt = c.lit('\t' if tag == TAB else '\n')
        c.assume(ren(t) == txt)
        if 'pt' in c.h:
            c.setH('pt', Store(c.h['pt'], t, txt))
        o.f['xmlnode'] = e
        return o
    return Con(f)


def ws_facts(c, al0, arr, n):
    """the whitespace elements among the pieces are new and distinct"""
    H = c.h
    p = Select(arr, xi)
    q = Select(arr, xc)
    e = Val.vw(p)
    return [('kinds', FA([xi], Implies(And(0 <= xi, xi < n), Or(Val.is_VStr(p), Val.is_VWr(p))), p)),
            ('clean', FA([xi], Implies(And(0 <= xi, xi < n, Val.is_VStr(p)), And(clean(Val.vs(p)), Val.vs(p) != NONE, Val.vs(p) != EMPTY)), p)),
            ('new', FA([xi], Implies(And(0 <= xi, xi < n, Val.is_VWr(p)), And(al0 < e, e <= H['alloc'])), p)),
            ('detached', FA([xi], Implies(And(0 <= xi, xi < n, Val.is_VWr(p)), And(Select(H['parent'], e) == 0, Select(H['root'], e) == e)), p)),
            ('empty', FA([xi], Implies(And(0 <= xi, xi < n, Val.is_VWr(p)), And(Select(H['klen'], e) == 0, Select(H['text'], e) == NONE, Select(H['tail'], e) == NONE)), p)),
            ('tags', FA([xi], Implies(And(0 <= xi, xi < n, Val.is_VWr(p)), Or(*[Select(H['tag'], e) == c.lit(t) for t in WS])), p)),
            ('text', FA([xi], Implies(And(0 <= xi, xi < n, Val.is_VWr(p)), Select(H['pt'], e) == ren(e)), p)),
            ('distinct', FA([xi, xc], Implies(And(0 <= xi, xi < xc, xc < n, Val.is_VWr(p), Val.is_VWr(q)), e != Val.vw(q)), [p, q]))]


def encode(c, args, kw):
    """contract of encode_whitespaces (C02): clean texts and new whitespace elements, together the text"""
    s = bind(['plaintext'], args, kw)['plaintext']
    t = sterm(c, s)
    if t is None or isinstance(s, SStr) and s.maybe and not c.entails(t != NONE):
        raise Unsupported('encode_whitespaces needs a text')
    al0 = c.H('alloc')
    al = c.fresh('alloc', I)
    c.assume(al >= al0)
    for n in ('tag', 'text', 'tail', 'attr', 'klen', 'kids', 'parent', 'pos', 'root', 'pt'):
        if n not in c.h:
            continue
        new = c.fresh(n, c.h[n].sort())
        x = Select(new, xe)
        c.assume(FA([xe], Implies(xe <= al0, x == Select(c.h[n], xe)), x))
        c.setH(n, new)
    c.setH('alloc', al)
    l = c.new_list([])
    l.items, l.n, l.arr, l.kind = None, c.fint('pieces'), c.fresh('pieces', VARR), 'val'
    c.assume(l.n >= 0)
    for nm, f in ws_facts(c, al0, l.arr, l.n):
        c.assume(f)
    c.assume(flat(l.arr, l.n) == t)
    X = z3.Const('X!', T)
    c.assume(FA([X], flatx(X, l.arr, l.n) == cat(X, t), flatx(X, l.arr, l.n)))        # lemma (unit 'lemma')
    c.lx.wf(c)
    c.lx.root_facts(c)
    x = Select(c.h['pt'], xe)
    c.assume(FA([xe], x != NONE, x))
    return l


def wrappers(c, txt):
    """contract of plaintext, __str__ and textlen of a child of whatever kind"""
    nxt = c.ver.wrap_getattr

    def f(c, w, name):
        if name in ('__str__', 'plaintext'):
            return Native(lambda c, a, k: SStr(txt(c, w)), name)
        if name == 'textlen':
            return SInt(slen(txt(c, w)))
        return nxt(c, w, name)
    c.ver.wrap_getattr = f
