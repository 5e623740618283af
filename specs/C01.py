"""C01 text put into paragraphs, headings, spans and hyperlinks"""
from .text import *
from ezodf.text import Span, Paragraph, Heading, Hyperlink, ListHeader, ListItem
from ezodf.cells import Cell

LEVEL = 'proof'
FLOW = (CN('text:p'), CN('text:h'), CN('text:span'), CN('text:a'))
CLASSES = (Paragraph, Heading, Span, Hyperlink)


def body(h, e):
    return flow(s0(Select(h['text'], e)), Select(h['kids'], e), h['pt'], h['tail'], Select(h['klen'], e))


def prepare(c):
    c.lx.init(c)
    c.lx.use_pt(c)
    axioms(c, words=False)
    wrappers(c, lambda c, w: Select(c.h['pt'], w.t))
    c.ver.contracts['ezodf.whitespaces:encode_whitespaces'] = Con(encode)


class State(object):
    pass


def start(c, e):
    """what the loops of append_text keep, relative to the state S"""
    S = State()
    S.e, S.h = e, dict(c.h)
    S.body = body(S.h, e)
    S.al0 = c.h['alloc']
    return S


def appending(S):
    def inv(c, L):
        src = L.seq.src if L.seq is not None else None
        if not isinstance(src, PList) or src.concrete or src.kind != 'val':
            return
        e, h, o = S.e, c.h, S.h
        n0, K0 = Select(o['klen'], e), Select(o['kids'], e)
        K, n = Select(h['kids'], e), Select(h['klen'], e)
        yield 'text so far', body(h, e) == flatx(S.body, src.arr, L.k)
        yield 'children', n >= n0
        s = Select(K, xi)
        yield 'old children', FA([xi], Implies(And(0 <= xi, xi < n0), s == Select(K0, xi)), s)
        yield 'new children', FA([xi], Implies(And(n0 <= xi, xi < n), And(s > S.al0, s <= L.alloc0)), s)
        for nm, f in kept(c, S, h):
            yield nm, f
        for nm, f in pending(c, h, src, L.k):
            yield nm, f
    return inv


def kept(c, S, h):
    e, o = S.e, S.h
    for n in ('tag', 'attr', 'klen', 'kids', 'parent', 'pos', 'text'):
        s = Select(h[n], xe)
        yield 'other elements: ' + n, FA([xe], Implies(And(xe <= S.al0, xe != e) if n not in ('tag', 'attr', 'parent', 'pos') else xe <= S.al0, s == Select(o[n], xe)), s)
    s = Select(h['tail'], xe)
    n0 = Select(o['klen'], e)
    last = Select(Select(o['kids'], e), n0 - 1)
    yield 'other elements: tail', FA([xe], Implies(And(xe <= S.al0, Or(n0 == 0, xe != last)), s == Select(o['tail'], xe)), s)
    yield 'own text', Implies(n0 > 0, Select(h['text'], e) == Select(o['text'], e))
    s = Select(h['pt'], xe)
    yield 'text of children', FA([xe], Implies(And(xe <= S.al0, Or(Select(o['parent'], xe) == e, Select(o['root'], xe) != Select(o['root'], e))), s == Select(o['pt'], xe)), s)
    s = Select(h['root'], xe)
    yield 'roots', FA([xe], Implies(xe <= S.al0, s == Select(o['root'], xe)), s)


def pending(c, h, src, k):
    p = Select(src.arr, xi)
    w = Val.vw(p)
    yield 'pieces to come', FA([xi], Implies(And(k <= xi, xi < src.n, Val.is_VWr(p)), And(Select(h['parent'], w) == 0, Select(h['root'], w) == w, Select(h['tail'], w) == NONE, Select(h['pt'], w) == ren(w))), p)


def appended(cls):
    def u(c):
        prepare(c)
        e = c.element(cls.TAG)
        w = c.wrapper(cls, e)
        s = c.string('text')
        S = start(c, e.t)
        c.ver.invariants['*'] = [appending(S)]
        r = c.run(cls.append_text, w, s)
        c.ensure('accepted', r.ok)
        if not r.ok:
            raise PathEnd()
        c.ensure('the text is appended to the plain text', body(c.h, e.t) == cat(S.body, s.t))
        n0 = Select(S.h['klen'], e.t)
        x = Select(c.h1('kids', e), xi)
        c.ensure('present children stay', And(c.h1('klen', e) >= n0, FA([xi], Implies(And(0 <= xi, xi < n0), x == Select(Select(S.h['kids'], e.t), xi)), x)))
        for nm, f in kept(c, S, c.h):
            c.ensure(nm, f)
    return u


for _c in CLASSES:
    unit('C01', 'ezodf.text:Span.append_text', _c.__name__)(appended(_c))


# ------------------------------------------------------------------ reading

def concatenating(e):
    """a text or list of texts collected while walking over the children of e is the flow of the children so far"""
    def inv(c, L):
        h = c.h
        f = flow(s0(Select(h['text'], e)), Select(h['kids'], e), h['pt'], h['tail'], L.k)
        for lid in sorted(L.info.lists):
            l = c.lists.get(lid)
            if l is None:
                continue
            if l.concrete:
                terms = [NONE if x is None else sterm(c, x) for x in l.items]
                if all(t is not None for t in terms):
                    r = EMPTY
                    for t in terms:
                        r = cat(r, s0(t))
                    yield 'joined %s' % lid, r == f
            elif l.kind in ('str', 'mstr'):
                yield 'joined %s' % lid, jn(l.arr, l.n) == f
        for (d, name), kind in sorted(L.info.vars.items(), key=str):
            v = c.ver.env_at(L, d).vars.get(name)
            if kind in ('str', 'mstr') and sterm(c, v) is not None:
                yield 'accumulated %s %s' % (d, name), s0(sterm(c, v)) == f
                yield 'accumulated %s %s text' % (d, name), sterm(c, v) != NONE
    return inv


def text_of(c, r):
    return sterm(c, r.value) if r.ok else None


def read(cls):
    def u(c):
        c.lx.init(c)
        c.lx.use_pt(c)
        axioms(c)
        wrappers(c, lambda c, w: Select(c.h['pt'], w.t))
        e = c.element(cls.TAG)
        w = c.wrapper(cls, e)
        c.ver.invariants['*'] = [concatenating(e.t)]
        x = Select(c.h['pt'], xe)
        c.assume(FA([xe], x != NONE, x))
        old = c.heap()
        r = c.run(c.class_lookup(cls, 'plaintext'), w)
        t = text_of(c, r)
        c.ensure('own text and the texts and tails of all children in order', BoolVal(False) if t is None else t == body(c.h, e.t))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
    return u


for _c in CLASSES:
    unit('C01', 'ezodf.text:Span.plaintext', _c.__name__)(read(_c))


# ------------------------------------------------------------------ making and appending

P, H = CN('text:p'), CN('text:h')
STYLE = CN('text:style-name')


def append_text(c, args, kw):
    """contract of append_text (units above)"""
    a = bind(['self', 'text'], args, kw)
    t = sterm(c, a['text'])
    if t is None or isinstance(a['text'], SStr) and a['text'].maybe and not c.entails(t != NONE):
        raise Unsupported('append_text needs a text')
    e = a['self'].f['xmlnode'].t
    S = start(c, e)
    al = c.fresh('alloc', I)
    c.assume(al >= S.al0)
    for n in ('tag', 'text', 'tail', 'attr', 'klen', 'kids', 'parent', 'pos', 'root', 'pt'):
        if n in c.h:
            c.setH(n, c.fresh(n, c.h[n].sort()))
    c.setH('alloc', al)
    for nm, f in kept(c, S, c.h):
        c.assume(f)
    c.assume(body(c.h, e) == cat(S.body, t))
    n0 = Select(S.h['klen'], e)
    K = Select(c.h['kids'], e)
    x = Select(K, xi)
    c.assume(Select(c.h['klen'], e) >= n0)
    c.assume(FA([xi], Implies(And(0 <= xi, xi < n0), x == Select(Select(S.h['kids'], e), xi)), x))
    c.assume(FA([xi], Implies(And(n0 <= xi, xi < Select(c.h['klen'], e)), And(x > S.al0, x <= al)), x))
    c.lx.wf(c)
    c.lx.root_facts(c)
    x = Select(c.h['pt'], xe)
    c.assume(FA([xe], x != NONE, x))
    # plain text is what plaintext() of the classes returns
    c.assume(Select(c.h['pt'], e) == body(c.h, e))


def making(c, words=True):
    c.lx.init(c)
    c.lx.use_pt(c)
    axioms(c, words)
    wrappers(c, lambda c, w: Select(c.h['pt'], w.t))
    c.ver.contracts['ezodf.text:Span.append_text'] = Con(append_text)


def old_elements(c, al0, old, but=None, names=STRUCT):
    for n in names:
        new = c.fresh(n + '.end', c.h[n].sort())
        c.assume(new == c.h[n])
        x = Select(new, xe)
        c.ensure('no other element changed', FA([xe], Implies(And(xe <= al0, xe != but) if but is not None else xe <= al0, x == Select(old[n], xe)), x))


def made(cls):
    def u(c):
        making(c)
        al0, old = c.H('alloc'), c.heap()
        s = c.string('text')
        st = c.string('style')
        kw = dict(text=s)
        styled = c.choose(2)
        if styled:
            kw['style_name'] = st
        if cls is Hyperlink and c.choose(2):
            kw['href'] = c.string('href')
        if cls is Heading and c.choose(2):
            kw['outline_level'] = c.integer('level', 1)
        r = c.run(cls, **kw)
        c.ensure('constructed', r.ok)
        if not r.ok:
            raise PathEnd()
        e = r.value.f['xmlnode']
        c.ensure('a new detached element', And(e.t > al0, e.t <= c.h['alloc'], c.h1('parent', e) == 0, c.h1('root', e) == e.t, c.h1('tail', e) == NONE, c.h1('tag', e) == c.lit(cls.TAG)))
        c.ensure('its plain text is the text', body(c.h, e.t) == s.t)
        c.ensure('style', c.attr(e, STYLE) == (If(st.t == EMPTY, NONE, st.t) if styled else NONE))
        if 'href' in kw:
            c.ensure('target', c.attr(e, CN('xlink:href')) == If(kw['href'].t == EMPTY, NONE, kw['href'].t))
        if cls is Heading:
            g = c.run_get(r.value, 'outline_level')
            c.ensure('level', BoolVal(False) if not g.ok else is_(c, g.value, kw.get('outline_level', 1)))
        old_elements(c, al0, old)
    return u


for _c in CLASSES:
    unit('C01', 'ezodf.text:' + _c.__name__, 'new')(made(_c))


# ------------------------------------------------------------------ lists of paragraphs

rows = z3.Function('lines', AII, AIT, I, T)                    # plain texts of the children, one line each
para = z3.Function('paras', AII, AIT, AIT, I, T)               # the same of paragraphs and headings alone
npara = z3.Function('paras.n', AII, AIT, I, I)
from pyvc.interp import jsep


pdiff = z3.Function('paras.diff', AII, AIT, AIT, AII, AIT, AIT, I, I)


def is_para(c, tag):
    return Or(tag == c.lit(P), tag == c.lit(H))


def line_axioms(c):
    K, K2 = z3.Consts('lK! lK2!', AII)
    Pt, Pt2 = z3.Consts('lP! lP2!', AIT)
    G, G2 = z3.Consts('lG! lG2!', AIT)
    b = z3.Const('lb!', AIT)
    k, m, x = z3.Ints('lk! lm! lx!')
    y, t = z3.Consts('ly! lt!', T)
    NL = c.lit('\n')
    J = lambda n, r, p: If(n == 0, p, cat(cat(r, NL), p))
    r, g, n = rows(K, Pt, k), para(K, G, Pt, k), npara(K, G, k)
    r1, g1, n1 = rows(K, Pt, m), para(K, G, Pt, m), npara(K, G, m)
    yes = is_para(c, G[K[m]])
    w = pdiff(K, G, Pt, K2, G2, Pt2, k)
    diff = And(0 <= w, w < k, Or(is_para(c, G[K[w]]) != is_para(c, G2[K2[w]]), And(is_para(c, G[K[w]]), Pt[K[w]] != Pt2[K2[w]])))
    unfold = lambda K, G, Pt, m: And(npara(K, G, m + 1) == If(is_para(c, G[K[m]]), npara(K, G, m) + 1, npara(K, G, m)),
                                     para(K, G, Pt, m + 1) == If(is_para(c, G[K[m]]), J(npara(K, G, m), para(K, G, Pt, m), Pt[K[m]]), para(K, G, Pt, m)))
    for f in [
        FA([b], jsep(NL, b, 0) == EMPTY, jsep(NL, b, 0)),
        FA([b, k, m], Implies(And(k > 0, m == k - 1), jsep(NL, b, k) == J(m, jsep(NL, b, m), b[m])), [jsep(NL, b, k), jsep(NL, b, m)]),
        FA([b, k, y, m], And(Implies(And(0 <= m, m <= k), jsep(NL, Store(b, k, y), m) == jsep(NL, b, m)), Implies(And(k >= 0, m == k + 1), jsep(NL, Store(b, k, y), m) == J(k, jsep(NL, b, k), y))), jsep(NL, Store(b, k, y), m)),
        FA([b, k], jsep(NL, b, k) != NONE, jsep(NL, b, k)),
        FA([K, Pt], rows(K, Pt, 0) == EMPTY, rows(K, Pt, 0)),
        FA([K, Pt, k, m], Implies(And(k > 0, m == k - 1), r == J(m, r1, Pt[K[m]])), [r, r1]),
        FA([K, G, Pt], And(para(K, G, Pt, 0) == EMPTY), para(K, G, Pt, 0)),
        FA([K, G], And(npara(K, G, 0) == 0), npara(K, G, 0)),
        FA([K, G, k, m], Implies(And(k > 0, m == k - 1), n == If(yes, n1 + 1, n1)), [n, n1]),
        FA([K, G, k], Implies(k >= 0, n >= 0), n),
        # lemma (unit 'lemma'): same paragraphs of the same texts
        FA([K, G, Pt, K2, G2, Pt2, k], Or(And(g == para(K2, G2, Pt2, k), npara(K, G, k) == npara(K2, G2, k)), diff), [g, para(K2, G2, Pt2, k)]),
        FA([K, G, Pt, m, x, k], Implies(And(k == m + 1, m >= 0), unfold(Store(K, m, x), G, Pt, m)), para(Store(K, m, x), G, Pt, k)),
        FA([K, G, Pt, k, m], Implies(And(k > 0, m == k - 1), g == If(yes, J(n1, g1, Pt[K[m]]), g1)), [g, g1]),
    ]:
        c.assume(f)


@unit('C01', 'lemma', 'induction over lists of children')
def u_lemma(c):
    K, K2 = z3.Consts('K K2', AII)
    Pt, Pt2 = z3.Consts('P P2', AIT)
    G, G2 = z3.Consts('G G2', AIT)
    m = z3.Int('m')
    NL = c.lit('\n')
    J = lambda n, r, p: If(n == 0, p, cat(cat(r, NL), p))
    for k, g, p in ((K, G, Pt), (K2, G2, Pt2)):
        yes = is_para(c, g[k[m]])
        c.assume(And(para(k, g, p, 0) == EMPTY, npara(k, g, 0) == 0))
        c.assume(Implies(m >= 0, And(npara(k, g, m + 1) == If(yes, npara(k, g, m) + 1, npara(k, g, m)),
                                     para(k, g, p, m + 1) == If(yes, J(npara(k, g, m), para(k, g, p, m), p[k[m]]), para(k, g, p, m)))))
    one = lambda i: And(is_para(c, G[K[i]]) == is_para(c, G2[K2[i]]), Implies(is_para(c, G[K[i]]), Pt[K[i]] == Pt2[K2[i]]))
    same = lambda n: FA([xi], Implies(And(0 <= xi, xi < n), one(xi)), K[xi])
    Q = lambda n: Implies(same(n), And(para(K, G, Pt, n) == para(K2, G2, Pt2, n), npara(K, G, n) == npara(K2, G2, n)))
    c.ensure('equal lines: base', Q(IntVal(0)))
    c.ensure('equal lines: step', Implies(And(m >= 0, Q(m)), Q(m + 1)))


def registry(c):
    """class names of the wrappers, from the registry of the running code"""
    t = z3.Const('rt!', T)
    for name in ('Paragraph', 'Heading'):
        tags = [x for x, cls in c.ver.X._ClassRegistry._classmap.items() if cls.__name__ == name]
        c.assume(FA([t], (kind_of(t) == c.lit(name)) == Or(*[t == c.lit(x) for x in tags]), kind_of(t)))


def lines(e, want, count):
    def inv(c, L):
        h = c.h
        f, n = want(c, h, e, L.k), count(c, h, e, L.k)
        for lid in sorted(L.info.lists):
            l = c.lists.get(lid)
            if l is None:
                continue
            if l.concrete:
                if not l.items:
                    yield 'joined %s' % lid, And(f == EMPTY, n == 0)
                    yield 'texts %s' % lid, BoolVal(True)
            elif l.kind in ('str', 'mstr'):
                yield 'joined %s' % lid, And(jsep(c.lit('\n'), l.arr, l.n) == f, l.n == n)
                yield 'texts %s' % lid, FA([xi], Implies(And(0 <= xi, xi < l.n), Select(l.arr, xi) != NONE), Select(l.arr, xi))
    return inv


all_rows = lambda c, h, e, k: rows(Select(h['kids'], e), h['pt'], k)
all_count = lambda c, h, e, k: k
par_rows = lambda c, h, e, k: para(Select(h['kids'], e), h['tag'], h['pt'], k)
par_count = lambda c, h, e, k: npara(Select(h['kids'], e), h['tag'], k)


def read_lines(cls, want, count):
    def u(c):
        making(c)
        line_axioms(c)
        registry(c)
        c.ver.loop_comps = True
        x = Select(c.h['pt'], xe)
        c.assume(FA([xe], x != NONE, x))
        e = c.element(cls.TAG)
        w = c.wrapper(cls, e)
        c.ver.invariants['*'] = [lines(e.t, want, count)]
        old = c.heap()
        r = c.run(c.class_lookup(cls, 'plaintext'), w)
        t = text_of(c, r)
        c.ensure('the lines of the paragraphs in order', BoolVal(False) if t is None else t == want(c, c.h, e.t, c.h1('klen', e)))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
    return u


for _c in (ListHeader, ListItem):
    unit('C01', 'ezodf.text:ListHeader.plaintext', _c.__name__)(read_lines(_c, all_rows, all_count))
unit('C01', 'ezodf.cells:Cell.plaintext', '')(read_lines(Cell, par_rows, par_count))


def define(c, e):
    """plain text of a paragraph, heading, span or hyperlink is what its plaintext() returns (units above)"""
    c.assume(Select(c.h['pt'], e) == body(c.h, e))


def mention(c, *terms):
    for t in terms:
        x = c.fresh('term', t.sort())
        c.assume(x == t)


def new_item(cls):
    def u(c):
        making(c)
        line_axioms(c)
        al0, old = c.H('alloc'), c.heap()
        s = c.string('text')
        r = c.run(cls, s)
        c.ensure('constructed', r.ok)
        if not r.ok:
            raise PathEnd()
        e = r.value.f['xmlnode']
        c.ensure('a new detached element', And(e.t > al0, e.t <= c.h['alloc'], c.h1('parent', e) == 0, c.h1('root', e) == e.t, c.h1('tail', e) == NONE, c.h1('tag', e) == c.lit(cls.TAG)))
        K, n = c.h1('kids', e), c.h1('klen', e)
        mention(c, rows(K, c.h['pt'], IntVal(0)))
        c.ensure('its plain text is the text', rows(K, c.h['pt'], n) == s.t)
        c.ensure('one paragraph', If(s.t == EMPTY, n == 0, And(n == 1, Select(c.h['tag'], Select(K, 0)) == c.lit(P))))
        old_elements(c, al0, old)
    return u


for _c in (ListHeader, ListItem):
    unit('C01', 'ezodf.text:' + _c.__name__, 'new')(new_item(_c))


VTYPE = CN('office:value-type')


@unit('C01', 'ezodf.cells:Cell.append_text', '')
def u_cell(c):
    making(c, False)
    line_axioms(c)
    registry(c)
    c.ver.wrap_split = [P, H]
    mention(c, c.lit(P), c.lit(H))
    e = c.element(CN('table:table-cell'))
    w = c.wrapper(Cell, e)
    s = c.string('text')
    x = Select(c.h['pt'], xe)
    c.assume(FA([xe], x != NONE, x))
    K, n = c.h1('kids', e), c.h1('klen', e)
    last = Select(K, n - 1)
    define(c, last)
    old = c.heap()
    flowed = And(n > 0, is_para(c, Select(c.h['tag'], last)))
    before = para(K, c.h['tag'], c.h['pt'], n)
    m = npara(K, c.h['tag'], n)
    pre = cat(para(K, c.h['tag'], c.h['pt'], n - 1), c.lit('\n'))
    pl = Select(c.h['pt'], last)
    c.assume(cat(cat(pre, pl), s.t) == cat(pre, cat(pl, s.t)))          # texts are a monoid
    mention(c, before, m, npara(K, c.h['tag'], n - 1))
    kw = dict(style_name=c.string('style')) if c.choose(2) else {}
    r = c.run(Cell.append_text, w, s, **kw)
    isstr = c.attr(e, VTYPE) == c.lit('string')
    if not r.ok:
        c.ensure('refused only in cells of other types', And(BoolVal(r.raised(TypeError)), Not(isstr)))
        c.ensure('nothing changed', c.unchanged(old, STRUCT))
        raise PathEnd()
    c.ensure('only string cells', isstr)
    flowing = c.branch(flowed)
    if flowing:
        define(c, last)
    G, pt = name(c, c.h['tag'], c.h['pt'])
    K1, n1 = name(c, c.h1('kids', e), c.h1('klen', e))
    k0 = n - 1 if flowing else n
    x, y = Select(K1, xi), Select(K, xi)
    have(c, 'children before', FA([xi], Implies(And(0 <= xi, xi < k0), x == y), x, y))
    have(c, 'their tags', FA([xi], Implies(And(0 <= xi, xi < k0), Select(G, y) == Select(old['tag'], y)), y))
    have(c, 'their text', FA([xi], Implies(And(0 <= xi, xi < k0), Select(pt, y) == Select(old['pt'], y)), y))
    mention(c, para(K1, G, pt, k0), para(K, old['tag'], old['pt'], k0))
    have(c, 'same lines before', And(para(K1, G, pt, k0) == para(K, old['tag'], old['pt'], k0), npara(K1, G, k0) == npara(K, old['tag'], k0)))
    after = para(K1, G, pt, n1)
    if not flowing:
        p = Select(K1, n)
        have(c, 'a paragraph is appended', And(n1 == n + 1, Select(G, p) == c.lit(P)))
        define(c, p)
        have(c, 'of the text', Select(pt, p) == s.t)
        c.ensure('the text follows in a new line', after == If(m == 0, s.t, cat(cat(before, c.lit('\n')), s.t)))
    else:
        have(c, 'same last paragraph', And(n1 == n, Select(K1, n - 1) == last, Select(G, last) == Select(old['tag'], last)))
        h0, h = old, c.h
        k, k1 = name(c, Select(h0['kids'], last), Select(h['kids'], last))
        m0 = Select(h0['klen'], last)
        have(c, 'a span is appended to it', Select(h['klen'], last) == m0 + 1)
        tl = name(c, h['tail'])[0]
        x, y = Select(k1, xi), Select(k, xi)
        have(c, 'its children before', FA([xi], Implies(And(0 <= xi, xi < m0), And(x == y, Select(pt, y) == Select(h0['pt'], y), Select(tl, y) == Select(h0['tail'], y))), x, y))
        X = s0(Select(h0['text'], last))
        have(c, 'its own text', Select(h['text'], last) == Select(h0['text'], last))
        have(c, 'its text before', flow(X, k1, pt, tl, m0) == flow(X, k, h0['pt'], h0['tail'], m0))
        p = Select(k1, m0)
        define(c, p)
        have(c, 'the text of the span', And(Select(pt, p) == s.t, Select(tl, p) == NONE))
        have(c, 'its text', Select(pt, last) == cat(Select(h0['pt'], last), s.t))
        c.ensure('the text is appended to the last paragraph', after == cat(before, s.t))


def name(c, *terms):
    """short names for long terms"""
    r = []
    for t in terms:
        x = c.fresh('end', t.sort())
        c.assume(x == t)
        r.append(x)
    return r


def have(c, what, f):
    """a step of the proof"""
    c.ensure(what, f)
    c.assume(f)

ASSUMED = ['encode_whitespaces: clean texts and new whitespace elements that decode to the text (proved as C02)',
           'append_text of paragraphs, headings, spans and hyperlinks at its call sites (proved here)',
           'plaintext() of a child of whatever kind returns its plain text, a ghost value of the element that changes only with its content']
