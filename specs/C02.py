"""C02 whitespace encoding"""
from .text import *

LEVEL = 'proof'


def strings(c, L):
    """every list of texts, every list of pieces and every number among what the loop changes"""
    S, R, N = [], [], []
    fk = getattr(L.info, 'fieldkinds', {})
    for oid in sorted(L.pre.objs):
        for f, v in sorted(c.objs[oid].f.items()):
            if isinstance(v, PList) and ((oid, f) in fk or v.lid in L.info.lists):
                add(c, S, R, '%s.%s' % (oid, f), v, fk.get((oid, f), ('list', L.info.lists.get(v.lid)))[1])
            elif (oid, f) in fk and iterm(v) is not None:
                N.append(('%s.%s' % (oid, f), iterm(v)))
    for d in range(len(L.pre.envs)):
        for name, v in sorted(c.ver.env_at(L, d).vars.items()):
            if isinstance(v, PList) and ((d, name) in L.info.vars or v.lid in L.info.lists):
                add(c, S, R, '%s:%s' % (d, name), v, L.info.vars.get((d, name), ('list', L.info.lists.get(v.lid)))[1])
            elif (d, name) in L.info.vars and iterm(v) is not None:
                N.append(('%s:%s' % (d, name), iterm(v)))
    return S, R, N


def add(c, S, R, name, l, kind):
    to, none = (R, NOV) if kind == 'val' else (S, NOA)
    if kind not in ('val', 'str', 'mstr'):
        return
    if not l.concrete:
        to.append((name, l.arr, l.n))
        return
    arr = none
    for i, x in enumerate(l.items):
        arr = Store(arr, i, pack(c, x, kind))
    to.append((name, arr, IntVal(len(l.items))))


NOA = z3.Const('noarr', AIT)
NOV = z3.Const('noval', VARR)


def invariants(c, L):
    src = L.seq.src if L.seq is not None else None
    if not isinstance(src, SStr):
        return
    S, R, N = strings(c, L)
    SP = c.lit(' ')
    for rn, r, m in R:
        for nm, f in ws_facts(c, L.alloc0, r, m):
            yield '%s %s' % (rn, nm), f
        for sn, s, n in S:
            if sn == rn:
                continue
            yield '%s %s text' % (rn, sn), cat(flat(r, m), jn(s, n)) == prefix(src.t, L.k)
    for sn, s, n in S:
        for cn, q in N:
            yield '%s %s range' % (sn, cn), And(q >= 0, q <= n)
            yield '%s %s spaces' % (sn, cn), FA([xi], Implies(And(n - q <= xi, xi < n), Select(s, xi) == SP), Select(s, xi))
            yield '%s %s tail' % (sn, cn), jn(s, n) == cat(jn(s, n - q), spaces(q))
            yield '%s %s chars' % (sn, cn), chars(s, n - q)
            yield '%s %s last' % (sn, cn), Or(q == n, Select(s, n - q - 1) != SP)


@unit('C02', 'ezodf.whitespaces:encode_whitespaces', '', budget=400)
def u_encode(c):
    c.lx.init(c)
    c.lx.use_pt(c)
    axioms(c)
    for cls, tag in (('Tabulator', TAB), ('LineBreak', BRK), ('Spaces', SPC)):
        c.ver.contracts['new ezodf.whitespaces:' + cls] = new_ws(tag)
    c.ver.invariants['*'] = [invariants]
    s = c.string('plaintext')
    c.assume(prefix(s.t, slen(s.t)) == s.t)
    al0 = c.H('alloc')
    old = c.heap()
    r = c.run(whitespaces.encode_whitespaces, s)
    c.ensure('accepted', r.ok)
    if not r.ok or not isinstance(r.value, PList):
        raise PathEnd()
    l = r.value
    if l.concrete:
        from pyvc.core import list_symbolic
        list_symbolic(c, l, 'val')
    c.ensure('a list of pieces', l.kind == 'val')
    if l.kind != 'val':
        raise PathEnd()
    c.ensure('together they are the text', flat(l.arr, l.n) == s.t)
    for nm, f in ws_facts(c, al0, l.arr, l.n):
        c.ensure('pieces: ' + nm, f)
    for n in STRUCT:
        x = Select(c.h[n], xe)
        c.ensure('no existing element changed', FA([xe], Implies(xe <= al0, x == Select(old[n], xe)), x))


def plain(c, r):
    """the value of r as a term"""
    t = sterm(c, r.value) if r.ok else None
    if t is None:
        return None
    return t


def constructed(cls, tag):
    def u(c):
        c.lx.init(c)
        c.lx.use_pt(c)
        axioms(c)
        al0 = c.H('alloc')
        old = c.heap()
        n = c.integer('n')
        txt = c.lit('\t' if tag == TAB else '\n') if tag != SPC else None
        if tag == SPC and c.choose(2):
            r = c.run(cls)
            want, m = spaces(IntVal(1)), IntVal(1)
        elif tag == SPC:
            r = c.run(cls, n)
            m = If(n.t > 1, n.t, IntVal(1))
            want = spaces(m)
        else:
            r = c.run(cls)
            want, m = txt, IntVal(1)
        c.ensure('constructed', r.ok)
        if not r.ok:
            raise PathEnd()
        e = r.value.f['xmlnode']
        c.ensure('a new detached element', And(e.t > al0, e.t <= c.h['alloc'], c.h1('parent', e) == 0, c.h1('root', e) == e.t, c.h1('klen', e) == 0,
                                               c.h1('text', e) == NONE, c.h1('tail', e) == NONE, c.h1('tag', e) == c.lit(tag)))
        for comp in STRUCT:
            x = Select(c.h[comp], xe)
            c.ensure('no existing element changed', FA([xe], Implies(xe <= al0, x == Select(old[comp], xe)), x))
        old = c.heap()
        for how in ('plaintext', '__str__'):
            g = c.run(c.class_lookup(cls, how), r.value)
            c.ensure(how, BoolVal(False) if plain(c, g) is None else plain(c, g) == want)
        g = c.run_get(r.value, 'textlen')
        c.ensure('textlen', BoolVal(False) if not g.ok or iterm(g.value) is None else iterm(g.value) == m)
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
    return u


for _n, _t in (('Tabulator', TAB), ('LineBreak', BRK), ('Spaces', SPC)):
    unit('C02', 'ezodf.whitespaces:' + _n, 'new')(constructed(getattr(whitespaces, _n), _t))


@unit('C02', 'ezodf.whitespaces:Spaces.count', '')
def u_count(c):
    c.lx.init(c)
    axioms(c)
    e = c.element(SPC)
    w = c.wrapper(whitespaces.Spaces, e)
    old = c.heap()
    n = c.integer('n', 0)
    r = c.run_set(w, 'count', n)
    c.ensure('accepted', r.ok)
    g = c.run_get(w, 'count')
    c.ensure('reads back, at least one', BoolVal(False) if not g.ok or iterm(g.value) is None else iterm(g.value) == If(n.t > 1, n.t, IntVal(1)))
    x = z3.Const('key!', T)
    s = Select(c.h1('attr', e), x)
    c.ensure('other attributes unchanged', FA([x], Implies(x != c.lit(CNT), s == Select(Select(old['attr'], e.t), x)), s))
    c.ensure('only this element', c.unchanged(old, STRUCT, [e.t]))


@unit('C02', 'ezodf.whitespaces:SoftPageBreak', '')
def u_soft(c):
    c.lx.init(c)
    e = c.element(SOFT)
    w = c.wrapper(whitespaces.SoftPageBreak, e)
    for how in ('plaintext', '__str__'):
        g = c.run(c.class_lookup(whitespaces.SoftPageBreak, how), w)
        c.ensure(how, BoolVal(False) if plain(c, g) is None else plain(c, g) == EMPTY)
    g = c.run_get(w, 'textlen')
    c.ensure('textlen', BoolVal(False) if not g.ok or iterm(g.value) is None else iterm(g.value) == 0)


def joined(c, L):
    """texts collected so far are the texts of the pieces so far"""
    src = L.seq.src if L.seq is not None else None
    if not isinstance(src, PList) or src.concrete or src.kind != 'val':
        return
    for lid in sorted(L.info.lists):
        l = c.lists.get(lid)
        if l is None:
            continue
        if l.concrete:
            if not l.items:
                yield 'joined %s' % lid, L.k == 0
                yield 'texts %s' % lid, BoolVal(True)
        elif l.kind in ('str', 'mstr'):
            yield 'joined %s' % lid, jn(l.arr, l.n) == flat(src.arr, L.k)
            yield 'texts %s' % lid, FA([xi], Implies(And(0 <= xi, xi < l.n), Select(l.arr, xi) != NONE), Select(l.arr, xi))
    for (d, name), kind in sorted(L.info.vars.items(), key=str):
        v = c.ver.env_at(L, d).vars.get(name)
        if kind in ('str', 'mstr') and sterm(c, v) is not None:
            yield 'accumulated %s %s' % (d, name), sterm(c, v) == flat(src.arr, L.k)


@unit('C02', 'ezodf.whitespaces:decode_whitespaces', '')
def u_decode(c):
    c.lx.init(c)
    c.lx.use_pt(c)
    axioms(c)
    c.ver.invariants['*'] = [joined]
    wrappers(c, lambda c, w: ren(w.t))
    l = c.new_list([])
    l.items, l.n, l.arr, l.kind = None, c.fint('pieces'), c.fresh('pieces', VARR), 'val'
    c.assume(l.n >= 0)
    for nm, f in ws_facts(c, IntVal(0), l.arr, l.n):
        c.assume(f)
    old = c.heap()
    r = c.run(whitespaces.decode_whitespaces, l)
    c.ensure('accepted', r.ok)
    c.ensure('the text of the pieces', BoolVal(False) if plain(c, r) is None else plain(c, r) == flat(l.arr, l.n))
    c.ensure('nothing changed', c.unchanged(old, STRUCT))


@unit('C02', 'lemma', 'induction over lists of pieces and characters')
def u_lemmas(c):
    """the lemmas assumed by specs/text.py, from the definitions of the folds alone"""
    SP = lit(' ')
    a, b = z3.Const('a', VARR), z3.Const('b', AIT)
    v, y = z3.Const('v', Val), z3.Const('y', T)
    k, m = z3.Ints('k m')
    s, t, u = z3.Consts('s! t! u!', T)
    for f in lit_facts('\n') + lit_facts('\t') + lit_facts(' ') + [
            FA([s, t, u], cat(cat(s, t), u) == cat(s, cat(t, u)), cat(cat(s, t), u)),
            FA([s], cat(s, EMPTY) == s, cat(s, EMPTY)), FA([s], cat(EMPTY, s) == s, cat(EMPTY, s)),
            FA([s, t], And(slen(cat(s, t)) == slen(s) + slen(t), cat(s, t) != NONE), cat(s, t)), slen(EMPTY) == 0]:
        c.assume(f)

    def define(fn, arr, n, first, step):
        """fn(arr, 0) = first, fn(arr, n + 1) = step(fn(arr, n), arr, n)"""
        c.assume(fn(arr, 0) == first)
        c.assume(Implies(n >= 0, fn(arr, n + 1) == step(fn(arr, n), arr, n)))

    def induct(name, P, n):
        c.ensure(name + ': base', P(IntVal(0)))
        c.ensure(name + ': step', Implies(And(n >= 0, P(n)), P(n + 1)))

    J = lambda r, z, i: cat(r, s0(z[i]))
    F = lambda r, z, i: cat(r, render(z[i]))
    C = lambda r, z, i: And(r, char_ok(z, i))
    for name, fn, arr, x, first, step in (('joined texts', jn, b, y, EMPTY, J), ('joined pieces', flat, a, v, EMPTY, F), ('characters', chars, b, y, BoolVal(True), C)):
        st = Store(arr, k, x)
        for z in (arr, st):
            define(fn, z, m, first, step)
        c.assume(k >= 0)
        induct(name + ' before a store', lambda n: Implies(n <= k, fn(st, n) == fn(arr, n)), m)
        define(fn, st, k, first, step)
        c.ensure(name + ' after a store', Implies(fn(st, k) == fn(arr, k), fn(st, k + 1) == step(fn(arr, k), st, k)))
    c.assume(And(spaces(0) == EMPTY, *[Implies(i >= 0, spaces(i + 1) == cat(spaces(i), SP)) for i in (IntVal(0), m, m - 1)]))
    induct('spaces', lambda n: Implies(n >= 1, spaces(n) == cat(SP, spaces(n - 1))), m)
    c.assume(Implies(m >= 0, And(chars(b, m + 1) == C(chars(b, m), b, m), jn(b, m + 1) == J(jn(b, m), b, m))))
    c.ensure('characters are not empty', Implies(And(m >= 0, chars(b, m + 1)), jn(b, m + 1) != EMPTY))
    K, K2 = z3.Consts('K K2', AII)
    P, P2, L, L2 = z3.Consts('P P2 L L2', AIT)
    X = z3.Const('X', T)
    fl = lambda k_, p, l, n: flow(X, k_, p, l, n)
    for (q, p, l) in ((K, P, L), (K2, P2, L2)):
        c.assume(And(fl(q, p, l, 0) == X, Implies(m >= 0, fl(q, p, l, m + 1) == cat(cat(fl(q, p, l, m), p[q[m]]), s0(l[q[m]])))))
    c.assume(flatx(X, a, 0) == X)
    c.assume(Implies(m >= 0, flatx(X, a, m + 1) == cat(flatx(X, a, m), render(a[m]))))
    induct('pieces after a text', lambda n: flatx(X, a, n) == cat(X, flat(a, n)), m)
    same = lambda n: FA([xi], Implies(And(0 <= xi, xi < n), And(P[K[xi]] == P2[K2[xi]], s0(L[K[xi]]) == s0(L2[K2[xi]]))), K[xi])
    induct('equal flows', lambda n: Implies(same(n), fl(K, P, L, n) == fl(K2, P2, L2, n)), m)
