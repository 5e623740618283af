"""C14 document metadata"""
from .common import *
from ezodf.meta import OfficeDocumentMeta, Keywords, Usertags, Statistic, TAGS

META = CN('office:meta')
DOCMETA = CN('office:document-meta')
KW = CN('meta:keyword')
UD = CN('meta:user-defined')
NAME = CN('meta:name')
VT = CN('meta:value-type')
KEYS = sorted(TAGS)


def setup(c):
    """metadata object over an arbitrary existing meta document"""
    import datetime
    from ezodf import meta as M
    e = c.element(DOCMETA)
    m = c.element(META, 'm')
    c.assume(c.h1('parent', m) == e.t)
    o = c.new_obj(OfficeDocumentMeta)
    st = c.element(CN('meta:document-statistic'), 'stats')
    c.assume(c.h1('parent', st) == m.t)
    c.assume(And(st.t != m.t, e.t != m.t, e.t != st.t))
    o.f['xmlnode'], o.f['meta'] = e, m
    for n, cls, x in (('keywords', Keywords, m), ('usertags', Usertags, m), ('count', Statistic, st)):
        o.f[n] = c.call(cls, [x], {})
    return o, e, m, st


def others(c, m, old, olds, but):
    """no other direct metadata tag changed"""
    for k in KEYS:
        if k not in but:
            v0, v1 = olds[k], c.ver.lx.view(c, m.t, CN(TAGS[k]), False)
            c.ensure('other tags unchanged', And(v1.n == v0.n, FA([xi], Implies(And(0 <= xi, xi < v0.n),
                     And(Select(v1.arr, xi) == Select(v0.arr, xi), Select(c.h['text'], Select(v1.arr, xi)) == Select(old['text'], Select(v0.arr, xi)))), Select(v1.arr, xi))))


def views_of(c, m):
    return {k: c.ver.lx.view(c, m.t, CN(TAGS[k]), False) for k in KEYS}


@unit('C14', 'ezodf.meta:OfficeDocumentMeta.__setitem__', '')
def u_set(c):
    o, e, m, st = setup(c)
    olds = views_of(c, m)
    k = KEYS[c.choose(len(KEYS))]
    v = c.string('value')
    old = c.heap()
    r = c.run(OfficeDocumentMeta.__setitem__, o, k, v)
    c.ensure('accepted', r.ok)
    g = c.run(OfficeDocumentMeta.__getitem__, o, k)
    c.ensure('reads back', g.ok and is_(c, g.value, v))
    others(c, m, old, olds, [k])
    c.ensure('attributes unchanged', c.unchanged(old, ['attr', 'tag']))
    n0 = olds[k].n
    c.ensure('no second tag', c.ver.lx.view(c, m.t, CN(TAGS[k]), False).n == If(n0 == 0, IntVal(1), n0))


@unit('C14', 'ezodf.meta:OfficeDocumentMeta.__getitem__', 'absent or unknown')
def u_get(c):
    o, e, m, st = setup(c)
    k = KEYS[c.choose(len(KEYS))]
    v = c.ver.lx.view(c, m.t, CN(TAGS[k]), False)
    old = c.heap()
    g = c.run(OfficeDocumentMeta.__getitem__, o, k)
    c.ensure('KeyError iff absent', BoolVal(g.raised(KeyError)) == (v.n == 0))
    if g.ok:
        c.ensure('text of the tag', Or(is_(c, g.value, SStr(Select(old['text'], Select(v.arr, 0)), True))))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C14', 'ezodf.meta:OfficeDocumentMeta', 'unknown key')
def u_unknown(c):
    o, e, m, st = setup(c)
    k = c.string('key')
    c.assume(And(*[k.t != c.lit(x) for x in KEYS]))
    old = c.heap()
    c.ensure('get', c.run(OfficeDocumentMeta.__getitem__, o, k).raised(KeyError))
    c.ensure('set', c.run(OfficeDocumentMeta.__setitem__, o, k, c.string('v')).raised(KeyError))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C14', 'ezodf.meta:OfficeDocumentMeta.inc_editing_cycles', '')
def u_cycles(c):
    o, e, m, st = setup(c)
    olds = views_of(c, m)
    k = 'editing-cycles'
    v = olds[k]
    t = Select(c.h['text'], Select(v.arr, 0))
    old = c.heap()
    r = c.run(OfficeDocumentMeta.inc_editing_cycles, o)
    c.ensure('accepted', r.ok)
    g = c.run(OfficeDocumentMeta.__getitem__, o, k)
    want = If(And(v.n > 0, t != NONE, is_int(t)), int_of_str(t) + 1, IntVal(1))
    c.ensure('incremented', g.ok and is_(c, g.value, SStr(str_of_int(want))))
    others(c, m, old, olds, [k])


def kwview(c, m):
    return c.ver.lx.view(c, m.t, KW, False)


def has_text(c, v, arr_text, s):
    return z3.Exists([xi], And(0 <= xi, xi < v.n, Select(arr_text, Select(v.arr, xi)) == s))


def absent(v, text, s):
    y = Select(v.arr, xi)
    return FA([xi], Implies(And(0 <= xi, xi < v.n), Select(text, y) != s), y)


@unit('C14', 'ezodf.meta:Keywords.__contains__', '')
def u_kwin(c):
    o, e, m, st = setup(c)
    v = kwview(c, m)
    s = c.string('keyword')
    old = c.heap()
    i = c.integer('i', 0)
    c.assume(i.t < v.n)
    r = c.run(Keywords.__contains__, o.f['keywords'], s)
    c.ensure('no error', r.ok)
    res = r.value if isinstance(r.value, bool) else r.value.t
    c.ensure('a present keyword is found', Implies(Select(old['text'], Select(v.arr, i.t)) == s.t, res))
    if c.branch(res):
        c.ensure('an absent keyword is not found', Not(absent(v, old['text'], s.t)))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C14', 'ezodf.meta:Keywords.add', '')
def u_kwadd(c):
    o, e, m, st = setup(c)
    v = kwview(c, m)
    s = c.string('keyword')
    olds = views_of(c, m)
    ud = c.ver.lx.view(c, m.t, UD, False)
    was = c.choose(2)
    old = c.heap()
    if was:
        i = c.integer('i', 0)
        c.assume(And(i.t < v.n, Select(old['text'], Select(v.arr, i.t)) == s.t))
    else:
        c.assume(absent(v, old['text'], s.t))
    r = c.run(Keywords.add, o.f['keywords'], s)
    c.ensure('accepted', r.ok)
    v2 = kwview(c, m)
    y = Select(v2.arr, xi)
    c.ensure('old keywords kept', FA([xi], Implies(And(0 <= xi, xi < v.n), And(y == Select(v.arr, xi), Select(c.h['text'], y) == Select(old['text'], y))), y))
    if was:
        c.ensure('present keyword not added again', v2.n == v.n)
    else:
        c.ensure('added once', And(v2.n == v.n + 1, Select(c.h['text'], Select(v2.arr, v.n)) == s.t))
    others(c, m, old, olds, [])
    c.ensure('user tags kept', same_lists(c.ver.lx.view(c, m.t, UD, False), ud))
    g = c.run(Keywords.__contains__, o.f['keywords'], s)
    c.ensure('contained', g.ok and is_(c, g.value, True))


def distinct_by(v, f):
    a, b = Select(v.arr, xi), Select(v.arr, xc)
    return FA([xi, xc], Implies(And(0 <= xi, xi < xc, xc < v.n), f(a) != f(b)), [a, b])


@unit('C14', 'ezodf.meta:Keywords.remove', '')
def u_kwrem(c):
    o, e, m, st = setup(c)
    v = kwview(c, m)
    s = c.string('keyword')
    olds = views_of(c, m)
    old = c.heap()
    c.assume(distinct_by(v, lambda x: Select(old['text'], x)))
    was = c.choose(2)
    if was:
        i = c.integer('i', 0).t
        c.assume(And(i < v.n, Select(old['text'], Select(v.arr, i)) == s.t))
    else:
        c.assume(absent(v, old['text'], s.t))
    r = c.run(Keywords.remove, o.f['keywords'], s)
    c.ensure('accepted', r.ok)
    v2 = kwview(c, m)
    y = Select(v2.arr, xi)
    if was:
        c.ensure('exactly this keyword removed', And(v2.n == v.n - 1, FA([xi], Implies(And(0 <= xi, xi < v2.n), y == Select(v.arr, If(xi < i, xi, xi + 1))), y)))
    else:
        c.ensure('nothing removed', same_lists(v2, v))
    c.ensure('texts unchanged', c.unchanged(old, ['text', 'attr', 'tag']))
    g = c.run(Keywords.__contains__, o.f['keywords'], s)
    c.ensure('not contained', g.ok and is_(c, g.value, False))
    others(c, m, old, olds, [])


@unit('C14', 'ezodf.meta:Keywords.clear', '')
def u_kwclear(c):
    o, e, m, st = setup(c)
    olds = views_of(c, m)
    v = kwview(c, m)
    old = c.heap()
    r = c.run(Keywords.clear, o.f['keywords'])
    c.ensure('accepted', r.ok)
    c.ensure('no keyword left', kwview(c, m).n == 0)
    c.ensure('texts unchanged', c.unchanged(old, ['text', 'attr', 'tag']))


def udview(c, m):
    return c.ver.lx.view(c, m.t, UD, False)


def ud_setup(c):
    o, e, m, st = setup(c)
    v = udview(c, m)
    n = c.string('name')
    at = c.h['attr']
    nm = c.lit(NAME)
    c.assume(distinct_by(v, lambda x: Select(Select(at, x), nm)))
    was = c.choose(2)
    i = None
    if was:
        i = c.integer('i', 0).t
        c.assume(And(i < v.n, Select(Select(at, Select(v.arr, i)), nm) == n.t))
    else:
        y = Select(v.arr, xi)
        c.assume(FA([xi], Implies(And(0 <= xi, xi < v.n), Select(Select(at, y), nm) != n.t), y))
    return o, m, v, n, i


@unit('C14', 'ezodf.meta:Usertags.set', '')
def u_udset(c):
    o, m, v, n, i = ud_setup(c)
    ut = o.f['usertags']
    olds = views_of(c, m)
    kw = kwview(c, m)
    kind = c.choose(4)
    val = c.string('value') if kind < 2 else c.integer('value') if kind == 2 else c.flt('value')
    vt = c.string('type') if kind == 1 else None
    j = c.integer('j', 0).t
    other = Select(v.arr, j)
    c.assume(And(j < v.n, other != (Select(v.arr, i) if i is not None else IntVal(-5))))
    old = c.heap()
    r = c.run(Usertags.set, ut, n, val, vt)
    c.ensure('accepted', r.ok)
    g = c.run(Usertags.__getitem__, ut, n)
    want = val if kind < 2 else SStr(str_of_int(val.t) if kind == 2 else str_of_flt(val.t))
    c.ensure('reads back', g.ok and is_(c, g.value, want))
    g = c.run(Usertags.typeof, ut, n)
    c.ensure('type reads back', g.ok and is_(c, g.value, vt if vt is not None else 'string'))
    v2 = udview(c, m)
    c.ensure('one tag per name', v2.n == (v.n if i is not None else v.n + 1))
    c.ensure('other tag unchanged', And(Select(v2.arr, j) == other, Select(c.h['text'], other) == Select(old['text'], other),
                                        Select(c.h['attr'], other) == Select(old['attr'], other)))
    others(c, m, old, olds, [])
    c.ensure('keywords kept', same_lists(kwview(c, m), kw))


@unit('C14', 'ezodf.meta:Usertags', 'read and delete')
def u_uddel(c):
    o, m, v, n, i = ud_setup(c)
    ut = o.f['usertags']
    old = c.heap()
    g = c.run(Usertags.__contains__, ut, n)
    c.ensure('contains', g.ok and is_(c, g.value, i is not None))
    g = c.run(Usertags.__getitem__, ut, n)
    if i is None:
        c.ensure('get of an absent name', g.raised(KeyError))
        c.ensure('type of an absent name', c.run(Usertags.typeof, ut, n).raised(KeyError))
    else:
        c.ensure('get', g.ok and is_(c, g.value, SStr(Select(old['text'], Select(v.arr, i)), True)))
    r = c.run(Usertags.__delitem__, ut, n)
    v2 = udview(c, m)
    y = Select(v2.arr, xi)
    if i is None:
        c.ensure('delete of an absent name', r.raised(KeyError))
        c.ensure('nothing removed', same_lists(v2, v))
    else:
        c.ensure('deleted', r.ok)
        c.ensure('exactly this tag removed', And(v2.n == v.n - 1, FA([xi], Implies(And(0 <= xi, xi < v2.n), y == Select(v.arr, If(xi < i, xi, xi + 1))), y)))
        g = c.run(Usertags.__contains__, ut, n)
        c.ensure('gone', g.ok and is_(c, g.value, False))
    c.ensure('content unchanged', c.unchanged(old, ['text', 'attr', 'tag']))


@unit('C14', 'ezodf.meta:Usertags.clear', '')
def u_udclear(c):
    o, e, m, st = setup(c)
    old = c.heap()
    udview(c, m)
    r = c.run(Usertags.clear, o.f['usertags'])
    c.ensure('accepted', r.ok)
    c.ensure('no tag left', udview(c, m).n == 0)
    c.ensure('content unchanged', c.unchanged(old, ['text', 'attr', 'tag']))


@unit('C14', 'ezodf.meta:Statistic', '')
def u_stat(c):
    o, e, m, st = setup(c)
    ks = sorted(Statistic.TYPES)
    k = ks[c.choose(len(ks))]
    cn = c.lit(Statistic.NS % k)
    old = c.heap()
    cnt = o.f['count']
    a0 = c.attr(st, Statistic.NS % k)
    g = c.run(Statistic.__getitem__, cnt, k)
    c.ensure('read', g.ok and iterm(g.value) is not None and iterm(g.value) == If(And(a0 != NONE, is_int(a0)), int_of_str(a0), IntVal(0)))
    v = c.integer('count')
    r = c.run(Statistic.__setitem__, cnt, k, v)
    c.ensure('accepted', r.ok)
    g = c.run(Statistic.__getitem__, cnt, k)
    c.ensure('reads back', g.ok and is_(c, g.value, v))
    c.ensure('only this attribute', c.h1('attr', st) == Store(Select(old['attr'], st.t), cn, str_of_int(v.t)))
    c.ensure('only this element', c.unchanged(old, STRUCT, [st.t]))


@unit('C14', 'ezodf.meta:Statistic', 'unknown key')
def u_statbad(c):
    o, e, m, st = setup(c)
    k = c.string('key')
    c.assume(And(*[k.t != c.lit(x) for x in sorted(Statistic.TYPES)]))
    old = c.heap()
    c.ensure('get', c.run(Statistic.__getitem__, o.f['count'], k).raised(KeyError))
    c.ensure('set', c.run(Statistic.__setitem__, o.f['count'], k, c.integer('v')).raised(KeyError))
    c.ensure('unchanged', c.unchanged(old, STRUCT))
