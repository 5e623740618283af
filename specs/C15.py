"""C15 sheets and pages: the tables (pages) of a body as a list with names"""
from .common import *
from ezodf.sheets import Sheets
from ezodf.pages import Pages
from ezodf.table import Table
from ezodf.drawingpage import DrawingPage
from ezodf import wrapcache
from pyvc.lx import mark, SMap

KINDS = ((Sheets, CN('table:table'), CN('table:name'), Table), (Pages, CN('draw:page'), CN('draw:name'), DrawingPage))


def cached_wrap(c, args, kw):
    """contract of the wrap cache: a wrapper of the element (decided by the wrapcache units)"""
    el = args[-1]
    if not isinstance(el, SEl):
        raise Unsupported('wrap of no element')
    return SWrap(el.t)


def setup(c):
    c.ver.natives[wrapcache.wrap] = Native(cached_wrap, 'wrapcache.wrap')
    cls, tag, name, child = KINDS[c.choose(2)]
    e = c.element(None)
    o = c.call(cls, [e], {})
    v = c.ver.lx.view(c, e.t, tag, False)
    return o, e, v, tag, name, child, c.h1('kids', e), c.h1('klen', e)


def new_child(c, e, tag, cls):
    x = c.element(tag, 'x', root=True)
    c.lx.use_pt(c)
    c.assume(And(x.t != e.t, Select(c.h['root'], e.t) != x.t, mark(x.t)))
    return x, c.wrapper(cls, x)


def lst(v, n, fn):
    s = Select(v.arr, xi)
    return And(v.n == n, FA([xi], Implies(And(0 <= xi, xi < n), s == fn(xi)), s))


def kidlst(c, e, n, fn):
    s = Select(c.h1('kids', e), xi)
    return And(c.h1('klen', e) == n, FA([xi], Implies(And(0 <= xi, xi < n), s == fn(xi)), s))


def now(c, e, tag):
    return c.ver.lx.view(c, e.t, tag, False)


CONTENT = ['tag', 'text', 'attr']


def key(c, v, name):
    """(key, inside, position): an index or a name"""
    at = c.h['attr']
    nm = lambda y: Select(Select(at, y), c.lit(name))
    if c.choose(2):
        i = c.integer('i')
        return i, And(i.t >= -v.n, i.t < v.n), If(i.t < 0, i.t + v.n, i.t), IndexError
    s = c.string('key')
    if c.choose(2):
        p = c.integer('p', 0).t
        c.assume(And(p < v.n, nm(Select(v.arr, p)) == s.t))
        y = Select(v.arr, xi)
        c.assume(FA([xi], Implies(And(0 <= xi, xi < p), nm(y) != s.t), y))
        return s, BoolVal(True), p, KeyError
    y = Select(v.arr, xi)
    c.assume(FA([xi], Implies(And(0 <= xi, xi < v.n), nm(y) != s.t), y))
    return s, BoolVal(False), IntVal(0), KeyError


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer', 'reading')
def u_read(c):
    o, e, v, tag, name, child, A, n = setup(c)
    old = c.heap()
    g = c.run(type_of(o).__len__, o)
    c.ensure('length', g.ok and is_(c, g.value, SInt(v.n)))
    j = c.integer('j', 0)
    c.assume(j.t < v.n)
    g = c.run(type_of(o).__iter__, o)
    s = c.seq_of(g.value)
    x = s.get(j.t)
    c.ensure('iteration', And(s.n == v.n, x.t == Select(v.arr, j.t)) if isinstance(x, SWrap) else False)
    g = c.run(type_of(o).names, o)
    s = c.seq_of(g.value)
    c.ensure('names', And(s.n == v.n, is_(c, s.get(j.t), SStr(Select(Select(old['attr'], Select(v.arr, j.t)), c.lit(name)), True))))
    c.ensure('reading changes nothing', c.unchanged(old, STRUCT))


def type_of(o):
    return o.cls


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer.__getitem__', '')
def u_get(c):
    o, e, v, tag, name, child, A, n = setup(c)
    k, inside, p, err = key(c, v, name)
    old = c.heap()
    r = c.run(type_of(o).__getitem__, o, k)
    if c.branch(inside):
        c.ensure('found', r.ok and isinstance(r.value, SWrap) and r.value.t == Select(v.arr, p))
    else:
        c.ensure('absent', r.raised(err))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer.__setitem__', '')
def u_set(c):
    o, e, v, tag, name, child, A, n = setup(c)
    x, xw = new_child(c, e, tag, child)
    k, inside, p, err = key(c, v, name)
    old = c.heap()
    r = c.run(type_of(o).__setitem__, o, k, xw)
    if c.branch(inside):
        c.ensure('no error', r.ok)
        q = Select(old['pos'], Select(v.arr, p))
        c.ensure('replaced in the list', lst(now(c, e, tag), v.n, lambda i: If(i == p, x.t, Select(v.arr, i))))
        c.ensure('other children kept', kidlst(c, e, n, lambda i: If(i == q, x.t, Select(A, i))))
    else:
        c.ensure('absent', r.raised(err))
        c.ensure('structure unchanged', c.unchanged(old, STRUCT))
    c.ensure('content unchanged', c.unchanged(old, CONTENT))


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer.__delitem__', '')
def u_del(c):
    o, e, v, tag, name, child, A, n = setup(c)
    k, inside, p, err = key(c, v, name)
    old = c.heap()
    r = c.run(type_of(o).__delitem__, o, k)
    if c.branch(inside):
        c.ensure('no error', r.ok)
        q = Select(old['pos'], Select(v.arr, p))
        c.ensure('removed from the list', lst(now(c, e, tag), v.n - 1, lambda i: Select(v.arr, If(i < p, i, i + 1))))
        c.ensure('other children kept', kidlst(c, e, n - 1, lambda i: Select(A, If(i < q, i, i + 1))))
    else:
        c.ensure('absent', r.raised(err))
        c.ensure('structure unchanged', c.unchanged(old, STRUCT))
    c.ensure('content unchanged', c.unchanged(old, CONTENT))


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer.append', '')
def u_append(c):
    o, e, v, tag, name, child, A, n = setup(c)
    x, xw = new_child(c, e, tag, child)
    old = c.heap()
    m = c.choose(2)
    r = c.run(type_of(o).append if m == 0 else type_of(o).__iadd__, o, xw)
    c.ensure('no error', r.ok)
    c.ensure('result', r.ok and r.value is (xw if m == 0 else o))
    c.ensure('last of the list', lst(now(c, e, tag), v.n + 1, lambda i: If(i == v.n, x.t, Select(v.arr, i))))
    c.ensure('other children kept', kidlst(c, e, n + 1, lambda i: If(i < n, Select(A, i), x.t)))
    c.ensure('content unchanged', c.unchanged(old, CONTENT))
    g = c.run(type_of(o).index, o, xw)
    c.ensure('index', g.ok and is_(c, g.value, SInt(v.n)))


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer.insert', '')
def u_insert(c):
    o, e, v, tag, name, child, A, n = setup(c)
    x, xw = new_child(c, e, tag, child)
    i = c.integer('i')
    # position in the list as for list.insert
    p = If(i.t < 0, If(i.t + v.n < 0, IntVal(0), i.t + v.n), If(i.t > v.n, v.n, i.t))
    old = c.heap()
    r = c.run(type_of(o).insert, o, i, xw)
    c.ensure('no error', r.ok)
    c.ensure('result', r.ok and r.value is xw)
    c.ensure('inserted in the list', lst(now(c, e, tag), v.n + 1, lambda j: If(j < p, Select(v.arr, j), If(j == p, x.t, Select(v.arr, j - 1)))))
    q = c.h1('pos', x)
    c.ensure('other children kept', kidlst(c, e, n + 1, lambda j: If(j < q, Select(A, j), If(j == q, x.t, Select(A, j - 1)))))
    c.ensure('content unchanged', c.unchanged(old, CONTENT))
    g = c.run(type_of(o).index, o, xw)
    c.ensure('index', g.ok and is_(c, g.value, SInt(p)))


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer.index', '')
def u_index(c):
    o, e, v, tag, name, child, A, n = setup(c)
    x = c.element(tag, 'x')
    old = c.heap()
    r = c.run(type_of(o).index, o, c.wrapper(child, x))
    if c.branch(Select(old['parent'], x.t) == e.t):
        c.ensure('position in the list', r.ok and iterm(r.value) is not None and And(0 <= iterm(r.value), iterm(r.value) < v.n, Select(v.arr, iterm(r.value)) == x.t))
    else:
        c.ensure('no member', r.raised(ValueError))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C15', 'ezodf.pagecontainer:AbstractPageContainer', 'wrong child or key')
def u_bad(c):
    o, e, v, tag, name, child, A, n = setup(c)
    y = c.element(CN('text:p'), 'y', root=True)
    bad = (c.wrapper(ezodf.Paragraph, y), 'text', None, 7)[c.choose(4)]
    x, xw = new_child(c, e, tag, child)
    old = c.heap()
    c.ensure('append', c.run(type_of(o).append, o, bad).raised(TypeError))
    k = c.integer('i') if c.choose(2) else c.string('key')
    c.ensure('setitem', c.run(type_of(o).__setitem__, o, k, bad).raised(TypeError))
    badkey = (None, 1.5, ('a',))[c.choose(3)]
    c.ensure('setitem with a bad key', c.run(type_of(o).__setitem__, o, badkey, xw).raised(TypeError))
    c.ensure('getitem with a bad key', c.run(type_of(o).__getitem__, o, badkey).raised(TypeError))
    c.ensure('delitem with a bad key', c.run(type_of(o).__delitem__, o, badkey).raised(TypeError))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


CACHE = type(wrapcache.wrap.__self__) if hasattr(wrapcache.wrap, '__self__') else None


def cache_obj(c):
    o = c.new_obj(CACHE)
    m = SMap(c, 'cache', I, lambda c, k: iterm(k), SWrap, lambda c, w: SWrapt(c, w))
    for n, x in list(vars(CACHE).items()):
        if type(x) is dict:
            o.f[n] = m
    # every entry is filed under the identity of its element
    s = m.val(c, xi)
    c.assume(FA([xi], Implies(m.has(c, xi), s == xi), s))
    return o, m


def SWrapt(c, w):
    if isinstance(w, SWrap):
        return w.t
    if isinstance(w, PObj):
        return w.f['xmlnode'].t
    raise Unsupported('cache entry')


def consistent(c, m):
    s = m.val(c, xi)
    return FA([xi], Implies(m.has(c, xi), s == xi), s)


if CACHE is not None:
    @unit('C15', 'ezodf.wrapcache:_WrapCache', '')
    def u_cache(c):
        e = c.element(None)
        o, m = cache_obj(c)
        old = c.heap()
        r = c.run(CACHE.wrap, o, e)
        c.ensure('a wrapper of the element', r.ok and SWrapt(c, r.value) == e.t)
        c.ensure('cache consistent after wrap', consistent(c, m))
        c.ensure('the document is not changed', c.unchanged(old, STRUCT))
        w = c.element(None, 'w')
        r = c.run(CACHE.add, o, SWrap(w.t))
        c.ensure('add', r.ok and consistent(c, m))
        r = c.run(CACHE.remove, o, SWrap(w.t))
        c.ensure('remove', r.ok and And(consistent(c, m), Not(m.has(c, w.t))))
        r = c.run(CACHE.clear, o)
        c.ensure('clear', r.ok and FA([xi], Not(m.has(c, xi)), m.has(c, xi)))
