"""C17 generic wrapper: children as a list, attributes as a map"""
from .common import *
from ezodf.base import GenericWrapper
from pyvc.lx import mark


def setup(c):
    e = c.element(None)
    w = c.wrapper(GenericWrapper, e)
    return e, w, c.h1('kids', e), c.h1('klen', e)


def detached(c, e, name='x'):
    x = c.element(None, name, root=True)
    c.assume(And(x.t != e.t))
    c.lx.use_pt(c)
    c.assume(Select(c.h['root'], e.t) != x.t)
    return x, c.wrapper(GenericWrapper, x)


def is_list(c, e, n, fn):
    """the children of e are fn(0..n)"""
    s = Select(c.h1('kids', e), xi)
    return And(c.h1('klen', e) == n, FA([xi], Implies(And(0 <= xi, xi < n), s == fn(xi)), s))


def content_unchanged(c, old):
    return c.unchanged(old, ['tag', 'text', 'attr'])


def others(c, old, e, x):
    y = c.element(None, 'y')
    c.assume(And(y.t != e.t, y.t != x.t))
    return And(c.h1('klen', y) == Select(old['klen'], y.t), c.h1('kids', y) == Select(old['kids'], y.t))


def norm(i, n):
    return If(i < 0, i + n, i)


@unit('C17', 'ezodf.base:GenericWrapper.append', '')
def u_append(c):
    e, w, A, n = setup(c)
    x, xw = detached(c, e)
    old = c.heap()
    meth = c.choose(2)
    r = c.run(GenericWrapper.append if meth == 0 else GenericWrapper.__iadd__, w, xw)
    c.ensure('no error', r.ok)
    c.ensure('result', r.ok and (r.value is (xw if meth == 0 else w)))
    c.ensure('appended', is_list(c, e, n + 1, lambda i: If(i < n, Select(A, i), x.t)))
    c.ensure('content unchanged', content_unchanged(c, old))
    c.ensure('other elements unchanged', others(c, old, e, x))
    g = c.run(GenericWrapper.__len__, w)
    c.ensure('len', g.ok and is_(c, g.value, SInt(n + 1)))


@unit('C17', 'ezodf.base:GenericWrapper.insert', '')
def u_insert(c):
    e, w, A, n = setup(c)
    x, xw = detached(c, e)
    i = c.integer('i')
    c.assume(And(i.t >= -n, i.t <= n))
    p = norm(i.t, n)
    old = c.heap()
    r = c.run(GenericWrapper.insert, w, i, xw)
    c.ensure('no error', r.ok)
    c.ensure('result', r.ok and r.value is xw)
    c.ensure('inserted', is_list(c, e, n + 1, lambda j: If(j < p, Select(A, j), If(j == p, x.t, Select(A, j - 1)))))
    c.ensure('content unchanged', content_unchanged(c, old))
    c.ensure('other elements unchanged', others(c, old, e, x))
    g = c.run(GenericWrapper.index, w, xw)
    c.ensure('index', g.ok and is_(c, g.value, SInt(p)))


@unit('C17', 'ezodf.base:GenericWrapper.insert_before', '')
def u_before(c):
    e, w, A, n = setup(c)
    x, xw = detached(c, e)
    t = c.element(None, 't')
    c.assume(t.t != x.t)
    tw = c.wrapper(GenericWrapper, t)
    c.assume(mark(t.t))
    old = c.heap()
    r = c.run(GenericWrapper.insert_before, w, tw, xw)
    if c.branch(Select(old['parent'], t.t) == e.t):
        p = Select(old['pos'], t.t)
        c.ensure('no error', r.ok)
        c.ensure('inserted before the target', is_list(c, e, n + 1, lambda j: If(j < p, Select(A, j), If(j == p, x.t, Select(A, j - 1)))))
        c.ensure('content unchanged', content_unchanged(c, old))
        c.ensure('other elements unchanged', others(c, old, e, x))
    else:
        c.ensure('a target that is no child is rejected', r.raised(ValueError))
        c.ensure('unchanged', c.unchanged(old, STRUCT))


def indexed(c):
    e, w, A, n = setup(c)
    i = c.integer('i')
    return e, w, A, n, i.t, i, And(i.t >= -n, i.t < n), norm(i.t, n)


@unit('C17', 'ezodf.base:GenericWrapper.get_child', '')
def u_get(c):
    e, w, A, n, t, i, inside, p = indexed(c)
    old = c.heap()
    r = c.run(GenericWrapper.get_child if c.choose(2) else GenericWrapper.__getitem__, w, i)
    if c.branch(inside):
        c.ensure('no error', r.ok)
        c.ensure('wrapper of the child', r.ok and isinstance(r.value, SWrap) and r.value.t == Select(A, p))
    else:
        c.ensure('IndexError', r.raised(IndexError))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C17', 'ezodf.base:GenericWrapper.set_child', '')
def u_set(c):
    e, w, A, n, t, i, inside, p = indexed(c)
    x, xw = detached(c, e)
    old = c.heap()
    r = c.run(GenericWrapper.set_child if c.choose(2) else GenericWrapper.__setitem__, w, i, xw)
    if c.branch(inside):
        c.ensure('no error', r.ok)
        c.ensure('replaced', is_list(c, e, n, lambda j: If(j == p, x.t, Select(A, j))))
        c.ensure('content unchanged', content_unchanged(c, old))
        c.ensure('old child detached', c.h1('parent', Select(A, p)) == 0)
    else:
        c.ensure('IndexError', r.raised(IndexError))
        c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C17', 'ezodf.base:GenericWrapper.del_child', '')
def u_del(c):
    e, w, A, n, t, i, inside, p = indexed(c)
    old = c.heap()
    r = c.run(GenericWrapper.del_child if c.choose(2) else GenericWrapper.__delitem__, w, i)
    if c.branch(inside):
        c.ensure('no error', r.ok)
        c.ensure('deleted', is_list(c, e, n - 1, lambda j: If(j < p, Select(A, j), Select(A, j + 1))))
        c.ensure('content unchanged', content_unchanged(c, old))
    else:
        c.ensure('IndexError', r.raised(IndexError))
        c.ensure('unchanged', c.unchanged(old, STRUCT))


def child_or_not(c):
    e, w, A, n = setup(c)
    t = c.element(None, 't')
    tw = c.wrapper(GenericWrapper, t)
    c.assume(mark(t.t))
    return e, w, A, n, t, tw


@unit('C17', 'ezodf.base:GenericWrapper.remove', '')
def u_remove(c):
    e, w, A, n, t, tw = child_or_not(c)
    old = c.heap()
    r = c.run(GenericWrapper.remove, w, tw)
    if c.branch(Select(old['parent'], t.t) == e.t):
        p = Select(old['pos'], t.t)
        c.ensure('no error', r.ok)
        c.ensure('removed', is_list(c, e, n - 1, lambda j: If(j < p, Select(A, j), Select(A, j + 1))))
        c.ensure('content unchanged', content_unchanged(c, old))
    else:
        c.ensure('ValueError', r.raised(ValueError))
        c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C17', 'ezodf.base:GenericWrapper.replace', '')
def u_replace(c):
    e, w, A, n, t, tw = child_or_not(c)
    x, xw = detached(c, e)
    c.assume(t.t != x.t)
    old = c.heap()
    r = c.run(GenericWrapper.replace, w, tw, xw)
    if c.branch(Select(old['parent'], t.t) == e.t):
        p = Select(old['pos'], t.t)
        c.ensure('no error', r.ok)
        c.ensure('replaced', is_list(c, e, n, lambda j: If(j == p, x.t, Select(A, j))))
        c.ensure('content unchanged', content_unchanged(c, old))
    else:
        c.ensure('ValueError', r.raised(ValueError))
        c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C17', 'ezodf.base:GenericWrapper.index', '')
def u_index(c):
    e, w, A, n, t, tw = child_or_not(c)
    old = c.heap()
    r = c.run(GenericWrapper.index, w, tw)
    if c.branch(Select(old['parent'], t.t) == e.t):
        c.ensure('index', r.ok and And(iterm(r.value) >= 0, iterm(r.value) < n, Select(A, iterm(r.value)) == t.t))
    else:
        c.ensure('ValueError', r.raised(ValueError))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C17', 'ezodf.base:GenericWrapper.clear', '')
def u_clear(c):
    e, w, A, n = setup(c)
    old = c.heap()
    r = c.run(GenericWrapper.clear, w)
    c.ensure('no error', r.ok)
    c.ensure('no children, no text', And(c.h1('klen', e) == 0, c.h1('text', e) == NONE))
    c.ensure('tag kept', c.unchanged(old, ['tag']))
    c.ensure('other elements keep their content', c.unchanged(old, ['attr', 'text'], [e.t]))


@unit('C17', 'ezodf.base:GenericWrapper.__iter__', '')
def u_iter(c):
    e, w, A, n = setup(c)
    old = c.heap()
    def harness():
        return [x for x in w]
    r = c.run(GenericWrapper.__iter__, w)
    c.ensure('no error', r.ok)
    s = c.seq_of(r.value)
    i = c.integer('i', 0)
    c.assume(i.t < n)
    c.ensure('as many as children', s.n == n)
    x = s.get(i.t)
    c.ensure('the children in order', isinstance(x, SWrap) and x.t == Select(A, i.t))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


TAG = CN('text:p')


@unit('C17', 'ezodf.base:GenericWrapper.find', '')
def u_find(c):
    e, w, A, n = setup(c)
    v = c.ver.lx.view(c, e.t, TAG, False)
    old = c.heap()
    r = c.run(GenericWrapper.find, w, TAG)
    c.ensure('no error', r.ok)
    if c.branch(v.n == 0):
        c.ensure('nothing found', r.ok and r.value is None)
    else:
        x = r.value
        t = x.t if isinstance(x, SWrap) else x.f['xmlnode'].t if isinstance(x, PObj) else IntVal(-1)
        c.ensure('the first child of the tag', t == Select(v.arr, 0))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C17', 'ezodf.base:GenericWrapper', 'attributes')
def u_attr(c):
    e, w, A, n = setup(c)
    k = c.string('key')
    old = c.heap()
    a0 = c.attr(e, k.t)
    g = c.run(GenericWrapper.get_attr, w, k)
    c.ensure('get', g.ok and is_(c, g.value, SStr(a0, True)))
    d = c.string('default', maybe=True)
    g = c.run(GenericWrapper.get_attr, w, k, d)
    c.ensure('get with default', g.ok and is_(c, g.value, SStr(If(a0 == NONE, d.t, a0), True)))
    g = c.run(GenericWrapper.get_bool_attr, w, k)
    c.ensure('get as truth value', g.ok and is_(c, g.value, SBool(a0 == c.lit('true'))))
    c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
    kind = c.choose(3)
    v = c.string('v') if kind == 0 else c.boolean('v') if kind == 1 else c.integer('v')
    if kind == 1:
        r = c.run(GenericWrapper.set_bool_attr, w, k, v)
        want = If(v.t, c.lit('true'), c.lit('false'))
    else:
        r = c.run(GenericWrapper.set_attr, w, k, v)
        want = v.t if kind == 0 else str_of_int(v.t)
        if c.branch(v.t == (EMPTY if kind == 0 else 0)):
            c.ensure('empty values are rejected', r.raised(ValueError))
            c.ensure('rejected: unchanged', c.unchanged(old, STRUCT))
            return
    c.ensure('accepted', r.ok)
    c.ensure('only this attribute', c.h1('attr', e) == Store(Select(old['attr'], e.t), k.t, want))
    c.ensure('only this element', c.unchanged(old, STRUCT, [e.t]))
    g = c.run(GenericWrapper.get_attr, w, k)
    c.ensure('reads back', g.ok and is_(c, g.value, SStr(want)))
    if kind == 1:
        g = c.run(GenericWrapper.get_bool_attr, w, k)
        c.ensure('truth value reads back', g.ok and is_(c, g.value, v))


@unit('C17', 'ezodf.base:GenericWrapper', 'text and tail')
def u_text(c):
    e, w, A, n = setup(c)
    s = c.string('s', maybe=True)
    what = ('text', 'tail')[c.choose(2)]
    old = c.heap()
    r = c.run_set(w, what, s)
    c.ensure('accepted', r.ok)
    g = c.run_get(w, what)
    c.ensure('reads back', g.ok and is_(c, g.value, s))
    c.ensure('only this text', And(c.unchanged(old, [x for x in STRUCT if x != what]), c.unchanged(old, [what], [e.t])))
    g = c.run(GenericWrapper.plaintext, w)
    t = c.h1('text', e)
    c.ensure('plain text', g.ok and is_(c, g.value, SStr(If(t == NONE, EMPTY, t))))
