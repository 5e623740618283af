"""C13 package manifest"""
from .common import *
from ezodf.manifest import Manifest

ENTRY = CN('manifest:file-entry')
PATH = CN('manifest:full-path')
MT = CN('manifest:media-type')
VER = CN('manifest:version')
OWN = 'META-INF/manifest.xml'


def setup(c):
    """a manifest with pairwise different paths; the path p is listed at i or not listed (i is None)"""
    e = c.element(CN('manifest:manifest'), root=True)
    m = c.new_obj(Manifest)
    m.f['xmlnode'] = e
    A, n, at = c.h1('kids', e), c.h1('klen', e), c.h['attr']
    pk = c.lit(PATH)
    a, b = Select(A, xi), Select(A, xc)
    c.assume(FA([xi, xc], Implies(And(0 <= xi, xi < xc, xc < n), Or(Select(Select(at, a), pk) != Select(Select(at, b), pk), Select(Select(at, a), pk) == NONE)), [a, b]))
    p = c.string('path')
    i = None
    if c.choose(2):
        i = c.integer('i', 0).t
        c.assume(And(i < n, Select(Select(at, Select(A, i)), pk) == p.t))
        c.assume(mark(Select(A, i)))
    else:
        c.assume(FA([xi], Implies(And(0 <= xi, xi < n), Select(Select(at, a), pk) != p.t), a))
    return m, e, p, i, A, n


from pyvc.lx import mark


@unit('C13', 'ezodf.manifest:Manifest.find', '')
def u_find(c):
    m, e, p, i, A, n = setup(c)
    old = c.heap()
    r = c.run(Manifest.find, m, p)
    c.ensure('no error', r.ok)
    if i is None:
        c.ensure('not found', r.ok and r.value is None)
    else:
        c.ensure('the entry of the path', r.ok and isinstance(r.value, SEl) and r.value.t == Select(A, i))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C13', 'ezodf.manifest:Manifest.add', '')
def u_add(c):
    m, e, p, i, A, n = setup(c)
    mt = c.string('mt')
    ver = c.string('version') if c.choose(2) else None
    old = c.heap()
    r = c.run(Manifest.add, m, p, mt, ver)
    c.ensure('no error', r.ok)
    if c.branch(p.t == c.lit(OWN)):
        c.ensure('the manifest itself is not listed', c.unchanged(old, STRUCT))
        c.ensure('no entry added', c.h1('klen', e) == n)
        return
    A2 = c.h1('kids', e)
    if i is None:
        c.ensure('one entry added', c.h1('klen', e) == n + 1)
        x = Select(A2, n)
        s = Select(A2, xi)
        c.ensure('other entries stay', FA([xi], Implies(And(0 <= xi, xi < n), s == Select(A, xi)), s))
        c.ensure('entry', And(c.h1('tag', x) == c.lit(ENTRY), c.attr(x, PATH) == p.t, c.attr(x, MT) == mt.t, c.attr(x, VER) == (NONE if ver is None else ver.t)))
        c.ensure('others unchanged', c.unchanged(old, ['attr', 'tag', 'text', 'tail']))
    else:
        x = Select(A, i)
        c.ensure('no entry added', And(c.h1('klen', e) == n, A2 == A))
        c.ensure('entry', And(c.attr(x, PATH) == p.t, c.attr(x, MT) == mt.t, c.attr(x, VER) == (Select(Select(old['attr'], x), c.lit(VER)) if ver is None else ver.t)))
        c.ensure('others unchanged', c.unchanged(old, STRUCT, [x]))
    g = c.run(Manifest.find, m, p)
    c.ensure('listed', g.ok and isinstance(g.value, SEl) and g.value.t == x)


@unit('C13', 'ezodf.manifest:Manifest.remove', '')
def u_remove(c):
    m, e, p, i, A, n = setup(c)
    old = c.heap()
    r = c.run(Manifest.remove, m, p)
    c.ensure('no error', r.ok)
    if i is None:
        c.ensure('nothing changed', c.unchanged(old, STRUCT))
        return
    A2 = c.h1('kids', e)
    s = Select(A2, xi)
    c.ensure('exactly this entry removed', And(c.h1('klen', e) == n - 1, FA([xi], Implies(And(0 <= xi, xi < n - 1), s == Select(A, If(xi < i, xi, xi + 1))), s)))
    c.ensure('content unchanged', c.unchanged(old, ['attr', 'tag', 'text']))
    g = c.run(Manifest.find, m, p)
    c.ensure('no longer listed', g.ok and g.value is None)


@unit('C13', 'ezodf.manifest:Manifest.__init__', 'new')
def u_new(c):
    c.lx.init(c)
    m = c.call(Manifest, [], {})
    e = m.f['xmlnode']
    c.ensure('empty manifest', And(c.h1('tag', e) == c.lit(CN('manifest:manifest')), c.h1('klen', e) == 0))
