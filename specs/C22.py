"""C22 style containers: styles by name"""
from .common import *
from ezodf.styles import OfficeFontFaceDecls, OfficeStyles, OfficeAutomaticStyles, OfficeMasterStyles, Style
from pyvc.lx import mark, SMap

CLASSES = (OfficeFontFaceDecls, OfficeStyles, OfficeAutomaticStyles, OfficeMasterStyles)
NAME = CN('style:name')


def elt(c, v):
    return v.t if isinstance(v, (SEl, SWrap)) else v.f['xmlnode'].t if isinstance(v, PObj) and isinstance(v.f.get('xmlnode'), SEl) else None


def name_of(c, y, h=None):
    return Select(Select((h or c.h)['attr'], y), c.lit(NAME))


def inv(c, e, m, extra=lambda y: BoolVal(True)):
    """every cached style is the first child with that name"""
    if m is None:
        return BoolVal(True)
    s = z3.Const('s!', T)
    y = m.val(c, s)
    a = Select(c.h1('kids', e), xi)
    return And(FA([s], Implies(m.has(c, s), And(Select(c.h['parent'], y) == e.t, name_of(c, y) == s, s != NONE, y > 0, extra(y))), m.has(c, s)),
               FA([s, xi], Implies(And(m.has(c, s), 0 <= xi, xi < Select(c.h['pos'], y)), name_of(c, a) != s), [m.has(c, s), a]))


def setup(c):
    cls = CLASSES[c.choose(4)]
    e = c.element(cls.TAG)
    o = c.call(cls, [e], {})
    m = None
    for f, x in list(o.f.items()):
        if isinstance(x, PDict) and not x.d:     # the name cache in an arbitrary consistent state
            def unmk(c, v):
                t = elt(c, v) if isinstance(v, SEl) else None
                if t is None:
                    raise Unsupported('cache entry is no element')
                return t
            m = o.f[f] = SMap(c, 'styles', T, lambda c, k: sterm(c, k), SEl, unmk)
    A, n = c.h1('kids', e), c.h1('klen', e)
    c.assume(inv(c, e, m, mark))     # mark: instantiation hint only
    return o, e, m, A, n


def first(c, A, p, k):
    """p is the first position of name k"""
    y = Select(A, xi)
    c.assume(FA([xi], Implies(And(0 <= xi, xi < p), name_of(c, y) != k.t), y))


def find_case(c, e, A, n):
    """a name, and its position or None"""
    k = c.string('key')
    if c.choose(2):
        p = c.integer('p', 0).t
        c.assume(And(p < n, name_of(c, Select(A, p)) == k.t))
        c.assume(mark(Select(A, p)))
        first(c, A, p, k)
        return k, p
    y = Select(A, xi)
    c.assume(FA([xi], Implies(And(0 <= xi, xi < n), name_of(c, y) != k.t), y))
    return k, None


@unit('C22', 'ezodf.styles:Container.__getitem__', '')
def u_get(c):
    o, e, m, A, n = setup(c)
    k, p = find_case(c, e, A, n)
    old = c.heap()
    r = c.run(o.cls.__getitem__, o, k)
    if p is None:
        c.ensure('absent', r.raised(KeyError))
    else:
        t = elt(c, r.value) if r.ok else None
        c.ensure('the style of that name', t is not None and t == Select(A, p))
    c.ensure('cache consistent', inv(c, e, m))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C22', 'ezodf.styles:Container.__setitem__', '')
def u_set(c):
    o, e, m, A, n = setup(c)
    k, p = find_case(c, e, A, n)
    x = c.element(None, 'x', root=True)
    c.lx.use_pt(c)
    c.assume(And(x.t != e.t, Select(c.h['root'], e.t) != x.t, mark(x.t), name_of(c, x.t) == k.t))
    old = c.heap()
    r = c.run(o.cls.__setitem__, o, k, c.wrapper(Style, x))
    c.ensure('accepted', r.ok)
    s = Select(c.h1('kids', e), xi)
    if p is None:
        c.ensure('added', And(c.h1('klen', e) == n + 1, FA([xi], Implies(And(0 <= xi, xi < n + 1), s == If(xi < n, Select(A, xi), x.t)), s)))
    else:
        c.ensure('replaced', And(c.h1('klen', e) == n, FA([xi], Implies(And(0 <= xi, xi < n), s == If(xi == p, x.t, Select(A, xi))), s)))
    c.ensure('content unchanged', c.unchanged(old, ['tag', 'text', 'attr']))
    c.ensure('cache consistent', inv(c, e, m))
    g = c.run(o.cls.__getitem__, o, k)
    t = elt(c, g.value) if g.ok else None
    c.ensure('reads back', t is not None and t == x.t)


@unit('C22', 'ezodf.styles:Container', 'a style of another name is not affected')
def u_other(c):
    o, e, m, A, n = setup(c)
    k, p = find_case(c, e, A, n)
    x = c.element(None, 'x', root=True)
    c.lx.use_pt(c)
    c.assume(And(x.t != e.t, Select(c.h['root'], e.t) != x.t, mark(x.t), name_of(c, x.t) == k.t))
    k2 = c.string('other')
    c.assume(k2.t != k.t)
    q = c.integer('q', 0).t
    c.assume(And(q < n, name_of(c, Select(A, q)) == k2.t, mark(Select(A, q))))
    first(c, A, q, k2)
    r = c.run(o.cls.__setitem__, o, k, c.wrapper(Style, x))
    g = c.run(o.cls.__getitem__, o, k2)
    t = elt(c, g.value) if g.ok else None
    c.ensure('other style reads as before', t is not None and t == Select(A, q))


@unit('C22', 'ezodf.styles:BaseStyle.__getitem__', 'attributes of a style')
def u_attr(c):
    from ezodf.styles import DefaultStyle, PageLayout
    cls = (Style, DefaultStyle, PageLayout)[c.choose(3)]
    e = c.element(cls.TAG)
    o = c.wrapper(cls, e)
    ks = sorted(cls.ATTRIBUTEMAP)
    k = ks[c.choose(len(ks))]
    old = c.heap()
    r = c.run(cls.__getitem__, o, k)
    c.ensure('attribute value', r.ok and is_(c, r.value, SStr(c.attr(e, cls.ATTRIBUTEMAP[k]), True)))
    c.ensure('attribute of the style namespace', cls.ATTRIBUTEMAP[k] == CN('style:' + k))
    x = c.string('unknown')
    c.assume(And(*[x.t != c.lit(y) for y in ks]))
    c.ensure('unknown attribute', c.run(cls.__getitem__, o, x).raised(KeyError))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


SECTIONS = (('fonts', 'office:font-face-decls'), ('styles', 'office:styles'), ('automatic_styles', 'office:automatic-styles'), ('master_styles', 'office:master-styles'))


def u_doc(f, t):
    def u(c):
        from ezodf.styles import OfficeDocumentStyles
        c.ver.interesting_tags = [CN(x) for _, x in SECTIONS]
        e = c.element(OfficeDocumentStyles.TAG)
        v0 = c.ver.lx.view(c, e.t, CN(t), False)
        old = c.heap()
        r = c.run(OfficeDocumentStyles, e)
        c.ensure('accepted', r.ok)
        if not r.ok:
            return
        g = c.run_get(r.value, f)
        x = elt(c, g.value) if g.ok else None
        v1 = c.ver.lx.view(c, e.t, CN(t), False)
        c.ensure('section', x is not None and And(v1.n >= 1, x == Select(v1.arr, 0), Implies(v0.n > 0, same_lists(v1, v0)), Implies(v0.n == 0, v1.n == 1)))
        c.ensure('class', isinstance(g.value, PObj) and g.value.cls.TAG == CN(t))
        c.ensure('existing content unchanged', c.unchanged(old, ['tag', 'text', 'attr']))
    return u


for _f, _t in SECTIONS:
    unit('C22', 'ezodf.styles:OfficeDocumentStyles.__init__', _f)(u_doc(_f, _t))
