"""C19 named settings of objects"""
from .common import *
import ezodf.text, ezodf.table, ezodf.cells, ezodf.drawingpage
from ezodf.base import GenericWrapper

START = CN('text:start-value')
NUMBER = CN('text:number')
STATES = ('visible', 'collapse', 'filter')


def cls(name):
    for m in (ezodf.text, ezodf.table, ezodf.cells, ezodf.drawingpage):
        if hasattr(m, name):
            return getattr(m, name)


TEXTS = [('Span', 'style_name', 'text:style-name'), ('Paragraph', 'style_name', 'text:style-name'), ('Heading', 'style_name', 'text:style-name'),
         ('Hyperlink', 'style_name', 'text:style-name'), ('Paragraph', 'cond_style_name', 'text:cond-style-name'), ('Paragraph', 'ID', 'text:id'),
         ('Hyperlink', 'name', 'office:name'), ('Hyperlink', 'href', 'xlink:href'), ('List', 'style_name', 'text:style-name'),
         ('Section', 'style_name', 'text:style-name'), ('Section', 'name', 'text:name'), ('Table', 'style_name', 'table:style-name'),
         ('TableColumn', 'style_name', 'table:style-name'), ('TableColumn', 'default_cell_style_name', 'table:default-cell-style-name'),
         ('TableRow', 'style_name', 'table:style-name'), ('TableRow', 'default_cell_style_name', 'table:default-cell-style-name'),
         ('Cell', 'style_name', 'table:style-name'), ('Cell', 'formula', 'table:formula'), ('Cell', 'content_validation_name', 'table:content-validation-name'),
         ('DrawingPage', 'name', 'draw:name')]
BOOLS = [('Heading', 'restart_numbering', 'text:restart-numbering'), ('Heading', 'suppress_numbering', 'text:is-list-header'),
         ('List', 'continue_numbering', 'text:continue-numbering'), ('Table', 'print_', 'table:print'), ('Cell', 'protected', 'table:protect')]
LEVELS = [('Heading', 'outline_level', 'text:outline-level'), ('NumberedParagraph', 'level', 'text:level')]
NUMBERED = ['Heading', 'NumberedParagraph', 'ListItem']


def setup(c, name):
    c.lx.init(c)
    k = cls(name)
    e = c.element(k.TAG)
    return e, c.wrapper(k, e), c.heap()


def only(c, e, old, key, want):
    c.ensure('only this attribute', c.h1('attr', e) == Store(Select(old['attr'], e.t), c.lit(CN(key)), want))
    rest(c, e, old)


def rest(c, e, old):
    c.ensure('children and text stay', c.unchanged(old, [x for x in STRUCT if x != 'attr']))
    c.ensure('only this element', c.unchanged(old, STRUCT, [e.t]))


def removal(c, w, e, old, name, key, default):
    """deleting a setting that is there removes exactly its attribute"""
    r = c.run_del(w, name)
    c.ensure('deleting: accepted', r.ok)
    x = z3.Const('key!', T)
    s = Select(c.h1('attr', e), x)
    c.ensure('deleting: only this attribute', And(c.attr(e, CN(key)) == NONE, FA([x], Implies(x != c.lit(CN(key)), s == Select(Select(old['attr'], e.t), x)), s)))
    rest(c, e, old)
    g = c.run_get(w, name)
    c.ensure('deleted: as if never set', g.ok and is_(c, g.value, default))


def text_setting(kls, name, key):
    @unit('C19', 'ezodf:%s.%s' % (kls, name), '')
    def u(c):
        e, w, old = setup(c, kls)
        g = c.run_get(w, name)
        a0 = c.attr(e, CN(key))
        c.ensure('reads the attribute, None without', g.ok and is_(c, g.value, SStr(a0, True)))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
        v = c.string('value', nonempty=True)
        r = c.run_set(w, name, v)
        c.ensure('accepted', r.ok)
        only(c, e, old, key, v.t)
        g = c.run_get(w, name)
        c.ensure('reads back', g.ok and is_(c, g.value, v))
        if getattr(c.class_lookup(w.cls, name), 'fdel', None) is not None:
            removal(c, w, e, old, name, key, None)


def bool_setting(kls, name, key):
    @unit('C19', 'ezodf:%s.%s' % (kls, name), '')
    def u(c):
        e, w, old = setup(c, kls)
        g = c.run_get(w, name)
        c.ensure('true exactly if the attribute is true', g.ok and is_(c, g.value, SBool(c.attr(e, CN(key)) == c.lit('true'))))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
        v = c.boolean('value')
        r = c.run_set(w, name, v)
        c.ensure('accepted', r.ok)
        only(c, e, old, key, If(v.t, c.lit('true'), c.lit('false')))
        g = c.run_get(w, name)
        c.ensure('reads back', g.ok and is_(c, g.value, v))
        removal(c, w, e, old, name, key, False)


def stored_number(c, e, key, lo=None):
    """the attribute is missing or holds a number"""
    n = c.integer('stored', lo)
    there = c.choose(2) == 1
    c.assume(c.attr(e, CN(key)) == (str_of_int(n.t) if there else NONE))
    return n if there else None


def level_setting(kls, name, key):
    @unit('C19', 'ezodf:%s.%s' % (kls, name), '')
    def u(c):
        e, w, old = setup(c, kls)
        n = stored_number(c, e, key)
        old = c.heap()
        g = c.run_get(w, name)
        c.ensure('reads the level, at least one', g.ok and is_(c, g.value, SInt(IntVal(1) if n is None else If(n.t < 1, IntVal(1), n.t))))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
        v = c.integer('value')
        r = c.run_set(w, name, v)
        c.ensure('accepted', r.ok)
        want = If(v.t < 1, IntVal(1), v.t)
        only(c, e, old, key, str_of_int(want))
        g = c.run_get(w, name)
        c.ensure('reads back, at least one', g.ok and is_(c, g.value, SInt(want)))
        removal(c, w, e, old, name, key, 1)


def start_setting(kls):
    @unit('C19', 'ezodf:%s.start_value' % kls, '')
    def u(c):
        e, w, old = setup(c, kls)
        n = stored_number(c, e, 'text:start-value')
        old = c.heap()
        g = c.run_get(w, 'start_value')
        c.ensure('reads the number, None without', g.ok and (g.value is None if n is None else is_(c, g.value, n)))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
        v = c.integer('value')
        r = c.run_set(w, 'start_value', v)
        c.ensure('accepted', r.ok)
        want = If(v.t < 1, IntVal(1), v.t)
        only(c, e, old, 'text:start-value', str_of_int(want))
        g = c.run_get(w, 'start_value')
        c.ensure('reads back, at least one', g.ok and is_(c, g.value, SInt(want)))


def number_setting(kls):
    @unit('C19', 'ezodf:%s.formatted_number' % kls, '')
    def u(c):
        e, w, old = setup(c, kls)
        v0 = c.ver.lx.view(c, e.t, NUMBER, False)
        g = c.run_get(w, 'formatted_number')
        first = Select(v0.arr, 0)
        c.ensure('reads the text of the number, None without', g.ok and is_(c, g.value, SStr(If(v0.n > 0, c.h1('text', SEl(first)), NONE), True)))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
        had = c.branch(v0.n > 0)
        v = c.string('value')
        r = c.run_set(w, 'formatted_number', v)
        c.ensure('accepted', r.ok)
        v1 = c.ver.lx.view(c, e.t, NUMBER, False)
        y = Select(v1.arr, 0)
        c.ensure('stored in the first number element', And(v1.n == (v0.n if had else 1), c.h1('text', SEl(y)) == v.t, y == first if had else y > old['alloc']))
        c.ensure('attributes stay', c.unchanged(old, ['attr', 'tag', 'tail']))
        c.ensure('other texts stay', c.unchanged(old, ['text'], [y]))
        i = c.integer('i', 0)
        c.assume(i.t < Select(old['klen'], e.t))
        c.ensure('the children stay in place', And(c.h1('klen', e) == Select(old['klen'], e.t) + (0 if had else 1), Select(c.h1('kids', e), i.t) == Select(Select(old['kids'], e.t), i.t)))
        c.ensure('other elements keep their children', c.unchanged(old, ['klen', 'kids'], [e.t]))
        g = c.run_get(w, 'formatted_number')
        c.ensure('reads back', g.ok and is_(c, g.value, v))


def visibility(kls):
    @unit('C19', 'ezodf:%s.visibility' % kls, '')
    def u(c):
        e, w, old = setup(c, kls)
        key = 'table:visibility'
        a0 = c.attr(e, CN(key))
        g = c.run_get(w, 'visibility')
        c.ensure('reads the attribute, visible without', g.ok and is_(c, g.value, SStr(If(a0 == NONE, c.lit('visible'), a0))))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
        v = c.string('value')
        r = c.run_set(w, 'visibility', v)
        if c.branch(Or(*[v.t == c.lit(s) for s in STATES])):
            c.ensure('accepted', r.ok)
            only(c, e, old, key, v.t)
            g = c.run_get(w, 'visibility')
            c.ensure('reads back', g.ok and is_(c, g.value, v))
        else:
            c.ensure('other states are rejected', r.raised(ValueError))
            c.ensure('rejected: unchanged', c.unchanged(old, STRUCT))


@unit('C19', 'ezodf:Hyperlink.target_frame', '')
def u_target(c):
    e, w, old = setup(c, 'Hyperlink')
    key = c.lit(CN('office:target-frame-name'))
    g = c.run_get(w, 'target_frame')
    c.ensure('reads the attribute, None without', g.ok and is_(c, g.value, SStr(c.attr(e, CN('office:target-frame-name')), True)))
    v = c.string('value', nonempty=True)
    r = c.run_set(w, 'target_frame', v)
    c.ensure('accepted', r.ok)
    want = Store(Store(Select(old['attr'], e.t), key, v.t), c.lit(CN('xlink:show')), If(v.t == c.lit('_blank'), c.lit('new'), c.lit('replace')))
    c.ensure('the frame and how to show it', c.h1('attr', e) == want)
    rest(c, e, old)
    g = c.run_get(w, 'target_frame')
    c.ensure('reads back', g.ok and is_(c, g.value, v))


def protection(kls, prefix):
    @unit('C19', 'ezodf:%s.protected' % kls, '')
    def u(c):
        from ezodf import protection as P
        e, w, old = setup(c, kls)
        keyname = c.string('keyvalue', nonempty=True)
        c.ver.contracts['ezodf.protection:random_protection_key'] = Con(lambda c, a, k: keyname)
        g = c.run_get(w, 'protected')
        c.ensure('true exactly if the attribute is true', g.ok and is_(c, g.value, SBool(c.attr(e, CN(prefix + ':protected')) == c.lit('true'))))
        v = c.boolean('value')
        on = c.branch(v.t)
        r = c.run_set(w, 'protected', v)
        c.ensure('accepted', r.ok)
        k1, k2 = c.lit(CN(prefix + ':protected')), c.lit(CN(prefix + ':protection-key'))
        x = z3.Const('key!', T)
        s = Select(c.h1('attr', e), x)
        c.ensure('other attributes stay', FA([x], Implies(And(x != k1, x != k2), s == Select(Select(old['attr'], e.t), x)), s))
        c.ensure('a protected object has a key', Select(c.h1('attr', e), k2) != NONE if on else Select(c.h1('attr', e), k2) == Select(Select(old['attr'], e.t), k2))
        rest(c, e, old)
        g = c.run_get(w, 'protected')
        c.ensure('reads back', g.ok and is_(c, g.value, v))


for a in TEXTS:
    text_setting(*a)
for a in BOOLS:
    bool_setting(*a)
for a in LEVELS:
    level_setting(*a)
for a in NUMBERED:
    start_setting(a)
    number_setting(a)
for a in ('TableColumn', 'TableRow'):
    visibility(a)
protection('Section', 'text')
protection('Table', 'table')


def made(name, args, want):
    @unit('C19', 'ezodf:%s' % name, 'constructor')
    def u(c):
        c.lx.init(c)
        k = cls(name)
        vals = {}
        for n, kind in args.items():
            vals[n] = c.integer(n) if kind == 'int' else c.string(n, nonempty=kind == 'text')
        if name == 'Heading':
            c.branch(vals['outline_level'].t < 1)
        given = {n: v if args[n] in ('int', 'text') or c.branch(v.t != EMPTY) else '' for n, v in vals.items()}
        old = c.heap()
        r = c.run(k, **given)
        c.ensure('accepted', r.ok)
        if not r.ok:
            raise PathEnd()
        e = r.value.t if isinstance(r.value, SWrap) else r.value.f['xmlnode'].t
        c.ensure('a new element of its kind', And(e > old['alloc'], c.h1('tag', e) == c.lit(k.TAG)))
        a = z3.K(T, NONE)
        for key, f in want:
            v = f(c, vals)
            a = Store(a, c.lit(CN(key)), v)
        x = z3.Const('key!', T)
        s = Select(c.h1('attr', e), x)
        c.ensure('exactly the given settings', FA([x], s == Select(a, x), s))
        c.ensure('no content', And(c.h1('klen', e) == 0, c.h1('text', e) == NONE))
        c.ensure('no other element changes', c.unchanged(old, STRUCT))


def given(n):
    return lambda c, v: If(v[n].t == EMPTY, NONE, v[n].t)


STYLE = ('text:style-name', given('style_name'))
made('Span', dict(style_name='maybe'), [STYLE])
made('Paragraph', dict(style_name='maybe'), [STYLE])
made('Heading', dict(style_name='maybe', outline_level='int'), [STYLE, ('text:outline-level', lambda c, v: str_of_int(If(v['outline_level'].t < 1, IntVal(1), v['outline_level'].t)))])
made('Hyperlink', dict(style_name='maybe', href='maybe'), [STYLE, ('xlink:href', given('href')),
     ('office:target-frame-name', lambda c, v: c.lit('_blank')), ('xlink:show', lambda c, v: c.lit('new'))])
made('List', dict(style_name='maybe'), [STYLE])
made('Section', dict(style_name='maybe', name='maybe'), [STYLE, ('text:name', given('name'))])
made('Cell', dict(style_name='text'), [('table:style-name', given('style_name'))])
made('DrawingPage', dict(name='text'), [('draw:name', given('name'))])
made('NumberedParagraph', {}, [])
made('ListItem', {}, [])
made('TableColumn', {}, [])


HEADER = CN('text:list-header')


@unit('C19', 'ezodf:List.header', '')
def u_header(c):
    e, w, old = setup(c, 'List')
    v0 = c.ver.lx.view(c, e.t, HEADER, False)
    had = c.branch(v0.n > 0)
    first = Select(v0.arr, 0)
    old = c.heap()
    g = c.run_get(w, 'header')
    got = g.value.t if isinstance(g.value, SWrap) else g.value.f['xmlnode'].t if isinstance(g.value, PObj) else None
    c.ensure('reads the first header, None without', g.ok and (got == first if had and got is not None else g.value is None and not had))
    c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
    if c.choose(2):
        x = c.element(CN('text:list-item'), 'x')
        r = c.run_set(w, 'header', c.wrapper(cls('ListItem'), x))
        c.ensure('other kinds are rejected', r.raised(TypeError))
        c.ensure('rejected: unchanged', c.unchanged(old, STRUCT))
        return
    x = c.element(HEADER, 'x')
    c.assume(And(c.h1('parent', x) == 0, x.t != e.t))
    old = c.heap()
    A, n = Select(old['kids'], e.t), Select(old['klen'], e.t)
    r = c.run_set(w, 'header', c.wrapper(cls('ListHeader'), x))
    c.ensure('accepted', r.ok)
    i = c.integer('i', 0)
    c.assume(i.t < n)
    at = Select(old['pos'], first)
    if had:
        c.assume(i.t != at)
        j = If(i.t < at, i.t + 1, i.t)
    else:
        j = i.t + 1
    c.ensure('the header is the first child', And(c.h1('klen', e) == (n if had else n + 1), Select(c.h1('kids', e), 0) == x.t))
    c.ensure('the other children stay in order', Select(c.h1('kids', e), j) == Select(A, i.t))
    c.ensure('contents stay', c.unchanged(old, ['tag', 'text', 'tail', 'attr']))
    c.ensure('other elements keep their children', c.unchanged(old, ['klen', 'kids'], [e.t]))


ASSUMED = ['random_protection_key(): some key, its text is not empty']
