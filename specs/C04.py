"""C04 cell values"""
from .common import *
from ezodf.cells import Cell, CoveredCell, TYPE_VALUE_MAP
from ezodf.text import Paragraph, Heading, Span

CELL = CN('table:table-cell')
P = CN('text:p')
VTYPE = CN('office:value-type')
CURR = CN('office:currency')
VATTRS = sorted(set(TYPE_VALUE_MAP.values()))
T_TYPE = [('string', CN('office:string-value')), ('float', CN('office:value')), ('percentage', CN('office:value')),
          ('currency', CN('office:value')), ('date', CN('office:date-value')), ('time', CN('office:time-value')),
          ('boolean', CN('office:boolean-value'))]
V_ATTR = [CN('office:string-value'), CN('office:value'), CN('office:date-value'), CN('office:time-value'), CN('office:boolean-value')]


def new_paragraph(c, args, kw):
    d = bind(['self?'], [], {})
    a = bind(['text', 'style_name', 'xmlnode'], args, kw, dict(text='', style_name='', xmlnode=None))
    o = c.new_obj(Paragraph)
    if a['xmlnode'] is not None:
        o.f['xmlnode'] = a['xmlnode']
        return o
    if not isinstance(a['text'], (str, SStr)) or isinstance(a['text'], SStr) and a['text'].maybe:
        raise Unsupported('Paragraph(text) needs a string')
    e = c.lx.new_subtree(c, P)
    c.assume(Select(c.h['pt'], e.t) == sterm(c, a['text']))
    o.f['xmlnode'] = e
    return o


def plaintext_of(c, args, kw):
    w = args[0]
    return SStr(c.lx.pt(c, w.f['xmlnode'].t))


def setup(c, covered=False):
    c.ver.lx.pt_attr_tags = {}
    e = c.element(CELL)
    c.lx.use_pt(c)
    c.ver.interesting_tags = [CELL, P, CN('text:h')]
    c.ver.contracts['new ezodf.text:Paragraph'] = Con(new_paragraph)
    c.ver.contracts['ezodf.text:Span.plaintext'] = Con(plaintext_of)
    cell = c.wrapper(Cell, e)
    t = c.attr(e, VTYPE)
    c.assume(Or(t == NONE, *[t == c.lit(n) for n, _ in T_TYPE]))
    # only the value attribute of the value type exists
    for a in V_ATTR:
        c.assume(Or(c.attr(e, a) == NONE, *[t == c.lit(n) for n, b in T_TYPE if b == a]))
    return e, cell


def common_post(c, e, old, vtype, valattr):
    ext = T_TYPE
    c.ensure('value type', c.attr(e, VTYPE) == (c.lit(vtype) if isinstance(vtype, str) else vtype))
    for a in V_ATTR:
        if a != valattr:
            c.ensure('old value removed', c.attr(e, a) == NONE)
    # frame: no other attribute of the cell, no other element
    keep = [VTYPE, CURR] + V_ATTR
    x = z3.Const('key!', T)
    s = Select(Select(c.h['attr'], e.t), x)
    c.ensure('other attributes unchanged', FA([x], Implies(And(*[x != c.lit(k) for k in keep]), s == Select(Select(old['attr'], e.t), x)), s))
    c.ensure('other elements unchanged', c.unchanged(old, ['attr', 'tag', 'text', 'tail', 'klen'], [e.t]))
    c.ensure('tag unchanged', c.h1('tag', e) == Select(old['tag'], e.t))


NUM = ('float', 'percentage', 'currency')


def symbolic_call(c, v, kind, kindt=None, want_type=None, want_cur=None):
    """set_value(v, type?, currency?) with every type and currency argument"""
    e, cell = setup(c)
    if want_type is None:
        args = [v]
        tt = None
    elif want_type == 'any':
        t = c.string('type', maybe=True)
        args = [v, t]
        tt = t.t
    else:
        args = [v, want_type]
        tt = c.lit(want_type)
    cur = None
    if want_cur:
        cur = c.string('currency')
        if len(args) == 1:
            args.append(None)
        args.append(cur)
    old = c.heap()
    r = c.run(Cell.set_value, cell, *args)
    return e, cell, old, r, tt, cur


def rejected(c, e, old):
    c.ensure('rejected: cell unchanged', And(c.h1('attr', e) == Select(old['attr'], e.t), c.h1('klen', e) == Select(old['klen'], e.t),
                                             c.h1('kids', e) == Select(old['kids'], e.t), c.h1('text', e) == Select(old['text'], e.t)))
    c.ensure('rejected: rest unchanged', c.unchanged(old, STRUCT))


def accepted(c, e, cell, old, v, vtype, text, cur=None, wrapper=False):
    """post-condition of an accepted assignment; vtype is concrete"""
    valattr = None if (wrapper or vtype == 'string') else dict(T_TYPE)[vtype]
    common_post(c, e, old, vtype, valattr)
    if vtype == 'string':
        c.ensure('one content element', c.h1('klen', e) == 1)
    else:
        c.ensure('content removed', c.h1('klen', e) == 0)
        c.ensure('value attribute', c.attr(e, valattr) == text)
    if vtype == 'currency' and cur is not None:
        c.ensure('currency', Or(cur.t == c.lit(''), c.attr(e, CURR) == cur.t))
    elif vtype != 'currency':
        c.ensure('no currency', c.attr(e, CURR) == NONE)
    g = c.run_get(cell, 'value_type')
    c.ensure('value_type reads back', g.ok and is_(c, g.value, vtype))


def which_type(c, tt):
    """concrete type on this path (case split), 'none' or 'bad'"""
    if tt is None:
        return None
    if c.branch(tt == NONE):
        return None
    for n, _ in T_TYPE:
        if c.branch(tt == c.lit(n)):
            return n
    return 'bad'


def value_unit(c, v, kind, want_type, want_cur=False):
    e, cell, old, r, tt, cur = symbolic_call(c, v, kind, None, want_type, want_cur)
    t = which_type(c, tt)
    if cur is not None:
        t = 'currency'
    if t is None:
        t = {'str': 'string', 'int': 'float', 'flt': 'float', 'bool': 'boolean'}[kind]
    if t == 'bad':
        c.ensure('unknown type rejected', r.raised(TypeError))
        rejected(c, e, old)
        return
    if kind == 'str' and t not in ('string', 'boolean'):
        if c.branch(v.t == c.lit('')):
            c.ensure('empty value rejected', r.raised(ValueError))
            rejected(c, e, old)
            return
    c.ensure('accepted', r.ok)
    if not r.ok:
        return
    st = {'str': lambda: v.t, 'int': lambda: str_of_int(v.t), 'flt': lambda: str_of_flt(v.t),
          'bool': lambda: If(v.t, c.lit('True'), c.lit('False'))}[kind]()
    if t == 'boolean':
        tv = c.truth_term(v)
        st = c.lit('true') if tv is True else c.lit('false') if tv is False else If(tv, c.lit('true'), c.lit('false'))
    accepted(c, e, cell, old, v, t, st, cur)
    if t == 'string':
        g = c.run_get(cell, 'value')
        c.ensure('string reads back', g.ok and isinstance(g.value, (str, SStr)) and is_(c, g.value, SStr(st)))
    elif t == 'boolean':
        g = c.run_get(cell, 'value')
        tv = c.truth_term(v)
        c.ensure('boolean reads back', g.ok and isinstance(g.value, (bool, SBool)) and is_(c, g.value, tv if isinstance(tv, bool) else SBool(tv)))
    elif t in NUM and kind in ('int', 'flt'):
        g = c.run_get(cell, 'value')
        f = flt_of_int(v.t) if kind == 'int' else v.t
        c.ensure('number reads back', g.ok and isinstance(g.value, SFlt) and g.value.t == f)
    elif t in ('date', 'time'):
        g = c.run_get(cell, 'value')
        c.ensure('date and time read back', g.ok and isinstance(g.value, (str, SStr)) and is_(c, g.value, SStr(st)))


KINDS = dict(str=lambda c: c.string('value'), int=lambda c: c.integer('value'), flt=lambda c: c.flt('value'), bool=lambda c: c.boolean('value'))


def make(kind, want, cur):
    name = '%s, type %s%s' % (kind, want or 'inferred', ', currency' if cur else '')

    @unit('C04', 'ezodf.cells:Cell.set_value', name, budget=300 if want == 'any' else 200)
    def u(c):
        value_unit(c, KINDS[kind](c), kind, want, cur)


for _k in KINDS:
    make(_k, None, False)
    for _n, _a in T_TYPE:
        if not (_k == 'bool' and _n in NUM + ('date', 'time')):
            make(_k, _n, False)
    make(_k, None, True) if _k != 'bool' else None


@unit('C04', 'ezodf.cells:Cell.set_value', 'unknown type')
def u_badtype(c):
    for_kind = ('str', 'int', 'bool')[c.choose(3)]
    v = KINDS[for_kind](c)
    e, cell = setup(c)
    t = c.string('type')
    c.assume(And(*[t.t != c.lit(n) for n, _ in T_TYPE]))
    old = c.heap()
    r = c.run(Cell.set_value, cell, v, t)
    c.ensure('unknown type rejected', r.raised(TypeError))
    rejected(c, e, old)


@unit('C04', 'ezodf.cells:Cell.set_value', 'no value or unsupported object')
def u_none(c):
    e, cell = setup(c)
    if c.choose(2) == 0:
        v = None
    else:
        x = c.element(CN('text:span'), 'x', root=True)
        c.assume(x.t != e.t)
        v = c.wrapper(Span, x)
    t = c.string('type', maybe=True)
    old = c.heap()
    r = c.run(Cell.set_value, cell, v, t)
    c.ensure('rejected', r.raised(ValueError))
    rejected(c, e, old)


@unit('C04', 'ezodf.cells:Cell.set_value', 'paragraph or heading object')
def u_wrapper(c):
    e, cell = setup(c)
    cls, tag = ((Paragraph, P), (Heading, CN('text:h')))[c.choose(2)]
    x = c.element(tag, 'x', root=True)
    c.assume(x.t != e.t)
    c.assume(Select(c.h['root'], e.t) != x.t)
    v = c.wrapper(cls, x)
    ptx = c.lx.pt(c, x.t)
    old = c.heap()
    r = c.run(Cell.set_value, cell, v)
    c.ensure('accepted', r.ok)
    if r.ok:
        common_post(c, e, old, 'string', None)
        c.ensure('the object is the only content', And(c.h1('klen', e) == 1, Select(c.h1('kids', e), 0) == x.t))
        g = c.run_get(cell, 'value')
        c.ensure('value is its text', g.ok and is_(c, g.value, SStr(ptx)))


@unit('C04', 'ezodf.cells:Cell.display_form', 'set')
def u_display(c):
    e, cell = setup(c)
    s = c.string('text')
    t = c.attr(e, VTYPE)
    old = c.heap()
    r = c.run_set(cell, 'display_form', s)
    c.ensure('rejected for strings', BoolVal(r.raised(TypeError)) == Or(t == NONE, t == c.lit('string')))
    c.ensure('no other error', r.ok or r.raised(TypeError))
    c.ensure('attributes unchanged', c.h1('attr', e) == Select(old['attr'], e.t))
    if not r.ok:
        rejected(c, e, old)


@unit('C04', 'ezodf.cells:Cell.__init__', '')
def u_init(c):
    c.ver.lx.pt_attr_tags = {}
    c.lx.init(c)
    c.lx.use_pt(c)
    c.ver.interesting_tags = [CELL, P, CN('text:h')]
    c.ver.contracts['new ezodf.text:Paragraph'] = Con(new_paragraph)
    c.ver.contracts['ezodf.text:Span.plaintext'] = Con(plaintext_of)
    kind = ('str', 'int', 'bool', 'flt')[c.choose(4)]
    v = KINDS[kind](c)
    st = c.string('style')
    try:
        cell = c.call(Cell, [], dict(value=v, style_name=st))
    except PyExc as ex:
        c.ensure('accepted', False)
        return
    e = cell.f['xmlnode']
    c.ensure('element', c.h1('tag', e) == c.lit(CELL))
    c.ensure('style', c.attr(e, CN('table:style-name')) == st.t)
    c.ensure('type', c.attr(e, VTYPE) == c.lit({'str': 'string', 'int': 'float', 'flt': 'float', 'bool': 'boolean'}[kind]))
    g = c.run_get(cell, 'value')
    want = SFlt(flt_of_int(v.t)) if kind == 'int' else v
    c.ensure('value', g.ok and (g.value.t == want.t if isinstance(want, SFlt) else is_(c, g.value, want)))

ASSUMED = ['Paragraph(text): a new element whose plain text is text (verified as C01)',
           'Span.plaintext: returns the ghost plain text of the element (verified as C01, C03)']
ASSUMPTIONS = ['value attributes of a cell before the call belong to its value type',
               'strings are XML representable (lxml rejects others)']
