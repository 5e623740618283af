"""C16 variables and user fields"""
from .common import *
from ezodf.variables import (SimpleVariable, UserField, SimpleVariableSet, SimpleVariableGet, SimpleVariableInput,
                             UserFieldSet, UserFieldGet, UserFieldInput)
from ezodf.base import GenericWrapper
from pyvc.lx import mark

NAME = CN('text:name')
VT = CN('office:value-type')
VTAGS = [CN('text:variable-set'), CN('text:variable-get'), CN('text:variable-input')]
UTAGS = [CN('text:user-field-set'), CN('text:user-field-get'), CN('text:user-field-input')]
INST = [SimpleVariableSet, SimpleVariableGet, SimpleVariableInput, UserFieldSet, UserFieldGet, UserFieldInput]
KINDS = dict(str=lambda c: c.string('value'), int=lambda c: c.integer('value'), flt=lambda c: c.flt('value'), bool=lambda c: c.boolean('value'))
TYPE = dict(str='string', int='float', flt='float', bool='boolean')


def stored(c, v, kind):
    """text form of a value"""
    return {'str': lambda: v.t, 'int': lambda: str_of_int(v.t), 'flt': lambda: str_of_flt(v.t),
            'bool': lambda: If(v.t, c.lit('true'), c.lit('false'))}[kind]()


def reads(c, v, kind, got):
    if kind == 'int':
        return isinstance(got, SFlt) and got.t == flt_of_int(v.t)
    if kind == 'flt':
        return isinstance(got, SFlt) and got.t == v.t
    if kind == 'bool':
        return isinstance(got, (bool, SBool)) and is_(c, got, v)
    return isinstance(got, (str, SStr)) and is_(c, got, v)


def root_of(c, args, kw):
    e = args[0].f['xmlnode']
    r = Select(c.h["root"], e.t)
    c.assume(And(Select(c.h['parent'], r) == 0, r > 0, r <= c.h['alloc']))
    return SEl(r)


@unit('C16', 'ezodf.base:GenericWrapper.get_xmlroot', '')
def u_root(c):
    c.lx.init(c)
    c.lx.use_pt(c)
    e = c.element(None)
    w = c.wrapper(GenericWrapper, e)
    old = c.heap()
    r = c.run(GenericWrapper.get_xmlroot, w)
    c.ensure('no error', r.ok)
    c.ensure('the root of the tree', r.ok and isinstance(r.value, SEl) and And(r.value.t == Select(c.h["root"], e.t), c.h1('parent', r.value) == 0))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


def setup(c, cls, tags):
    e = c.element(cls.TAG)
    c.lx.use_pt(c)
    c.ver.interesting_tags = [cls.TAG]
    c.ver.wrap_split = tags
    c.ver.contracts['ezodf.base:GenericWrapper.get_xmlroot'] = Con(root_of)
    name = c.string('name')
    c.assume(c.attr(e, NAME) == name.t)
    root = Select(c.h["root"], e.t)
    c.assume(And(root > 0, root <= c.h['alloc'], c.h1('parent', root) == 0))
    var = c.call(cls, [], dict(xmlnode=e))
    views = {t: c.ver.lx.view(c, root, t, True) for t in VTAGS + UTAGS}
    for t in VTAGS + UTAGS:
        v = views[t]
        y = Select(v.arr, xi)
        c.assume(FA([xi], Implies(And(0 <= xi, xi < v.n), And(c.h1('tag', y) == c.lit(t), y != e.t, c.h1('tag', y) != NONE)), y))
    return e, var, name, root, views


def set_value(cls, tags, kind):
    @unit('C16', 'ezodf.variables:%s.value' % cls.__name__, 'set ' + kind)
    def u(c):
        e, var, name, root, views = setup(c, cls, tags)
        v = KINDS[kind](c)
        if kind == 'bool':
            c.branch(v.t)
        js = {t: c.integer('j', 0).t for t in VTAGS + UTAGS}
        # an arbitrary element
        z = c.element(None, 'z')
        c.assume(z.t != e.t)
        for w in tags:
            c.assume(Or(Not(views[w].has(z.t)), c.attr(z, NAME) != name.t))
        old = c.heap()
        r = c.run_set(var, 'value', v)
        c.ensure('accepted', r.ok)
        for t in VTAGS + UTAGS:
            # an arbitrary instance of every kind
            j = js[t]
            y = Select(views[t].arr, j)
            there = j < views[t].n
            same = And(c.h1('text', y) == Select(old['text'], y), c.h1('attr', y) == Select(old['attr'], y))
            if t in tags:
                own = Select(Select(old['attr'], y), c.lit(NAME)) == name.t
                c.ensure('instances of the name get value and type', Implies(And(there, own), And(c.h1('text', y) == stored(c, v, kind), c.attr(y, VT) == c.lit(TYPE[kind]), c.attr(y, NAME) == name.t)))
                c.ensure('instances of other names are unchanged', Implies(And(there, Not(own)), same))
            else:
                c.ensure('instances of the other kind are unchanged', Implies(there, same))
        c.ensure('other elements unchanged', And(c.h1('text', z) == Select(old['text'], z.t), c.h1('attr', z) == Select(old['attr'], z.t)))
        c.ensure('no element added or removed', c.unchanged(old, ['tag', 'klen', 'kids', 'parent', 'pos', 'tail']))
        g = c.run_get(var, 'type')
        c.ensure('declared type', g.ok and is_(c, g.value, TYPE[kind]))
        c.ensure('declared name', c.attr(e, NAME) == name.t)
        if cls is UserField:
            g = c.run_get(var, 'value')
            c.ensure('the field reads back', g.ok and reads(c, v, kind, g.value))


@unit('C16', 'ezodf.variables:SimpleVariable.value', 'get')
def u_get(c):
    """what the assignment leaves: all instances of the name have the same text and type"""
    e, var, name, root, views = setup(c, SimpleVariable, VTAGS)
    kind = sorted(KINDS)[c.choose(4)]
    v = KINDS[kind](c)
    for t in VTAGS:
        y = Select(views[t].arr, xi)
        c.assume(FA([xi], Implies(And(0 <= xi, xi < views[t].n, Select(Select(c.h['attr'], y), c.lit(NAME)) == name.t),
                                  And(Select(c.h['text'], y) == stored(c, v, kind), Select(Select(c.h['attr'], y), c.lit(VT)) == c.lit(TYPE[kind]))), y))
    w = views[VTAGS[c.choose(3)]]
    j = c.integer('j', 0).t
    c.assume(And(j < w.n, Select(Select(c.h['attr'], Select(w.arr, j)), c.lit(NAME)) == name.t))
    old = c.heap()
    g = c.run_get(var, 'value')
    c.ensure('the variable reads back', g.ok and reads(c, v, kind, g.value))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


for _k in KINDS:
    set_value(SimpleVariable, VTAGS, _k)
    set_value(UserField, UTAGS, _k)


@unit('C16', 'ezodf.variables:instances', 'value')
def u_instance(c):
    c.lx.init(c)
    cls = INST[c.choose(6)]
    kind = sorted(KINDS)[c.choose(4)]
    e = c.element(cls.TAG)
    inst = c.call(cls, [], dict(xmlnode=e))
    v = KINDS[kind](c)
    old = c.heap()
    r = c.run_set(inst, 'value', v)
    c.ensure('accepted', r.ok)
    c.ensure('text and type', And(c.h1('text', e) == stored(c, v, kind), c.attr(e, VT) == c.lit(TYPE[kind])))
    g = c.run_get(inst, 'value')
    c.ensure('reads back', g.ok and reads(c, v, kind, g.value))
    g = c.run_get(inst, 'type')
    c.ensure('type reads back', g.ok and is_(c, g.value, TYPE[kind]))
    x = z3.Const('key!', T)
    s = Select(c.h1('attr', e), x)
    c.ensure('other attributes unchanged', FA([x], Implies(x != c.lit(VT), s == Select(Select(old['attr'], e.t), x)), s))
    c.ensure('only this element', c.unchanged(old, STRUCT, [e.t]))

BOUNDED = ['Variables.__init__, __getitem__, __setitem__, __contains__ (a dict keyed by the names found in the document): run by the driver on enumerated and random documents with up to 5 declarations, not under contract']
