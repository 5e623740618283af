"""C03 textlen is the length of the plain text, for every registered content class"""
from .C01 import *
from . import C01 as text_specs
from pyvc import verify as _v

LEVEL = 'proof'


def lengths(e):
    def inv(c, L):
        h = c.h
        f = flow(s0(Select(h['text'], e)), Select(h['kids'], e), h['pt'], h['tail'], L.k)
        for (d, name), kind in sorted(L.info.vars.items(), key=str):
            v = c.ver.env_at(L, d).vars.get(name)
            if kind == 'int' and iterm(v) is not None:
                yield 'length %s %s' % (d, name), iterm(v) == slen(f)
    return inv


def registered():
    import ezodf.xmlns as X
    reg = next(o._classmap for o in vars(X).values() if hasattr(o, '_classmap'))
    return [(t, cls) for t, cls in sorted(reg.items(), key=lambda x: x[1].__name__) if hasattr(cls, 'textlen') and hasattr(cls, 'plaintext')]


def length(tag, cls):
    def u(c):
        making(c)
        line_axioms(c)
        registry(c)
        c.ver.loop_comps = True
        e = c.element(tag)
        w = c.wrapper(cls, e)
        c.ver.invariants['*'] = [concatenating(e.t), lengths(e.t), lines(e.t, all_rows, all_count), lines(e.t, par_rows, par_count)]
        x = Select(c.h['pt'], xe)
        c.assume(FA([xe], x != NONE, x))
        n = c.integer('count', 0)
        k = c.attr(e, CNT)
        c.assume(Or(k == NONE, k == str_of_int(n.t)))
        old = c.heap()
        g = c.run_get(w, 'textlen')
        r = c.run(c.class_lookup(cls, 'plaintext'), w)
        t = text_of(c, r)
        m = iterm(g.value) if g.ok else None
        c.ensure('textlen is the length of the plain text', BoolVal(False) if t is None or m is None else m == slen(t))
        c.ensure('reading changes nothing', c.unchanged(old, STRUCT))
    return u


for _t, _c in registered():
    unit('C03', 'textlen', _c.__name__)(length(_t, _c))


@unit('C03', 'ezodf.base:GenericWrapper.plaintext', '')
def u_generic(c):
    c.lx.init(c)
    e = c.element('anything')
    from ezodf.base import GenericWrapper
    w = c.wrapper(GenericWrapper, e)
    r = c.run(GenericWrapper.plaintext, w)
    t = text_of(c, r)
    c.ensure('its own text', BoolVal(False) if t is None else t == s0(c.h1('text', e)))

ASSUMED = ['plaintext() and textlen of a child of whatever kind: its plain text and the length of that (induction over the depth of the tree)']
