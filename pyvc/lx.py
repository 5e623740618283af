"""Heap model of lxml elements (trusted: the assumed contracts on the lxml dependency).

Elements are positive integers.  Heap components:
  tag,text,tail : el -> str       attr : el -> (name -> str|NONE)
  klen : el -> int   kids : el -> (int -> el)   parent : el -> el|0   pos : el -> int
  alloc : int  (every existing element is in 1..alloc)
Ghost "views" give the result of findall() for a (root, tag) pair and are updated by
the mutators; cont:<tag> tells whether an element has a strict descendant with that tag.
"""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Store, Select, is_true, is_false, simplify
from .smt import *
from . import smt
from .core import *
from .interp import MISSING, SliceV, is_concrete
from . import interp as _i

AIAII = z3.ArraySort(I, AII)
AIATT = z3.ArraySort(I, ATT)
AIB = z3.ArraySort(I, B)
SORTS = {'tag': AIT, 'text': AIT, 'tail': AIT, 'attr': AIATT, 'klen': AII, 'kids': AIAII,
         'parent': AII, 'pos': AII, 'alloc': I}
iso = z3.Function('iso', I, I, B)     # deep copy of (content equal)

mark = z3.Function('mark', I, B)

xe, xi, xc = z3.Ints('e! i! c!')


class View(object):
    """findall(tag) (deep: './/tag') below root: arr[0..n), idx = inverse"""
    def __init__(self, root, tag, deep, n, arr, idx):
        self.root, self.tag, self.deep, self.n, self.arr, self.idx = root, tag, deep, n, arr, idx

    def has(self, x):
        return And(0 <= Select(self.idx, x), Select(self.idx, x) < self.n, Select(self.arr, Select(self.idx, x)) == x)

    def upd(self, n, arr, idx):
        return View(self.root, self.tag, self.deep, n, arr, idx)


class SAttrib(object):
    """element.attrib"""
    def __init__(self, e):
        self.e = e

    def sym_contains(self, c, key):
        k = sterm(c, key)
        return c.b2v(c.lx.attr(c, self.e, k) != NONE)

    def sym_getitem(self, c, key):
        k = sterm(c, key)
        v = c.lx.attr(c, self.e, k)
        if c.branch(v == NONE):
            raise PyExc(KeyError, (key,))
        return SStr(v)

    def sym_setitem(self, c, key, v):
        c.lx.set(c, self.e, key, v)

    def sym_delitem(self, c, key):
        k = sterm(c, key)
        if k is None:
            raise PyExc(TypeError, ())
        if c.branch(c.lx.attr(c, self.e, k) == NONE):
            raise PyExc(KeyError, (key,))
        c.lx.store_attr(c, self.e, k, NONE)

    def sym_getattr(self, c, name):
        def pop(c, a, k):
            t = sterm(c, a[0])
            v = c.lx.attr(c, self.e, t)
            if c.branch(v == NONE):
                if len(a) > 1:
                    return a[1]
                raise PyExc(KeyError, (a[0],))
            c.lx.store_attr(c, self.e, t, NONE)
            return SStr(v)

        def get(c, a, k):
            return c.lx.get(c, self.e, a)

        def clear(c, a, k):
            c.lx.touch('attr', self.e)
            c.setH('attr', Store(c.lx.h(c, 'attr'), self.e, z3.K(T, NONE)))

        def has_key(c, a, k):
            return self.sym_contains(c, a[0])
        fns = dict(pop=pop, get=get, clear=clear, has_key=has_key)
        if name not in fns:
            raise Unsupported('attrib.' + name)
        return Native(fns[name], 'attrib.' + name)


class SMap(object):
    """dictionary with symbolic keys; the values are elements or (mk) objects made from one"""
    def __init__(self, c, name, ksort, kterm, mk, unmk):
        self.name, self.kterm, self.mk, self.unmk = name, kterm, mk, unmk
        self.hn, self.vn, self.ksort = name + '.has', name + '.val', ksort
        c.setH(self.hn, c.fresh(self.hn, z3.ArraySort(ksort, B)))     # heap components: loops see the changes
        c.setH(self.vn, c.fresh(self.vn, z3.ArraySort(ksort, I)))

    def has(self, c, k):
        return Select(c.h[self.hn], k)

    def val(self, c, k):
        return Select(c.h[self.vn], k)

    def sym_contains(self, c, key):
        return c.b2v(self.has(c, self.kterm(c, key)))

    def sym_getitem(self, c, key):
        k = self.kterm(c, key)
        if not c.branch(self.has(c, k)):
            raise PyExc(KeyError, (key,))
        return self.mk(self.val(c, k))

    def sym_setitem(self, c, key, v):
        k = self.kterm(c, key)
        t = self.unmk(c, v)
        c.setH(self.hn, Store(c.h[self.hn], k, BoolVal(True)))
        c.setH(self.vn, Store(c.h[self.vn], k, t))

    def sym_delitem(self, c, key):
        k = self.kterm(c, key)
        if not c.branch(self.has(c, k)):
            raise PyExc(KeyError, (key,))
        c.setH(self.hn, Store(c.h[self.hn], k, BoolVal(False)))

    def sym_getattr(self, c, name):
        def get(c, a, k):
            t = self.kterm(c, a[0])
            if c.branch(self.has(c, t)):
                return self.mk(self.val(c, t))
            return a[1] if len(a) > 1 else None

        def pop(c, a, k):
            t = self.kterm(c, a[0])
            if c.branch(self.has(c, t)):
                c.setH(self.hn, Store(c.h[self.hn], t, BoolVal(False)))
                return self.mk(self.val(c, t))
            if len(a) > 1:
                return a[1]
            raise PyExc(KeyError, (a[0],))

        def clear(c, a, k):
            c.setH(self.hn, z3.K(self.ksort, BoolVal(False)))

        def setdefault(c, a, k):
            if not c.branch(self.has(c, self.kterm(c, a[0]))):
                self.sym_setitem(c, a[0], a[1] if len(a) > 1 else None)
            return self.sym_getitem(c, a[0])
        fns = dict(get=get, pop=pop, clear=clear, setdefault=setdefault)
        if name not in fns:
            raise Unsupported('dict.' + name)
        return Native(fns[name], 'dict.' + name)


class Lx(object):
    def __init__(self):
        self.tracked = ()        # tags whose absence below elements is tracked (cont:)
        self.use_wf = True
        self.pt_attr_tags = {}

    # ------------------------------------------------------------- basics
    def h(self, c, name):
        return c.H(name, SORTS[name]) if name not in c.h else c.h[name]

    def cont(self, c, t):
        return c.H('cont:' + t, AIB)

    def init(self, c):
        for n in SORTS:
            self.h(c, n)
        for t in self.tracked:
            self.cont(c, t)
        self.wf(c)

    def wf(self, c, all_=True):
        """structural facts of the current heap (model invariant)"""
        if not self.use_wf:
            return
        klen, kids, par, pos, al = [self.h(c, n) for n in ('klen', 'kids', 'parent', 'pos', 'alloc')]
        key = (klen.get_id(), kids.get_id(), par.get_id(), pos.get_id(), al.get_id())
        done = c.ghost.setdefault('wf_done', set())
        if key in done:
            return
        done.add(key)
        c.keep = getattr(c, 'keep', [])
        c.keep.append((klen, kids, par, pos, al))
        kid = Select(Select(kids, xe), xi)
        c.assume(al >= 0)
        c.assume(FA([xe], Select(klen, xe) >= 0, Select(klen, xe)))
        c.assume(FA([xe, xi], Implies(And(0 <= xi, xi < Select(klen, xe)),
                                      And(Select(par, kid) == xe, Select(pos, kid) == xi, kid > 0, kid <= al)), kid))
        pc = Select(par, xc)
        c.assume(FA([xc], And(pc >= 0, pc <= al), pc))
        # the inverse only for marked elements (as a trigger on parent it would feed itself)
        c.assume(FA([xc], Implies(pc > 0, And(0 <= Select(pos, xc), Select(pos, xc) < Select(klen, pc),
                                              Select(Select(kids, pc), Select(pos, xc)) == xc, xc != pc)), mark(xc)))

    def klen(self, c, e):
        t = Select(self.h(c, 'klen'), e)
        return simplify(t)

    def attr(self, c, e, k):
        return Select(Select(self.h(c, 'attr'), e), k)

    def store_attr(self, c, e, k, v):
        if 'pt' in c.h and 'text:s' in self.pt_attr_tags:
            n = self.pt_attr_tags['text:s']
            if not c.entails(Or(Select(self.h(c, 'tag'), e) != c.lit(n[0]), k != c.lit(n[1]))):
                self.touch_pt(c, e)
        a = self.h(c, 'attr')
        c.setH('attr', Store(a, e, Store(Select(a, e), k, v)))

    def set(self, c, e, key, v):
        k = sterm(c, key)
        if key is None or k is None:
            raise PyExc(TypeError, ('attribute name',))
        if isinstance(v, (str,)):
            pass
        elif isinstance(v, SStr):
            v = c.resolve_maybe(v)
            if v is None:
                raise PyExc(TypeError, ('attribute value None',))
        else:
            raise PyExc(TypeError, ('attribute value',))
        self.store_attr(c, e, k, sterm(c, v))

    def get(self, c, e, a):
        k = sterm(c, a[0])
        v = self.attr(c, e, k)
        d = a[1] if len(a) > 1 else None
        if d is None:
            return SStr(v, True)
        if c.branch(v == NONE):
            return d
        return SStr(v)

    def touch(self, comp, e):
        pass

    def fresh_el(self, c, name='el'):
        """a new element reference: alloc + 1"""
        x = simplify(self.h(c, 'alloc') + 1)
        c.setH('alloc', x)
        return x

    def new_element(self, c, tag, attrs=None):
        t = sterm(c, tag)
        if t is None:
            raise PyExc(TypeError, ('tag',))
        x = self.fresh_el(c)
        for comp, v in (('tag', t), ('text', NONE), ('tail', NONE), ('klen', IntVal(0)), ('parent', IntVal(0))):
            c.setH(comp, Store(self.h(c, comp), x, v))
        c.setH('attr', Store(self.h(c, 'attr'), x, z3.K(T, NONE)))
        for k, v in (attrs or {}).items():
            self.set(c, x, k, v)
        for tt in self.tracked:
            c.setH('cont:' + tt, Store(self.cont(c, tt), x, BoolVal(False)))
        if 'root' in c.h:
            c.setH('root', Store(c.h['root'], x, x))
        return SEl(x)

    def new_subtree(self, c, tag):
        """a new detached element with unknown content (all of it new)"""
        x = self.new_element(c, tag).t
        al2 = c.fresh('alloc', I)
        c.assume(al2 >= x)
        for n in ('tag', 'text', 'tail', 'attr', 'klen', 'kids', 'parent', 'pos', 'root', 'pt'):
            if n not in c.h:
                continue
            new = c.fresh(n, c.h[n].sort())
            lim = xe < x if n in ('klen', 'kids', 'text', 'attr', 'pt') else xe <= x
            s = Select(new, xe)
            c.assume(FA([xe], Implies(lim, s == Select(c.h[n], xe)), s))
            c.setH(n, new)
        c.setH('alloc', al2)
        for t in self.tracked:
            cn = c.fresh('cont', AIB)
            c.assume(FA([xe], Implies(xe <= x, Select(cn, xe) == Select(self.cont(c, t), xe)), Select(cn, xe)))
            c.setH('cont:' + t, cn)
        self.wf(c)
        if 'root' in c.h:
            self.root_facts(c)
            s = Select(c.h['pt'], xe)
            c.assume(FA([xe], s != NONE, s))
        return SEl(x)

    def deepcopy(self, c, e):
        old = {n: self.h(c, n) for n in SORTS}
        al = old['alloc']
        y = c.fresh('copy', I)
        al2 = c.fresh('alloc', I)
        c.assume(And(y == al + 1, al2 >= y, al >= 0))
        new = {}
        for n in ('tag', 'text', 'tail', 'attr', 'klen', 'kids', 'parent', 'pos'):
            new[n] = c.fresh(n, SORTS[n])
            c.setH(n, new[n])
            s = Select(new[n], xe)
            c.assume(FA([xe], Implies(Or(xe <= al, xe > al2), s == Select(old[n], xe)), s))
        c.setH('alloc', al2)
        for n in ('tag', 'text', 'attr', 'klen'):
            c.assume(Select(new[n], y) == Select(old[n], e))
        c.assume(Select(new['parent'], y) == 0)
        kid = Select(Select(new['kids'], y), xi)
        okid = Select(Select(old['kids'], e), xi)
        c.assume(FA([xi], Implies(And(0 <= xi, xi < Select(old['klen'], e)),
                                  And(kid > y, kid <= al2, iso(kid, okid),
                                      *[Select(new[n], kid) == Select(old[n], okid) for n in ('tag', 'text', 'tail', 'attr', 'klen')])), kid))
        c.assume(iso(y, e))
        for t in self.tracked:
            co = self.cont(c, t)
            cn = c.fresh('cont', AIB)
            c.assume(FA([xe], Implies(Or(xe <= al, xe > al2), Select(cn, xe) == Select(co, xe)), Select(cn, xe)))
            c.assume(Select(cn, y) == Select(co, e))
            c.assume(FA([xi], Implies(And(0 <= xi, xi < Select(old['klen'], e)), Select(cn, kid) == Select(co, okid)), kid))
            c.setH('cont:' + t, cn)
        self.wf(c)
        return SEl(y)

    # ------------------------------------------------------------- plain text ghost
    def use_pt(self, c):
        """plain text (pt) and tree root (root) of every element as ghost components"""
        if 'pt' not in c.h:
            c.H('pt', AIT)
            c.H('root', AII)
            self.root_facts(c)
            s = Select(c.h['pt'], xe)
            c.assume(FA([xe], s != NONE, s))

    def pt(self, c, e):
        return Select(c.h['pt'], e)

    def root_facts(self, c):
        r, par, kids = c.h['root'], self.h(c, 'parent'), self.h(c, 'kids')
        s = Select(r, xe)
        kid = Select(Select(kids, xe), xi)
        al = self.h(c, 'alloc')
        c.assume(FA([xe], Implies(Select(par, xe) == 0, s == xe), [s, Select(par, xe)]))
        c.assume(FA([xe], Implies(xe <= al, s <= al), s))
        c.assume(FA([xe, xi], Implies(And(0 <= xi, xi < Select(self.h(c, 'klen'), xe)), Select(r, kid) == s), kid))

    def touch_pt(self, c, e):
        """the content of e changed: its plain text and that of its ancestors is no longer known"""
        if 'pt' not in c.h:
            return
        old = c.h['pt']
        new = c.fresh('pt', AIT)
        par, r = self.h(c, 'parent'), c.h['root']
        s = Select(new, xe)
        c.assume(FA([xe], And(s != NONE, Implies(Or(Select(par, xe) == e, Select(r, xe) != Select(r, e), And(xe != e, Select(par, e) != 0, Select(par, xe) == Select(par, e))), s == Select(old, xe))), s))
        c.setH('pt', new)

    def root_insert(self, c, e, x):
        if 'root' not in c.h:
            return
        old = c.h['root']
        new = c.fresh('root', AII)
        s = Select(new, xe)
        c.assume(FA([xe], s == If(Select(old, xe) == x, Select(old, e), Select(old, xe)), s))
        c.setH('root', new)
        self.root_facts(c)

    def root_remove(self, c, e, x=None, facts=True):
        if 'root' not in c.h:
            return
        old = c.h['root']
        new = c.fresh('root', AII)
        s = Select(new, xe)
        c.assume(FA([xe], Implies(Select(old, xe) != Select(old, e), s == Select(old, xe)), s))
        c.assume(Select(new, e) == Select(old, e))
        c.setH('root', new)
        if facts:
            self.root_facts(c)

    # ------------------------------------------------------------- structure
    def insert_at(self, c, e, i, x, hint=None):
        """put detached x at index i of e; hint: ('after'|'before', r)"""
        n = self.klen(c, e)
        kids, par, pos = self.h(c, 'kids'), self.h(c, 'parent'), self.h(c, 'pos')
        A = Select(kids, e)
        i = simplify(i) if not isinstance(i, int) else IntVal(i)
        before = (kids, par, pos, n)
        if i.eq(n) or c.entails(i == n):
            A2 = Store(A, n, x)
            c.setH('pos', Store(pos, x, n))
        else:
            A2 = arr_insert(c, A, i, x, 'kids')
            p2 = c.fresh('pos', AII)
            s = Select(p2, xc)
            c.assume(FA([xc], s == If(xc == x, i, If(And(Select(par, xc) == e, Select(pos, xc) >= i), Select(pos, xc) + 1, Select(pos, xc))), s))
            c.setH('pos', p2)
        c.setH('kids', Store(kids, e, A2))
        c.setH('klen', Store(self.h(c, 'klen'), e, simplify(n + 1)))
        c.setH('parent', Store(par, x, e))
        self.views_insert(c, e, i, x, hint, before)
        self.wf(c)
        self.root_insert(c, e, x)
        self.touch_pt(c, e)

    def remove_at(self, c, e, i, x):
        n = self.klen(c, e)
        kids, par, pos = self.h(c, 'kids'), self.h(c, 'parent'), self.h(c, 'pos')
        A = Select(kids, e)
        i = simplify(i) if not isinstance(i, int) else IntVal(i)
        self.cont_fact(c, e, x)
        if c.entails(i == n - 1):
            A2 = A
        else:
            A2 = arr_remove(c, A, i, 'kids')
            p2 = c.fresh('pos', AII)
            s = Select(p2, xc)
            c.assume(FA([xc], s == If(And(Select(par, xc) == e, Select(pos, xc) > i), Select(pos, xc) - 1, Select(pos, xc)), s))
            c.setH('pos', p2)
            c.setH('kids', Store(kids, e, A2))
        c.setH('klen', Store(self.h(c, 'klen'), e, simplify(n - 1)))
        c.setH('parent', Store(par, x, IntVal(0)))
        self.views_remove(c, e, x, par)
        self.wf(c)
        self.root_remove(c, e, x)
        self.touch_pt(c, e)

    def detach(self, c, x):
        """moving an element: take it from its old parent first (its tail moves along)"""
        c.assume(mark(x))
        par = Select(self.h(c, 'parent'), x)
        if c.branch(par == 0):
            return
        i = Select(self.h(c, 'pos'), x)
        self.remove_at(c, simplify(par), i, x)

    def index_of(self, c, e, x):
        """index of x among the children of e or ValueError"""
        c.assume(mark(x))
        if not c.branch(Select(self.h(c, 'parent'), x) == e):
            raise PyExc(ValueError, ('Element is not a child of this node.',))
        i = Select(self.h(c, 'pos'), x)
        c.assume(And(i >= 0, i < self.klen(c, e), Select(Select(self.h(c, 'kids'), e), i) == x))
        self.cont_fact(c, e, x)
        return simplify(i)

    def cont_fact(self, c, p, x):
        """x is a child of p"""
        for t in self.tracked:
            co = self.cont(c, t)
            c.assume(Implies(Or(Select(self.h(c, 'tag'), x) == c.lit(t), Select(co, x)), Select(co, p)))

    def need_el(self, c, v):
        if isinstance(v, SEl):
            return v.t
        raise PyExc(TypeError, ('expected an element',))

    def append(self, c, e, v):
        x = self.need_el(c, v)
        self.detach(c, x)
        self.insert_at(c, e, self.klen(c, e), x)

    def insert(self, c, e, i, v):
        x = self.need_el(c, v)
        if iterm(i) is None:
            raise PyExc(TypeError, ('index',))
        self.detach(c, x)
        n = self.klen(c, e)
        p = c.clamp(i, n, None)
        self.insert_at(c, e, IntVal(p) if isinstance(p, int) else p, x)

    def addsibling(self, c, e, v, after):
        x = self.need_el(c, v)
        if not c.branch(Select(self.h(c, 'parent'), e) != 0):
            raise Unsupported('sibling of a root element')
        if c.entails(x == e):
            return
        self.detach(c, x)
        p = simplify(Select(self.h(c, 'parent'), e))
        i = Select(self.h(c, 'pos'), e)
        c.assume(And(p > 0, i >= 0, i < self.klen(c, p), Select(Select(self.h(c, 'kids'), p), i) == e))
        self.cont_fact(c, p, e)
        # the tail of e stays behind e (addnext) -- lxml moves the tail of x with x
        self.insert_at(c, p, simplify(i + 1 if after else i), x, ('after' if after else 'before', e))

    def remove(self, c, e, v):
        x = self.need_el(c, v)
        i = self.index_of(c, e, x)
        self.remove_at(c, e, i, x)

    def replace(self, c, e, old, new):
        o, x = self.need_el(c, old), self.need_el(c, new)
        self.index_of(c, e, o)
        if c.entails(o == x):
            return
        self.detach(c, x)
        i = Select(self.h(c, 'pos'), o)
        c.assume(And(i >= 0, i < self.klen(c, e), Select(Select(self.h(c, 'kids'), e), i) == o, Select(self.h(c, 'parent'), o) == e))
        self.replace_at(c, e, simplify(i), o, x)

    def replace_at(self, c, e, i, o, x):
        kids, par, pos = self.h(c, 'kids'), self.h(c, 'parent'), self.h(c, 'pos')
        par0 = par
        self.cont_fact(c, e, o)
        c.setH('kids', Store(kids, e, Store(Select(kids, e), i, x)))
        c.setH('parent', Store(Store(par, o, IntVal(0)), x, e))
        c.setH('pos', Store(pos, x, i))
        self.views_replace(c, e, o, x, par0)
        self.wf(c)
        self.root_remove(c, e, o, facts=False)
        self.root_insert(c, e, x)
        self.touch_pt(c, e)

    def clear_el(self, c, e):
        al = self.h(c, 'alloc')
        par = self.h(c, 'parent')
        p2 = c.fresh('parent', AII)
        s = Select(p2, xc)
        c.assume(FA([xc], s == If(Select(par, xc) == e, IntVal(0), Select(par, xc)), s))
        c.setH('parent', p2)
        c.setH('klen', Store(self.h(c, 'klen'), e, IntVal(0)))
        c.setH('text', Store(self.h(c, 'text'), e, NONE))
        c.setH('tail', Store(self.h(c, 'tail'), e, NONE))
        c.setH('attr', Store(self.h(c, 'attr'), e, z3.K(T, NONE)))
        for k, v in list(c.views.items()):
            if c.entails(v.root == e):
                c.views[k] = v.upd(IntVal(0), v.arr, c.fresh('vidx', AII))
            elif not v.deep:
                pass
            else:
                c.views[k] = self.new_view(c, v.root, v.tag, v.deep)
        for t in self.tracked:
            self.weaken_cont(c, t)
        self.wf(c)
        self.root_remove(c, e)
        self.touch_pt(c, e)

    # ------------------------------------------------------------- views
    def view_key(self, root, tag, deep):
        return (root.get_id(), tag, deep)

    def new_view(self, c, root, tag, deep):
        n = c.fint('view.n')
        arr = c.fresh('view.a', AII)
        idx = c.fresh('view.x', AII)
        v = View(root, tag, deep, n, arr, idx)
        c.assume(n >= 0)
        tg = self.h(c, 'tag')
        al = self.h(c, 'alloc')
        x = Select(arr, xi)
        facts = [Select(tg, x) == c.lit(tag), Select(idx, x) == xi, x > 0, x <= al, Select(self.h(c, 'parent'), x) > 0, x != root]
        if not deep:
            facts += [Select(self.h(c, 'parent'), x) == root]
        c.assume(FA([xi], Implies(And(0 <= xi, xi < n), And(*facts)), x))
        if not deep:
            # document order and completeness
            pos, par = self.h(c, 'pos'), self.h(c, 'parent')
            c.assume(FA([xi, xc], Implies(And(0 <= xi, xi < xc, xc < n), Select(pos, Select(arr, xi)) < Select(pos, Select(arr, xc))),
                        [Select(arr, xi), Select(arr, xc)]))
            s = Select(par, xc)
            c.assume(FA([xc], Implies(And(s == root, Select(tg, xc) == c.lit(tag)),
                                      And(0 <= Select(idx, xc), Select(idx, xc) < n, Select(arr, Select(idx, xc)) == xc)), Select(idx, xc)))
            kid = Select(Select(self.h(c, 'kids'), root), xi)
            c.assume(FA([xi], Implies(And(0 <= xi, xi < self.klen(c, root), Select(tg, kid) == c.lit(tag)),
                                      And(0 <= Select(idx, kid), Select(idx, kid) < n, Select(arr, Select(idx, kid)) == kid)), kid))
        return v

    def view(self, c, root, tag, deep):
        key = self.view_key(root, tag, deep)
        if key not in c.views:
            for k, v in c.views.items():
                if v.tag == tag and v.deep == deep and c.entails(v.root == root):
                    return v
            c.views[key] = self.new_view(c, root, tag, deep)
            c.keep = getattr(c, 'keep', [])
            c.keep.append(root)
        return c.views[key]

    def view_list(self, c, v):
        l = c.new_list([], 'found')
        l.items, l.n, l.arr, l.kind = None, v.n, v.arr, 'el'
        set_inv(l, v.idx)
        if z3.is_int_value(simplify(v.n)):
            n = simplify(v.n).as_long()
            l.items = [SEl(Select(v.arr, IntVal(i))) for i in range(n)]
        return l

    def havoc_view(self, c, vk):
        v = c.views[vk]
        return self.new_view(c, v.root, v.tag, v.deep)

    def after_havoc(self, c, comps):
        if set(comps) & set(('klen', 'kids', 'parent', 'pos')):
            self.wf(c)

    def weaken_cont(self, c, t):
        co = self.cont(c, t)
        cn = c.fresh('cont', AIB)
        c.assume(FA([xe], Implies(Not(Select(co, xe)), Not(Select(cn, xe))), Select(cn, xe)))
        c.setH('cont:' + t, cn)

    def ins_view(self, c, v, r, x):
        """view with x inserted at rank r"""
        if v.n.eq(r) if hasattr(r, 'eq') else False:
            # named, so that the terms are available for matching
            arr, idx = c.fresh('view.a', AII), c.fresh('view.x', AII)
            c.assume(arr == Store(v.arr, v.n, x))
            c.assume(idx == Store(v.idx, x, v.n))
            return v.upd(simplify(v.n + 1), arr, idx)
        arr = arr_insert(c, v.arr, r, x, 'view.a')
        idx = c.fresh('view.x', AII)
        s = Select(idx, xc)
        old = Select(v.idx, xc)
        inv = And(old >= 0, old < v.n, Select(v.arr, old) == xc)
        c.assume(FA([xc], Implies(xc != x, If(inv, s == If(old >= r, old + 1, old), s == -1)), s))
        c.assume(Select(idx, x) == r)
        return v.upd(simplify(v.n + 1), arr, idx)

    def del_view(self, c, v, r, x):
        arr = arr_remove(c, v.arr, r, 'view.a')
        idx = c.fresh('view.x', AII)
        s = Select(idx, xc)
        old = Select(v.idx, xc)
        inv = And(old >= 0, old < v.n, Select(v.arr, old) == xc)
        c.assume(FA([xc], Implies(xc != x, If(inv, s == If(old > r, old - 1, old), s == -1)), s))
        c.assume(Select(idx, x) == -1)
        return v.upd(simplify(v.n - 1), arr, idx)

    def no_tag(self, c, x, t, deep=True):
        """x and its subtree contain no element with tag t"""
        if c.entails(Select(self.h(c, 'tag'), x) != c.lit(t)):
            if not deep:
                return True
            if t in self.tracked:
                return c.entails(Not(Select(self.cont(c, t), x)))
            return c.entails(self.klen(c, x) == 0)
        return False

    def only_self(self, c, x, t, deep=True):
        """x has tag t and contains no other element with that tag"""
        if not c.entails(Select(self.h(c, 'tag'), x) == c.lit(t)):
            return False
        if not deep:
            return True
        if t in self.tracked and c.entails(Not(Select(self.cont(c, t), x))):
            return True
        return c.entails(self.klen(c, x) == 0)

    def views_insert(self, c, e, i, x, hint, before):
        kids0, par0, pos0, n0 = before
        for key, v in list(c.views.items()):
            if not v.deep:
                if not c.entails(v.root == e):
                    if c.entails(v.root != e):
                        continue
                    c.views[key] = self.new_view(c, v.root, v.tag, v.deep)
                    continue
                if self.no_tag(c, x, v.tag, deep=False):
                    continue
                if not c.entails(Select(self.h(c, 'tag'), x) == c.lit(v.tag)):
                    c.views[key] = self.new_view(c, v.root, v.tag, v.deep)
                    continue
                if i.eq(n0) or c.entails(i == n0):
                    c.views[key] = self.ins_view(c, v, v.n, x)
                    continue
                # rank: how many members stand before child index i
                r = c.fint('rank')
                c.assume(And(0 <= r, r <= v.n))
                m = Select(pos0, Select(v.arr, xi))
                c.assume(FA([xi], Implies(And(0 <= xi, xi < v.n), (xi < r) == (m < i)), Select(v.arr, xi)))
                # r as the member that stood at i, if that was a member
                at = Select(Select(kids0, e), i)
                if c.entails(And(i < n0, v.has(at))):
                    c.assume(r == Select(v.idx, at))
                elif c.entails(And(i > 0, v.has(Select(Select(kids0, e), i - 1)))):
                    c.assume(r == Select(v.idx, Select(Select(kids0, e), i - 1)) + 1)
                c.views[key] = self.ins_view(c, v, r, x)
                continue
            if self.no_tag(c, x, v.tag):
                continue
            if not self.only_self(c, x, v.tag):
                c.views[key] = self.new_view(c, v.root, v.tag, v.deep)
                continue
            if hint and c.surely(v.has(hint[1])) and self.only_self(c, hint[1], v.tag):
                r = Select(v.idx, hint[1])
                c.views[key] = self.ins_view(c, v, simplify(r + 1 if hint[0] == 'after' else r), x)
            elif c.entails(v.root == e):
                if i.eq(n0) or c.entails(i == n0):
                    r = v.n
                else:
                    r = c.fint('rank')
                    c.assume(And(0 <= r, r <= v.n))
                c.views[key] = self.ins_view(c, v, r, x)
            else:
                c.views[key] = self.new_view(c, v.root, v.tag, v.deep)
        for t in self.tracked:
            if self.no_tag(c, x, t):
                continue
            co = self.cont(c, t)
            if hint and c.entails(Select(self.h(c, 'tag'), hint[1]) == c.lit(t)):
                continue     # every ancestor already has the sibling as descendant
            cn = c.fresh('cont', AIB)
            # only e and its ancestors are affected; elements without children are no ancestors
            kl = Select(self.h(c, 'klen'), xe)
            tg = Select(self.h(c, 'tag'), xe)
            c.assume(FA([xe], Implies(Or(Select(co, xe), kl == 0), Select(cn, xe) == Select(co, xe)), Select(cn, xe)))
            c.assume(Select(cn, e) == BoolVal(True))
            if c.entails(Select(par0, e) == 0):
                c.assume(FA([xe], Implies(xe != e, Select(cn, xe) == Select(co, xe)), Select(cn, xe)))
            c.setH('cont:' + t, cn)

    def views_remove(self, c, e, x, par0):
        for key, v in list(c.views.items()):
            if not v.deep:
                if c.entails(v.root != e) or self.no_tag(c, x, v.tag, deep=False):
                    continue
                if c.entails(v.root == e) and c.surely(v.has(x)):
                    c.views[key] = self.del_view(c, v, Select(v.idx, x), x)
                    continue
            else:
                if self.no_tag(c, x, v.tag):
                    continue
                if c.surely(v.has(x)) and self.only_self(c, x, v.tag):
                    c.views[key] = self.del_view(c, v, Select(v.idx, x), x)
                    continue
            c.views[key] = self.new_view(c, v.root, v.tag, v.deep)
        for t in self.tracked:
            if not self.no_tag(c, x, t):
                self.weaken_cont(c, t)

    def views_replace(self, c, e, o, x, par0):
        for key, v in list(c.views.items()):
            if not v.deep and c.entails(v.root != e):
                continue
            no_o, no_x = self.no_tag(c, o, v.tag, v.deep), self.no_tag(c, x, v.tag, v.deep)
            if no_o and no_x:
                continue
            if not no_o and not no_x and c.surely(v.has(o)) and self.only_self(c, o, v.tag, v.deep) and self.only_self(c, x, v.tag, v.deep):
                r = Select(v.idx, o)
                c.views[key] = v.upd(v.n, Store(v.arr, r, x), Store(Store(v.idx, o, IntVal(-1)), x, r))
                continue
            c.views[key] = self.new_view(c, v.root, v.tag, v.deep)
        for t in self.tracked:
            if self.no_tag(c, x, t) and self.no_tag(c, o, t):
                continue
            if c.entails(And(Select(self.h(c, 'tag'), o) == c.lit(t), Select(self.h(c, 'tag'), x) == c.lit(t))):
                continue
            cn = c.fresh('cont', AIB)
            c.setH('cont:' + t, cn)

    # ------------------------------------------------------------- attribute protocol
    def getattr(self, c, o, name):
        e = o.t
        if name in ('tag',):
            t = simplify(Select(self.h(c, 'tag'), e))
            v = lit_value(t)
            return v if v is not None else SStr(t)
        if name in ('text', 'tail'):
            t = simplify(Select(self.h(c, name), e))
            if t.eq(NONE):
                return None
            v = lit_value(t)
            return v if v is not None else SStr(t, True)
        if name == 'attrib':
            return SAttrib(e)
        m = getattr(self, 'm_' + name, None)
        if m is None:
            raise Unsupported('element.%s' % name)
        return Native(lambda c, a, k: m(c, e, a, k), 'element.' + name)

    def setattr(self, c, o, name, v):
        e = o.t
        if name in ('text', 'tail'):
            if not isinstance(v, (str, SStr)) and v is not None:
                raise PyExc(TypeError, ('text',))
            c.setH(name, Store(self.h(c, name), e, sterm(c, v)))
            if name == 'text':
                self.touch_pt(c, e)
            elif 'pt' in c.h and not c.entails(Select(self.h(c, 'parent'), e) == 0):
                self.touch_pt(c, Select(self.h(c, 'parent'), e))
            return
        if name == 'tag':
            t = sterm(c, v)
            if t is None or v is None:
                raise PyExc(TypeError, ('tag',))
            old = Select(self.h(c, 'tag'), e)
            for key, w in list(c.views.items()):
                if c.entails(And(old != c.lit(w.tag), t != c.lit(w.tag))):
                    continue
                if c.entails(And(old == c.lit(w.tag), t == c.lit(w.tag))):
                    continue
                c.views[key] = None
            c.setH('tag', Store(self.h(c, 'tag'), e, t))
            for key in [k for k, w in c.views.items() if w is None]:
                del c.views[key]
            for tt in self.tracked:
                if not c.entails(And(old != c.lit(tt), t != c.lit(tt))):
                    c.setH('cont:' + tt, c.fresh('cont', AIB))
            return
        raise Unsupported('element.%s =' % name)

    def hasattr(self, name):
        from lxml import etree
        return hasattr(etree.Element('a'), name)

    def m_get(self, c, e, a, k):
        return self.get(c, e, a + [k['default']] if 'default' in k else a)

    def m_set(self, c, e, a, k):
        self.set(c, e, a[0], a[1])

    def m_append(self, c, e, a, k):
        self.append(c, e, a[0])

    def m_insert(self, c, e, a, k):
        self.insert(c, e, a[0], a[1])

    def m_remove(self, c, e, a, k):
        self.remove(c, e, a[0])

    def m_replace(self, c, e, a, k):
        self.replace(c, e, a[0], a[1])

    def m_index(self, c, e, a, k):
        x = self.need_el(c, a[0])
        return c.mkint(self.index_of(c, e, x))

    def m_extend(self, c, e, a, k):
        s = c.seq_of(a[0])
        c.run_loop('extend', s, None, lambda v: self.append(c, e, v))

    def m_addnext(self, c, e, a, k):
        self.addsibling(c, e, a[0], True)

    def m_addprevious(self, c, e, a, k):
        self.addsibling(c, e, a[0], False)

    def m_clear(self, c, e, a, k):
        self.clear_el(c, e)

    def m_getparent(self, c, e, a, k):
        p = simplify(Select(self.h(c, 'parent'), e))
        c.assume(mark(e))
        if c.branch(p == 0):
            return None
        return SEl(p)

    def m_getchildren(self, c, e, a, k):
        return self.children_list(c, e)

    def m_iterchildren(self, c, e, a, k):
        rev = k.get('reversed', False)
        if a or set(k) - set(('reversed',)):
            raise Unsupported('iterchildren(tag)')
        s = self.children_seq(c, SEl(e))
        if rev is True:
            n = s.n
            if isinstance(n, int):
                return Iter(Seq(n, lambda i: s.get(n - 1 - i)))
            r = Seq(n, lambda i: s.get(simplify(n - 1 - i)))
            r.mapped = True
            return Iter(r)
        return Iter(s)

    def children_list(self, c, e):
        l = c.new_list([], 'children')
        n = self.klen(c, e)
        if not z3.is_int_value(n):
            for v in (0, 1):
                if c.entails(n == v, timeout=1500):
                    n = IntVal(v)
                    break
        arr = Select(self.h(c, 'kids'), e)
        if z3.is_int_value(n):
            l.items = [SEl(simplify(Select(arr, IntVal(i)))) for i in range(n.as_long())]
        else:
            l.items, l.n, l.arr, l.kind = None, n, simplify(arr), 'el'
        return l

    def children_seq(self, c, o):
        s = c.seq_of(self.children_list(c, o.t))
        if not isinstance(s.n, int):
            s.live = o.t
        return s

    def undisturbed(self, c, seq, k, n):
        """lxml's iterator takes the next sibling of a child when it hands that child out: it is the next one of the children there were at the begin"""
        e, x = seq.live, seq.ref(k)
        po = Select(self.h(c, 'pos'), x)
        last = po + 1 == self.klen(c, e)
        return And(Select(self.h(c, 'parent'), x) == e, If(k + 1 == n, last, And(Not(last), Select(Select(self.h(c, 'kids'), e), po + 1) == seq.ref(k + 1))))

    def parse_path(self, c, path):
        if not isinstance(path, str):
            raise Unsupported('find with symbolic path')
        if path.startswith('.//'):
            return path[3:], True
        if path.startswith('.') or '[' in path or '/' in path.split('}')[-1] or path in ('*', '..'):
            raise Unsupported('path %s' % path)
        return path, False

    def m_findall(self, c, e, a, k):
        tag, deep = self.parse_path(c, a[0])
        return self.view_list(c, self.view(c, e, tag, deep))

    def m_find(self, c, e, a, k):
        tag, deep = self.parse_path(c, a[0])
        v = self.view(c, e, tag, deep)
        if c.branch(v.n == 0):
            return None
        return SEl(simplify(Select(v.arr, IntVal(0))))

    def len(self, c, o):
        return c.mkint(self.klen(c, o.t))

    def getitem(self, c, o, i):
        l = self.children_list(c, o.t)
        return c.getitem(l, i)

    def setitem(self, c, o, i, v):
        """element[i] = new: replaces the child in place (the tail of the old child moves with it)"""
        e = o.t
        x = self.need_el(c, v)
        if isinstance(i, SliceV):
            raise Unsupported('slice assignment')
        n = self.klen(c, e)
        t = c.norm_index(i, n.as_long() if z3.is_int_value(n) else n)
        t = IntVal(t) if isinstance(t, int) else t
        old = Select(Select(self.h(c, 'kids'), e), t)
        c.assume(And(Select(self.h(c, 'parent'), old) == e, Select(self.h(c, 'pos'), old) == t))
        if c.branch(Select(self.h(c, 'parent'), x) != 0):
            raise Unsupported('item assignment of an attached element')
        self.replace_at(c, e, simplify(t), simplify(old), x)
        c.setH('tail', Store(self.h(c, 'tail'), simplify(old), NONE))

    def delitem(self, c, o, i):
        e = o.t
        if isinstance(i, SliceV):
            raise Unsupported('slice deletion')
        n = self.klen(c, e)
        t = c.norm_index(i, n.as_long() if z3.is_int_value(n) else n)
        t = IntVal(t) if isinstance(t, int) else t
        old = simplify(Select(Select(self.h(c, 'kids'), e), t))
        c.assume(And(Select(self.h(c, 'parent'), old) == e, Select(self.h(c, 'pos'), old) == t))
        self.remove_at(c, e, t, old)
