"""C09 cell spans"""
from .tables import *
from .C05 import element_of, row_at, cell_at, ints, iterm_
from ezodf import tableutils
from ezodf.cells import Cell
from pyvc.core import list_symbolic, PairS, PList, Iter, SInt, unpack

ASSUMPTIONS = ['the table is normalized (C10); span attributes are decimal numbers',
               'generators are run to their end when they are called (the ranges of cells depend on numbers only)']
NR, NC = CN('table:number-rows-spanned'), CN('table:number-columns-spanned')
a_, b_ = z3.Int('a!'), z3.Int('b!')


# ------------------------------------------------------------------ ranges of cells
def in_range(a, b, sr, sc, nr, nc):
    return And(sr <= a, a < sr + nr, sc <= b, b < sc + nc)


def listed(l, inside, sr, sc):
    """the items of l are the positions for which inside holds, each once; the first is (sr, sc)"""
    x = Select(l.arr, xi)
    a, b = PairS.a(x), PairS.b(x)
    at = Select(Select(l.idx, a_), b_)
    return [('items in range', FA([xi], Implies(And(0 <= xi, xi < l.n), And(inside(a, b), Select(Select(l.idx, a), b) == xi)), x)),
            ('range in items', FA([a_, b_], Implies(inside(a_, b_), And(0 <= at, at < l.n, Select(l.arr, at) == PairS.mk(a_, b_))), at)),
            ('first item', Implies(l.n > 0, Select(l.arr, 0) == PairS.mk(sr, sc)))]


def new_pairs(c, name='range'):
    l = PList([], name) if False else c.new_list([])
    list_symbolic(c, l, 'pair')
    l.idx = c.fresh('inverse', z3.ArraySort(I, z3.ArraySort(I, I)))
    return l


def start_generator(c, q, env):
    list_symbolic(c, env.yields, 'pair')
    env.yields.idx = c.fresh('inverse', z3.ArraySort(I, z3.ArraySort(I, I)))
    c.ghost['yields'] = env.yields


def rng(c):
    sr, sc, nr, nc = [c.integer(x) for x in ('row', 'column', 'nrows', 'ncols')]
    return sr, sc, nr, nc


@unit('C09', 'ezodf.tableutils:iter_cell_range', 'range')
def u_range(c):
    sr, sc, nr, nc = [v.t for v in rng(c)]
    c.assume(And(sr >= 0, sc >= 0, nr >= 1, nc >= 1))
    c.ver.gen_hook = start_generator

    def inv(c, L):
        l = c.ghost['yields']
        out = [('rows: ' + nm, f) for nm, f in listed(l, lambda a, b: in_range(a, b, sr, sc, L.k, nc), sr, sc)]
        out += [('not empty', Implies(L.k > 0, l.n > 0))]
        for x, t in ints(L):
            out += [('%s is the row: %s' % (x, nm), f) for nm, f in listed(l, lambda a, b: Or(in_range(a, b, sr, sc, t - sr, nc), And(a == t, sc <= b, b < sc + L.k)), sr, sc)]
            out += [('%s > %s' % (x, nm), f) for nm, f in [('first', And(t >= sr, t < sr + nr)), ('not empty', Implies(Or(L.k > 0, t > sr), l.n > 0))]]
        return out
    c.ver.invariants['*'] = [inv]
    r = c.run(tableutils.iter_cell_range, (SInt(sr), SInt(sc)), (SInt(nr), SInt(nc)))
    c.ensure('accepted', r.ok)
    if not r.ok:
        raise PathEnd()
    l = c.to_list(c.seq_of(r.value))
    l.idx = c.ghost['yields'].idx
    check(c, listed(l, lambda a, b: in_range(a, b, sr, sc, nr, nc), sr, sc))
    c.ensure('not empty', l.n > 0)


@unit('C09', 'ezodf.tableutils:iter_cell_range', 'no range')
def u_no_range(c):
    sr, sc, nr, nc = rng(c)
    c.assume(Or(sr.t < 0, sc.t < 0, nr.t < 1, nc.t < 1))
    c.ver.gen_hook = start_generator
    r = c.run(tableutils.iter_cell_range, (sr, sc), (nr, nc))
    c.ensure('ValueError', r.raised(ValueError))


def range_contract(c, a, k):
    """iter_cell_range at call sites (verified above)"""
    pos, size = a[0] if a else k['pos'], a[1] if len(a) > 1 else k['size']
    (sr, sc), (nr, nc) = [[iterm_(x) for x in c.to_list(c.seq_of(p)).items] for p in (pos, size)]
    if c.branch(Or(sr < 0, sc < 0, nr < 1, nc < 1)):
        raise PyExc(ValueError, ())
    l = new_pairs(c)
    l.n, l.arr = c.fint('cells'), c.fresh('cells', l.arr.sort())
    for nm, f in listed(l, lambda x, y: in_range(x, y, sr, sc, nr, nc), sr, sc):
        c.assume(f)
    c.assume(l.n > 0)
    for i, j in c.ghost.get('witness', ()):      # an instance of the second fact
        x = Select(Select(l.idx, i), j)
        c.assume(Implies(in_range(i, j, sr, sc, nr, nc), And(0 <= x, x < l.n, Select(l.arr, x) == PairS.mk(i, j))))
    c.ghost.setdefault('ranges', []).append(l)
    return Iter(c.seq_of(l))


# ------------------------------------------------------------------ spans in a table
SPAN_KEYS = Cell.CELL_ONLY_ATTRIBS


class Spans(object):
    """positions of elements and span attributes in heap h"""
    def __init__(self, c, S, h):
        self.c, self.S, self.h = c, S, h

    def row(self, e):
        return Select(self.S.v.idx, Select(self.h['parent'], e))

    def col(self, e):
        return Select(self.h['pos'], e)

    def cell(self, e):
        """e is a cell of the table"""
        a, b = self.row(e), self.col(e)
        return And(e <= self.S.old['alloc'], 0 <= a, a < self.S.n, Select(self.S.v.arr, a) == Select(self.h['parent'], e), 0 <= b, b < self.S.m)

    def at(self, a, b):
        return Select(Select(self.S.old['kids'], Select(self.S.v.arr, a)), b)

    def num(self, e, key):
        t = Select(Select(self.h['attr'], e), self.c.lit(key))
        return If(Or(t == NONE, int_of_str(t) < 1), IntVal(1), int_of_str(t))

    def spanning(self, e):
        return Not(And(self.num(e, NR) == 1, self.num(e, NC) == 1))

    def covered(self, e):
        return Select(self.h['tag'], e) == self.c.lit(COVERED)


def spans(c):
    c.ver.contracts['ezodf.tableutils:iter_cell_range'] = Con(range_contract)
    S = setup(c)
    c.ver.wrap_split = [CELL, COVERED]
    S.o = Spans(c, S, S.old)
    e = S.o.at(a_, b_)
    tag = Select(S.old['tag'], e)
    inside = And(0 <= a_, a_ < S.n, 0 <= b_, b_ < S.m)
    at = Select(S.old['attr'], e)
    number = lambda key: Or(Select(at, c.lit(key)) == NONE, is_int(Select(at, c.lit(key))))
    c.assume(FA([a_, b_], Implies(inside, And(Or(tag == c.lit(CELL), tag == c.lit(COVERED)), S.o.cell(e), S.o.row(e) == a_, S.o.col(e) == b_, number(NR), number(NC))), e))
    c.assume(FA([xe], found(S, xe), S.o.col(xe)))        # lemma below
    return S


def found(S, e):
    return Implies(S.o.cell(e), S.o.at(S.o.row(e), S.o.col(e)) == e)


@unit('C09', 'lemma: a cell is found at its position', '')
def u_found(c):
    S = setup(c)
    S.o = Spans(c, S, S.old)
    e = c.fint('e')
    c.assume(mark(e))
    c.ensure('found', found(S, e))


def name_heap(c):
    for n in [k for k in ('tag', 'attr') if not z3.is_const(c.h[k])]:
        x = c.fresh(n, c.h[n].sort())
        c.assume(x == c.h[n])
        c.h[n] = x


def changed(c, S, done, tag, keys):
    """the cells for which done holds have this tag and have lost these attributes, nothing else changed"""
    key = z3.Const('key!', T)
    lost = Or(*[key == c.lit(k) for k in keys]) if keys else BoolVal(False)
    at = Select(Select(c.h['attr'], xe), key)
    yes = And(S.o.cell(xe), done(xe))
    old = xe <= S.old['alloc']
    return [('tags', FA([xe], Implies(old, c.h1('tag', xe) == If(yes, c.lit(tag), Select(S.old['tag'], xe))), c.h1('tag', xe))),
            ('attributes', FA([xe, key], Implies(old, at == If(And(yes, lost), NONE, Select(Select(S.old['attr'], xe), key))), at)),
            ('structure and texts', c.unchanged(S.old, tuple(x for x in STRUCT if x not in ('tag', 'attr'))))]


def same_table(c, S):
    return same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + rows_match(c, S) + columns_match(c, S)


def covering(c, S, tag, keys):
    """loops over the cells of a range, from its first or second cell on"""
    def inv(c, L):
        out = [('table: ' + nm, f) for nm, f in same_table(c, S)]
        out += [('nothing changed: ' + nm, f) for nm, f in changed(c, S, lambda e: BoolVal(False), tag, ())]
        for i, l in enumerate(c.ghost.get('ranges', ())):
            def seen(e, d):
                x = Select(Select(l.idx, S.o.row(e)), S.o.col(e))
                return And(d <= x, x < L.k + d, x < l.n, Select(l.arr, x) == PairS.mk(S.o.row(e), S.o.col(e)))
            for d in (0, 1):
                out += [('cells of range %d from %d on: %s' % (i, d, nm), f) for nm, f in changed(c, S, lambda e: seen(e, d), tag, keys)]
            x = Select(l.arr, xi)
            e = S.o.at(PairS.a(x), PairS.b(x))
            out += [('free cells of range %d' % i, FA([xi], Implies(And(0 <= xi, xi < L.k), And(Not(S.o.spanning(e)), Not(S.o.covered(e)))), x))]
        return out
    c.ver.invariants['*'] = [inv]


def place(c, S):
    sr, sc, nr, nc = rng(c)
    return (sr, sc), (nr, nc), sr.t, sc.t, nr.t, nc.t


@unit('C09', 'ezodf.table:Table.set_cell_span', 'free range', budget=300)
def u_set(c):
    S = spans(c)
    pos, size, sr, sc, nr, nc = place(c, S)
    c.assume(And(sr >= 0, sc >= 0, nr >= 1, nc >= 1, sr + nr <= S.n, sc + nc <= S.m))
    e = S.o.at(a_, b_)
    c.assume(FA([a_, b_], Implies(in_range(a_, b_, sr, sc, nr, nc), And(Not(S.o.spanning(e)), Not(S.o.covered(e)))), e))
    covering(c, S, COVERED, SPAN_KEYS)
    r = c.run(Table.set_cell_span, S.t, pos, size)
    c.ensure('accepted', r.ok)
    if not r.ok:
        raise PathEnd()
    name_heap(c)
    first = S.o.at(sr, sc)
    inr = lambda e: in_range(S.o.row(e), S.o.col(e), sr, sc, nr, nc)
    old = xe <= S.old['alloc']
    yes = And(S.o.cell(xe), inr(xe), xe != first)
    c.ensure('exactly the other cells of the range are covered', FA([xe], Implies(old, c.h1('tag', xe) == If(yes, c.lit(COVERED), Select(S.old['tag'], xe))), c.h1('tag', xe)))
    n = Spans(c, S, c.h)
    c.ensure('the first cell spans the range', And(n.num(first, NR) == nr, n.num(first, NC) == nc, c.h1('tag', first) == c.lit(CELL)))
    key = z3.Const('key!', T)
    at = Select(Select(c.h['attr'], xe), key)
    span = Or(*[key == c.lit(k) for k in SPAN_KEYS])
    c.ensure('all other attributes', FA([xe, key], Implies(And(old, Or(Not(S.o.cell(xe)), Not(inr(xe)), Not(span))), at == Select(Select(S.old['attr'], xe), key)), at))
    c.ensure('covered cells span nothing', FA([xe], Implies(yes, Not(n.spanning(xe))), c.h1('tag', xe)))
    c.ensure('structure and texts', c.unchanged(S.old, tuple(x for x in STRUCT if x not in ('tag', 'attr'))))
    check(c, same_table(c, S))


@unit('C09', 'ezodf.table:Table.set_cell_span', 'rejected', budget=300)
def u_rejected(c):
    S = spans(c)
    pos, size, sr, sc, nr, nc = place(c, S)
    e = S.o.at(a_, b_)
    case = c.choose(4)
    c.assume(And(sr >= 0, sc >= 0) if case != 0 else Or(sr < 0, sc < 0))
    if case > 0:
        c.assume(And(nr >= 1, nc >= 1) if case != 1 else Or(nr < 1, nc < 1))
    if case > 1:
        c.assume(And(sr + nr <= S.n, sc + nc <= S.m) if case != 2 else Or(sr + nr > S.n, sc + nc > S.m))
    if case == 3:
        i, j = c.fint('i'), c.fint('j')
        x = S.o.at(i, j)
        c.assume(And(in_range(i, j, sr, sc, nr, nc), Or(S.o.spanning(x), S.o.covered(x))))
        c.ghost['witness'] = [(i, j)]
    covering(c, S, COVERED, SPAN_KEYS)
    r = c.run(Table.set_cell_span, S.t, pos, size)
    c.ensure(('IndexError', 'ValueError', 'ValueError', 'ValueError')[case] + (' (negative position)', ' (size)', ' (outside)', ' (occupied)')[case], r.raised(IndexError if case == 0 else ValueError))
    name_heap(c)
    c.ensure('nothing changed', c.unchanged(S.old, STRUCT))
    check(c, same_table(c, S))


@unit('C09', 'ezodf.table:Table.remove_cell_span', 'spanning cell', budget=300)
def u_remove(c):
    S = spans(c)
    i, j = c.integer('row', 0, S.n - 1), c.integer('column', 0, S.m - 1)
    first = S.o.at(i.t, j.t)
    nr, nc = S.o.num(first, NR), S.o.num(first, NC)
    c.assume(And(S.o.spanning(first), Not(S.o.covered(first)), i.t + nr <= S.n, j.t + nc <= S.m))
    covering(c, S, CELL, ())
    r = c.run(Table.remove_cell_span, S.t, (i, j))
    c.ensure('accepted', r.ok)
    if not r.ok:
        raise PathEnd()
    name_heap(c)
    check(c, changed(c, S, lambda e: in_range(S.o.row(e), S.o.col(e), i.t, j.t, nr, nc), CELL, ())[:1])
    n = Spans(c, S, c.h)
    c.ensure('the cell spans nothing else', Not(n.spanning(first)))
    key = z3.Const('key!', T)
    at = Select(Select(c.h['attr'], xe), key)
    span = Or(*[key == c.lit(k) for k in SPAN_KEYS])
    c.ensure('all other attributes', FA([xe, key], Implies(And(xe <= S.old['alloc'], Or(xe != first, Not(span))), at == Select(Select(S.old['attr'], xe), key)), at))
    c.ensure('structure and texts', c.unchanged(S.old, tuple(x for x in STRUCT if x not in ('tag', 'attr'))))
    check(c, same_table(c, S))


@unit('C09', 'ezodf.table:Table.remove_cell_span', 'other cell', budget=300)
def u_remove_none(c):
    S = spans(c)
    i, j = c.integer('row', 0, S.n - 1), c.integer('column', 0, S.m - 1)
    c.assume(Not(S.o.spanning(S.o.at(i.t, j.t))))
    covering(c, S, CELL, ())
    r = c.run(Table.remove_cell_span, S.t, (i, j))
    c.ensure('accepted', r.ok)
    name_heap(c)
    c.ensure('nothing changed', c.unchanged(S.old, STRUCT))
    check(c, same_table(c, S))


@unit('C09', 'ezodf.cells:Cell.span', '')
def u_span(c):
    e = c.element([CELL, COVERED][c.choose(2)])
    ts = [c.attr(e, k) for k in (NR, NC)]
    for t in ts:
        c.assume(Or(t == NONE, is_int(t)))
    cell = c.call(Cell, [], {'xmlnode': e})
    old = c.heap()
    r = c.run_get(cell, 'span')
    c.ensure('read', r.ok and isinstance(r.value, tuple) and len(r.value) == 2)
    if not r.ok:
        raise PathEnd()
    for t, v, nm in zip(ts, r.value, ('rows', 'columns')):
        c.ensure(nm, iterm_(v) == If(Or(t == NONE, int_of_str(t) < 1), IntVal(1), int_of_str(t)))
    g = c.run_get(cell, 'covered')
    c.ensure('covered', g.ok and is_(c, g.value, SBool(c.h1('tag', e.t) == c.lit(COVERED))))
    c.ensure('nothing changed', c.unchanged(old, STRUCT))


# ------------------------------------------------------------------ spans never overlap
# R, C: rows and columns spanned; cov: covered; oa, ob: the spanning (or single) cell a position belongs to
class Layout(object):
    def __init__(self, R, C, cov, own):
        self.R, self.C, self.cov, self.own = R, C, cov, own

    def well(self, n, m):
        """every position belongs to exactly one cell, which is not covered and spans it; all others in its range are covered"""
        a, b, x, y = z3.Ints('a! b! x! y!')
        p = self.own(a, b)
        oa, ob = PairS.a(p), PairS.b(p)
        o = lambda a, b: self.own(a, b) == PairS.mk(a, b)
        inside = lambda a, b: And(0 <= a, a < n, 0 <= b, b < m)
        return [('owner spans the position', FA([a, b], Implies(inside(a, b), And(inside(oa, ob), o(oa, ob), in_range(a, b, oa, ob, self.R(oa, ob), self.C(oa, ob)))), p)),
                ('covered cells are those owned by another', FA([a, b], Implies(inside(a, b), self.cov(a, b) == Not(o(a, b))), p)),
                ('ranges within the table', FA([a, b], Implies(And(inside(a, b), o(a, b)), And(self.R(a, b) >= 1, self.C(a, b) >= 1, a + self.R(a, b) <= n, b + self.C(a, b) <= m)), p)),
                ('covered cells span nothing', FA([a, b], Implies(And(inside(a, b), Not(o(a, b))), And(self.R(a, b) == 1, self.C(a, b) == 1)), p)),
                ('ranges do not overlap', FA([a, b, x, y], Implies(And(inside(a, b), o(a, b), inside(x, y), in_range(x, y, a, b, self.R(a, b), self.C(a, b))),
                 self.own(x, y) == PairS.mk(a, b)), [p, self.own(x, y)]))]


seen = z3.Function('seen', PairS, z3.BoolSort())         # mentions a term, so that facts about it are used


def functions(x=''):
    f = lambda nm, s=I: z3.Function(nm + x, I, I, s)
    return Layout(f('R'), f('C'), f('cov', z3.BoolSort()), f('own', PairS))


def layout(c):
    W = functions()
    n, m = c.integer('n', 1).t, c.integer('m', 1).t
    for nm, g in W.well(n, m):
        c.assume(g)
    return W, n, m


def after(c, W, D, n, m):
    """D: the layout after an operation"""
    V = functions('2')
    a, b = z3.Ints('a! b!')
    for g, d in ((V.R, D.R), (V.C, D.C), (V.cov, D.cov), (V.own, D.own)):
        c.assume(FA([a, b], And(g(a, b) == d(a, b), seen(W.own(a, b))), g(a, b)))
    for nm, g in V.well(n, m):
        c.ensure(nm, g)


@unit('C09', 'lemma: spans stay disjoint', 'set_cell_span')
def u_lemma_set(c):
    """from what set_cell_span does (proved above): the range is covered and spanned by its first cell"""
    W, n, m = layout(c)
    sr, sc, nr, nc = [v.t for v in rng(c)]
    c.assume(And(sr >= 0, sc >= 0, nr >= 1, nc >= 1, sr + nr <= n, sc + nc <= m))
    a, b = z3.Ints('a! b!')
    inr = lambda a, b: in_range(a, b, sr, sc, nr, nc)
    c.assume(FA([a, b], Implies(inr(a, b), And(W.R(a, b) == 1, W.C(a, b) == 1, Not(W.cov(a, b)))), W.own(a, b)))
    p = lambda a, b: And(a == sr, b == sc)
    after(c, W, Layout(lambda a, b: If(p(a, b), nr, W.R(a, b)), lambda a, b: If(p(a, b), nc, W.C(a, b)),
                       lambda a, b: If(And(inr(a, b), Not(p(a, b))), True, If(p(a, b), False, W.cov(a, b))),
                       lambda a, b: If(inr(a, b), PairS.mk(sr, sc), W.own(a, b))), n, m)


@unit('C09', 'lemma: spans stay disjoint', 'remove_cell_span')
def u_lemma_remove(c):
    W, n, m = layout(c)
    sr, sc, nr, nc = [v.t for v in rng(c)]
    c.assume(And(0 <= sr, sr < n, 0 <= sc, sc < m, Not(W.cov(sr, sc)), W.R(sr, sc) == nr, W.C(sr, sc) == nc))
    c.assume(seen(W.own(sr, sc)))
    inr = lambda a, b: in_range(a, b, sr, sc, nr, nc)
    p = lambda a, b: And(a == sr, b == sc)
    after(c, W, Layout(lambda a, b: If(p(a, b), 1, W.R(a, b)), lambda a, b: If(p(a, b), 1, W.C(a, b)),
                       lambda a, b: And(W.cov(a, b), Not(inr(a, b))),
                       lambda a, b: If(inr(a, b), PairS.mk(a, b), W.own(a, b))), n, m)
