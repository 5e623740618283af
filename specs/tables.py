"""shared setup of the table properties"""
from .common import *
from ezodf.table import Table
from ezodf import wrapcache
from pyvc.lx import mark

TABLE, ROW, CELL, COVERED, COLUMN = CN('table:table'), CN('table:table-row'), CN('table:table-cell'), CN('table:covered-table-cell'), CN('table:table-column')
CREP, RREP = CN('table:number-columns-repeated'), CN('table:number-rows-repeated')


class State(object):
    pass


def tables(c):
    c.ver.contracts['ezodf.tablenormalizer:normalize_table'] = Con(lambda c, a, k: None)     # C10: nothing to do on a normalized table
    c.ver.natives[wrapcache.add] = Native(lambda c, a, k: None, 'wrapcache.add')
    c.ver.lx.tracked = (ROW, COLUMN)


def setup(c):
    """a table object over an arbitrary normalized table: a grid of n rows with m cells each"""
    tables(c)
    S = State()
    S.T = c.element(TABLE)
    S.v = c.ver.lx.view(c, S.T.t, ROW, True)
    S.w = c.ver.lx.view(c, S.T.t, COLUMN, True)
    S.n, S.m = S.v.n, c.integer('ncols', 1).t
    c.hints['nrows'] = S.n
    c.assume(S.n >= 1)
    S.old = c.heap()
    for nm, f in grid(c, S):
        c.assume(f)
    y = Select(S.w.arr, xi)
    for nm, f in plain_columns(c, S):
        c.assume(f)
    c.assume(FA([xi], Implies(And(0 <= xi, xi < S.w.n), Select(Select(c.h['attr'], y), c.lit(CREP)) == NONE), y))
    S.t = c.call(Table, [], {'xmlnode': S.T})
    S.old = c.heap()
    return S


def grid(c, S, m=None):
    """every row has m children and neither rows nor columns inside"""
    v = c.ver.lx.view(c, S.T.t, ROW, True)
    r = Select(v.arr, xi)
    return [('the same number of cells in every row',
             FA([xi], Implies(And(0 <= xi, xi < v.n), And(c.h1('klen', r) == (S.m if m is None else m), Not(Select(c.ver.lx.cont(c, ROW), r)), Not(Select(c.ver.lx.cont(c, COLUMN), r)))), r))]


def plain_columns(c, S):
    w = c.ver.lx.view(c, S.T.t, COLUMN, True)
    y = Select(w.arr, xi)
    return [('columns are empty elements', FA([xi], Implies(And(0 <= xi, xi < w.n), And(c.h1('klen', y) == 0, Not(Select(c.ver.lx.cont(c, COLUMN), y)), Not(Select(c.ver.lx.cont(c, ROW), y)))), y))]


def plain_rows(c, S):
    """no rows or columns inside rows"""
    v = c.ver.lx.view(c, S.T.t, ROW, True)
    r = Select(v.arr, xi)
    return [('no tables in rows', FA([xi], Implies(And(0 <= xi, xi < v.n), And(Not(Select(c.ver.lx.cont(c, ROW), r)), Not(Select(c.ver.lx.cont(c, COLUMN), r)))), r))]


def lists_of(o):
    return [x for x in o.f.values() if isinstance(x, PList) and not x.concrete and x.kind == 'el']


def rows_match(c, S):
    """the cached rows of the table object are the rows of the document"""
    v = c.ver.lx.view(c, S.T.t, ROW, True)
    return [('the table object shows the rows of the document %d' % i, same_lists(v, l)) for i, l in enumerate(lists_of(S.t.f['_cellmatrix']))]


def columns_match(c, S):
    v = c.ver.lx.view(c, S.T.t, COLUMN, True)
    return [('the table object shows the columns of the document %d' % i, same_lists(v, l)) for i, l in enumerate(lists_of(S.t.f['_columns_info']))]


def kept(c, S):
    """the cells of the rows that were there are the same"""
    v = c.ver.lx.view(c, S.T.t, ROW, True)
    r = Select(v.arr, xi)
    return [('cells of the other rows', FA([xi], Implies(And(0 <= xi, xi < v.n, r <= S.old['alloc']), And(
        c.h1('klen', r) == Select(S.old['klen'], r), c.h1('kids', r) == Select(S.old['kids'], r))), r))]


def new_cells(c, S):
    """the cells of new rows are new and empty"""
    v = c.ver.lx.view(c, S.T.t, ROW, True)
    r = Select(v.arr, xi)
    kid = Select(Select(c.h['kids'], r), xc)
    return [('new rows have empty cells', FA([xi, xc], Implies(And(0 <= xi, xi < v.n, r > S.old['alloc'], 0 <= xc, xc < S.m),
                                                 And(kid > S.old['alloc'], empty_cell(c, kid))), kid))]


def empty_cell(c, kid):
    return And(c.h1('tag', kid) == c.lit(CELL), c.h1('klen', kid) == 0, c.h1('text', kid) == NONE, c.h1('attr', kid) == z3.K(T, NONE))


def lines(c, S, tag):
    return c.ver.lx.view(c, S.T.t, tag, True)


def shape(c, S, v, tag, p, k, d=1):
    """k lines (rows or columns) more (d = -1: less) from position p on, the others as before and in the same order"""
    v2 = lines(c, S, tag)
    s = Select(v2.arr, xi)
    fs = [('number of lines', v2.n == v.n + d * k),
          ('lines in front', FA([xi], Implies(And(0 <= xi, xi < p), s == Select(v.arr, xi)), s))]
    if d == 1:
        return fs + [('lines behind', FA([xi], Implies(And(p + k <= xi, xi < v.n + k), s == Select(v.arr, xi - k)), s)),
                     ('lines between', FA([xi], Implies(And(p <= xi, xi < p + k), And(s > S.old['alloc'], c.h1('klen', s) == 0, c.h1('attr', s) == z3.K(T, NONE)) if tag == COLUMN
                                                        else s > S.old['alloc']), s))]
    return fs + [('lines behind', FA([xi], Implies(And(p <= xi, xi < v.n - k), s == Select(v.arr, xi + k)), s))]


def same_lines(c, S, tag):
    v = S.v if tag == ROW else S.w
    v2 = lines(c, S, tag)
    s = Select(v2.arr, xi)
    return [('%s as before' % ('rows' if tag == ROW else 'columns'), And(v2.n == v.n, FA([xi], Implies(And(0 <= xi, xi < v2.n), s == Select(v.arr, xi)), s)))]


def position(c, i, n):
    """list position of index i"""
    p = c.fint('p')
    c.assume(p == If(i.t < 0, n + i.t, i.t))
    return p


def size_is(c, S, n, m):
    for g, k in ((Table.nrows, n), (Table.ncols, m)):
        r = c.run(g, S.t)
        c.ensure(g.__name__, r.ok and is_(c, r.value, SInt(k)))


def check(c, fs):
    for nm, f in fs:
        c.ensure(nm, f)
