"""C08 rejected table operations change nothing"""
from .tables import *
from ezodf.cells import Cell

ASSUMPTIONS = ['the table is normalized (C10 shows that loading does it): n >= 1 rows, each with the same number m >= 1 of cells; rows and columns are not nested in one another',
               'the table has one column description per column (a table made by the library has)']


def rejected(c, S, r, *exc):
    c.ensure('rejected', r.raised(*exc))
    c.ensure('no element changed', c.unchanged(S.old, STRUCT))
    check(c, same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + rows_match(c, S) + columns_match(c, S))
    size_is(c, S, S.n, S.m)


def start(c):
    S = setup(c)
    c.assume(S.w.n == S.m)
    c.ver.invariants['*'] = [lambda c, L: same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + rows_match(c, S) + columns_match(c, S) + plain_rows(c, S)]
    return S


for op in ('append_rows', 'append_columns'):
    def u(c, op=op):
        S = start(c)
        k = c.integer('count', None, 0)
        rejected(c, S, c.run(getattr(Table, op), S.t, k), ValueError)
    unit('C08', 'ezodf.table:Table.' + op, 'count')(u)

for op in ('insert_rows', 'delete_rows', 'insert_columns', 'delete_columns'):
    def u(c, op=op):
        S = start(c)
        k = c.integer('count', None, 0)
        i = c.integer('index')
        rejected(c, S, c.run(getattr(Table, op), S.t, i, k), ValueError)
    unit('C08', 'ezodf.table:Table.' + op, 'count')(u)

    def u(c, op=op):
        S = start(c)
        n = S.n if op.endswith('rows') else S.m
        k = c.integer('count', 1)
        i = c.integer('index')
        p = position(c, i, n)
        if op.startswith('delete'):
            c.assume(k.t < n)
            c.assume(Or(p < 0, p + k.t > n))
        else:
            c.assume(Or(p < 0, p >= n))
        rejected(c, S, c.run(getattr(Table, op), S.t, i, k), IndexError)
    unit('C08', 'ezodf.table:Table.' + op, 'index')(u)

for op in ('delete_rows', 'delete_columns'):
    def u(c, op=op):
        S = start(c)
        n = S.n if op.endswith('rows') else S.m
        k = c.integer('count', n)
        i = c.integer('index')
        rejected(c, S, c.run(getattr(Table, op), S.t, i, k), ValueError)
    unit('C08', 'ezodf.table:Table.' + op, 'all')(u)


@unit('C08', 'ezodf.table:Table.reset', 'size')
def u_reset(c):
    S = start(c)
    a, b = c.integer('nrows'), c.integer('ncolumns')
    c.assume(Or(a.t < 1, b.t < 1))
    rejected(c, S, c.run(Table.reset, S.t, (a, b)), ValueError)


def outside(c, S):
    i, j = c.integer('row'), c.integer('column')
    c.assume(Or(i.t < -S.n, i.t >= S.n, j.t < -S.m, j.t >= S.m))
    return (i, j)


@unit('C08', 'ezodf.table:Table.__getitem__', 'outside')
def u_get(c):
    S = start(c)
    rejected(c, S, c.run(Table.__getitem__, S.t, outside(c, S)), IndexError)


@unit('C08', 'ezodf.table:Table.__setitem__', 'outside')
def u_set(c):
    S = start(c)
    cell = c.wrapper(Cell, c.element(CELL))
    rejected(c, S, c.run(Table.__setitem__, S.t, outside(c, S), cell), IndexError)


@unit('C08', 'ezodf.table:Table.__setitem__', 'no cell')
def u_type(c):
    S = start(c)
    i, j = c.integer('row'), c.integer('column')
    x = [None, ezodf.Paragraph, 1, 'x', 2.5][c.choose(5)]
    if x is ezodf.Paragraph:
        x = c.wrapper(x, c.element(x.TAG))
    rejected(c, S, c.run(Table.__setitem__, S.t, (i, j), x), TypeError)


@unit('C08', 'ezodf.table:Table.__setitem__', 'key type')
def u_key(c):
    S = start(c)
    cell = c.wrapper(Cell, c.element(CELL))
    x = [None, 2.5, [1, 2]][c.choose(3)]
    rejected(c, S, c.run(Table.__setitem__, S.t, x, cell), TypeError)


for f in (Table.row, Table.row_info):
    def u(c, f=f):
        S = start(c)
        i = c.integer('row')
        c.assume(Or(i.t < -S.n, i.t >= S.n))
        rejected(c, S, c.run(f, S.t, i), IndexError)
    unit('C08', 'ezodf.table:Table.' + f.__name__, 'outside')(u)

for f in (Table.column, Table.column_info):
    def u(c, f=f):
        S = start(c)
        i = c.integer('column')
        c.assume(Or(i.t < -S.m, i.t >= S.m))
        rejected(c, S, c.run(f, S.t, i), IndexError)
    unit('C08', 'ezodf.table:Table.' + f.__name__, 'outside')(u)
