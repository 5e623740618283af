"""C07 column operations"""
from .tables import *

ASSUMPTIONS = ['the table is normalized (C10 shows that loading does it): n >= 1 rows, each with the same number m >= 1 of cells; rows and columns are not nested in one another',
               'the table has one column description per column (a table made by the library has)']


def cells(c, al, h0, r, p, k, d):
    """the cells of row r: k more (less) from position p on than in the heap h0, the others as before"""
    kid, a0 = Select(c.h1('kids', r), xc), Select(h0['kids'], r)
    n0 = Select(h0['klen'], r)
    fs = [c.h1('klen', r) == n0 + d * k,
          FA([xc], Implies(And(0 <= xc, xc < p), kid == Select(a0, xc)), kid)]
    if d == 1:
        return fs + [FA([xc], Implies(And(p + k <= xc, xc < n0 + k), kid == Select(a0, xc - k)), kid),
                     FA([xc], Implies(And(p <= xc, xc < p + k), And(kid > al, empty_cell(c, kid))), kid)]
    return fs + [FA([xc], Implies(And(p <= xc, xc < n0 - k), kid == Select(a0, xc + k)), kid)]


def rows_cells(c, S, lo, hi, p, k, d):
    """the same for the rows lo..hi-1"""
    r = Select(S.v.arr, xi)
    rng = And(lo <= xi, xi < hi)
    kid, a0 = Select(c.h1('kids', r), xc), Select(S.old['kids'], r)
    fs = [('cells in a row', FA([xi], Implies(rng, c.h1('klen', r) == S.m + d * k), r)),
          ('cells in front', FA([xi, xc], Implies(And(rng, 0 <= xc, xc < p), kid == Select(a0, xc)), kid))]
    if d == 1:
        return fs + [('cells behind', FA([xi, xc], Implies(And(rng, p + k <= xc, xc < S.m + k), kid == Select(a0, xc - k)), kid)),
                     ('cells between', FA([xi, xc], Implies(And(rng, p <= xc, xc < p + k), And(kid > S.old['alloc'], empty_cell(c, kid))), kid))]
    return fs + [('cells behind', FA([xi, xc], Implies(And(rng, p <= xc, xc < S.m - k), kid == Select(a0, xc + k)), kid))]


def operation(c, S, f, args, p, k, d=1):
    c.assume(S.w.n == S.m)

    def inv(c, L):
        r = Select(S.v.arr, xi)
        fs = plain_rows(c, S) + rows_match(c, S) + columns_match(c, S) + plain_columns(c, S) + same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + shape(c, S, S.w, COLUMN, p, L.k, d)
        fs += [('done: ' + nm, g) for nm, g in rows_cells(c, S, 0, L.k, p, k, d)]
        fs += [('all: ' + nm, g) for nm, g in rows_cells(c, S, 0, S.n, p, k, d)]
        fs += [('to do', FA([xi], Implies(And(L.k <= xi, xi < S.n), And(c.h1('klen', r) == Select(S.old['klen'], r), c.h1('kids', r) == Select(S.old['kids'], r))), r))]
        for j, x in enumerate(L.info.templates.get(('locs', 'klen'), ())):
            fs += [('loc %d %d' % (j, i), g) for i, g in enumerate(cells(c, L.pre.h['alloc'], L.pre.h, x, p, L.k, d))]
        return fs
    c.ver.invariants['*'] = [inv]
    r = c.run(f, S.t, *args)
    c.ensure('accepted', r.ok)
    check(c, rows_match(c, S) + columns_match(c, S) + same_lines(c, S, ROW) + rows_cells(c, S, 0, S.n, p, k, d) + shape(c, S, S.w, COLUMN, p, k, d))
    c.ensure('contents of existing elements', c.unchanged(S.old, ('tag', 'text', 'tail', 'attr')))
    size_is(c, S, S.n, S.m + d * k)


@unit('C07', 'ezodf.table:Table.append_columns', '')
def u_append(c):
    S = setup(c)
    k = c.integer('count', 1)
    operation(c, S, Table.append_columns, [k], S.m, k.t)


@unit('C07', 'ezodf.table:Table.insert_columns', '')
def u_insert(c):
    S = setup(c)
    k = c.integer('count', 1)
    i = c.integer('index', -S.m, S.m - 1)
    operation(c, S, Table.insert_columns, [i, k], position(c, i, S.m), k.t)


@unit('C07', 'ezodf.table:Table.delete_columns', '')
def u_delete(c):
    S = setup(c)
    k = c.integer('count', 1, S.m - 1)
    i = c.integer('index', -S.m, S.m - 1)
    p = position(c, i, S.m)
    c.assume(p + k.t <= S.m)
    operation(c, S, Table.delete_columns, [i, k], p, k.t, -1)
