"""C06 row operations"""
from .tables import *

ASSUMPTIONS = ['the table is normalized (C10 shows that loading does it): n >= 1 rows, each with the same number m >= 1 of cells; rows and columns are not nested in one another']


def operation(c, S, f, args, p, k, d=1):
    def facts(k):
        return rows_match(c, S) + grid(c, S) + shape(c, S, S.v, ROW, p, k, d) + kept(c, S) + (new_cells(c, S) + group(k) if d == 1 else [])

    def group(k):
        """new rows stand in the group of the row they are appended to or inserted before"""
        home = Select(S.old['parent'], Select(S.v.arr, If(p < S.n, p, S.n - 1)))
        s = Select(lines(c, S, ROW).arr, xi)
        return [('group of the new rows', FA([xi], Implies(And(p <= xi, xi < p + k), c.h1('parent', s) == home), s)),
                ('nothing else moves', FA([xi], Implies(xi <= S.old['alloc'], c.h1('parent', xi) == Select(S.old['parent'], xi)), c.h1('parent', xi)))]
    c.ver.invariants['*'] = [lambda c, L: facts(L.k)]
    r = c.run(f, S.t, *args)
    c.ensure('accepted', r.ok)
    check(c, facts(k) + same_lines(c, S, COLUMN) + columns_match(c, S))
    c.ensure('contents of existing elements', c.unchanged(S.old, ('tag', 'text', 'tail', 'attr')))
    size_is(c, S, S.n + d * k, S.m)


@unit('C06', 'ezodf.table:Table.append_rows', '')
def u_append(c):
    S = setup(c)
    k = c.integer('count', 1)
    operation(c, S, Table.append_rows, [k], S.n, k.t)


@unit('C06', 'ezodf.table:Table.insert_rows', '')
def u_insert(c):
    S = setup(c)
    k = c.integer('count', 1)
    i = c.integer('index', -S.n, S.n - 1)
    operation(c, S, Table.insert_rows, [i, k], position(c, i, S.n), k.t)


@unit('C06', 'ezodf.table:Table.delete_rows', '')
def u_delete(c):
    S = setup(c)
    k = c.integer('count', 1, S.n - 1)
    i = c.integer('index', -S.n, S.n - 1)
    p = position(c, i, S.n)
    c.assume(p + k.t <= S.n)
    operation(c, S, Table.delete_rows, [i, k], p, k.t, -1)
