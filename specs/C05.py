"""C05 cell addresses"""
from .tables import *
from ezodf.tableutils import address_to_index, get_cell_index
from pyvc import regex

ASSUMPTIONS = ['texts are sequences of characters; upper() is an uninterpreted function of the text (the statement speaks of the upper-case form)',
               'int() of a text of digits is its decimal value (an uninterpreted function, at least 1 for digits that are not all zero); CPython refuses more than 4300 digits with ValueError']
ADDRESS = '([A-Z]+)([0-9]*[1-9][0-9]*)'
cv = z3.Function('column_value', T, I, I)           # value of the first n letters: 26 * value of n-1 letters + letter
upper = z3.Function('s_upper', T, T)
s_, n_, m_ = z3.Const('s!', T), z3.Int('n!'), z3.Int('m!')


def setup_text(c):
    c.assume(FA([s_], cv(s_, 0) == 0, cv(s_, 0)))
    c.assume(FA([s_, n_, m_], Implies(And(n_ > 0, m_ == n_ - 1), cv(s_, n_) == 26 * cv(s_, m_) + ordf(nth(s_, m_)) - 64), [cv(s_, n_), nth(s_, m_)]))
    c.ver.invariants['*'] = [inv]


def ints(L):
    out = []
    for d, (e, old, y) in enumerate(L.pre.envs):
        for nm, v in sorted(e.vars.items()):
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out.append((nm, iterm_(v)))
    return out


def iterm_(v):
    return v.t if isinstance(v, SInt) else IntVal(v)


def inv(c, L):
    """partial sums of positional notation: of the letters seen so far, from either end"""
    a = c.ghost.get('letters')
    if a is None:
        return []
    fs, xs, n, k = [], ints(L), slen(a), L.k
    for x, t in xs:
        fs.append(('%s letters seen' % x, t == cv(a, k)))
        fs.append(('%s letters seen pow' % x, t == cv(a, k) * powi(26, n - k)))
        fs.append(('%s is pow' % x, t == powi(26, k)))
        fs.append(('%s pow' % x, t + cv(a, n - k) * powi(26, k) == cv(a, n)))
        for y, u in xs:
            if x != y:
                fs.append(('%s letters seen from the end, %s' % (x, y), t + cv(a, n - k) * u == cv(a, n)))
    return fs


member, parts = regex.spec(ADDRESS)


def split(c, s):
    """letters and digits of the upper-case form of an address"""
    u = upper(s.t)
    let, dig = parts(c, u)
    c.ghost['letters'] = let
    return let, dig


def good(c, s):
    """s is an address: (row, column)"""
    c.assume(member(upper(s.t)))
    let, dig = split(c, s)
    c.assume(cv(let, slen(let)) >= 1)        # lemma below
    return int_of_str(dig) - 1, cv(let, slen(let)) - 1


@unit('C05', 'ezodf.tableutils:address_to_index', 'address')
def u_address(c):
    setup_text(c)
    s = c.string('address')
    row, col = good(c, s)
    r = c.run(address_to_index, s)
    c.ensure('accepted', r.ok)
    c.ensure('is a pair', isinstance(r.value, tuple) and len(r.value) == 2)
    c.ensure('row', is_(c, r.value[0], SInt(row)))
    c.ensure('column', is_(c, r.value[1], SInt(col)))


@unit('C05', 'lemma: letters have a value of at least 1', 'induction')
def u_lemma(c):
    setup_text(c)
    s = c.string('address')
    c.assume(member(upper(s.t)))
    let, dig = split(c, s)
    n = c.fint('n')
    c.assume(And(1 <= n, n <= slen(let), cv(let, n - 1) >= 0))
    c.assume(nth(let, n - 1) != NONE)        # a trigger
    c.ensure('value after n letters', cv(let, n) >= 1)


@unit('C05', 'ezodf.tableutils:address_to_index', 'no address')
def u_no_address(c):
    setup_text(c)
    s = c.string('address')
    c.assume(Not(member(upper(s.t))))
    r = c.run(address_to_index, s)
    c.ensure('ValueError', r.raised(ValueError))


@unit('C05', 'ezodf.tableutils:get_cell_index', 'text')
def u_ref(c):
    setup_text(c)
    s = c.string('address')
    row, col = good(c, s)
    r = c.run(get_cell_index, s)
    c.ensure('accepted', r.ok)
    c.ensure('is a pair', isinstance(r.value, tuple) and len(r.value) == 2)
    c.ensure('row', is_(c, r.value[0], SInt(row)))
    c.ensure('column', is_(c, r.value[1], SInt(col)))


@unit('C05', 'ezodf.tableutils:get_cell_index', 'pair')
def u_pair(c):
    i, j = c.integer('row'), c.integer('column')
    r = c.run(get_cell_index, (i, j))
    c.ensure('accepted', r.ok)
    c.ensure('is a pair', isinstance(r.value, tuple) and len(r.value) == 2)
    c.ensure('row', is_(c, r.value[0], i))
    c.ensure('column', is_(c, r.value[1], j))


@unit('C05', 'ezodf.tableutils:get_cell_index', 'other')
def u_other(c):
    x = [None, c.integer('n'), c.flt('x'), c.new_list([1, 2])][c.choose(4)]
    r = c.run(get_cell_index, x)
    c.ensure('TypeError', r.raised(TypeError))


# ------------------------------------------------------------------ tables
def element_of(c, v):
    """element term of a wrapper, or None"""
    if isinstance(v, SWrap):
        return v.t
    if isinstance(v, PObj) and isinstance(v.f.get('xmlnode'), SEl):
        return v.f['xmlnode'].t


def row_at(c, S, p):
    return Select(S.v.arr, p)


def cell_at(c, S, p, q):
    return Select(Select(S.old['kids'], row_at(c, S, p)), q)


def at(c, i, n):
    return n + i.t if c.branch(i.t < 0) else i.t


def reference(c, S, inside=True):
    """a reference to a cell and its position"""
    kind = c.choose(2)
    if kind == 0:
        i, j = c.integer('row', -S.n, S.n - 1), c.integer('column', -S.m, S.m - 1)
        return (i, j), at(c, i, S.n), at(c, j, S.m)
    setup_text(c)
    c.ver.invariants['*'].append(lambda c, L: same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + rows_match(c, S) + columns_match(c, S))
    s = c.string('address')
    row, col = good(c, s)
    if inside:
        c.assume(And(row < S.n, col < S.m))
    else:
        c.assume(Or(row >= S.n, col >= S.m))
    return s, row, col


def untouched(c, S):
    c.ensure('no element changed', c.unchanged(S.old, STRUCT))
    check(c, same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + rows_match(c, S) + columns_match(c, S))


@unit('C05', 'ezodf.table:Table.__getitem__', '')
def u_get(c):
    S = setup(c)
    ref, p, q = reference(c, S)
    r = c.run(Table.__getitem__, S.t, ref)
    c.ensure('found', r.ok)
    e = element_of(c, r.value)
    c.ensure('is the cell', BoolVal(False) if e is None else e == cell_at(c, S, p, q))
    untouched(c, S)


@unit('C05', 'ezodf.table:Table.__getitem__', 'address outside')
def u_get_outside(c):
    S = setup(c)
    ref, p, q = reference(c, S, False)
    if isinstance(ref, tuple):
        raise PathEnd()
    r = c.run(Table.__getitem__, S.t, ref)
    c.ensure('IndexError', r.raised(IndexError))
    untouched(c, S)


@unit('C05', 'ezodf.table:Table.__setitem__', '')
def u_set(c):
    from ezodf.cells import Cell
    S = setup(c)
    ref, p, q = reference(c, S)
    x = c.element(CELL, 'new', root=True)
    c.assume(And(Not(Select(c.ver.lx.cont(c, ROW), x.t)), Not(Select(c.ver.lx.cont(c, COLUMN), x.t))))
    cell = c.wrapper(Cell, x)
    S.old = c.heap()
    r = c.run(Table.__setitem__, S.t, ref, cell)
    c.ensure('accepted', r.ok)
    y = row_at(c, S, p)
    kid = Select(c.h1('kids', y), xc)
    c.ensure('number of cells', c.h1('klen', y) == S.m)
    c.ensure('the cell', Select(c.h1('kids', y), q) == x.t)
    c.ensure('cells beside', FA([xc], Implies(And(0 <= xc, xc < S.m, xc != q), kid == Select(Select(S.old['kids'], y), xc)), kid))
    z = Select(S.v.arr, xi)
    c.ensure('cells of other rows', FA([xi], Implies(And(0 <= xi, xi < S.n, xi != p), And(c.h1('klen', z) == S.m, c.h1('kids', z) == Select(S.old['kids'], z))), z))
    check(c, same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + rows_match(c, S) + columns_match(c, S))
    c.ensure('contents of the elements', c.unchanged(S.old, ('tag', 'text', 'attr')))
    size_is(c, S, S.n, S.m)


def list_of(c, v):
    l = c.to_list(c.seq_of(v))
    if l.concrete:
        list_symbolic(c, l, 'wrap')
    return l


def line_reference(c, S, n, which):
    kind = c.choose(2)
    if kind == 0:
        i = c.integer('index', -n, n - 1)
        return i, at(c, i, n)
    setup_text(c)
    c.ver.invariants['*'].append(lambda c, L: same_lines(c, S, ROW) + same_lines(c, S, COLUMN) + rows_match(c, S) + columns_match(c, S))
    s = c.string('address')
    pos = good(c, s)[which]
    c.assume(pos < n)
    return s, pos


@unit('C05', 'ezodf.table:Table.row', '')
def u_row(c):
    S = setup(c)
    ref, p = line_reference(c, S, S.n, 0)
    r = c.run(Table.row, S.t, ref)
    c.ensure('found', r.ok)
    if not r.ok:
        raise PathEnd()
    l = list_of(c, r.value)
    c.ensure('number of cells', l.n == S.m)
    c.ensure('cells', FA([xc], Implies(And(0 <= xc, xc < S.m), Select(l.arr, xc) == cell_at(c, S, p, xc)), Select(l.arr, xc)))
    untouched(c, S)


@unit('C05', 'ezodf.table:Table.column', '')
def u_column(c):
    S = setup(c)
    ref, q = line_reference(c, S, S.m, 1)

    def collected(c, L):
        out = []
        for i, l in sorted(c.lists.items()):
            if not l.concrete and l.kind in ('el', 'wrap'):
                out += [('%s collected %d' % (l.name, i), FA([xi], Implies(And(0 <= xi, xi < l.n), Select(l.arr, xi) == cell_at(c, S, xi, q)), Select(l.arr, xi)))]
        return out
    c.ver.invariants.setdefault('*', []).append(collected)
    r = c.run(Table.column, S.t, ref)
    c.ensure('found', r.ok)
    if not r.ok:
        raise PathEnd()
    l = list_of(c, r.value)
    c.ensure('number of cells', l.n == S.n)
    c.ensure('cells', FA([xi], Implies(And(0 <= xi, xi < S.n), Select(l.arr, xi) == cell_at(c, S, xi, q)), Select(l.arr, xi)))
    untouched(c, S)


@unit('C05', 'ezodf.table:Table.row_info', '')
def u_row_info(c):
    S = setup(c)
    ref, p = line_reference(c, S, S.n, 0)
    r = c.run(Table.row_info, S.t, ref)
    c.ensure('found', r.ok)
    e = element_of(c, r.value)
    c.ensure('is the row', BoolVal(False) if e is None else e == row_at(c, S, p))
    untouched(c, S)


@unit('C05', 'ezodf.table:Table.column_info', '')
def u_column_info(c):
    S = setup(c)
    c.assume(S.w.n == S.m)
    ref, q = line_reference(c, S, S.m, 1)
    r = c.run(Table.column_info, S.t, ref)
    c.ensure('found', r.ok)
    e = element_of(c, r.value)
    c.ensure('is the column', BoolVal(False) if e is None else e == Select(S.w.arr, q))
    untouched(c, S)
