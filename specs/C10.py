"""C10: repeated rows, cells and column descriptions are expanded when a table is loaded"""
from .tables import *
from .C05 import ints
from ezodf.conf import config
from ezodf import const

i_, j_, p_ = z3.Int('i!'), z3.Int('j!'), z3.Int('p!')
STRATEGIES = ('all', 'all_but_last', 'all_less_maxcount')


class Plan(object):
    """what becomes of a list of n elements: element i stands times(i) >= 1 times, from position off(i) on; position p repeats element src(p)"""
    def __init__(self, c, name, n, at, key, strategy, limit, h):
        self.c, self.n, self.at, self.key, self.h = c, n, at, c.lit(key), h
        self.strategy, self.limit = strategy, limit
        self.off = z3.Function('off_' + name, I, I)
        self.src = z3.Function('src_' + name, I, I)
        off, src = self.off, self.src
        c.assume(off(0) == 0)
        c.assume(FA([i_, j_], Implies(And(0 <= i_, i_ < n, j_ == i_ + 1), off(j_) == off(i_) + self.times(i_)), [off(i_), off(j_)]))
        c.assume(FA([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ <= n), off(i_) < off(j_)), [off(i_), off(j_)]))
        s = src(p_)
        c.assume(FA([p_], Implies(And(0 <= p_, p_ < off(n)), And(0 <= s, s < n, off(s) <= p_, p_ < off(s + 1))), s))

    def count(self, e):
        """the number stored at element e"""
        t = Select(Select(self.h['attr'], e), self.key)
        return If(t == NONE, IntVal(1), int_of_str(t))

    def times(self, i):
        k = self.count(self.at(i))
        if self.strategy == 'all_but_last':
            return If(i == self.n - 1, IntVal(1), k)
        if self.strategy == 'all_less_maxcount':
            return If(k >= self.limit, IntVal(1), k)
        return k

    def attrs(self, e):
        """attributes of element e when it is expanded"""
        a = Select(self.h['attr'], e)
        return If(self.count(e) > 1, Store(a, self.key, NONE), a)

    def valid(self):
        e = self.at(i_)
        t = Select(Select(self.h['attr'], e), self.key)
        return FA([i_], Implies(And(0 <= i_, i_ < self.n), Or(t == NONE, And(is_int(t), int_of_str(t) >= 1))), e)


def same_as(c, x, o, al, comps=('tag', 'text', 'attr', 'klen')):
    """x is a new copy of the element o"""
    return And(x > al, iso(x, o), *[c.h1(n, x) == c.h1(n, o) for n in comps])


def expanded(c, P, now, n_now, k, al, more=None, j=None):
    """the first k elements of the plan are expanded (and j copies of the next one made), the others are as they were"""
    s = P.src(p_)
    x, q = now(p_), P.off(k)
    copy = lambda x, o: And(same_as(c, x, o, al), *(more(x, o) if more else []))
    fs = [('number of positions', n_now == q + P.n - k + (0 if j is None else j)),
          ('positions in front', FA([p_], Implies(And(0 <= p_, p_ < q), And(s < k, If(p_ == P.off(s), x == P.at(s), copy(x, P.at(s))))), x))]
    if j is None:
        return fs + [('next positions', And(Implies(k < P.n, now(q) == P.at(k)), Implies(k + 1 < P.n, now(q + 1) == P.at(k + 1)))),
                     ('positions behind', FA([p_], Implies(And(q <= p_, p_ < q + P.n - k), x == P.at(p_ - q + k)), x))]
    return fs + [('current position', now(q) == P.at(k)),
                 ('copies', FA([p_], Implies(And(q < p_, p_ <= q + j), copy(x, P.at(k))), x)),
                 ('positions behind', FA([p_], Implies(And(q + j < p_, p_ < q + P.n - k + j), x == P.at(p_ - q + k - j)), x))]


def counters(L):
    out = []
    pre = dict(ints_pre(L))
    for nm, t in ints(L):
        out.append(('counter %s' % nm, And(t == pre[nm] - L.k, t >= 1)) if nm in pre else None)
    return [x for x in out if x]


def ints_pre(L):
    for d, (e, old, y) in enumerate(L.pre.envs):
        for nm, v in sorted(old.items()):
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                yield nm, v.t if isinstance(v, SInt) else IntVal(v)


def columns(strategy):
    def u(c):
        tables(c)
        S = State()
        S.T = c.element(TABLE)
        S.v, S.w = c.ver.lx.view(c, S.T.t, ROW, True), c.ver.lx.view(c, S.T.t, COLUMN, True)
        S.n, S.m = S.v.n, c.integer('ncols', 1).t
        S.old = c.heap()
        W = S.w
        limit = c.integer('maxcols', 1)
        maxrows = c.integer('maxrows', 1)
        P = Plan(c, 'columns', W.n, lambda i: Select(W.arr, i), CREP, strategy, limit.t, S.old)
        for nm, f in grid(c, S) + plain_columns(c, S):
            c.assume(f)
        c.assume(P.valid())
        c.hints['columns'] = W.n
        S.k = None
        al = S.old['alloc']

        def facts(k, j=None):
            w = lines(c, S, COLUMN)
            o = P.at(i_)
            fs = expanded(c, P, lambda p: Select(w.arr, p), w.n, k, al, lambda x, o: [c.h1('parent', x) == c.h1('parent', o)], j)
            fs += [('attributes of the columns', FA([i_], Implies(And(0 <= i_, i_ < P.n), c.h1('attr', o) == If(i_ < k + (0 if j is None else 1), P.attrs(o), Select(S.old['attr'], o))), o))]
            fs += [('attributes of other elements', FA([xe], Implies(And(xe <= al, Not(W.has(xe))), c.h1('attr', xe) == Select(S.old['attr'], xe)), c.h1('attr', xe)))]
            fs += [('nothing moves', FA([xe], Implies(xe <= al, c.h1('parent', xe) == Select(S.old['parent'], xe)), c.h1('parent', xe)))]
            fs += plain_columns(c, S) + same_lines(c, S, ROW) + plain_rows(c, S)
            return fs

        def inv(c, L):
            if L.seq is not None and L.seq.ref is not None:
                S.k = L.k
                return facts(L.k)
            return counters(L) + ([(nm + ' within', f) for nm, f in facts(S.k, L.k)] if S.k is not None else [])
        c.ver.invariants['*'] = [inv]
        config.set_table_expand_strategy(strategy, (maxrows, limit))
        try:
            r = c.run(Table, xmlnode=S.T)
        finally:
            config.reset_table_expand_strategy()
        c.ensure('accepted', r.ok)
        if not r.ok:
            raise PathEnd()
        S.t = r.value
        check(c, facts(P.n) + columns_match(c, S))
        c.ensure('contents of existing elements', c.unchanged(S.old, ('tag', 'text', 'tail')))
    u.__name__ = 'u_columns_' + strategy
    return u


for s_ in STRATEGIES:
    unit('C10', 'ezodf.table:Table', 'column descriptions, ' + s_)(columns(s_))


# ------------------------------------------------------------------ rows and their cells
from ezodf import tablenormalizer
from ezodf.tablenormalizer import normalize_table


def rows_setup(c):
    tables(c)
    S = State()
    S.T = c.element(TABLE)
    S.v, S.w = c.ver.lx.view(c, S.T.t, ROW, True), c.ver.lx.view(c, S.T.t, COLUMN, True)
    S.n = S.v.n
    c.hints['rows'] = S.n
    S.old = c.heap()
    for nm, f in plain_rows(c, S):
        c.assume(f)
    return S


def cell_tag(c, y):
    return And(*[f for t in (ROW, COLUMN) for f in (c.h1('tag', y) != c.lit(t), Not(Select(c.ver.lx.cont(c, t), y)))])


def cells(strategy):
    """the cells of one row"""
    def u(c):
        tables(c)
        r = c.element(ROW)
        S = State()
        S.old, S.k = c.heap(), None
        al, n = S.old['alloc'], c.h1('klen', r)
        c.hints['cells'] = n
        maxrows, limit = c.integer('maxrows', 1), c.integer('maxcols', 1)
        P = Plan(c, 'cells', n, lambda i: Select(Select(S.old['kids'], r.t), i), CREP, strategy, limit.t, S.old)
        c.assume(P.valid())
        for t in (ROW, COLUMN):
            c.assume(Not(Select(c.ver.lx.cont(c, t), r.t)))
        c.assume(mark(r.t))
        c.assume(FA([p_], Implies(And(0 <= p_, p_ < n), cell_tag(c, P.at(p_))), P.at(p_)))      # what 'contains no row' means
        po = Select(S.old['pos'], xe)
        c.assume(FA([xe], Implies(Select(S.old['parent'], xe) == r.t, And(0 <= po, po < n, P.at(po) == xe)), po))       # lemma below
        st = tablenormalizer.expand_strategies[strategy]
        old = xe <= al

        def facts(k, j=None):
            fs = expanded(c, P, lambda p: Select(c.h1('kids', r), p), c.h1('klen', r), k, al, None, j)
            par, at = Select(S.old['parent'], xe), Select(S.old['attr'], xe)
            done = And(par == r.t, Select(S.old['pos'], xe) < k + (0 if j is None else 1))
            y = Select(c.h1('kids', r), p_)
            return fs + [('cells are no rows', FA([p_], Implies(And(0 <= p_, p_ < c.h1('klen', r)), cell_tag(c, y)), y)),
                         ('attributes', FA([xe], Implies(old, c.h1('attr', xe) == If(done, P.attrs(xe), at)), c.h1('attr', xe))),
                         ('nothing moves', FA([xe], Implies(old, c.h1('parent', xe) == par), c.h1('parent', xe))),
                         ('children of other elements', FA([xe], Implies(And(old, xe != r.t), And(c.h1('klen', xe) == Select(S.old['klen'], xe), c.h1('kids', xe) == Select(S.old['kids'], xe))),
                                                           c.h1('kids', xe), c.h1('klen', xe))),
                         ('no tables in the row', And(*[Not(Select(c.ver.lx.cont(c, t), r.t)) for t in (ROW, COLUMN)]))]

        def inv(c, L):
            if L.seq is not None and L.seq.ref is not None:
                S.k = L.k
                return facts(L.k)
            return counters(L) + ([(nm + ' within', f) for nm, f in facts(S.k, L.k)] if S.k is not None else [])
        c.ver.invariants['*'] = [inv]
        c.call(c.getattr_(st, 'set_maxcount'), [(maxrows, limit)], {})
        x = c.run(type(st).expand_cells, st, r)
        c.ensure('accepted', x.ok)
        check(c, facts(n))
        c.ensure('contents of existing elements', c.unchanged(S.old, ('tag', 'text', 'tail')))
    return u


@unit('C10', 'lemma: a child is found at its position', '')
def u_child(c):
    r, e = c.element(ROW), c.fint('e')
    c.assume(And(mark(e), c.h1('parent', e) == r.t))
    po = c.h1('pos', e)
    c.ensure('found', And(0 <= po, po < c.h1('klen', r), Select(c.h1('kids', r), po) == e))


def rows(strategy):
    """the rows of a table; the expansion of the cells of a row by its contract (above): its result is named by kx, lx, ax ..."""
    def u(c):
        S = rows_setup(c)
        V, al, n = S.v, S.old['alloc'], S.v.n
        maxrows, limit = c.integer('maxrows', 1), c.integer('maxcols', 1)
        R = Plan(c, 'rows', n, lambda i: Select(V.arr, i), RREP, strategy, maxrows.t, S.old)
        c.assume(R.valid())
        S.k = None
        kx, lx = z3.Function('cells_of', I, z3.ArraySort(I, I)), z3.Function('ncells_of', I, I)
        comps = ('tag', 'text', 'attr')
        fx = dict((x, z3.Function(x + '_of', I, c.lx.h(c, x).sort().range())) for x in comps)
        par = Select(S.old['parent'], xe)

        def expand_cells(c, a, k):
            r = (a[1] if len(a) > 1 else k['xmlrow']).t
            i = Select(V.idx, r)
            c.ensure('the cells are expanded before the row is copied, once', And(V.has(r), c.h1('klen', r) == Select(S.old['klen'], r), c.h1('kids', r) == Select(S.old['kids'], r), Not(Select(S.ghost, r))))
            S.ghost = Store(S.ghost, r, BoolVal(True))
            now = c.heap()
            a0 = now['alloc']
            for x in ('tag', 'text', 'tail', 'attr', 'klen', 'kids', 'parent', 'pos'):
                new = c.fresh(x, now[x].sort())
                s, o = Select(new, xe), Select(now[x], xe)
                p0 = Select(now['parent'], xe)
                free = {'attr': And(p0 == r, Select(now['tag'], xe) != c.lit(ROW)), 'klen': xe == r, 'kids': xe == r, 'pos': p0 == r}.get(x, BoolVal(False))
                c.assume(FA([xe], Implies(And(xe <= a0, Not(free)), s == o), s))
                c.setH(x, new)
            a1 = c.fint('alloc')
            c.assume(a1 >= a0)
            c.setH('alloc', a1)
            for t in c.ver.lx.tracked:
                new = c.fresh('cont', c.ver.lx.cont(c, t).sort())
                c.assume(FA([xe], Implies(xe <= a0, Select(new, xe) == Select(c.ver.lx.cont(c, t), xe)), Select(new, xe)))
                c.setH('cont:' + t, new)
            c.ver.lx.wf(c)
            c.assume(And(c.h1('klen', r) == lx(r), c.h1('kids', r) == kx(r)))
            y = Select(kx(r), i_)
            c.assume(FA([i_], Implies(And(0 <= i_, i_ < lx(r)), And(cell_tag(c, y), *[c.h1(x, y) == fx[x](y) for x in comps])), y))
            return None

        def facts(k, kc, j=None):
            v = lines(c, S, ROW)
            kid = lambda r, q: Select(c.h1('kids', r), q)
            fs = [('rows: ' + nm, f) for nm, f in expanded(c, R, lambda p: Select(v.arr, p), v.n, k, al, lambda x, o: [c.h1('parent', x) == c.h1('parent', o)], j)]
            x = Select(v.arr, p_)
            y = kid(x, i_)
            copies = And(0 <= p_, p_ < R.off(k), p_ != R.off(R.src(p_)))
            fs += [('cells of copied rows', FA([p_, i_], Implies(And(copies, 0 <= i_, i_ < c.h1('klen', x)), And(cell_tag(c, y), same_as(c, y, kid(R.at(R.src(p_)), i_), al, comps))), y))]
            if j is not None:
                fs += [('cells of copies', FA([p_, i_], Implies(And(R.off(k) < p_, p_ <= R.off(k) + j, 0 <= i_, i_ < c.h1('klen', x)), And(cell_tag(c, y), same_as(c, y, kid(R.at(k), i_), al, comps))), y))]
            done = And(V.has(xe), Select(V.idx, xe) < kc)
            y = kid(xe, p_)
            fs += [('expanded rows', FA([xe], Implies(done, And(c.h1('klen', xe) == lx(xe), c.h1('kids', xe) == kx(xe))), c.h1('kids', xe), c.h1('klen', xe))),
                   ('cells of expanded rows', FA([xe, p_], Implies(And(done, 0 <= p_, p_ < lx(xe)), And(cell_tag(c, y), *[c.h1(x, y) == fx[x](y) for x in comps])), y)),
                   ('rows to do', FA([xe], Implies(And(V.has(xe), Select(V.idx, xe) >= kc), And(c.h1('klen', xe) == Select(S.old['klen'], xe), c.h1('kids', xe) == Select(S.old['kids'], xe))), c.h1('kids', xe), c.h1('klen', xe))),
                   ('processed rows', FA([xe], Select(S.ghost, xe) == done, Select(S.ghost, xe))) if False else ('alloc', c.lx.h(c, 'alloc') >= al)]
            row_done = Select(V.idx, xe) < k + (0 if j is None else 1)
            a0 = Select(S.old['attr'], xe)
            fs += [('attributes', FA([xe], Implies(xe <= al, If(V.has(xe), c.h1('attr', xe) == If(row_done, R.attrs(xe), a0), Or(V.has(par), c.h1('attr', xe) == a0))), c.h1('attr', xe))),
                   ('nothing moves', FA([xe], Implies(xe <= al, c.h1('parent', xe) == par), c.h1('parent', xe)))]
            return fs + plain_rows(c, S) + same_lines(c, S, COLUMN)

        def inv(c, L):
            variants = (('cells', lambda k: (IntVal(0), k)), ('rows', lambda k: (k, n))) if strategy == 'all_but_last' else (('both', lambda k: (k, k)),)
            if L.seq is not None and L.seq.ref is not None:
                S.k = L.k
                S.ghost = z3.K(I, BoolVal(False))
                return [('%s: %s' % (nm, x), g) for nm, f in variants for x, g in facts(*f(L.k))]
            if S.k is None:
                return []
            return counters(L) + [('row: ' + x, g) for x, g in facts(S.k, n if strategy == 'all_but_last' else S.k + 1, L.k)]
        S.ghost = z3.K(I, BoolVal(False))
        c.ver.invariants['*'] = [inv]
        f = type(tablenormalizer.expand_strategies[strategy]).expand_cells
        c.ver.contracts['%s:%s' % (f.__module__, f.__qualname__)] = Con(expand_cells)
        seen = []
        c.ver.contracts['ezodf.tablenormalizer:TableNormalizer.align_table_columns'] = Con(lambda c, a, k: seen.append(c.heap()))
        c.ver.contracts.pop('ezodf.tablenormalizer:normalize_table', None)
        r = c.run(normalize_table, S.T, strategy, (maxrows, limit))
        c.ensure('accepted', r.ok)
        if not r.ok:
            raise PathEnd()
        c.ensure('rows are aligned at the end', len(seen) == 1 and all(c.h[x] is seen[0][x] or c.h[x].eq(seen[0][x]) for x in ('attr', 'kids', 'klen', 'parent', 'tag')))
        check(c, facts(n, n))
        c.ensure('contents of existing elements', c.unchanged(S.old, ('tag', 'text', 'tail')))
    return u


BOUNDED = []
for s_ in STRATEGIES:
    if callable(getattr(type(tablenormalizer.expand_strategies.get(s_)), 'expand_cells', None)):
        unit('C10', 'ezodf.tablenormalizer:expand_strategies', 'cells of a row, ' + s_)(cells(s_))
        unit('C10', 'ezodf.tablenormalizer:normalize_table', 'rows, ' + s_)(rows(s_))
    else:       # the function that carries the contract is gone
        BOUNDED.append('strategy %s: rows and cells are run by the driver only (the helper expand_cells that carries the contract does not exist)' % s_)


# ------------------------------------------------------------------ rows of equal length
@unit('C10', 'ezodf.tablenormalizer:TableNormalizer.align_table_columns', '')
def u_align(c):
    S = rows_setup(c)
    V, al, n = S.v, S.old['alloc'], S.v.n
    i0 = c.fint('longest')
    r = Select(V.arr, xi)
    y = Select(Select(S.old['kids'], xe), xc)
    t = Select(Select(S.old['attr'], y), c.lit(CREP))
    c.assume(FA([xe, xc], Implies(And(V.has(xe), 0 <= xc, xc < Select(S.old['klen'], xe)), Or(t == NONE, And(is_int(t), int_of_str(t) == 1))), y))     # shown above
    M = Select(S.old['klen'], Select(V.arr, i0))
    if c.branch(n > 0):
        c.assume(And(0 <= i0, i0 < n, V.has(Select(V.arr, i0))))
        c.assume(FA([xi], Implies(And(0 <= xi, xi < n), Select(S.old['klen'], r) <= M), r))

    def facts(k):
        kid = Select(c.h1('kids', xe), xc)
        done = And(V.has(xe), Select(V.idx, xe) < k)
        n0 = Select(S.old['klen'], xe)
        return [('length of the rows', FA([xe], Implies(done, c.h1('klen', xe) == M), c.h1('klen', xe))),
                ('other rows', FA([xe], Implies(And(V.has(xe), Select(V.idx, xe) > k), c.h1('klen', xe) == n0), c.h1('klen', xe)))] + cells(k)

    def cells(k):
        kid = Select(c.h1('kids', xe), xc)
        n0 = Select(S.old['klen'], xe)
        return [('cells that were there', FA([xe, xc], Implies(And(V.has(xe), 0 <= xc, xc < n0), kid == Select(Select(S.old['kids'], xe), xc)), kid)),
                ('added cells', FA([xe, xc], Implies(And(V.has(xe), n0 <= xc, xc < c.h1('klen', xe)), And(kid > al, empty_cell(c, kid))), kid)),
                ('no row gets shorter', FA([xe], Implies(V.has(xe), c.h1('klen', xe) >= n0), c.h1('klen', xe))),
                ('nothing moves', FA([xe], Implies(xe <= al, c.h1('parent', xe) == Select(S.old['parent'], xe)), c.h1('parent', xe))),
                ('children of other elements', FA([xe], Implies(And(xe <= al, Not(V.has(xe))), And(c.h1('klen', xe) == Select(S.old['klen'], xe), c.h1('kids', xe) == Select(S.old['kids'], xe))),
                                                  c.h1('kids', xe), c.h1('klen', xe)))] + plain_rows(c, S) + same_lines(c, S, ROW) + same_lines(c, S, COLUMN)
    S.k = None

    def inv(c, L):
        out = []
        if L.seq is not None and L.seq.ref is not None:
            S.k = L.k
            out += [('done: ' + nm, f) for nm, f in facts(L.k)[:1]]
            out += [('to do: ', FA([xe], Implies(And(V.has(xe), Select(V.idx, xe) >= L.k), c.h1('klen', xe) == Select(S.old['klen'], xe)), c.h1('klen', xe)))]
        elif S.k is not None:
            cur = Select(V.arr, S.k)
            out += [('within: ' + nm, f) for nm, f in facts(S.k)]
            out += [('this row', c.h1('klen', cur) == Select(S.old['klen'], cur) + L.k)]
        out += cells(L.k)
        for nm, x in ints(L):
            out.append(('counted ' + nm, x == L.k))
        for lid, l in c.lists.items():
            if lid in L.info.lists and l.concrete and not l.items:
                out.append(('counts %s' % lid, BoolVal(True)))
            elif lid in L.info.lists and not l.concrete and l.kind == 'int':
                k0 = Select(S.old['klen'], r)
                out.append(('counts %s' % lid, FA([xi], Implies(And(0 <= xi, xi < l.n), Select(l.arr, xi) == k0), Select(l.arr, xi), k0)))
        return out
    c.ver.invariants['*'] = [inv]
    t = c.call(tablenormalizer.TableNormalizer, [S.T], {})
    x = c.run(tablenormalizer.TableNormalizer.align_table_columns, t)
    c.ensure('accepted', x.ok)
    check(c, facts(n))
    c.ensure('contents of existing elements', c.unchanged(S.old, ('tag', 'text', 'tail', 'attr')))


ASSUMED = ['expand_cells at its call sites in the loop over the rows (proved here for one row of any table; its result is named by uninterpreted functions of the row, which is handed to it once)']
ASSUMPTIONS = ['repetition counts are positive integers; tables are not nested in rows',
               'deepcopy yields a new tree whose root and children have the same tag, text, attributes and number of children, deeper levels are copies (relation iso)',
               'positions of a list expanded by counts of at least 1: off is strictly increasing and src is its inverse (arithmetic of partial sums)']
