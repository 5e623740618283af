"""C05 cell addresses against an own computation"""
import re
from .tables import *
from ezodf.tableutils import address_to_index, get_cell_index

LETTERS = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def reference(s):
    """(row, column) of an address or None"""
    u = s.upper()
    i = 0
    while i < len(u) and u[i] in LETTERS:
        i += 1
    col, row = u[:i], u[i:]
    if not col or not row or any(ch not in '0123456789' for ch in row):
        return None
    c = 0
    for ch in col:
        c = 26 * c + LETTERS.index(ch) + 1
    r = int(row)
    return None if r == 0 else (r - 1, c - 1)


def name(col):
    s = ''
    col += 1
    while col:
        col, d = divmod(col - 1, 26)
        s = LETTERS[d] + s
    return s


def check_text(s):
    want = reference(s)
    for f in (address_to_index, get_cell_index):
        try:
            got = f(s)
        except ValueError:
            got = None
        except Exception as e:
            return '%s(%r) raises %s' % (f.__name__, s, type(e).__name__)
        if got != want:
            return '%s(%r) is %r instead of %r' % (f.__name__, s, got, want)
    return None


def check_table(case):
    n, m, s = case['n'], case['m'], case['text']
    t = Table(xmlnode=build(case))
    rows = [list(r) for r in t.xmlnode.findall('.//' + ROW)]
    R = t.xmlnode.findall('.//' + ROW)
    C = t.xmlnode.findall('.//' + COL)
    want = reference(s)
    if want is None or want[0] >= n or want[1] >= m:
        exc = ValueError if want is None else IndexError
        try:
            t[s]
        except exc:
            return None
        return 't[%r] does not raise %s' % (s, exc.__name__)
    i, j = want
    for ref in (s, (i, j), (i - n, j - m), (i, j - m)):
        if t[ref].xmlnode is not rows[i][j]:
            return 't[%r] is another cell' % (ref,)
    for ref in (s, i, i - n):
        if [c.xmlnode for c in t.row(ref)] != rows[i] or t.row_info(ref).xmlnode is not R[i]:
            return 'row(%r) is another row' % (ref,)
    for ref in (s, j, j - m):
        if [c.xmlnode for c in t.column(ref)] != [r[j] for r in rows] or t.column_info(ref).xmlnode is not C[j]:
            return 'column(%r) is another column' % (ref,)
    x = Cell('new')
    t[s] = x
    rows[i][j] = x.xmlnode
    if [list(r) for r in t.xmlnode.findall('.//' + ROW)] != rows:
        return 't[%r] = cell changes other cells' % (s,)
    y = Cell('newer')
    t[i - n, j - m] = y
    rows[i][j] = y.xmlnode
    if [list(r) for r in t.xmlnode.findall('.//' + ROW)] != rows or t[s].xmlnode is not y.xmlnode:
        return 't[%r] = cell changes other cells' % ((i - n, j - m),)
    if [[c.xmlnode for c in r] for r in t.rows()] != rows or [[c.xmlnode for c in k] for k in t.columns()] != [list(k) for k in zip(*rows)]:
        return 'rows() or columns() differ'
    if [(p, c.xmlnode) for p, c in t.itercells()] != [((a, b), rows[a][b]) for a in range(n) for b in range(m)]:
        return 'itercells() differs'
    return None


def check(case):
    if case['kind'] == 'text':
        return check_text(case['text'])
    if case['kind'] == 'type':
        x = [None, 1, 2.5, [0, 0], {'a': 1}, object()][case['n']]
        try:
            get_cell_index(x)
        except TypeError:
            return None
        return 'get_cell_index(%r) does not raise TypeError' % (x,)
    return check_table(case)


BAD = ['', 'A', '1', 'A0', 'A00', '0', 'A1B', '1A', 'A-1', 'A 1', ' A1', 'A1 ', 'A1\n', '\nA1', 'A1\n\n', 'A1\r', '$A$1', 'A1:B2', 'A1.', 'A1.0', 'A+1', 'AA', 'A\u0661', 'A1\u0661', '\uff211', '\u00c41',
       'A\u00b2', 'A1\u00b2', '@1', '[1', '`1', '{1', 'A/1', 'A:1', 'A1_0', 'A_1', '_A1', 'A\u20001', 'R1C1', 'A1A1', 'Z-', 'T.A1', 'A0x10']


def enumerated():
    for s in BAD:
        yield dict(kind='text', text=s)
    for i in range(6):
        yield dict(kind='type', n=i)
    for c in list(range(60)) + [675, 676, 677, 700, 701, 702, 703, 1023, 1378, 16383, 18277, 18278, 18279, 475253, 475254, 475255]:
        for r in (0, 8, 9, 10, 98, 99, 1048575):
            yield dict(kind='text', text=name(c) + str(r + 1))
            yield dict(kind='text', text=name(c).lower() + str(r + 1))
    for s in ('a01', 'B010', 'zZ0001', 'aB00100', 'A1000', 'A10', 'A0100'):
        yield dict(kind='text', text=s)
    for lay in (dict(n=3, m=3), dict(n=2, m=30), dict(n=12, m=2, rw=[0, None]), dict(n=3, m=3, rw=[2, 1], cw=[2, 0], deep=1)):
        for i in range(lay['n'] + 1):
            for j in range(lay['m'] + 1):
                yield dict(lay, kind='table', text=name(j) + str(i + 1))
        for s in BAD[:12]:
            yield dict(lay, kind='table', text=s)


def random_case(rng):
    k = rng.random()
    if k < 0.4:
        s = ''.join(rng.choice(LETTERS + LETTERS.lower()) for _ in range(rng.choice([1, 2, 2, 3, 5, 12]))) + '0' * rng.choice([0, 0, 1, 3]) + str(rng.choice([rng.randint(1, 20), rng.randint(1, 10**9), 10**rng.randint(0, 12)]))
        return dict(kind='text', text=s)
    if k < 0.7:
        alphabet = 'AZaz19050 \n.:-_$@[`{/\u0661\u00e4\uff21\u00b9'
        return dict(kind='text', text=''.join(rng.choice(alphabet) for _ in range(rng.randint(0, 5))))
    case = random_layout(rng, 6)
    case.pop('new', None)
    return dict(case, kind='table', text=name(rng.randint(0, case['m'])) + str(rng.randint(1, case['n'] + 1)))


def shrink(case):
    if case['kind'] == 'text':
        s = case['text']
        for i in range(len(s)):
            yield dict(case, text=s[:i] + s[i + 1:])
