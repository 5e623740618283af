"""a table of the real code against a model (rows of cell elements, column descriptions)"""
from .base import *
import ezodf
from ezodf import Table, Cell
from ezodf.xmlns import CN
from ezodf.const import *

ROW, CELL, COL, COVERED = CN('table:table-row'), CN('table:table-cell'), CN('table:table-column'), CN('table:covered-table-cell')
ROWWRAP = ['table:table-header-rows', 'table:table-rows', 'table:table-row-group']
COLWRAP = ['table:table-header-columns', 'table:table-columns', 'table:table-column-group']


def sub(p, tag):
    return etree.SubElement(p, CN(tag))


def build(case):
    """a table element: rows / columns spread over wrappers according to case['rw'], case['cw'] (wrapper index per line, None: directly)"""
    n, m = case['n'], case['m']
    T = etree.Element(CN('table:table'))
    T.set(CN('table:name'), 'T')
    for tag in case.get('pre', ()):
        sub(T, tag)
    uid = [0]

    def lines(k, wraps, names, make):
        last, box = None, T
        for i in range(k):
            w = wraps[i % len(wraps)] if wraps else None
            if w is None:
                box = T
            elif w != last:
                box = sub(T, names[w])
                if w == 2 and case.get('deep'):
                    box = sub(box, names[2])
            last = w
            make(box, i)
    lines(m, case.get('cw'), COLWRAP, lambda box, i: sub(box, 'table:table-column').set(CN('table:style-name'), 'c%d' % i))

    def row(box, i):
        r = sub(box, 'table:table-row')
        r.set(CN('table:style-name'), 'r%d' % i)
        for j in range(m):
            e = sub(r, 'table:covered-table-cell' if [i, j] in case.get('covered', ()) else 'table:table-cell')
            e.set(CN('office:value-type'), 'string')
            e.set(CN('office:string-value'), 'v%d.%d' % (i, j))
            if [i, j] in case.get('full', ()):
                sub(e, 'text:p').text = 'p%d.%d' % (i, j)
    lines(n, case.get('rw'), ROWWRAP, row)
    for tag in case.get('post', ()):
        sub(T, tag)
    return T


class Model(object):
    def __init__(self, t):
        self.t = t
        self.rows = t.xmlnode.findall('.//' + ROW)
        self.cells = [list(r) for r in self.rows]
        self.cols = t.xmlnode.findall('.//' + COL)
        self.other = self.others()
        self.snap()

    def others(self):
        return [e for e in self.t.xmlnode.iter() if e.tag not in (ROW, CELL, COL, COVERED)]

    def snap(self):
        self.content = {e: (e.tag, e.text, e.tail, dict(e.attrib)) for e in self.t.xmlnode.iter()}
        self.order = list(self.t.xmlnode.iter())
        self.home = {}

    def compare(self, new_ok=True):
        t = self.t
        n, m = len(self.rows), len(self.cells[0])
        if (t.nrows(), t.ncols()) != (n, m):
            return 'size %r instead of %r' % ((t.nrows(), t.ncols()), (n, m))
        doc = t.xmlnode.findall('.//' + ROW)
        if len(doc) != n or any(a is not b for a, b in zip(doc, self.rows) if b is not None):
            return 'the rows of the document are not those expected'
        cols = t.xmlnode.findall('.//' + COL)
        if len(cols) != len(self.cols) or any(a is not b for a, b in zip(cols, self.cols) if b is not None):
            return 'the column descriptions of the document are not those expected (%d, expected %d)' % (len(cols), len(self.cols))
        for i in range(n):
            r = doc[i]
            if self.rows[i] is None and dict(r.attrib):
                return 'row %d is new but not empty' % i
            if self.rows[i] is None and r.getparent() is not self.home.get('row', r.getparent()):
                return 'row %d is new but not in the group of its neighbour' % i
            if t.row_info(i).xmlnode is not r:
                return 'row_info(%d) is another row' % i
            if t.row_info(i - n).xmlnode is not r:
                return 'row_info(%d) is another row' % (i - n)
            if len(r) != m:
                return 'row %d has %d cells instead of %d' % (i, len(r), m)
            got = t.row(i)
            for j in range(m):
                e = r[j]
                want = self.cells[i][j]
                if want is not None and e is not want:
                    return 'cell %d,%d of the document is not the one expected' % (i, j)
                if want is None:
                    if e.tag != CELL or len(e) or e.text or dict(e.attrib) or e in self.content:
                        return 'cell %d,%d is new but not empty' % (i, j)
                    self.cells[i][j] = e
                if t[i, j].xmlnode is not e or got[j].xmlnode is not e or t[i - n, j - m].xmlnode is not e:
                    return 'cell %d,%d is not shown' % (i, j)
            self.rows[i] = r
        for j in range(m):
            if [x.xmlnode for x in t.column(j)] != [r[j] for r in doc]:
                return 'column(%d) is not the column of the document' % j
        if [[x.xmlnode for x in r] for r in t.rows()] != [list(r) for r in doc]:
            return 'rows() differs from the document'
        if [[x.xmlnode for x in r] for r in t.columns()] != [[r[j] for r in doc] for j in range(m)]:
            return 'columns() differs from the document'
        if len(cols) == m or self.cols:
            for j in range(len(cols)):
                if self.cols[j] is None and (dict(cols[j].attrib) or len(cols[j]) or cols[j] in self.content):
                    return 'column description %d is new but not empty' % j
                if self.cols[j] is None and cols[j].getparent() is not self.home.get('column', cols[j].getparent()):
                    return 'column description %d is new but not in the group of its neighbour' % j
                self.cols[j] = cols[j]
                if t.column_info(j).xmlnode is not cols[j] or t.column_info(j - len(cols)).xmlnode is not cols[j]:
                    return 'column_info(%d) is another column' % j
        if [e for e in self.others() if not self.isnew(e)] != [e for e in self.other if self.attached(e)]:
            return 'other elements of the table were moved, lost or added'
        now = list(t.xmlnode.iter())
        here, before = set(now), set(self.order)
        if [e for e in self.order if e in here] != [e for e in now if e in before]:
            return 'elements changed their order'
        for e in now:
            if e in self.content and self.content[e] != (e.tag, e.text, e.tail, dict(e.attrib)):
                return 'the content of an existing %s changed' % e.tag.split('}')[1]
        self.snap()
        self.other = self.others()
        return None

    def isnew(self, e):
        return False

    def attached(self, e):
        while e is not None:
            if e is self.t.xmlnode:
                return True
            e = e.getparent()
        return False


def size_ok(k):
    return k >= 1


def apply(M, op):
    """perform op on the table and on the model; failure message or None"""
    t, o = M.t, op[0]
    n, m, nc = len(M.rows), len(M.cells[0]), len(M.cols)
    bad, f = None, None
    if o in ('insert_rows', 'delete_rows', 'insert_columns', 'delete_columns'):
        i, k = op[1], op[2]
        lim = n if o.endswith('rows') else m
        p = i + lim if i < 0 else i
        if k < 1 or (o.startswith('delete') and k >= lim):
            bad = ValueError
        elif not 0 <= p < lim or (o.startswith('delete') and p + k > lim):
            bad = IndexError
        f = lambda: getattr(t, o)(i, k)
    elif o in ('append_rows', 'append_columns'):
        k = op[1]
        bad = ValueError if k < 1 else None
        f = lambda: getattr(t, o)(k)
    elif o in ('set_cell', 'get_cell'):
        i, j = op[1], op[2]
        if not (-n <= i < n and -m <= j < m):
            bad = IndexError
        if o == 'get_cell':
            f = lambda: t[i, j]
        else:
            new = op[3]
            if new == 'text':
                x = ezodf.Paragraph('no cell')
                bad = (TypeError, IndexError) if bad else TypeError
            elif new == 'none':
                x, bad = None, (TypeError, IndexError) if bad else TypeError
            else:
                x = Cell(new)
            f = lambda: t.__setitem__((i, j), x)
    elif o == 'row':
        bad = IndexError if not -n <= op[1] < n else None
        f = lambda: t.row(op[1])
    elif o == 'column':
        bad = IndexError if not -m <= op[1] < m else None
        f = lambda: t.column(op[1])
    elif o == 'column_info':
        bad = IndexError if not -nc <= op[1] < nc else None
        f = lambda: t.column_info(op[1])
    elif o == 'row_info':
        bad = IndexError if not -n <= op[1] < n else None
        f = lambda: t.row_info(op[1])
    elif o == 'reset':
        bad = ValueError if op[1] < 1 or op[2] < 1 else None
        f = lambda: t.reset((op[1], op[2]))
    elif o == 'clear':
        f = t.clear
    elif o == 'address':
        bad = ValueError
        f = lambda: t[op[1]]
    before = xml(t.xmlnode)
    if bad is None and o in ('append_rows', 'insert_rows'):
        M.home['row'] = M.rows[p if o == 'insert_rows' else -1].getparent()
    if bad is None and o in ('append_columns', 'insert_columns') and M.cols:
        M.home['column'] = M.cols[p if o == 'insert_columns' else -1].getparent()
    try:
        f()
    except Exception as e:
        if bad is None:
            return '%s raises %s: %s' % (op, type(e).__name__, e)
        if not isinstance(e, bad):
            return '%s raises %s' % (op, type(e).__name__)
        if xml(t.xmlnode) != before:
            return 'the rejected %s changed the table' % (op,)
        return M.compare()
    if bad is not None:
        return '%s is accepted' % (op,)
    if o == 'append_rows':
        M.rows += [None] * op[1]
        M.cells += [[None] * m for _ in range(op[1])]
    elif o == 'insert_rows':
        M.rows[p:p] = [None] * k
        M.cells[p:p] = [[None] * m for _ in range(k)]
    elif o == 'delete_rows':
        del M.rows[p:p + k]
        del M.cells[p:p + k]
    elif o == 'append_columns':
        for r in M.cells:
            r += [None] * k
        M.cols += [None] * k
    elif o == 'insert_columns':
        for r in M.cells:
            r[p:p] = [None] * k
        M.cols[p:p] = [None] * k
    elif o == 'delete_columns':
        for r in M.cells:
            del r[p:p + k]
        del M.cols[p:p + k]
    elif o == 'set_cell':
        M.cells[i][j] = x.xmlnode
        M.other = M.others()
        M.content.update({e: (e.tag, e.text, e.tail, dict(e.attrib)) for e in x.xmlnode.iter()})
    elif o in ('reset', 'clear'):
        a, b = (op[1], op[2]) if o == 'reset' else (n, m)
        if t.name != 'T':
            return 'the name is lost'
        M.rows, M.cells, M.cols = [None] * a, [[None] * b for _ in range(a)], [None] * b
        M.content, M.other = {}, M.others()
        if M.other != [t.xmlnode]:
            return 'something is left after %s' % o
    return M.compare()


def check_ops(case):
    if case.get('new'):
        t = Table('T', size=(case['n'], case['m']))
    else:
        t = Table(xmlnode=build(case))
    M = Model(t)
    msg = M.compare()
    if msg:
        return 'at the start: ' + msg
    for op in case['ops']:
        msg = apply(M, op)
        if msg:
            return '%s: %s' % (op, msg)
    again = Table(xmlnode=copy.deepcopy(t.xmlnode))
    if [[c.xmlnode.attrib for c in r] for r in again.rows()] != [[c.xmlnode.attrib for c in r] for r in t.rows()]:
        return 'a copy shows other cells'
    return None


def random_layout(rng, big=5):
    case = dict(n=rng.randint(1, big), m=rng.randint(1, big))
    if rng.random() < 0.15:
        case['new'] = 1
        return case
    for k in ('rw', 'cw'):
        if rng.random() < 0.7:
            case[k] = [rng.choice([None, None, 0, 1, 2]) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.3:
        case['deep'] = 1
    if rng.random() < 0.4:
        case['full'] = [[rng.randrange(case['n']), rng.randrange(case['m'])] for _ in range(3)]
    if rng.random() < 0.3:
        case['covered'] = [[rng.randrange(case['n']), rng.randrange(case['m'])] for _ in range(2)]
    if rng.random() < 0.3:
        case['pre'] = rng.sample(['office:forms', 'table:shapes', 'table:table-source', 'table:desc'], rng.randint(1, 2))
    if rng.random() < 0.2:
        case['post'] = ['table:named-expressions']
    return case


def shrink(case):
    for i in range(len(case['ops'])):
        yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
    for k in ('rw', 'cw', 'deep', 'full', 'covered', 'pre', 'post', 'new'):
        if k in case:
            c = dict(case)
            del c[k]
            yield c
    for k in ('n', 'm'):
        if case[k] > 1:
            yield dict(case, **{k: case[k] - 1})
