"""C10: repeated rows, cells and column descriptions of a loaded table against an independent expansion"""
import os, tempfile, shutil
from .tables import *
from .base import *
from ezodf.xmlns import wrap
from ezodf.conf import config
from ezodf.tablenormalizer import normalize_table
from ezodf.const import DEFAULT_MAXCOUNT, DEFAULT_TABLE_EXPAND_STRATEGY

CREP, RREP = CN('table:number-columns-repeated'), CN('table:number-rows-repeated')
TAGS = ['table:table-cell', 'table:covered-table-cell']


def rep(e, key, k):
    if k is not None:
        e.set(key, str(k))


def make(case):
    T = etree.Element(CN('table:table'))
    T.set(CN('table:name'), 'T')
    for tag in case.get('pre', ()):
        sub(T, tag).text = 'keep'

    def box_for(w, last, box, names):
        return T if w is None else box if w == last else sub(T, names[w])
    last, box = None, T
    for i, (k, w) in enumerate(case['cols']):
        box = box_for(w, last, box, COLWRAP)
        last = w
        e = sub(box, 'table:table-column')
        rep(e, CREP, k)
        if i % 2:
            e.set(CN('table:style-name'), 'c%d' % i)
        e.tail = case.get('tail')
    last, box = None, T
    for i, (k, w, cells) in enumerate(case['rows']):
        box = box_for(w, last, box, ROWWRAP)
        last = w
        r = sub(box, 'table:table-row')
        rep(r, RREP, k)
        if i % 2 == 0:
            r.set(CN('table:style-name'), 'r%d' % i)
        for j, (ck, t, text) in enumerate(cells):
            e = sub(r, TAGS[t])
            rep(e, CREP, ck)
            if text is not None:
                e.set(CN('office:value-type'), 'string')
                p = sub(e, 'text:p')
                p.text = text
                sub(p, 'text:s')
    for tag in case.get('post', ()):
        sub(T, tag).text = 'keep'
    return T


def times(k, strategy, limit, last):
    k = 1 if k is None else int(k)
    if k > 1 and strategy == 'all_but_last' and last:
        return 1
    if k > 1 and strategy == 'all_less_maxcount' and k >= limit:
        return 1
    return k


def without(e, key):
    """structure of e without the repetition it does not need any more"""
    tag, attr, text, kids = tree(e)
    if key in attr and int(attr[key]) > 1:
        attr = {k: v for k, v in attr.items() if k != key}
    return (tag, attr, text, [s for s, _ in kids])


def plan(T, strategy, maxcount):
    """the rows (their cells and group) and column descriptions expected; group: position of the group in the table"""
    def home(e):
        path = []
        while e.getparent() is not T:
            e = e.getparent()
            path.append(e.tag)
        return (path, T.index(e) if path else None)
    rows, all_ = [], T.findall('.//' + ROW)
    for i, r in enumerate(all_):
        cells = []
        for j, e in enumerate(r):
            cells += [(without(e, CREP), e if c == 0 else None) for c in range(times(e.get(CREP), strategy, maxcount[1], j == len(r) - 1))]
        tag, attr, text, _ = without(r, RREP)
        for c in range(times(r.get(RREP), strategy, maxcount[0], i == len(all_) - 1)):
            rows.append(((tag, attr, text), [(s, e if c == 0 else None) for s, e in cells], r if c == 0 else None, r.getparent()))
    m = max([len(x[1]) for x in rows] or [0])
    for x in rows:
        x[1].extend([((CELL, {}, '', []), None)] * (m - len(x[1])))
    cols, all_ = [], T.findall('.//' + COL)
    for i, e in enumerate(all_):
        for c in range(times(e.get(CREP), strategy, maxcount[1], i == len(all_) - 1)):
            cols.append((without(e, CREP), e if c == 0 else None, e.getparent()))
    return rows, cols


def plain(s):
    return (s[0], s[1], s[2], [x[0] for x in s[3]])


def compare(T, rows, cols, old):
    doc = T.findall('.//' + ROW)
    if len(doc) != len(rows):
        return '%d rows instead of %d' % (len(doc), len(rows))
    for i, (head, cells, orig, parent) in enumerate(rows):
        r = doc[i]
        tag, attr, text, kids = tree(r)
        if (tag, attr, text) != head:
            return 'row %d is %r instead of %r' % (i, (tag, attr, text), head)
        if orig is not None and r is not orig or orig is None and r in old:
            return 'row %d is not the element expected' % i
        if r.getparent() is not parent:
            return 'row %d is not in the group of the row it repeats' % i
        if len(r) != len(cells):
            return 'row %d has %d cells instead of %d' % (i, len(r), len(cells))
        for j, (s, e) in enumerate(cells):
            if plain(tree(r[j])) != s:
                return 'cell %d,%d is %r instead of %r' % (i, j, plain(tree(r[j])), s)
            if e is not None and r[j] is not e or e is None and r[j] in old:
                return 'cell %d,%d is not the element expected' % (i, j)
    if cols is not None:
        doc = T.findall('.//' + COL)
        if len(doc) != len(cols):
            return '%d column descriptions instead of %d' % (len(doc), len(cols))
        for i, (s, e, parent) in enumerate(cols):
            if plain(tree(doc[i])) != s:
                return 'column description %d is %r instead of %r' % (i, plain(tree(doc[i])), s)
            if e is not None and doc[i] is not e or e is None and doc[i] in old or doc[i].getparent() is not parent:
                return 'column description %d is not the element expected' % i
    return None


def others(T):
    return [(e, e.tag, dict(e.attrib), e.text) for e in T.iter() if e.tag not in (ROW, CELL, COL, COVERED) and
            not any(a.tag in (ROW, COL) for a in e.iterancestors())]


def check(case):
    strategy, maxcount = case['strategy'], tuple(case['max'])
    T = make(case)
    rest = others(T)
    old = set(T.iter())
    if not case.get('direct'):
        config.set_table_expand_strategy(strategy, maxcount) if case.get('set', True) else config.reset_table_expand_strategy()
    try:
        rows, cols = plan(T, strategy, maxcount)
        if case.get('direct'):
            normalize_table(T, strategy, maxcount)
            msg = compare(T, rows, None, old)
        else:
            t = wrap(T)
            msg = compare(T, rows, cols, old)
            if not msg and rows and (t.nrows(), t.ncols()) != (len(rows), len(rows[0][1])):
                msg = 'the size of the table is %r' % ((t.nrows(), t.ncols()),)
            if not msg:
                for i, r in enumerate(T.findall('.//' + ROW)):
                    if [x.xmlnode for x in t.row(i)] != list(r):
                        msg = 'the table object does not show row %d of the document' % i
                        break
        if msg:
            return msg
        if others(T) != rest:
            return 'elements other than rows, cells and column descriptions changed'
        s = xml(T)
        normalize_table(T, strategy, maxcount) if case.get('direct') else wrap(T)
        if xml(T) != s:
            return 'loading the expanded table once more changes it'
    finally:
        config.reset_table_expand_strategy()
    return None


def reps(limit):
    return [None, 1, 2, limit - 1 if limit > 2 else 3, limit, limit + 1]


def enumerated():
    for strategy in ('all', 'all_but_last', 'all_less_maxcount'):
        for mx in ((3, 4), (4, 3), (1, 1), (2, 5)):
            for direct in (0, 1):
                base = dict(strategy=strategy, max=mx, direct=direct)
                for a in (None, 1, 2, 3, 4, 5):
                    yield dict(base, cols=[[a, None]], rows=[[None, None, [[a, 0, 'x']]]])
                    yield dict(base, cols=[[a, None], [2, None]], rows=[[a, None, [[None, 0, 'x'], [a, 1, None]]], [2, None, [[a, 0, None]]]])
                    yield dict(base, cols=[[2, 0], [a, 1], [3, 2]], pre=['table:title'], post=['table:named-expressions'],
                               rows=[[2, 0, [[2, 0, 'x'], [a, 1, 'y'], [3, 0, None]]], [a, 2, [[a, 0, 'z'], [None, 0, None], [2, 0, 'k']]]])
                yield dict(base, cols=[], rows=[])
                yield dict(base, cols=[[None, None]], rows=[[2, None, []], [None, None, [[2, 0, 'a']]]])
    d = dict(strategy=DEFAULT_TABLE_EXPAND_STRATEGY, max=list(DEFAULT_MAXCOUNT), set=False)
    for a in (31, 32, 33):
        yield dict(d, cols=[[a, None]], rows=[[a, None, [[None, 0, 'x'], [a, 0, None]]]])


def random_case(rng):
    mx = [rng.randint(1, 6), rng.randint(1, 6)]

    def k(i):
        return rng.choice([None, None, 1, 2, 3, 4, mx[i], max(1, mx[i] - 1), mx[i] + 1])
    wraps = lambda: rng.choice([None, None, 0, 1, 2])
    rows = [[k(0), wraps(), [[k(1), rng.randint(0, 1), rng.choice([None, '', 'x', ' a '])] for _ in range(rng.randint(0 if rng.random() < .1 else 1, 5))]] for _ in range(rng.randint(1, 5))]
    return dict(strategy=rng.choice(['all', 'all_but_last', 'all_less_maxcount']), max=mx, direct=int(rng.random() < .3), rows=rows,
                cols=[[k(1), wraps()] for _ in range(rng.randint(0, 4))], pre=['table:title'] if rng.random() < .3 else [], post=['table:shapes'] if rng.random() < .3 else [])


def shrink(case):
    for key in ('rows', 'cols', 'pre', 'post'):
        for i in range(len(case.get(key, ()))):
            yield dict(case, **{key: case[key][:i] + case[key][i + 1:]})
    for i, r in enumerate(case['rows']):
        for j in range(len(r[2])):
            yield dict(case, rows=case['rows'][:i] + [[r[0], r[1], r[2][:j] + r[2][j + 1:]]] + case['rows'][i + 1:])
