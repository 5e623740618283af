"""C09 cell spans of a real table against a model"""
from .tables import *

NR, NC = CN('table:number-rows-spanned'), CN('table:number-columns-spanned')
KEYS = [NR, NC, CN('table:number-matrix-columns-spanned'), CN('table:number-matrix-rows-spanned')]


def look(t, spans, base, n, m):
    """the table shows exactly these spans {position: size}; everything else as in base"""
    covered = {(a, b): p for p, (r, c) in spans.items() for a in range(p[0], p[0] + r) for b in range(p[1], p[1] + c) if (a, b) != p}
    rows = t.xmlnode.findall('.//' + ROW)
    if (t.nrows(), t.ncols()) != (n, m) or [len(r) for r in rows] != [m] * n:
        return 'size changed'
    for i in range(n):
        for j in range(m):
            e = rows[i][j]
            c = t[i, j]
            el, attrib, text, kids, tail = base[i][j]
            if c.xmlnode is not e or e is not el:
                return 'cell %d,%d is another element' % (i, j)
            if c.covered != ((i, j) in covered) or (e.tag == COVERED) != c.covered or e.tag not in (CELL, COVERED):
                return 'cell %d,%d covered: %r' % (i, j, c.covered)
            if c.span != spans.get((i, j), (1, 1)):
                return 'cell %d,%d spans %r' % (i, j, c.span)
            if {k: v for k, v in e.attrib.items() if k not in KEYS} != attrib or e.text != text or [tree(x) for x in e] != kids or e.tail != tail:
                return 'content of cell %d,%d changed' % (i, j)
            if c.kind != 'Cell':
                return 'cell %d,%d is a %s' % (i, j, c.kind)
    return None


def check(case):
    T = build(case)
    n, m = case['n'], case['m']
    spans = {}
    rows = T.findall('.//' + ROW)
    for i, j in case.get('ones', ()):
        if i < n and j < m:
            rows[i][j].set(NR, '1')
            rows[i][j].set(NC, '1')
    for i, j, r, c in case.get('start', ()):
        if i + r <= n and j + c <= m and r * c > 1 and all(e.tag == CELL and e.get(NR, '1') == '1' and e.get(NC, '1') == '1' for x in rows[i:i + r] for e in x[j:j + c]):
            for x in rows[i:i + r]:
                for e in x[j:j + c]:
                    e.tag = COVERED
            e = rows[i][j]
            e.tag = CELL
            if r > 1 or not case.get('short'):
                e.set(NR, str(r))
            if c > 1 or not case.get('short'):
                e.set(NC, str(c))
            spans[i, j] = (r, c)
    t = Table(xmlnode=T)
    base = [[(e, {k: v for k, v in e.attrib.items() if k not in KEYS}, e.text, [tree(x) for x in e], e.tail) for e in r] for r in rows]
    other = [(e.tag, dict(e.attrib), e.getparent()) for e in T.iter() if e.tag not in (CELL, COVERED)]
    msg = look(t, spans, base, n, m)
    if msg:
        return 'at the start: ' + msg
    for op in case['ops']:
        o, i, j = op[:3]
        pos = name(i, j) if op[-1] == 'name' and i >= 0 and j >= 0 else (i, j)
        before = xml(T)
        if o == 'set':
            r, c = op[3], op[4]
            bad = None
            if i < 0 or j < 0:
                bad = IndexError
            elif r < 1 or c < 1 or i + r > n or j + c > m:
                bad = ValueError
            else:
                area = {(a, b) for a in range(i, i + r) for b in range(j, j + c)}
                for p, (r2, c2) in spans.items():
                    if area & {(a, b) for a in range(p[0], p[0] + r2) for b in range(p[1], p[1] + c2)}:
                        bad = ValueError
            try:
                t.set_cell_span(pos, (r, c))
            except Exception as e:
                if bad is None or not isinstance(e, bad):
                    return '%s raises %s: %s' % (op, type(e).__name__, e)
                if xml(T) != before:
                    return 'the rejected %s changed the table' % (op,)
            else:
                if bad is not None:
                    return '%s is accepted' % (op,)
                if (r, c) != (1, 1):
                    spans[i, j] = (r, c)
        elif 0 <= i < n and 0 <= j < m:
            t.remove_cell_span(pos)
            if (i, j) not in spans and xml(T) != before:
                return '%s changed a table without this span' % (op,)
            spans.pop((i, j), None)
        msg = look(t, spans, base, n, m)
        if msg:
            return '%s: %s' % (op, msg)
    if [(e.tag, dict(e.attrib), e.getparent()) for e in T.iter() if e.tag not in (CELL, COVERED)] != other:
        return 'elements that are no cells changed'
    again = Table(xmlnode=etree.XML(etree.tostring(T)))
    for i in range(n):
        for j in range(m):
            if again[i, j].span != t[i, j].span or again[i, j].covered != t[i, j].covered:
                return 'the saved table shows other spans'
    return None


def name(i, j):
    s = ''
    j += 1
    while j:
        j, r = divmod(j - 1, 26)
        s = chr(65 + r) + s
    return s + str(i + 1)


def enumerated():
    for n, m in ((1, 1), (1, 3), (3, 1), (3, 3), (2, 4)):
        for i in range(-1, n + 1):
            for j in range(-1, m + 1):
                for r in range(0, n + 2):
                    for c in range(0, m + 2):
                        yield dict(n=n, m=m, ops=[['set', i, j, r, c], ['remove', i, j]], full=[[0, 0], [n - 1, m - 1]])
    for a in ((0, 0, 2, 2), (1, 1, 2, 3), (2, 0, 1, 4), (0, 3, 4, 1), (1, 1, 1, 1)):
        for i in range(4):
            for j in range(4):
                for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (4, 4)):
                    yield dict(n=4, m=4, start=[a], ops=[['set', i, j, r, c, 'name'], ['remove', a[0], a[1]], ['set', i, j, r, c], ['remove', i, j, 'name']])


def random_case(rng):
    case = random_layout(rng)
    case.pop('new', None)
    case.pop('covered', None)
    n, m = case['n'], case['m']
    if rng.random() < 0.4:
        case['start'] = [[rng.randrange(n), rng.randrange(m), rng.randint(1, 3), rng.randint(1, 3)] for _ in range(3)]
        if rng.random() < 0.5:
            case['short'] = 1
    if rng.random() < 0.3:
        case['ones'] = [[rng.randrange(n), rng.randrange(m)] for _ in range(2)]
    ops = []
    for _ in range(rng.randint(1, 10)):
        i, j = rng.randint(-1, n) if rng.random() < 0.1 else rng.randrange(n), rng.randint(-1, m) if rng.random() < 0.1 else rng.randrange(m)
        k = [] if rng.random() < 0.7 else ['name']
        if rng.random() < 0.4:
            ops.append(['remove', i, j] + k)
        else:
            ops.append(['set', i, j, rng.randint(0, 4) if rng.random() < 0.1 else rng.randint(1, 3), rng.randint(1, 3)] + k)
    return dict(case, ops=ops)


def shrink(case):
    for i in range(len(case['ops'])):
        yield dict(case, ops=case['ops'][:i] + case['ops'][i + 1:])
    for k in ('rw', 'cw', 'deep', 'full', 'pre', 'post', 'start', 'short', 'ones'):
        if k in case:
            c = dict(case)
            del c[k]
            yield c
