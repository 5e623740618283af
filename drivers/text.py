"""text content built from a description, and its plain text by definition

node = [tag, own text, [[node, tail], ...], attributes]
"""
from .base import *
from ezodf.xmlns import CN, wrap

FLOW = ['text:p', 'text:h', 'text:span', 'text:a']
SPACE = ['text:s', 'text:tab', 'text:line-break', 'text:soft-page-break']
OTHER = ['draw:frame', 'text:note', 'text:list', 'text:section', 'text:bookmark', 'table:table']
LINES = ['text:list-item', 'text:list-header']
CELLS = ['table:table-cell', 'table:covered-table-cell']


def build(node):
    e = etree.Element(CN(node[0]))
    e.text = node[1]
    for k, v in (node[3] or {}).items():
        e.set(CN(k), v)
    for child, tail in node[2]:
        x = build(child)
        e.append(x)
        x.tail = tail
    return e


def plain(node):
    tag, text, kids, attrs = node
    if tag in FLOW:
        return (text or '') + ''.join(plain(x) + (t or '') for x, t in kids)
    if tag == 'text:s':
        return ' ' * int((attrs or {}).get('text:c', 1))
    if tag in SPACE:
        return {'text:tab': '\t', 'text:line-break': '\n', 'text:soft-page-break': ''}[tag]
    if tag in LINES:
        return '\n'.join(plain(x) for x, _ in kids)
    if tag in CELLS:
        return '\n'.join(plain(x) for x, _ in kids if x[0] in ('text:p', 'text:h'))
    return text or ''


def some(rng):
    return rng.choice([None, '', rtext(rng, 3), rtext(rng, 2)])


def node(rng, depth=3, tags=None):
    tag = rng.choice(tags or FLOW * 3 + SPACE * 2 + OTHER + LINES + CELLS)
    attrs = {}
    if tag == 'text:s' and rng.random() < .7:
        attrs['text:c'] = str(rng.choice([0, 1, 2, 3, 7, 12]))
    if tag in SPACE:
        return [tag, None, [], attrs]
    n = rng.choice([0, 0, 1, 2, 3]) if depth else 0
    return [tag, some(rng), [[node(rng, depth - 1), some(rng)] for _ in range(n)], attrs]


def nodes(n):
    yield n
    for x, _ in n[2]:
        for y in nodes(x):
            yield y


def smaller(n):
    for i in range(len(n[2])):
        yield [n[0], n[1], n[2][:i] + n[2][i + 1:], n[3]]
        yield n[2][i][0]
        for x in smaller(n[2][i][0]):
            yield [n[0], n[1], n[2][:i] + [[x, n[2][i][1]]] + n[2][i + 1:], n[3]]
        if n[2][i][1]:
            yield [n[0], n[1], n[2][:i] + [[n[2][i][0], None]] + n[2][i + 1:], n[3]]
    if n[1]:
        yield [n[0], None, n[2], n[3]]
