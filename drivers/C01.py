"""C01 text put in and read back: random content, constructors, append_text on paragraphs and cells"""
from .text import *
import ezodf
from ezodf import Paragraph, Heading, Span, Hyperlink, ListItem, ListHeader, Cell

TEXTS = ['', 'a', ' ', '  ', 'a b', 'a  b', '\n', '\t', 'a\n', '\ta', ' a', 'a ', '   a', 'a   ', 'a \n b', '  \n\t  ', '\u00e4 \u4e2d', 'a\tb\nc  d']
MAKE = ['Paragraph', 'Heading', 'Span', 'Hyperlink', 'ListItem', 'ListHeader']


def enumerated():
    for m in MAKE:
        for t in TEXTS:
            yield dict(do='new', cls=m, text=t, style='st' if len(t) % 2 else '')
    for tag in FLOW:
        for base in ([], [[['text:span', 'x', [], {}], None]], [[['text:span', 'x', [], {}], 'tail']], [[['text:s', None, [], {'text:c': '3'}], None]], [[['draw:frame', None, [], {}], '']]):
            for own in (None, 'own'):
                for t in TEXTS:
                    yield dict(do='append', node=[tag, own, base, {}], texts=[t, 'b', '  c'])
    P = lambda t: [['text:p', t, [], {}], None]
    for kids in ([], [P('a')], [P('a'), P('b')], [P(None)], [[['text:h', 'h', [], {}], None]], [[['draw:frame', 'f', [], {}], None]], [P('a'), [['draw:frame', 'f', [], {}], None]], [[['draw:frame', 'f', [], {}], 'x'], P('q')]):
        for t in TEXTS:
            for vt in ('string', 'float', None):
                yield dict(do='cell', node=['table:table-cell', None, kids, {'office:value-type': vt} if vt else {}], texts=[t], style='st' if len(t) % 3 else None)


def random_case(rng):
    r = rng.random()
    texts = [rtext(rng, 4) for _ in range(rng.randint(1, 3))]
    if r < .15:
        return dict(do='new', cls=rng.choice(MAKE), text=rtext(rng, 5), style=rng.choice(['', 'st']))
    if r < .5:
        return dict(do='append', node=node(rng, 2, FLOW), texts=texts)
    if r < .75:
        n = node(rng, 2, CELLS)
        n[2] = [[node(rng, 1, ['text:p', 'text:p', 'text:h', 'draw:frame', 'text:list']), None] for _ in range(rng.randint(0, 4))]
        if rng.random() < .8:
            n[3] = {'office:value-type': 'string'}
        return dict(do='cell', node=n, texts=texts, style=rng.choice([None, 'st']))
    return dict(do='read', node=node(rng, 4))


def same_text(w, want):
    got = w.plaintext()
    if got != want:
        return 'plain text is %r, expected %r' % (got, want)
    again = wrap(etree.fromstring(etree.tostring(w.xmlnode, with_tail=False))).plaintext()
    if again != want:
        return 'plain text after writing and reading the XML is %r, expected %r' % (again, want)


def check(case):
    if case['do'] == 'new':
        cls = getattr(ezodf, case['cls'], None) or getattr(ezodf.text, case['cls'])
        kw = dict(style_name=case['style']) if case['cls'] not in ('ListItem', 'ListHeader') else {}
        w = cls(text=case['text'], **kw)
        if kw and w.style_name != (case['style'] or None):
            return 'style is %r' % w.style_name
        if w.xmlnode.getparent() is not None or w.xmlnode.tail:
            return 'not a new detached element'
        return same_text(w, case['text'])
    n = case['node']
    e = build(n)
    w = wrap(e)
    want = plain(n)
    if case['do'] == 'read':
        before = xml(e)
        return same_text(w, want) or (xml(e) != before and 'reading changed the element') or None
    if case['do'] == 'append':
        for t in case['texts']:
            kids, before = list(e), [xml_of(x) for x in e]
            attrs, own = dict(e.attrib), e.text
            if w.append_text(t):
                return 'append_text returns something'
            want += t
            now = list(e)
            if now[:len(kids)] != kids or [xml_of(x) for x in kids] != before:
                return 'children present before are changed'
            if dict(e.attrib) != attrs or kids and e.text != own:
                return 'attributes or own text changed'
            m = same_text(w, want)
            if m:
                return m
        return
    for t in case['texts']:
        kids, before = list(e), [xml_of(x) for x in e]
        par = [x for x in kids if x.tag in (CN('text:p'), CN('text:h'))]
        flows = bool(kids) and kids[-1] in par
        old = xml(e)
        kw = dict(style_name=case['style']) if case['style'] else {}
        try:
            w.append_text(t, **kw)
        except TypeError:
            if (n[3] or {}).get('office:value-type') == 'string':
                return 'TypeError for a string cell'
            return 'a refused text changes the cell' if xml(e) != old else None
        if (n[3] or {}).get('office:value-type') != 'string':
            return 'text appended to a cell of type %r' % (n[3] or {}).get('office:value-type')
        want = want + t if flows else want + '\n' + t if par else t
        now = list(e)
        keep = len(kids) - 1 if flows else len(kids)
        if now[:len(kids)] != kids or [xml_of(x) for x in kids[:keep]] != before[:keep] or len(now) != len(kids) + (not flows):
            return 'other content of the cell changed'
        m = same_text(w, want)
        if m:
            return m


def xml_of(e):
    return etree.tostring(e, with_tail=False).decode()


def shrink(case):
    if case['do'] == 'new':
        for i in range(len(case['text'])):
            yield dict(case, text=case['text'][:i] + case['text'][i + 1:])
        return
    for x in smaller(case['node']):
        if x[0] == case['node'][0]:
            yield dict(case, node=x)
    for i, t in enumerate(case.get('texts', ())):
        if len(case['texts']) > 1:
            yield dict(case, texts=case['texts'][:i] + case['texts'][i + 1:])
        for j in range(len(t)):
            yield dict(case, texts=case['texts'][:i] + [t[:j] + t[j + 1:]] + case['texts'][i + 1:])
