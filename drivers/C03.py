"""C03 textlen against the length of the plain text for every element of random content"""
from .text import *
import ezodf, ezodf.xmlns as X

REG = next(o._classmap for o in vars(X).values() if hasattr(o, '_classmap'))
TAGS = sorted(t for t, c in REG.items() if hasattr(c, 'textlen') and hasattr(c, 'plaintext'))


def enumerated():
    kid = lambda t: [['text:span', t, [], {}], 'tl']
    for t in TAGS:
        for text in (None, '', 'ab'):
            for kids in ([], [kid('x')], [kid(None), [['text:s', None, [], {'text:c': '4'}], None]], [[['text:p', 'p', [], {}], None], [['text:h', 'h', [], {}], 'z']],
                         [[['draw:frame', 'f', [kid('q')], {}], ' t']], [[['text:soft-page-break', None, [], {}], 's'], [['text:line-break', None, [], {}], None]]):
                if t in (CN('text:s'), CN('text:user-field-decls'), CN('text:variable-decls')):
                    kids = []
                yield dict(tag=t, text=text, kids=kids)
    for n in (0, 1, 2, 5, 40):
        yield dict(tag=CN('text:p'), text='a', kids=[[['text:s', None, [], {'text:c': str(n)}], None]])


def random_case(rng):
    if rng.random() < .5:
        return dict(tag=rng.choice([t for t in TAGS if not t.endswith('-decls')]), text=some(rng), kids=[[node(rng, 2), some(rng)] for _ in range(rng.randint(0, 4))])
    n = node(rng, 4)
    return dict(tag=CN(n[0]), text=n[1], kids=n[2], attrs=n[3])


def check(case):
    e = etree.Element(case['tag'])
    e.text = case['text']
    for k, v in (case.get('attrs') or {}).items():
        e.set(CN(k), v)
    for child, tail in case['kids']:
        x = build(child)
        e.append(x)
        x.tail = tail
    ws = [(x, wrap(x)) for x in list(e.iter())]        # wrapping a table normalizes it
    before = xml(e)
    for x, w in ws:
        n, t = w.textlen, w.plaintext()
        if n != len(t):
            return 'textlen of <%s> is %r, its plain text %r has %d characters' % (x.tag.split('}')[-1], n, t, len(t))
    if xml(e) != before:
        return 'reading changed the element'


def shrink(case):
    n = ['', case['text'], case['kids'], {}]
    for x in smaller(n):
        if x[0] == '':
            yield dict(case, text=x[1], kids=x[2])
