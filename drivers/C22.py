"""C22 style containers against a dict model, including a reload"""
from .base import *
from ezodf.xmlns import CN
from ezodf.styles import OfficeDocumentStyles, Style, DefaultStyle

BOX = [('fonts', 'office:font-face-decls'), ('styles', 'office:styles'), ('automatic_styles', 'office:automatic-styles'), ('master_styles', 'office:master-styles')]
NAMES = ['A', 'B', 'a', 'ce1', 'ce 1', "it's", '"q"', '\u00e4', 'Default']
KTAG = ['style:style', 'style:font-face', 'style:master-page', 'text:list-style']


def check(case):
    root = etree.Element(CN('office:document-styles'))
    model = [[] for _ in BOX]
    n = 0

    def new(tag, name):
        nonlocal n
        n += 1
        e = etree.Element(CN(tag))
        if name is not None:
            e.set(CN('style:name'), name)
        e.set(CN('style:family'), 'f%d' % n)
        return e
    for b, items in case['boxes']:
        if root.find(CN(BOX[b][1])) is not None:
            continue
        box = etree.SubElement(root, CN(BOX[b][1]))
        for t, name in items:
            e = new(KTAG[t], name)
            box.append(e)
            model[b].append((name, e))
    order = [c.tag for c in root]
    doc = OfficeDocumentStyles(root)
    if [c.tag for c in root if c.tag in order] != order:
        return 'sections reordered'
    for op in case['ops']:
        o, b, name = op[0], op[1], op[2]
        box = getattr(doc, BOX[b][0])
        m = model[b]
        idx = next((i for i, x in enumerate(m) if x[0] == name), None)
        if o == 'get':
            try:
                s = box[name]
            except KeyError:
                if idx is not None:
                    return 'KeyError for %r' % name
            else:
                if idx is None or s.xmlnode is not m[idx][1]:
                    return 'wrong style for %r' % name
        elif o == 'set':
            e = new('style:style', name)
            box[name] = Style(e)
            if idx is None:
                m.append((name, e))
            else:
                m[idx] = (name, e)
        elif o == 'attr':
            if idx is not None and isinstance(box[name], Style):
                s = box[name]
                if s['name'] != name or s['family'] != m[idx][1].get(CN('style:family')) or s['parent-style-name'] is not None:
                    return 'style attributes'
                if not raises(lambda: s['bogus'], KeyError):
                    return 'unknown attribute accepted'
        elif o == 'reload':
            old = [[(x[0], tree(x[1])) for x in m2] for m2 in model]
            root = etree.XML(etree.tostring(root))
            doc = OfficeDocumentStyles(root)
            model = [[(e.get(CN('style:name')), e) for e in root.find(CN(t))] for _, t in BOX]
            if [[(x[0], tree(x[1])) for x in m2] for m2 in model] != old:
                return 'reload'
        for i, (f, t) in enumerate(BOX):
            secs = root.findall(CN(t))
            if len(secs) != 1 or getattr(doc, f).xmlnode is not secs[0]:
                return 'section %s' % f
            if list(secs[0]) != [x[1] for x in model[i]]:
                return 'styles of %s after %r' % (f, op)
            known = set()
            for name, e in model[i]:
                if e.get(CN('style:name')) != name:
                    return 'style name changed'
                if name is not None and name not in known and op[0] != 'get' and getattr(doc, f)[name].xmlnode is not e:
                    return 'lookup of %r in %s' % (name, f)
                known.add(name)
    return None


def random_op(rng):
    return [rng.choice(['get', 'get', 'set', 'set', 'attr', 'reload']), rng.randrange(4), rng.choice(NAMES)]


def random_case(rng):
    boxes = [[b, [[rng.randrange(4), rng.choice(NAMES + [None])] for _ in range(rng.randint(0, 5))]] for b in rng.sample(range(4), rng.randint(0, 4))]
    return dict(boxes=boxes, ops=[random_op(rng) for _ in range(rng.randint(1, 8))])


def enumerated():
    for b in range(4):
        yield dict(boxes=[[b, [[0, 'A'], [1, 'A'], [0, 'B'], [2, 'B']]]], ops=[['get', b, 'B'], ['get', b, 'A'], ['attr', b, 'A'], ['set', b, 'A'], ['set', b, 'B']])
    for b in range(4):
        for name in NAMES:
            yield dict(boxes=[[b, [[0, 'A'], [1, None], [0, 'B']]]], ops=[['get', b, name], ['set', b, name], ['get', b, name], ['set', b, name], ['reload', b, name], ['attr', b, name]])


def shrink(case):
    for f in ('ops', 'boxes'):
        for i in range(len(case[f])):
            c = dict(case)
            c[f] = case[f][:i] + case[f][i + 1:]
            yield c
