"""C15 sheets and pages of a real body against a list model"""
from .base import *
from ezodf.sheets import Sheets
from ezodf.pages import Pages
from ezodf.xmlns import CN
import ezodf
from ezodf import Table, Paragraph
from ezodf.drawingpage import DrawingPage
from ezodf.xmlns import wrap

KIND = dict(s=(CN('office:spreadsheet'), CN('table:table'), CN('table:name'), 'sheets'), p=(CN('office:drawing'), CN('draw:page'), CN('draw:name'), 'pages'))
OTHER = [CN('text:variable-decls'), CN('table:content-validations'), CN('table:named-expressions'), CN('text:p')]


def check(case):
    btag, tag, nm, attr = KIND[case['kind']]
    node = etree.Element(btag)
    model, kids = [], []

    def new(name):
        if case['kind'] == 's':
            x = Table(name=name or 'x', size=(1, 1))
        else:
            x = DrawingPage(name=name or 'x')
        if name is not None:
            x.xmlnode.set(nm, name)
        elif nm in x.xmlnode.attrib:
            del x.xmlnode.attrib[nm]
        return x
    for k in case['kids']:
        if k[0] == 'o':
            e = etree.SubElement(node, OTHER[k[1]])
            if len(k) > 2:      # a table (page) that is not directly in the body
                etree.SubElement(e, tag).set(nm, k[2])
            kids.append(e)
        else:
            x = new(k[1])
            node.append(x.xmlnode)
            kids.append(x.xmlnode)
            model.append(x.xmlnode)
    body = wrap(node) if case['body'] else None
    kids = list(node)
    box = getattr(body, attr) if body is not None else (Sheets if case['kind'] == 's' else Pages)(node)

    def pos(k):
        """position of a key, None if absent"""
        if isinstance(k, int):
            return None if not -len(model) <= k < len(model) else k % len(model)
        for i, e in enumerate(model):
            if e.get(nm) == k:
                return i
        return None
    for op in case['ops']:
        o, k = op[0], op[1]
        err = KeyError if isinstance(k, str) else IndexError
        p = pos(k) if isinstance(k, (str, int)) else None
        before = etree.tostring(node)
        try:
            if o == 'get':
                x = box[k]
                if p is None:
                    return 'key %r found' % (k,)
                if x.xmlnode is not model[p] or box[k] is not x or box[p] is not x:
                    return 'key %r gives another object' % (k,)
            elif o == 'set':
                x = new(op[2])
                box[k] = x
                if p is None:
                    return 'absent key %r assigned' % (k,)
                kids[kids.index(model[p])] = x.xmlnode
                model[p] = x.xmlnode
            elif o == 'del':
                del box[k]
                if p is None:
                    return 'absent key %r deleted' % (k,)
                kids.remove(model[p])
                del model[p]
            elif o in ('append', 'iadd'):
                x = new(op[2])
                if o == 'append':
                    if box.append(x) is not x:
                        return 'append result'
                else:
                    box += x
                model.append(x.xmlnode)
                kids.append(x.xmlnode)
            elif o == 'insert':
                x = new(op[2])
                if box.insert(k, x) is not x:
                    return 'insert result'
                model.insert(k, x.xmlnode)
                i = model.index(x.xmlnode)
                others = [e for e in node if e is not x.xmlnode]
                if others != kids:
                    return 'insert changed other children'
                kids = list(node)
            elif o == 'bad':
                bad = [Paragraph('x'), 'x', None, 3][op[2]]
                if not raises(lambda: box.append(bad), TypeError) or not raises(lambda: box.__setitem__(0, bad), TypeError):
                    return 'wrong child accepted'
                for badkey in (None, 1.5, ()):
                    if not raises(lambda: box[badkey], TypeError) or not raises(lambda: box.__delitem__(badkey), TypeError) \
                            or not raises(lambda: box.__setitem__(badkey, new('x')), TypeError):
                        return 'wrong key type accepted'
        except err:
            if p is not None or o not in ('get', 'set', 'del'):
                return '%s for key %r of %d' % (err.__name__, k, len(model))
            if etree.tostring(node) != before:
                return 'a rejected operation changed the body'
            continue
        if list(node) != kids:
            return 'children after %r' % (op,)
        if len(box) != len(model) or [x.xmlnode for x in box] != model:
            return 'list after %r' % (op,)
        if list(box.names()) != [e.get(nm) for e in model]:
            return 'names after %r' % (op,)
        for i, e in enumerate(model):
            if box.index(box[i]) != i or box[i].xmlnode is not e or box[i - len(model)] is not box[i]:
                return 'index after %r' % (op,)
        for bad in (len(model), -len(model) - 1):
            if not raises(lambda: box[bad], IndexError):
                return 'index %d of %d' % (bad, len(model))
        if not raises(lambda: box.index(new('z')), ValueError):
            return 'index of a stranger'
    return None


NAMES = ['A', 'B', 'a', 'Sheet 1', '', "it's", '\u00e4', None]


def random_op(rng):
    k = rng.choice([rng.randint(-5, 5), rng.choice(NAMES[:-1])])
    o = rng.choice(['get', 'set', 'del', 'append', 'iadd', 'insert', 'insert', 'insert', 'bad'])
    if o == 'insert':
        k = rng.randint(-6, 6)
    if o == 'bad':
        return [o, 0, rng.randrange(4)]
    return [o, k, rng.choice(NAMES)]


def random_case(rng):
    return dict(kind=rng.choice('sp'), body=rng.random() < .5, kids=[['o', rng.randrange(4)] + ([rng.choice(NAMES[:-1])] if rng.random() < .3 else []) if rng.random() < .4 else ['c', rng.choice(NAMES)] for _ in range(rng.randint(0, 6))],
                ops=[random_op(rng) for _ in range(rng.randint(1, 5))])


def enumerated():
    for kind in 'sp':
        for kids in ([], [['c', 'A']], [['o', 0], ['c', 'A'], ['o', 3], ['c', 'B']], [['c', 'B'], ['c', 'A'], ['o', 2]], [['o', 1], ['o', 2]], [['o', 0, 'B'], ['c', 'A'], ['o', 3, 'A']]):
            for i in range(-4, 5):
                for o in ('get', 'set', 'del', 'insert'):
                    yield dict(kind=kind, body=False, kids=kids, ops=[[o, i, 'N']])
            for n in ('A', 'B', 'C'):
                for o in ('get', 'set', 'del'):
                    yield dict(kind=kind, body=True, kids=kids, ops=[[o, n, 'N']])
            yield dict(kind=kind, body=False, kids=kids, ops=[['append', 0, 'N'], ['bad', 0, 0], ['bad', 0, 1]])


def shrink(case):
    for f in ('ops', 'kids'):
        for i in range(len(case[f])):
            c = dict(case)
            c[f] = case[f][:i] + case[f][i + 1:]
            yield c
