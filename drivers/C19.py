"""C19 settings of real objects against a map of the attributes they are stored in"""
from .base import *
from ezodf.xmlns import CN, wrap
from ezodf.text import ListHeader, Span, Paragraph, Heading, Hyperlink, NumberedParagraph, ListItem, List, Section
from ezodf.table import Table, TableColumn, TableRow
from ezodf.cells import Cell
from ezodf.drawingpage import DrawingPage

S = 'text:style-name'
SETTINGS = {
    'Span': [['style_name', 's', S]],
    'Paragraph': [['style_name', 's', S], ['cond_style_name', 's', 'text:cond-style-name'], ['ID', 's', 'text:id']],
    'Heading': [['style_name', 's', S], ['outline_level', 'l', 'text:outline-level'], ['restart_numbering', 'b', 'text:restart-numbering'],
                ['suppress_numbering', 'b', 'text:is-list-header'], ['start_value', 'v', 'text:start-value'], ['formatted_number', 'n', '']],
    'NumberedParagraph': [['level', 'l', 'text:level'], ['start_value', 'v', 'text:start-value'], ['formatted_number', 'n', '']],
    'ListItem': [['start_value', 'v', 'text:start-value'], ['formatted_number', 'n', '']],
    'Hyperlink': [['style_name', 's', S], ['name', 's', 'office:name'], ['href', 's', 'xlink:href'], ['target_frame', 'f', 'office:target-frame-name']],
    'List': [['style_name', 's', S], ['continue_numbering', 'b', 'text:continue-numbering']],
    'Section': [['style_name', 's', S], ['name', 's', 'text:name'], ['protected', 'p', 'text:protected']],
    'Table': [['style_name', 's', 'table:style-name'], ['print_', 'b', 'table:print'], ['protected', 'p', 'table:protected']],
    'TableColumn': [['style_name', 's', 'table:style-name'], ['default_cell_style_name', 's', 'table:default-cell-style-name'], ['visibility', 'w', 'table:visibility']],
    'TableRow': [['style_name', 's', 'table:style-name'], ['default_cell_style_name', 's', 'table:default-cell-style-name'], ['visibility', 'w', 'table:visibility']],
    'Cell': [['style_name', 's', 'table:style-name'], ['formula', 's', 'table:formula'], ['protected', 'b', 'table:protect'],
             ['content_validation_name', 's', 'table:content-validation-name']],
    'DrawingPage': [['name', 'x', 'draw:name']],
}
CLASSES = {c.__name__: c for c in (Span, Paragraph, Heading, Hyperlink, NumberedParagraph, ListItem, List, Section, Table, TableColumn, TableRow, Cell, DrawingPage)}
TEXTS = ['a', 'Standard', 'x y', ' lead', '1', 'true', 'false', 'None', '_blank', '_top', '#a', "it's", '\u00e4', 'of:=SUM([.A1])', '-5']
INTS = [-7, -1, 0, 1, 2, 3, 9, 10, 11, 100, 10 ** 6]
MAKE = {'Span': ['style_name'], 'Paragraph': ['style_name'], 'Heading': ['style_name', 'outline_level'], 'Hyperlink': ['href', 'style_name'], 'List': ['style_name'],
        'Section': ['name', 'style_name'], 'Cell': ['style_name'], 'DrawingPage': ['name'], 'NumberedParagraph': [], 'ListItem': []}


def expected(kind, stored):
    """what a setting reads from the stored text"""
    if kind in 'bp':
        return stored == 'true'
    if kind == 'l':
        return 1 if stored is None else max(1, int(stored))
    if kind == 'v':
        return None if stored is None else int(stored)
    if kind == 'w':
        return 'visible' if stored is None else stored
    return stored


def same(a, b):
    return type(a) is type(b) and a == b


def check(case):
    name = case['cls']
    cls = CLASSES[name]
    sets = {s[0]: s for s in SETTINGS[name]}
    home = etree.Element('home')
    if case['make'] is not None:
        w = cls(**case['make'])
        want = {}
        for k, v in case['make'].items():
            if sets[k][1] == 'l':
                want[CN(sets[k][2])] = str(max(1, v))
            elif v:
                want[CN(sets[k][2])] = v
        if name == 'Heading' and 'outline_level' not in case['make']:
            want[CN('text:outline-level')] = '1'
        if name == 'Hyperlink':
            want[CN('office:target-frame-name')] = '_blank'
            want[CN('xlink:show')] = 'new'
        if dict(w.xmlnode.attrib) != want or w.xmlnode.tag != cls.TAG or len(w.xmlnode) or w.xmlnode.text:
            return 'new %s is %s' % (name, xml(w.xmlnode))
        home.append(w.xmlnode)
    else:
        e = etree.SubElement(home, cls.TAG)
        e.text = 'own' if name not in ('Table',) else None
        for t in case['kids']:
            k = etree.SubElement(e, CN(t))
            k.text, k.tail = 'k' + t, 'tail'
            k.set(CN('text:number'), 'x')
            etree.SubElement(k, CN('text:number')).text = 'deep'
        e.set('other', 'o')
        w = cls(xmlnode=e) if case['direct'] else wrap(e)
    e = w.xmlnode
    e.tail = 'behind'
    etree.SubElement(home, cls.TAG).set(CN(S), 'neighbour')
    for op in case['ops']:
        what, prop = op[0], op[1]
        if what == 'header' and name == 'List':
            m = header(w, op[1:])
            if m:
                return m
            continue
        if prop not in sets:
            continue
        kind, key = sets[prop][1], CN(sets[prop][2]) if sets[prop][2] else None
        attr, before = dict(e.attrib), tree(home)
        kids = list(e)
        number = e.find(CN('text:number'))
        if what == 'raw':
            if key is None or kind in 'lv' and not str(op[2]).lstrip('-').isdigit():
                continue
            e.set(key, str(op[2]))
            continue
        if what == 'del':
            if kind not in 'sbl' or key not in attr:
                continue
            delattr(w, prop)
            del attr[key]
        elif what == 'set':
            v = op[2]
            if kind in 'sfxw' and not (isinstance(v, str) and v) or kind in 'lv' and type(v) is not int or kind in 'bp' and type(v) is not bool or kind == 'n' and type(v) not in (str, int):
                continue
            if kind == 'w' and v not in ('visible', 'collapse', 'filter'):
                if not raises(lambda: setattr(w, prop, v), ValueError) or tree(home) != before:
                    return '%s.%s = %r is not rejected without change' % (name, prop, v)
                continue
            setattr(w, prop, v)
            if kind == 'n':
                if number is None:
                    new = list(e)
                    if new[:-1] != kids or new[-1].tag != CN('text:number') or len(new[-1]):
                        return 'setting %s.%s makes %s' % (name, prop, xml(e))
                    number = new[-1]
                elif list(e) != kids:
                    return 'setting %s.%s changes the children' % (name, prop)
                if number.text != str(v) or w.formatted_number != str(v):
                    return '%s.%s = %r reads %r' % (name, prop, v, w.formatted_number)
                number.text = None
                after = tree(home)
                number.text = str(v)
                if len(e) == len(kids):
                    i = kids.index(number)
                    was = before[3][list(home).index(e)][0][3][i][0]
                    now = after[3][list(home).index(e)][0][3][i][0]
                    if was[:2] + was[3:] != now[:2] + now[3:]:
                        return 'setting %s.%s changes the number element' % (name, prop)
                if dict(e.attrib) != attr:
                    return 'setting %s.%s changes attributes' % (name, prop)
                continue
            attr[key] = ('true' if v else 'false') if kind in 'bp' else str(max(1, v)) if kind in 'lv' else v
            if kind == 'f':
                attr[CN('xlink:show')] = 'new' if v == '_blank' else 'replace'
            if kind == 'p' and v:
                pk = CN(sets[prop][2].split(':')[0] + ':protection-key')
                if not e.get(pk):
                    return 'a protected %s has no key' % name
                attr[pk] = e.get(pk)
        now = dict(e.attrib)
        if now != attr:
            return '%s %s.%s %r leaves the attributes %r instead of %r' % (what, name, prop, op[2:], now, attr)
        save = dict(e.attrib)
        read = {p: getattr(w, p) for p in sets}
        if dict(e.attrib) != save:
            return 'reading changes the attributes'
        for p, (pp, k, ky) in sets.items():
            if k == 'n':
                n = e.find(CN('text:number'))
                x = None if n is None else n.text
            else:
                x = expected(k, attr.get(CN(ky)))
            if not same(read[p], x):
                return '%s.%s reads %r instead of %r after %s of %s' % (name, p, read[p], x, what, prop)
        for k in list(e.attrib):
            del e.attrib[k]
        for k, v in before[3][list(home).index(e)][0][1].items():
            e.set(k, v)
        if tree(home) != before:
            return '%s of %s.%s changes other things: %s' % (what, name, prop, xml(home))
        for k in list(e.attrib):
            del e.attrib[k]
        for k, v in attr.items():
            e.set(k, v)
    return None


def header(w, op):
    e = w.xmlnode
    kids, attr = list(e), dict(e.attrib)
    old = next((k for k in kids if k.tag == ListHeader.TAG), None)
    got = w.header
    if (got is None) != (old is None) or old is not None and got.xmlnode is not old:
        return 'the header of the list reads %r' % got
    if op[0] == 'wrong':
        x = ListItem('it')
        if not raises(lambda: setattr(w, 'header', x), TypeError) or list(e) != kids:
            return 'a list item as header is not rejected without change'
        return None
    x = ListHeader(op[1])
    w.header = x
    if list(e) != [x.xmlnode] + [k for k in kids if k is not old]:
        return 'after setting the header the children are %s' % xml(e)
    if dict(e.attrib) != attr or x.plaintext() != op[1]:
        return 'setting the header changes other things'
    return None


def value(rng, kind):
    if kind in 'lv':
        return rng.choice(INTS)
    if kind in 'bp':
        return rng.random() < .5
    if kind == 'w':
        return rng.choice(['visible', 'collapse', 'filter', 'Visible', 'hidden', 'x'])
    if kind == 'n' and rng.random() < .4:
        return rng.choice(INTS)
    return rng.choice(TEXTS)


def raw(rng, kind):
    if kind in 'bp':
        return rng.choice(['true', 'false', '', 'TRUE', '1', 'yes'])
    if kind in 'w':
        return rng.choice(['visible', 'collapse', 'filter'])
    return value(rng, kind)


def random_case(rng):
    name = rng.choice(sorted(SETTINGS))
    sets = SETTINGS[name]
    make = None
    if name in MAKE and rng.random() < .3:
        make = {}
        for p in MAKE[name]:
            k = next(s[1] for s in sets if s[0] == p)
            if rng.random() < .7 or k == 'x':
                make[p] = rng.choice(INTS) if k == 'l' else rng.choice(TEXTS)
    kids = [] if name in ('Table', 'TableRow', 'TableColumn') else [rng.choice(['text:list-header', 'text:list-item', 'text:list-item', 'text:number'] if name == 'List' else ['text:p', 'text:number', 'text:h', 'text:list', 'text:span']) for _ in range(rng.randint(0, 3))]
    ops = []
    for _ in range(rng.randint(1, 8)):
        if name == 'List' and rng.random() < .4:
            ops.append(['header', rng.choice(['right', 'right', 'wrong']), rng.choice(['head', '', 'a b'])])
            continue
        p, k, key = rng.choice(sets)
        what = rng.choice(['set', 'set', 'set', 'del', 'raw', 'get'])
        ops.append([what, p] + ([value(rng, k)] if what == 'set' else [raw(rng, k)] if what == 'raw' else []))
    return dict(cls=name, make=make, kids=kids, direct=rng.random() < .5, ops=ops)


def enumerated():
    H, I = 'text:list-header', 'text:list-item'
    for kids in ([], [I], [H], [H, I], [I, H], [I, I, H, I], [H, H], [I, H, I, H]):
        for kind in ('right', 'wrong'):
            yield dict(cls='List', make=None, kids=kids, direct=True, ops=[['header', kind, 'head'], ['header', 'right', 'second']])
    for name in sorted(SETTINGS):
        if name in MAKE:
            yield dict(cls=name, make={'name': 'n'} if name == 'DrawingPage' else {}, kids=[], direct=True, ops=[])
        for p, k, key in SETTINGS[name]:
            vals = INTS if k in 'lv' else [True, False] if k in 'bp' else ['visible', 'collapse', 'filter', 'no'] if k == 'w' else TEXTS
            for v in vals:
                for v2 in vals[:4]:
                    yield dict(cls=name, make=None, kids=['text:p', 'text:number'] if not name.startswith('Table') else [], direct=False,
                               ops=[['get', p], ['set', p, v], ['set', p, v2], ['del', p], ['get', p]])
            for v in ('true', 'false', 'TRUE', '1', '0', '5', '-2', 'collapse'):
                if k == 'w' and v != 'collapse':
                    continue
                yield dict(cls=name, make=None, kids=[], direct=True, ops=[['raw', p, v], ['get', p]])


def shrink(case):
    for f in ('ops', 'kids'):
        for i in range(len(case[f])):
            c = dict(case)
            c[f] = case[f][:i] + case[f][i + 1:]
            yield c
