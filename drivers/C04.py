"""C04 cell values: sequences of assignments against a model of the cell"""
from .base import *
from ezodf.cells import Cell, CoveredCell
from ezodf.text import Paragraph, Heading, Span
from ezodf.xmlns import CN

TYPES = ['float', 'percentage', 'currency', 'date', 'time', 'boolean', 'string']
ATTR = {'string': 'office:string-value', 'float': 'office:value', 'percentage': 'office:value', 'currency': 'office:value',
        'date': 'office:date-value', 'time': 'office:time-value', 'boolean': 'office:boolean-value'}


def mk(v):
    k = v[0]
    if k == 'float':
        return float(v[1])
    if k == 'para':
        return Paragraph(v[1])
    if k == 'head':
        return Heading(v[1])
    if k == 'span':
        return Span(v[1])
    if k == 'none':
        return None
    return v[1]


def expect(v, t, cur):
    """None when rejected, else (type, value, currency)"""
    k = v[0]
    if k == 'none' or k == 'span':
        return None
    if cur is not None:
        t = 'currency'
    if t is None:
        t = 'boolean' if k == 'bool' else 'float' if k in ('int', 'float') else 'string'
    if t not in TYPES:
        return None
    if k in ('para', 'head'):
        return ('string', v[1], None)
    x = mk(v)
    if t == 'string':
        return (t, str(x), None)
    if t == 'boolean':
        return (t, bool(x), None)
    if x == '':
        return None
    if t in ('float', 'percentage', 'currency'):
        return (t, float(x), cur if t == 'currency' else None)
    return (t, str(x), None)


def check(case):
    cls = CoveredCell if case.get('covered') else Cell
    cell = cls()
    cell.xmlnode.set('keep', 'me')
    model = (None, None, None)
    for op in case['ops']:
        if op[0] == 'style':
            cell.style_name = op[1]
            continue
        if op[0] == 'text':
            # foreign content in the cell
            from lxml import etree
            etree.SubElement(cell.xmlnode, op[1]).text = 'foreign'
            if model[0] == 'string':
                model = ('string', cell.value, None)
            continue
        if op[0] == 'display':
            before = xml(cell.xmlnode)
            try:
                cell.display_form = op[1]
            except TypeError:
                if model[0] not in (None, 'string'):
                    return 'display form rejected for %r' % (model[0],)
                if xml(cell.xmlnode) != before:
                    return 'rejected display form changed the cell'
            else:
                if model[0] in (None, 'string'):
                    return 'display form accepted for %r' % (model[0],)
                if cell.display_form != op[1]:
                    return 'display form %r reads back as %r' % (op[1], cell.display_form)
        else:
            _, v, t, cur = op
            before = xml(cell.xmlnode)
            exp = expect(v, t, cur)
            x = mk(v)
            try:
                cell.set_value(x, t, cur)
            except (ValueError, TypeError) as e:
                if exp is not None:
                    return 'set_value(%r, %r, %r) rejected: %r' % (v, t, cur, e)
                if xml(cell.xmlnode) != before:
                    return 'rejected set_value(%r, %r, %r) changed the cell: %s' % (v, t, cur, xml(cell.xmlnode))
                continue
            if exp is None:
                return 'set_value(%r, %r, %r) accepted' % (v, t, cur)
            oldcur = model[2]
            model = exp
            if exp[0] == 'currency' and not exp[2]:
                if cell.currency not in (None, oldcur):
                    return 'currency %r appeared' % cell.currency
                model = (exp[0], exp[1], cell.currency)
        # --- the cell is what the model says
        if cell.value_type != model[0]:
            return 'type %r instead of %r' % (cell.value_type, model[0])
        got = cell.value
        if model[0] is not None and (type(got) is not type(model[1]) or got != model[1] and not (got != got and model[1] != model[1])):
            return 'value %r instead of %r' % (got, model[1])
        if cell.currency != model[2]:
            return 'currency %r instead of %r' % (cell.currency, model[2])
        if cell.xmlnode.get('keep') != 'me':
            return 'foreign attribute lost'
        for a in set(ATTR.values()):
            if (model[0] is None or a != ATTR[model[0]]) and cell.xmlnode.get(CN(a)) is not None:
                return 'value attribute %s remains for a %s cell' % (a, model[0])
        if op[0] == 'set':
            n = len(cell.xmlnode)
            if n != (1 if model[0] == 'string' else 0):
                return '%d content elements remain in a %s cell' % (n, model[0])
        if cell.style_name != case.get('style') and case.get('style'):
            return 'style lost'
    if case.get('init') is not None:
        v, t, cur = case['init']
        exp = expect(v, t, cur)
        try:
            c = Cell(mk(v), t, cur, 'st')
        except (ValueError, TypeError):
            if exp is not None:
                return 'Cell(%r, %r, %r) rejected' % (v, t, cur)
        else:
            if exp is None and v[0] != 'none':
                return 'Cell(%r, %r, %r) accepted' % (v, t, cur)
            if exp is not None and (c.value_type, c.value) != exp[:2] and c.value == c.value:
                return 'Cell(%r, %r, %r) has %r %r' % (v, t, cur, c.value_type, c.value)
            if c.style_name != 'st':
                return 'style name of a new cell'
    return None


FLOATS = ['0.0', '-0.0', '1.5', '1e300', '-1e-300', '1e16', '123456789.125', 'inf', '0.1', '3.0', '1e22', '2.5e-07']


def rvalue(rng, t=None, cur=None):
    num = t in ('float', 'percentage', 'currency') or cur is not None
    k = rng.choice(['int', 'float', 'bool', 'str', 'str', 'para', 'head', 'none', 'span'])
    if num and k == 'str':
        return ['str', rng.choice(['1', '0', '-2.5', '1e3', '', '7'])]
    if num and k == 'bool':
        k = 'int'
    if k == 'int':
        return ['int', rng.choice([0, 1, -1, 2, 10, 255, 2 ** 31, -2 ** 40, rng.randint(-1000, 1000)])]
    if k == 'float':
        return ['float', rng.choice(FLOATS)]
    if k == 'bool':
        return ['bool', rng.random() < .5]
    if k in ('none', 'span'):
        return [k, 'x']
    return [k, rtext(rng)]


def rset(rng):
    t = rng.choice([None, None, None] + TYPES + ['bogus', 'Float', ''])
    cur = rng.choice([None] * 5 + ['EUR', 'USD', ''])
    return ['set', rvalue(rng, t, cur), t, cur]


def random_case(rng):
    ops = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < .75:
            ops.append(rset(rng))
        elif r < .9:
            ops.append(['display', rtext(rng)])
        else:
            ops.append(['text', rng.choice(['foo', 'bar'])])
    c = dict(ops=ops, covered=rng.random() < .2)
    if rng.random() < .3:
        c['init'] = rset(rng)[1:]
    return c


def enumerated():
    vals = [['int', 0], ['int', 7], ['float', '0.0'], ['float', '2.5'], ['bool', True], ['bool', False], ['str', ''], ['str', 'a  b\n\tc'], ['str', '3'],
            ['para', 'p'], ['head', ' h '], ['none', 'x'], ['span', 'x'], ['int', 10 ** 30], ['str', '0'], ['float', '-0.0']]
    sets = []
    for v in vals:
        for t in [None] + TYPES + ['bogus']:
            for cur in (None, 'EUR'):
                num = t in ('float', 'percentage', 'currency') or cur
                if num and v[0] in ('str', 'bool') and v[1] not in ('', '3', '0'):
                    continue
                sets.append(['set', v, t, cur])
    firsts = [['set', ['int', 5], None, None], ['set', ['str', 'old'], None, None], ['set', ['bool', True], None, None],
              ['set', ['int', 5], None, 'USD'], ['set', ['str', '2001-01-01'], 'date', None], ['set', ['str', 'PT1H'], 'time', None],
              ['set', ['int', 5], 'percentage', None]]
    for s in sets:
        yield dict(ops=[s], init=s[1:])
    for f in firsts:
        for s in sets:
            yield dict(ops=[f, s])
            yield dict(ops=[f, ['display', 'disp  form'], s, ['display', 'x']])
            yield dict(ops=[f, ['text', 'foo'], ['text', 'foo'], ['text', 'bar'], s])


def shrink(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(case, ops=ops[:i] + ops[i + 1:])
    if case.get('init'):
        yield {k: v for k, v in case.items() if k != 'init'}
