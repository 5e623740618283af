"""C16 variables and user fields of a real text body against a model of declarations and instances"""
from .base import *
from ezodf.xmlns import CN, wrap
from ezodf.body import TextBody

NAMES = ['a', 'b', "it's", 'say "x"', 'a ', '\u00e4', 'A', 'both\'"', '1']
VK = ['variable-set', 'variable-get', 'variable-input']
UK = ['user-field-set', 'user-field-get', 'user-field-input']
VALUES = ['x', '', 'text', 'true', 'True', '1', 0, 1, -3, 0.0, 2.5, 1e20, True, False, ' sp ', '\u4e2d', 10 ** 12]


def typ(v):
    return 'boolean' if type(v) is bool else 'float' if type(v) in (int, float) else 'string'


def same(got, v):
    if type(v) is bool:
        return got is v
    if type(v) in (int, float):
        return type(got) is float and got == float(v)
    return type(got) is str and got == v or (v == '' and got in ('', None))


def build(case):
    body = TextBody(etree.Element(CN('office:text')))
    root = etree.Element(CN('office:document-content'))
    b = etree.SubElement(root, CN('office:body'))
    b.append(body.xmlnode)
    for kind, names in (('variable', case['vars']), ('user-field', case['fields'])):
        decls = body.xmlnode.find(CN('text:%s-decls' % kind))
        for n, t in names:
            d = etree.SubElement(decls, CN('text:%s-decl' % kind))
            d.set(CN('text:name'), n)
            d.set(CN('office:value-type'), t)
            if kind == 'user-field':
                d.set(CN('office:string-value'), 'old')
                d.set(CN('office:value'), '7')
                d.set(CN('office:boolean-value'), 'false')
    spots = [body.xmlnode, b]
    for i, (tag, n, where) in enumerate(case['inst']):
        p = spots[where % len(spots)]
        p2 = etree.SubElement(p, CN('text:p'))
        spots.append(p2)
        p2.text = 'lead'
        e = etree.SubElement(p2, CN('text:' + tag))
        e.set(CN('text:name'), n)
        e.text = 'old%d' % i
        e.tail = 'tail%d' % i
        e.set(CN('text:display'), 'value')
        if i % 2:
            spots.append(e)
    return wrap(body.xmlnode) if case['rewrap'] else TextBody(body.xmlnode), root


def snap(root):
    return [(e, e.tag, dict(e.attrib), e.text, e.tail, e.getparent()) for e in root.iter()]


def check(case):
    body, root = build(case)
    model = {}
    for step, (kind, name, v) in enumerate(case['ops']):
        box = body.variables if kind == 'v' else body.userfields
        tags = [CN('text:' + t) for t in (VK if kind == 'v' else UK)]
        decl = [n for n, t in case['vars' if kind == 'v' else 'fields']]
        if (name in box) != (name in decl):
            return 'membership of %r' % name
        if name not in decl:
            continue
        before = snap(root)
        if step % 2:
            box[name] = v
        else:
            box[name].value = v
        after = snap(root)
        if len(before) != len(after):
            return 'elements added or removed'
        declnode = box[name].xmlnode
        for (e, t, at, tx, tl, pa), (e2, t2, at2, tx2, tl2, pa2) in zip(before, after):
            if e is not e2 or t != t2 or tl != tl2 or pa is not pa2:
                return 'structure changed'
            if t in tags and at.get(CN('text:name')) == name:
                w = wrap(e)
                if w.type != typ(v) or not same(w.value, v):
                    return 'instance of %r reads %r (%s) instead of %r' % (name, w.value, w.type, v)
                at = dict(at)
                at[CN('office:value-type')] = typ(v)
                if at != at2:
                    return 'attributes of an instance changed to %r' % at2
                if e.text not in (str(v), str(v).lower() if type(v) is bool else str(v)):
                    return 'shown text %r' % e.text
                if type(v) is bool and e.text not in ('true', 'false'):
                    return 'boolean stored as %r' % e.text
            elif e is declnode:
                if at2.get(CN('office:value-type')) != typ(v) or at2.get(CN('text:name')) != name:
                    return 'declaration has type %r' % at2.get(CN('office:value-type'))
                if kind == 'v' and (set(at2) - set(at) - {CN('office:value-type')}):
                    return 'declaration changed'
            elif at != at2 or tx != tx2:
                return 'element %s named %r changed' % (t, at.get(CN('text:name')))
        model[kind, name] = v
        for (k, n), x in model.items():
            box = body.variables if k == 'v' else body.userfields
            if k == 'u' or any(t in VK and m == n for t, m, w in case['inst']):
                if not same(box[n].value, x):
                    return '%s %r reads %r instead of %r' % (k, n, box[n].value, x)
            if box[n].type != typ(x):
                return 'type of %r is %r' % (n, box[n].type)
    return None


def random_case(rng):
    vs = [[n, rng.choice(['string', 'float', 'boolean'])] for n in rng.sample(NAMES, rng.randint(1, 4))]
    us = [[n, rng.choice(['string', 'float', 'boolean'])] for n in rng.sample(NAMES, rng.randint(1, 4))]
    inst = [[rng.choice(VK + UK), rng.choice(NAMES), rng.randint(0, 9)] for _ in range(rng.randint(0, 8))]
    ops = []
    for _ in range(rng.randint(1, 5)):
        k = rng.choice('vu')
        ops.append([k, rng.choice([n for n, t in (vs if k == 'v' else us)]) if rng.random() < .9 else rng.choice(NAMES), rng.choice(VALUES)])
    return dict(vars=vs, fields=us, inst=inst, ops=ops, rewrap=rng.random() < .5)


def enumerated():
    for v in VALUES:
        for w in VALUES:
            for n in NAMES[:4]:
                yield dict(vars=[[n, 'string'], ['other', 'float']], fields=[[n, 'string'], ['other', 'float']],
                           inst=[[t, m, i] for i, t in enumerate(VK + UK) for m in (n, 'other')], ops=[['v', n, v], ['u', n, v], ['u', n, w], ['v', n, w]], rewrap=True)


def shrink(case):
    for f in ('ops', 'inst', 'vars', 'fields'):
        for i in range(len(case[f])):
            c = dict(case)
            c[f] = case[f][:i] + case[f][i + 1:]
            yield c
