"""C17 generic wrapper: operation sequences against a Python list / dict model"""
from .base import *
from ezodf.base import GenericWrapper
from ezodf.xmlns import CN, wrap
import ezodf

TAGS = [CN('text:p'), CN('text:h'), CN('text:span'), 'x', CN('text:list'), CN('draw:frame')]


def new(tag, n):
    e = etree.Element(tag)
    e.set('id', str(n))
    e.text = 't%d' % n
    return e


def check(case):
    root = etree.Element(case['root'])
    w = GenericWrapper(root) if case['plain'] else wrap(root)
    model, count, attrs = [], 0, {}
    for t in case['kids']:
        count += 1
        e = new(t, count)
        root.append(e)
        model.append(e)
    strangers = [new('x', 900), etree.SubElement(new('x', 901), 'x')]
    for op in case['ops']:
        o = op[0]
        n = len(model)
        if o in ('append', 'iadd'):
            count += 1
            e = new(op[1], count)
            x = wrap(e)
            if o == 'append':
                if w.append(x) is not x:
                    return 'append does not return the child'
            else:
                w += x
            model.append(e)
        elif o == 'insert':
            count += 1
            e = new(op[2], count)
            i = op[1]
            if -n <= i <= n:
                w.insert(i, wrap(e))
                model.insert(i, e)
        elif o in ('get', 'set', 'del'):
            i = op[1]
            count += 1
            e = new(op[2], count)
            inside = -n <= i < n
            try:
                if o == 'get':
                    x = w.get_child(i) if op[3] else w[i]
                elif o == 'set':
                    (w.set_child if op[3] else w.__setitem__)(i, wrap(e))
                else:
                    (w.del_child if op[3] else w.__delitem__)(i)
            except IndexError:
                if inside:
                    return 'IndexError for index %d of %d' % (i, n)
                continue
            if not inside:
                return 'index %d of %d accepted' % (i, n)
            if o == 'get' and (x.xmlnode is not model[i] or type(x) is not type(wrap(model[i]))):
                return 'child %d is the wrong object' % i
            if o == 'set':
                model[i] = e
            if o == 'del':
                del model[i]
        elif o in ('remove', 'replace', 'before', 'index'):
            count += 1
            e = new(op[2], count)
            inside = op[1] < n
            t = model[op[1]] if inside else strangers[op[1] % 2]
            try:
                if o == 'remove':
                    w.remove(wrap(t))
                elif o == 'replace':
                    w.replace(wrap(t), wrap(e))
                elif o == 'before':
                    w.insert_before(wrap(t), wrap(e))
                elif w.index(wrap(t)) != op[1]:
                    return 'index of child %d is %d' % (op[1], w.index(wrap(t)))
            except ValueError:
                if inside:
                    return '%s of a child raised ValueError' % o
                continue
            if not inside:
                return '%s of an element that is no child' % o
            if o == 'remove':
                del model[op[1]]
            elif o == 'replace':
                model[op[1]] = e
            elif o == 'before':
                model.insert(op[1], e)
        elif o == 'clear':
            w.clear()
            model, attrs = [], {}
        elif o == 'rawattr':
            root.set(op[1], op[2])
            attrs[op[1]] = op[2]
        elif o == 'attr':
            _, k, v = op
            if v:
                w.set_attr(k, v)
                attrs[k] = str(v)
            elif not raises(lambda: w.set_attr(k, v), ValueError):
                return 'empty attribute value accepted'
        elif o == 'bool':
            w.set_bool_attr(op[1], op[2])
            attrs[op[1]] = 'true' if op[2] else 'false'
            if w.get_bool_attr(op[1]) is not bool(op[2]):
                return 'truth value %r reads back as %r' % (op[2], w.get_bool_attr(op[1]))
        elif o == 'text':
            w.text = op[1]
            w.tail = op[2]
            if w.text != op[1] or w.tail != op[2]:
                return 'text or tail'
        if list(root) != model or len(w) != len(model):
            return 'children %r instead of %r after %r' % ([x.get('id') for x in root], [x.get('id') for x in model], op)
        if [x.xmlnode for x in w] != model:
            return 'iteration'
        for e in model:
            if e.text != 't' + e.get('id') or len(e.attrib) != 1:
                return 'child content changed'
        if dict(root.attrib) != attrs:
            return 'attributes %r instead of %r' % (dict(root.attrib), attrs)
        for k in ('a', 'b', CN('text:name'), 'none'):
            if w.get_attr(k) != attrs.get(k) or w.get_attr(k, 'dflt') != attrs.get(k, 'dflt') or w.get_bool_attr(k) != (attrs.get(k) == 'true'):
                return 'attribute %r' % k
        for t in TAGS:
            want = [e for e in model if e.tag == t]
            if [x.xmlnode for x in w.findall(t)] != want:
                return 'findall %r' % t
            f = w.find(t)
            if (f is None) != (not want) or f is not None and f.xmlnode is not want[0]:
                return 'find %r' % t
        x = w
        if model and w.get_xmlroot() is not root or model and wrap(model[-1]).get_xmlroot() is not root:
            return 'root'
    return None


def random_op(rng):
    r = rng.random()
    t = rng.choice(TAGS)
    if r < .15:
        return [rng.choice(['append', 'iadd']), t]
    if r < .3:
        return ['insert', rng.randint(-5, 5), t]
    if r < .55:
        return [rng.choice(['get', 'set', 'del', 'set']), rng.randint(-6, 6), t, rng.randint(0, 1)]
    if r < .8:
        return [rng.choice(['remove', 'replace', 'before', 'index']), rng.randint(0, 5), t]
    if r < .83:
        return ['clear']
    if r < .92:
        return ['attr', rng.choice(['a', 'b', CN('text:name')]), rng.choice(['v', 'true', 'false', 1, 0, '', 2.5, True, 'x y'])]
    if r < .94:
        return ['rawattr', rng.choice(['a', 'b', CN('text:name')]), rng.choice(['', 'true', 'v', 'TRUE'])]
    if r < .97:
        return ['bool', rng.choice(['a', 'b']), rng.choice([True, False, 1, 0, '', 'x'])]
    return ['text', rng.choice([None, '', 'tt']), rng.choice([None, 'ta'])]


def random_case(rng):
    return dict(root=rng.choice(['x', CN('text:section'), CN('text:p')]), plain=rng.random() < .8, kids=[rng.choice(TAGS) for _ in range(rng.randint(0, 5))],
                ops=[random_op(rng) for _ in range(rng.randint(1, 8))])


def enumerated():
    for v in ('', 'true', 'false', 'TRUE', '1', ' '):
        yield dict(root='x', plain=True, kids=[], ops=[['rawattr', 'a', v]])
    for n in range(4):
        kids = [TAGS[0], TAGS[3], TAGS[2], TAGS[0]][:n]
        for i in range(-5, 6):
            for op in (['insert', i, 'x'], ['get', i, 'x', 0], ['get', i, 'x', 1], ['set', i, 'x', 0], ['set', i, 'x', 1], ['del', i, 'x', 0], ['del', i, 'x', 1]):
                yield dict(root='x', plain=True, kids=kids, ops=[op])
        for i in range(5):
            for o in ('remove', 'replace', 'before', 'index'):
                yield dict(root='x', plain=True, kids=kids, ops=[[o, i, TAGS[0]]])


def shrink(case):
    for f in ('ops', 'kids'):
        for i in range(len(case[f])):
            c = dict(case)
            c[f] = case[f][:i] + case[f][i + 1:]
            yield c
