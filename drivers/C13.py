"""C13 manifest: operation sequences against a dict model"""
from .base import *
from ezodf.manifest import Manifest
from ezodf.xmlns import CN

OWN = 'META-INF/manifest.xml'
PATHS = ['/', 'content.xml', 'styles.xml', 'meta.xml', 'Pictures/a b.png', 'Content.xml', 'content.xml ', "it's", '', OWN, 'META-INF/other.xml', 'x/', 'x', '\u00e4.png', 'manifest.xml', 'meta-inf/manifest.xml']
TYPES = ['', 'text/xml', 'image/png', 'application/vnd.oasis.opendocument.text', 'x']


def listing(m):
    return [(e.tag, e.get(CN('manifest:full-path')), e.get(CN('manifest:media-type')), e.get(CN('manifest:version')), sorted(k for k in e.keys())) for e in m.xmlnode]


def check(case):
    m = Manifest()
    model = {}
    for op in case['ops']:
        if op[0] == 'add':
            _, p, t, v = op
            args = [p] + ([t] if t is not None or v is not None else [])
            if v is not None:
                m.add(p, t or '', v)
            elif t is not None:
                m.add(p, t)
            else:
                m.add(p)
            if p != OWN:
                old = model.get(p)
                model[p] = (t or '', v if v is not None else (old[1] if old else None))
        elif op[0] == 'remove':
            m.remove(op[1])
            model.pop(op[1], None)
        elif op[0] == 'reload':
            m = Manifest(m.tobytes())
        elif op[0] == 'foreign':
            # an entry written by another program (also for the manifest itself)
            if op[1] not in model:
                e = etree.SubElement(m.xmlnode, CN('manifest:file-entry'))
                e.set(CN('manifest:full-path'), op[1])
                e.set(CN('manifest:media-type'), op[2])
                model[op[1]] = (op[2], None)
        want = [(CN('manifest:file-entry'), p, t, v) for p, (t, v) in model.items()]
        got = [x[:4] for x in listing(m)]
        if got != want:
            return 'entries %r instead of %r after %r' % (got, want, op)
        for p in PATHS:
            f = m.find(p)
            if (f is not None) != (p in model):
                return 'find(%r) is %r' % (p, f)
            if f is not None and f.get(CN('manifest:full-path')) != p:
                return 'find(%r) gives the entry of %r' % (p, f.get(CN('manifest:full-path')))
    return None


def random_op(rng):
    r = rng.random()
    if r < .55:
        return ['add', rng.choice(PATHS), rng.choice(TYPES + [None]), rng.choice([None, None, None, '1.2', '1.3', ''])]
    if r < .8:
        return ['remove', rng.choice(PATHS)]
    if r < .9:
        return ['foreign', rng.choice(PATHS), rng.choice(TYPES)]
    return ['reload']


def random_case(rng):
    return dict(ops=[random_op(rng) for _ in range(rng.randint(1, 10))])


def enumerated():
    for p in PATHS:
        for t in TYPES:
            for v in (None, '1.2', ''):
                yield dict(ops=[['add', p, t, v], ['add', p, 'y', None], ['add', 'q', 'z', None], ['reload'], ['add', p, t, '1.0'], ['remove', p], ['remove', p], ['add', p, t, v]])


def shrink(case):
    ops = case['ops']
    for i in range(len(ops)):
        yield dict(ops=ops[:i] + ops[i + 1:])
