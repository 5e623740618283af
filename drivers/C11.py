"""C11 packages written by the real file managers, read back with zipfile"""
from .packages import *

MIMES = ['application/vnd.oasis.opendocument.text', 'application/vnd.oasis.opendocument.spreadsheet']
CONTENT = [('str', 'a'), ('str', '\u00e4\u4e2d'), ('bytes', 'raw'), ('xml', '<a/>'), ('obj', 'x'), ('str', '')]


def manager(case, s):
    k = case['kind']
    src = make(case['parts'], case['mime'])
    if k == 'new':
        return FileManager()
    if k == 'file':
        s.put('src.odt', src)
        return FileManager(s.path('src.odt'))
    if k == 'bytes':
        return ByteStreamManager(src)
    return ByteStreamManager(io.BytesIO(src))


def check(case):
    with Scratch() as s:
        return check1(case, s)


def check1(case, s):
    fm = manager(case, s)
    source = s.state().get('src.odt')
    parts = [] if case['kind'] == 'new' else case['parts']
    src = dict((n, d.encode()) for n, d in parts)
    if case['kind'] != 'new':
        src['mimetype'] = case['mime'].encode()
        src['META-INF/manifest.xml'] = manifest([n for n, d in parts])
    for n in ['mimetype', 'nope', '', 'content'] + [n for n, d in case['parts']]:
        if fm.get_bytes(n) != src.get(n):
            return 'get_bytes(%r) gives %r' % (n, fm.get_bytes(n))
        want = src[n].decode() if n in src else 'default'
        if fm.get_text(n, 'default') != want:
            return 'get_text(%r) gives %r' % (n, fm.get_text(n, 'default'))
    reg = {}
    seen = [n for n, d in parts]
    for n, spec in [('mimetype', ('str', case['mime2']))] + case['reg']:
        x, mt, b = content(spec)
        fm.register(n, x, mt)
        reg[n] = (spec, mt)
    e = expect(parts, [(n, s_) for n, (s_, m) in sorted(reg.items())], case['mime2'])
    for how in case['saves']:
        if how == 'bytes':
            data = fm.tobytes()
        elif how == 'stream':
            b = io.BytesIO()
            fm.save(b)
            data = b.getvalue()
        else:
            p = s.path(how)
            fm.save(p)
            with open(p, 'rb') as f:
                data = f.read()
        m = compare(data, e)
        if m:
            return 'saved as %s: %s' % (how, m)
        got = entries(dict((n, d) for n, d, t in read(data))['META-INF/manifest.xml'])
        names = [n for n, t in got]
        if len(set(names)) != len(names):
            return 'manifest lists a part twice: %r' % names
        for n in reg:
            if dict(got).get(n) != reg[n][1]:
                return 'manifest entry of %r is %r' % (n, dict(got).get(n))
        for n in seen:
            if n not in reg and dict(got).get(n) != 'm':
                return 'manifest entry of %r is %r' % (n, dict(got).get(n))
    if 'src.odt' not in case['saves'] and s.state().get('src.odt') != source:
        return 'source package changed'
    return None


def enumerated():
    kinds = ['new', 'file', 'bytes', 'stream']
    for k in kinds:
        for saves in (['bytes'], ['stream'], ['a.odt'], ['a.odt', 'a.odt'], ['src.odt'], ['src.odt', 'bytes', 'b.odt', 'stream']):
            for reg in ([], [('content.xml', ('xml', '<a/>'))], [('content.xml', ('str', 'x')), ('current.xml', ('bytes', 'y'))],
                        [('content.xml', ('obj', 'x')), ('content.xml', ('xml', '<b/>'))]):
                for parts in ([], [('content.xml', 'old'), ('Pictures/a.png', 'p')], [('Configurations2/', ''), ('A', '1'), ('a', '2')], [('settings.xml', 's'), ('current.xml', 'c'), ('x/y/z.bin', '')]):
                    yield dict(kind=k, parts=parts, mime=MIMES[0], mime2=MIMES[1], reg=reg, saves=saves)


def random_case(rng):
    return dict(kind=rng.choice(['new', 'file', 'bytes', 'stream']), parts=random_parts(rng, 8), mime=rng.choice(MIMES), mime2=rng.choice(MIMES),
                reg=[(rng.choice([n for n in NAMES if not n.endswith('/')]), rng.choice(CONTENT)) for _ in range(rng.randint(0, 5))],
                saves=[rng.choice(['bytes', 'stream', 'a.odt', 'b.odt', 'src.odt']) for _ in range(rng.randint(1, 4))])
