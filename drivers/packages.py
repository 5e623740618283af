"""real packages in a scratch directory"""
from .base import *
import io, os, shutil, tempfile, zipfile
import ezodf
from ezodf.filemanager import FileManager
from ezodf.bytestreammanager import ByteStreamManager

NAMES = ['content.xml', 'styles.xml', 'meta.xml', 'settings.xml', 'Pictures/a.png', 'Pictures/b.png', 'a', 'A', 'Thumbnails/t', 'Configurations2/', 'x/y/z.bin', 'META-INF/documentsignatures.xml', 'mimetype2', 'current.xml',
         'Object 1/content.xml', 'Object 1/meta.xml', 'Object 1', 'content.xml.rels']


class XML(object):
    """a part of the document with its own serialization"""
    def __init__(self, s):
        self.s = s
        self.fail = None

    def tobytes(self, xml_declaration=False):
        if self.fail:
            raise self.fail
        return (b'<?decl?>' if xml_declaration else b'') + self.s.encode('utf-8')


def content(spec):
    """(object to register, media type, bytes it must become)"""
    kind, s = spec
    if kind == 'str':
        return s, 'text/plain', s.encode('utf-8')
    if kind == 'bytes':
        return s.encode('utf-8'), 'image/png', s.encode('utf-8')
    if kind == 'xml':
        return XML(s), 'text/xml', b'<?decl?>' + s.encode('utf-8')
    return XML(s), 'application/x', s.encode('utf-8')


def manifest(names):
    return ('<?xml version="1.0"?><manifest:manifest xmlns:manifest="urn:oasis:names:tc:opendocument:xmlns:manifest:1.0">' +
            ''.join('<manifest:file-entry manifest:full-path="%s" manifest:media-type="m"/>' % n for n in names) + '</manifest:manifest>').encode()


def make(parts, mime='application/vnd.oasis.opendocument.text'):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w', zipfile.ZIP_DEFLATED) as z:
        if mime is not None:
            z.writestr('mimetype', mime)
        z.writestr('META-INF/manifest.xml', manifest([n for n, d in parts]))
        for n, d in parts:
            z.writestr(n, d)
    return b.getvalue()


def read(data):
    """{name: bytes}, order and compression of a package; None if damaged"""
    try:
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            if z.testzip() is not None:
                return None
            infos = z.infolist()
            return [(i.filename, z.read(i), i.compress_type) for i in infos]
    except (zipfile.BadZipFile, OSError, EOFError, KeyError):
        return None


class Scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='ezodf-scratch-')
        return self

    def path(self, *n):
        return os.path.join(self.d, *n)

    def put(self, name, data):
        with open(self.path(name), 'wb') as f:
            f.write(data)

    def state(self):
        r = {}
        for n in sorted(os.listdir(self.d)):
            with open(self.path(n), 'rb') as f:
                r[n] = f.read()
        return r

    def __exit__(self, *a):
        if os.path.basename(self.d).startswith('ezodf-scratch-'):
            shutil.rmtree(self.d, ignore_errors=True)


def random_parts(rng, k):
    ns = list(NAMES)
    rng.shuffle(ns)
    return [(n, '' if n.endswith('/') else rtext(rng)) for n in ns[:rng.randint(0, k)]]


def expect(parts, reg, mime):
    """{name: bytes} of the package to be written, without the manifest"""
    e = dict((n, d.encode()) for n, d in parts)
    e['mimetype'] = mime.encode()
    for n, spec in reg:
        e[n] = content(spec)[2]
    return e


def compare(data, e):
    r = read(data)
    if r is None:
        return 'no readable package'
    if not r or r[0][0] != 'mimetype' or r[0][2] != zipfile.ZIP_STORED:
        return 'mimetype is not the first entry, uncompressed: %r' % ([(n, t) for n, d, t in r][:2],)
    names = [n for n, d, t in r]
    if len(set(names)) != len(names):
        return 'part written twice: %r' % names
    got = dict((n, d) for n, d, t in r)
    man = got.pop('META-INF/manifest.xml', None)
    if man is None:
        return 'no manifest'
    if set(got) != set(e):
        return 'parts %r instead of %r' % (sorted(got), sorted(e))
    for n in e:
        if got[n] != e[n]:
            return 'part %r is %r instead of %r' % (n, got[n][:80], e[n][:80])
    return None


def entries(man):
    M = '{urn:oasis:names:tc:opendocument:xmlns:manifest:1.0}'
    return [(x.get(M + 'full-path'), x.get(M + 'media-type')) for x in etree.XML(man)]
