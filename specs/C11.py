"""C11 content of saved packages"""
from .packages import *

LEVEL = 'proof'


def saved(c, S, z):
    for n, f in complete(c, S, z):
        c.ensure(n, f)


def u_save(kind):
    def u(c):
        S = setup(c, kind)
        f = target(c)
        r = c.run(FileManager.save, S.fm, f, bool(c.choose(2)))
        c.ensure('saved', r.ok)
        z = Select(c.h['fs'], pabs(f.t))
        c.ensure('a complete package', And(z > 0, isz(z)))
        saved(c, S, z)
    return u


def u_stream(kind):
    def u(c):
        S = setup(c, kind)
        b = SBuf()
        r = c.run(c.class_lookup(S.fm.cls, 'save'), S.fm, b)
        c.ensure('saved', r.ok and b.code is not None)
        if not r.ok or b.code is None:
            raise PathEnd()
        c.ensure('a complete package', And(b.code > 0, isz(b.code)))
        saved(c, S, b.code)
        c.ensure('no file touched', c.h['fs'] == S.fs0)
    return u


def u_tobytes(kind):
    def u(c):
        S = setup(c, kind)
        r = c.run(c.class_lookup(S.fm.cls, 'tobytes'), S.fm)
        c.ensure('accepted', r.ok)
        if not r.ok:
            raise PathEnd()
        z = bcode(bytes_term(c, r.value))
        c.ensure('a complete package', isz(z))
        saved(c, S, z)
        c.ensure('no file touched', c.h['fs'] == S.fs0)
    return u


for _k in ('file', 'new', 'bytes'):
    _n = 'ezodf.%s:%s' % (('filemanager', 'FileManager') if _k != 'bytes' else ('bytestreammanager', 'ByteStreamManager'))
    if _k != 'bytes':
        unit('C11', _n + '.save', _k)(u_save(_k))
    unit('C11', _n + '.save', _k + ' to a stream')(u_stream(_k))
    unit('C11', _n + '.tobytes', _k)(u_tobytes(_k))


@unit('C11', 'ezodf.bytestreammanager:ByteStreamManager.save', 'to a file')
def u_bytes_file(c):
    S = setup(c, 'bytes')
    f = target(c)
    r = c.run(ByteStreamManager.save, S.fm, f)
    c.ensure('saved', r.ok)
    z = Select(c.h['fs'], pabs(f.t))
    c.ensure('a complete package', And(z > 0, isz(z)))
    saved(c, S, z)


@unit('C11', 'ezodf.filemanager:FileManager.get_bytes', '')
def u_get(c):
    S = setup(c, ('file', 'bytes', 'new')[c.choose(3)])
    n = c.string('name')
    r = c.run(FileManager.get_bytes, S.fm, n)
    c.ensure('accepted', r.ok)
    if not r.ok:
        raise PathEnd()
    if S.z is None:
        c.ensure('no package, no part', isnone(c, r.value))
    elif r.value is None:
        c.ensure('no such part', Select(zcnt(S.z), n.t) == 0)
    else:
        c.ensure('bytes of the part', And(Select(zcnt(S.z), n.t) > 0, bytes_term(c, r.value) == Select(zdat(S.z), n.t)))
    c.ensure('no file touched', c.h['fs'] == S.fs0)


@unit('C11', 'ezodf.filemanager:FileManager.get_text', '')
def u_text(c):
    S = setup(c, ('file', 'bytes', 'new')[c.choose(3)])
    n, d = c.string('name'), c.string('default')
    r = c.run(FileManager.get_text, S.fm, n, d)
    c.ensure('accepted', r.ok)
    has = Select(zcnt(S.z), n.t) > 0 if S.z is not None else BoolVal(False)
    t = dec(Select(zdat(S.z), n.t)) if S.z is not None else d.t
    c.ensure('text of the part or the default', r.ok and is_(c, r.value, SStr(If(has, t, d.t))))


def entries(c, root):
    return c.ver.lx.view(c, root.t, CN('manifest:file-entry'), False)


PATH, MT = CN('manifest:full-path'), CN('manifest:media-type')


@unit('C11', 'ezodf.filemanager:FileManager.register', '')
def u_register(c):
    fs.setup(c)
    c.ver.lx.use_wf = True
    fm = c.new_obj(FileManager)
    from ezodf.manifest import Manifest
    m = c.new_obj(Manifest)
    d = c.new_dict()
    fm.f.update(zipname=None, directory=d, manifest=m)
    calls = []
    c.ver.contracts['ezodf.manifest:Manifest.add'] = Con(lambda c, a, k: calls.append(bind(['self', 'full_path', 'media_type', 'version'], a, k, dict(media_type='', version=None))))
    name = ('mimetype', 'content.xml', 'Pictures/a.png')[c.choose(3)]
    x, mt = SContent(c.fint('content')), c.string('mediatype')
    again = c.choose(2)
    if again:
        c.run(FileManager.register, fm, name, SContent(c.fint('old')), c.string('oldtype'))
        del calls[:]
    r = c.run(FileManager.register, fm, name, x, mt)
    c.ensure('accepted', r.ok)
    c.ensure('one part of that name', list(d.d) == [name])
    o = d.d[name]
    c.ensure('content', is_(c, o.f['element'], x))
    c.ensure('media type', is_(c, o.f['media_type'], mt))
    c.ensure('name', is_(c, c.getattr_(o, 'filename'), name))
    c.ensure('entered in the manifest', len(calls) == 1 and And(is_(c, calls[0]['full_path'], name), is_(c, calls[0]['media_type'], mt)))


def man_setup(c):
    from ezodf.manifest import Manifest
    root = c.element(CN('manifest:manifest'), 'root', root=True)
    m = c.new_obj(Manifest)
    m.f['xmlnode'] = root
    v = entries(c, root)
    n0 = c.h1('klen', root)
    c.assume(v.n == n0)         # nothing but file entries
    y = Select(v.arr, xi)
    c.assume(FA([xi], Implies(And(0 <= xi, xi < v.n), Select(Select(c.h['kids'], root.t), xi) == y), y, Select(Select(c.h['kids'], root.t), xi)))
    p = c.lit(PATH)
    at = c.h['attr']
    a, b = Select(v.arr, xi), Select(v.arr, xc)
    c.assume(FA([xi, xc], Implies(And(0 <= xi, xi < xc, xc < v.n), Select(Select(at, a), p) != Select(Select(at, b), p)), [a, b]))
    path = c.string('path')
    i = None
    if c.choose(2):
        i = c.integer('i', 0).t
        c.assume(And(i < v.n, Select(Select(at, Select(v.arr, i)), p) == path.t))
    else:
        c.assume(FA([xi], Implies(And(0 <= xi, xi < v.n), Select(Select(at, y), p) != path.t), y))
    return Manifest, m, root, v, path, i


@unit('C11', 'ezodf.manifest:Manifest.find', '')
def u_find(c):
    M, m, root, v, path, i = man_setup(c)
    old = c.heap()
    r = c.run(M.find, m, path)
    c.ensure('accepted', r.ok)
    if i is None:
        c.ensure('absent', isnone(c, r.value))
    else:
        c.ensure('the entry of that path', isinstance(r.value, SEl) and r.value.t == Select(v.arr, i))
    c.ensure('unchanged', c.unchanged(old, STRUCT))


@unit('C11', 'ezodf.manifest:Manifest.add', '')
def u_add(c):
    M, m, root, v, path, i = man_setup(c)
    old = c.heap()
    mt = c.string('type')
    c.assume(path.t != c.lit('META-INF/manifest.xml'))
    r = c.run(M.add, m, path, mt)
    c.ensure('accepted', r.ok)
    v2 = entries(c, root)
    n = v.n
    c.ensure('one entry per path', v2.n == (n if i is not None else n + 1))
    y = Select(v2.arr, xi)
    e = Select(v2.arr, i if i is not None else n)
    at = Select(c.h['attr'], e)
    c.ensure('path and type', And(Select(at, c.lit(PATH)) == path.t, Select(at, c.lit(MT)) == mt.t))
    c.ensure('other entries unchanged', FA([xi], Implies(And(0 <= xi, xi < n, (xi != i if i is not None else BoolVal(True))),
             And(y == Select(v.arr, xi), Select(c.h['attr'], y) == Select(old['attr'], y))), y))


@unit('C11', 'ezodf.manifest:Manifest.remove', '')
def u_remove(c):
    M, m, root, v, path, i = man_setup(c)
    old = c.heap()
    r = c.run(M.remove, m, path)
    c.ensure('accepted', r.ok)
    v2 = entries(c, root)
    y = Select(v2.arr, xi)
    if i is None:
        c.ensure('nothing removed', same_lists(v2, v))
    else:
        c.ensure('exactly this entry removed', And(v2.n == v.n - 1, FA([xi], Implies(And(0 <= xi, xi < v2.n), y == Select(v.arr, If(xi < i, xi, xi + 1))), y)))
    c.ensure('entries unchanged', c.unchanged(old, ['attr', 'tag', 'text']))
