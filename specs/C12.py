"""C12 saving never loses the document"""
from .packages import *
from ezodf.document import FlatXMLDocument
from ezodf.xmlns import etree

LEVEL = 'proof'


def safe(c, S, f, what, done):
    """the old document or the complete new one is on disk, every other file is as before"""
    p, b = pabs(f.t), pabs(cat(f.t, c.lit('.bak')))
    h = c.h['fs']
    old = Select(S.fs0, p)
    have = [old == 0, Select(h, p) == old, Select(h, b) == old]
    for k in c.ver.fs_written:
        z = Select(h, k)
        if c.entails(z > 0):
            have.append(And(z > 0, done(z)))
    c.ensure(what + ': the old or the complete new document is on disk', Or(*have))
    s = Select(h, xp)
    c.ensure(what + ': no other file changes', FA([xp], Implies(And(xp != p, xp != b, Select(S.fs0, xp) != 0), s == Select(S.fs0, xp)), s))


def finished(c, S, f, backup, exist):
    """state after a successful save"""
    p, b = pabs(f.t), pabs(cat(f.t, c.lit('.bak')))
    h = c.h['fs']
    if backup:
        c.ensure('the previous document is the backup', Select(h, b) == If(Select(S.fs0, p) != 0, Select(S.fs0, p), Select(S.fs0, b)))
    else:
        c.ensure('backup file untouched', Select(h, b) == Select(S.fs0, b))
    s = Select(h, xp)
    c.ensure('no other file changed, none left over', FA([xp], Implies(And(xp != p, xp != b), s == Select(S.fs0, xp)), s))


def save(kind, backup):
    def u(c):
        S = setup(c, kind, faults=True)
        f = target(c)
        done = lambda z: And(isz(z), *[x for n, x in complete(c, S, z)])
        c.ver.crash = lambda c: safe(c, S, f, 'interrupted', done)
        zn0 = S.fm.f['zipname']
        r = c.run(FileManager.save, S.fm, f, backup)
        c.ver.crash = None
        if r.ok:
            p = pabs(f.t)
            z = Select(c.h['fs'], p)
            c.ensure('complete new document', And(z > 0, done(z)))
            finished(c, S, f, backup, None)
            c.ensure('later saves copy from the new file', is_(c, S.fm.f['zipname'], f))
        else:
            safe(c, S, f, 'failed', done)
            c.ensure('document still refers to its source', zn0 is S.fm.f['zipname'] or is_(c, S.fm.f['zipname'], zn0))
            if r.raised(ValueError):        # the content cannot be produced
                b = pabs(cat(f.t, c.lit('.bak')))
                c.ensure('nothing touched when the content cannot be produced', And(Select(c.h['fs'], pabs(f.t)) == Select(S.fs0, pabs(f.t)), Select(c.h['fs'], b) == Select(S.fs0, b)))
    return u


for _k in ('file', 'new'):
    for _b in (True, False):
        unit('C12', 'ezodf.filemanager:FileManager.save', '%s document, %s backup' % (_k, 'with' if _b else 'without'))(save(_k, _b))


@unit('C12', 'ezodf.document:FlatXMLDocument.save', 'with backup')
def u_flat(c):
    fs.setup(c, faults=True)
    S = type('S', (), {})()
    S.fs0 = c.h['fs']
    f = target(c)
    c.ver.contracts['ezodf.observer:broadcast'] = Con(lambda c, a, k: None)
    d = c.new_obj(FlatXMLDocument)
    x = c.element(CN('office:document'))
    d.f.update(docname=f, backup=True, xmlnode=x, body=SAny(), meta=SAny())
    new = bcode(xmlbytes(x.t))
    done = lambda z: z == new
    c.ver.crash = lambda c: safe(c, S, f, 'interrupted', done)
    r = c.run(FlatXMLDocument.save, d)
    c.ver.crash = None
    if r.ok:
        c.ensure('complete new document', Select(c.h['fs'], pabs(f.t)) == new)
        finished(c, S, f, True, None)
    else:
        safe(c, S, f, 'failed', done)


@unit('C12', 'ezodf.bytestreammanager:ByteStreamManager.save', 'content cannot be produced')
def u_bytes(c):
    S = setup(c, 'bytes', faults=True)
    f = target(c)
    r = c.run(ByteStreamManager.save, S.fm, f, bool(c.choose(2)))
    if r.raised(ValueError):
        c.ensure('nothing touched when the content cannot be produced', c.h['fs'] == S.fs0)
    if r.ok:
        z = Select(c.h['fs'], pabs(f.t))
        c.ensure('complete new document', And(z > 0, isz(z), *[x for n, x in complete(c, S, z)]))


@unit('C12', 'ezodf.document:PackagedDocument.save', '')
def u_doc(c):
    fs.setup(c)
    from ezodf.document import PackagedDocument
    c.ver.contracts['ezodf.observer:broadcast'] = Con(lambda c, a, k: None)
    calls = []

    def save(c, a, k):
        calls.append(bind(['self', 'filename', 'backup'], a, k, dict(backup=True)))
        if c.choose(2):
            raise PyExc(OSError, ('save',))
    c.ver.contracts['ezodf.filemanager:FileManager.save'] = Con(save)
    d = c.new_obj(PackagedDocument)
    fm = c.new_obj(FileManager)
    bk = c.boolean('backup')
    named = c.choose(3)
    f0 = c.string('docname')
    d.f.update(docname=f0 if named else None, backup=bk, body=SAny(), meta=SAny(), filemanager=fm)
    f = c.string('filename') if named == 2 else f0
    r = c.run(PackagedDocument.saveas, d, f) if named == 2 else c.run(PackagedDocument.save, d)
    if not named:
        c.ensure('no name: rejected, nothing saved', r.raised(IOError) and not calls)
        return
    c.ensure('saved once under the given name', len(calls) == 1 and is_(c, calls[0]['filename'], f))
    c.ensure('backup as asked for', len(calls) == 1 and is_(c, calls[0]['backup'], bk))
    c.ensure('a failure is reported', BoolVal(True) if r.ok else r.raised(OSError))
    c.ensure('name of the document', is_(c, d.f['docname'], f))
