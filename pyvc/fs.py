"""Files, zip packages and byte buffers.

The file system is a heap component `fs` from canonical path names to contents: 0 no file, a positive number
a complete content, a negative number a partially written one. A zip package with content z has the entries
with zcnt(z)[name] > 0, the bytes zdat(z)[name]; zfirst(z), zstored(z) describe its first entry.
Every effect on the file system can fail (OSError) when faults are enabled, and is followed by the crash
obligation of the specification (ver.crash).
"""
import io, os, random, zipfile, datetime, shutil
import z3
from .smt import *
from .core import *
from .interp import MISSING

ATI, ATB = z3.ArraySort(T, I), z3.ArraySort(T, B)
pabs = z3.Function('pabs', T, T)
pjoin = z3.Function('pjoin', T, T, T)
pdir = z3.Function('pdir', T, T)
pext = z3.Function('pext', T, T)
lastc = z3.Function('last4', T, T)      # the last four characters
bcode = z3.Function('bcode', T, I)      # content number of bytes
cbytes = z3.Function('cbytes', I, T)    # bytes of a complete content
isz = z3.Function('isz', I, B)
zcnt = z3.Function('zcnt', I, ATI)
zdat = z3.Function('zdat', I, ATT)
zfirst = z3.Function('zfirst', I, T)
zstored = z3.Function('zstored', I, B)
zn = z3.Function('zn', I, I)
zname = z3.Function('zname', I, AIT)
zidx = z3.Function('zidx', I, ATI)
is_dirname = z3.Function('is_dirname', T, B)
enc = z3.Function('enc', T, T)
dec = z3.Function('dec', T, T)
member = z3.Function('member', AIT, I, T, B)
ser = z3.Function('ser', I, B, T)       # serialization of an object, with or without XML declaration
raw = z3.Function('raw', I, T)          # the string / the bytes an element is
has_tb = z3.Function('has_tb', I, B)
is_str = z3.Function('is_strobj', I, B)
fo_el = z3.Function('fo_el', I, I)
fo_mt = z3.Function('fo_mt', I, T)
fo_name = z3.Function('fo_name', I, T)

xmlbytes = z3.Function('xmlbytes', I, T)

xn = z3.Const('nm!', T)
xp = z3.Const('path!', T)
_a, _b = z3.Consts('pa! pb!', T)
_z = z3.Int('z!')
_i = z3.Int('zi!')


def axioms(c):
    k, t = c.lit('.bak'), c.lit('.tmp')
    sx = lambda x: Or(lastc(x) == k, lastc(x) == t)
    return [
        FA([_a], And(pabs(pabs(_a)) == pabs(_a), pabs(_a) != NONE, z3.Implies(sx(_a), lastc(pabs(_a)) == lastc(_a))), pabs(_a)),
        FA([_a, _b], And(cat(_a, _b) != NONE, z3.Implies(sx(_b), lastc(cat(_a, _b)) == lastc(_b))), cat(_a, _b)),
        FA([_a, _b], And(pjoin(_a, _b) != NONE, z3.Implies(sx(_b), lastc(pjoin(_a, _b)) == lastc(_b))), pjoin(_a, _b)),
        lastc(k) == k, lastc(t) == t,
        FA([_a], pabs(cat(_a, k)) != pabs(_a), pabs(cat(_a, k))),
        FA([_a], pdir(_a) != NONE, pdir(_a)),
        FA([_a], And(bcode(_a) > 0, cbytes(bcode(_a)) == _a), bcode(_a)),
        FA([_z], z3.Implies(_z > 0, And(cbytes(_z) != NONE, bcode(cbytes(_z)) == _z)), cbytes(_z)),
        FA([_a], And(dec(enc(_a)) == _a, enc(_a) != NONE), enc(_a)),
        FA([_z, _a], z3.Implies(_z > 0, Select(zcnt(_z), _a) >= 0), Select(zcnt(_z), _a)),
    ]


def source_axioms(z):
    """z is a package with distinct entry names"""
    nm = Select(zname(z), _i)
    ix = Select(zidx(z), xn)
    return And(zn(z) >= 0,
               FA([_i], z3.Implies(And(0 <= _i, _i < zn(z)), And(nm != NONE, Select(zcnt(z), nm) == 1, Select(zidx(z), nm) == _i)), nm),
               FA([xn], And(Select(zcnt(z), xn) <= 1, z3.Implies(Select(zcnt(z), xn) > 0, And(0 <= ix, ix < zn(z), Select(zname(z), ix) == xn))), Select(zcnt(z), xn)))


class SBytes(Sym):
    def __init__(self, t):
        self.t = t

    def sym_isinstance(self, c, cls):
        return issubclass(bytes, cls)

    def sym_getattr(self, c, name):
        if name == 'decode':
            return Native(lambda c, a, k: SStr(dec(self.t)), 'bytes.decode')
        raise PyExc(AttributeError, (name,))

    def sym_len(self, c):
        return SInt(slen(self.t))


def bytes_term(c, v):
    if isinstance(v, SBytes):
        return v.t
    if isinstance(v, bytes):
        return c.lit('bytes:%r' % v)
    if isinstance(v, SContent) and c.entails(And(Not(has_tb(v.t)), Not(is_str(v.t)))):
        c.assume(raw(v.t) != NONE)
        return raw(v.t)
    raise PyExc(TypeError, ('bytes expected',))


class SAny(Sym):
    """a value nothing is said about"""
    def sym_getattr(self, c, name):
        return Native(lambda c, a, k: SAny(), name)

    def sym_getitem(self, c, i):
        return SAny()


class SZipInfo(Sym):
    def __init__(self, name, key, store):
        self.name, self.key, self.store = name, key, store     # store: heap component with the stored flags

    def stored(self, c):
        return Select(c.H(self.store, z3.ArraySort(I, B)), self.key)

    def sym_getattr(self, c, name):
        if name == 'filename':
            return SStr(self.name)
        if name == 'compress_type':
            return zipfile.ZIP_STORED if c.branch(self.stored(c)) else zipfile.ZIP_DEFLATED
        if name == 'is_dir':
            return Native(lambda c, a, k: SBool(is_dirname(self.name)), 'is_dir')
        return SAny()

    def sym_setattr(self, c, name, v):
        if name == 'compress_type':
            c.setH(self.store, Store(c.H(self.store, z3.ArraySort(I, B)), self.key, BoolVal(v == zipfile.ZIP_STORED)))
        elif name == 'filename':
            self.name = sterm(c, v)

    def sym_isinstance(self, c, cls):
        return issubclass(zipfile.ZipInfo, cls)


class SContent(SOpaque):
    """what was registered as content of a part: a string, bytes or an object with tobytes()"""


class SFile(SOpaque):
    """entry of the directory"""


class ODict(Sym):
    """the directory: part names in order of registration, with their FileObjects"""
    def __init__(self, c, name='dir'):
        self.n = c.fint(name + '.n')
        self.names = c.fresh(name + '.names', AIT)
        self.idx = c.fresh(name + '.idx', ATI)
        self.val = c.fresh(name + '.val', ATI)
        nm, ix = Select(self.names, _i), Select(self.idx, xn)
        c.assume(self.n >= 0)
        c.assume(FA([_i], z3.Implies(And(0 <= _i, _i < self.n), And(nm != NONE, Select(self.idx, nm) == _i)), nm))
        v = Select(self.val, xn)
        c.assume(FA([xn], z3.Implies(self.has(xn), And(fo_name(v) == xn, fo_mt(v) != NONE, fo_el(v) > 0)), v))

    def has(self, nm):
        ix = Select(self.idx, nm)
        return And(0 <= ix, ix < self.n, Select(self.names, ix) == nm)

    def data(self, nm):
        """bytes the part must have"""
        v = Select(self.val, nm)
        e = fo_el(v)
        return z3.If(has_tb(e), ser(e, fo_mt(v) == lit('text/xml')), z3.If(is_str(e), enc(raw(e)), raw(e)))

    def key(self, c, k):
        t = sterm(c, k)
        if t is None:
            raise PyExc(KeyError, (k,))
        return t

    def sym_contains(self, c, k):
        return SBool(self.has(self.key(c, k)))

    def sym_getitem(self, c, k):
        t = self.key(c, k)
        if not c.branch(self.has(t)):
            raise PyExc(KeyError, (k,))
        return SFile(Select(self.val, t))

    def sym_len(self, c):
        return SInt(self.n)

    def sym_iter(self, c):
        return Seq(self.n, lambda i: SStr(Select(self.names, i)), self)

    def sym_isinstance(self, c, cls):
        return issubclass(dict, cls)

    def sym_getattr(self, c, name):
        nm = lambda i: Select(self.names, i)

        def get(c, a, k):
            t = self.key(c, a[0])
            return SFile(Select(self.val, t)) if c.branch(self.has(t)) else (a[1] if len(a) > 1 else None)
        fns = dict(
            get=get, keys=lambda c, a, k: self.sym_iter(c),
            values=lambda c, a, k: Seq(self.n, lambda i: SFile(Select(self.val, nm(i))), self),
            items=lambda c, a, k: Seq(self.n, lambda i: (SStr(nm(i)), SFile(Select(self.val, nm(i)))), self))
        if name not in fns:
            raise Unsupported('dict.' + name)
        return Native(fns[name], 'dict.' + name)


def fault(c, what):
    """an effect on the file system may fail"""
    if c.ver.fs_faults and c.choose(2):
        raise PyExc(OSError, (what,))


def key(c, path):
    t = sterm(c, path)
    if t is None:
        raise PyExc(TypeError, ('path',))
    if isinstance(path, SStr) and path.maybe and c.branch(t == NONE):
        raise PyExc(TypeError, ('path is None',))
    k = pabs(t)
    c.assume(k != NONE)
    return k


def fs_get(c, k):
    return Select(c.h['fs'], k)


def fs_set(c, k, v):
    c.setH('fs', Store(c.h['fs'], k, v))
    if k.get_id() not in [x.get_id() for x in c.ver.fs_written]:
        c.ver.fs_written.append(k)
    crashpoint(c)


def crashpoint(c):
    if c.ver.crash:
        c.ver.crash(c)


def partial(c):
    v = c.fint('partial')
    c.assume(v < 0)
    return v


class ZipW(Sym):
    """zipfile opened for writing; k: file it goes to, buf: or a buffer"""
    def __init__(self, c, k=None, buf=None):
        self.k, self.buf, self.open = k, buf, True
        c.setH('w.n', IntVal(0))
        c.setH('w.first', NONE)
        c.setH('w.stored', BoolVal(False))
        c.setH('w.count', z3.K(T, IntVal(0)))
        c.setH('w.data', z3.K(T, NONE))
        for n in ('w.n', 'w.first', 'w.stored', 'w.count', 'w.data'):
            c.hs[n] = c.h[n].sort()
        c.ver.zip_writer = self

    def sym_isinstance(self, c, cls):
        return issubclass(zipfile.ZipFile, cls)

    def write(self, c, name, stored, data):
        if not self.open:
            raise PyExc(ValueError, ('closed',))
        if self.k is not None:
            fault(c, 'write')
        h = c.h
        first = h['w.n'] == 0
        c.setH('w.first', simplify(z3.If(first, name, h['w.first'])))
        c.setH('w.stored', simplify(z3.If(first, stored, h['w.stored'])))
        c.setH('w.n', simplify(h['w.n'] + 1))
        c.setH('w.count', Store(h['w.count'], name, Select(h['w.count'], name) + 1))
        c.setH('w.data', Store(h['w.data'], name, data))
        if self.k is not None:
            fs_set(c, self.k, partial(c))

    def close(self, c):
        if not self.open:
            return
        if self.k is not None:
            fault(c, 'close')
        self.open = False
        z = c.fint('package')
        h = c.h
        c.assume(And(z > 0, isz(z), zcnt(z) == h['w.count'], zdat(z) == h['w.data'], zfirst(z) == h['w.first'], zstored(z) == h['w.stored']))
        if self.k is not None:
            fs_set(c, self.k, z)
        else:
            self.buf.code = z

    def sym_getattr(self, c, name):
        def writestr(c, a, k):
            d = dict(zip(('zinfo_or_arcname', 'data', 'compress_type', 'compresslevel'), a))
            d.update(k)
            zi = d['zinfo_or_arcname']
            if isinstance(zi, SZipInfo):
                nm, st = zi.name, zi.stored(c)
            else:
                nm, st = sterm(c, zi), BoolVal(False)
            if nm is None:
                raise PyExc(TypeError, ('name',))
            if d.get('compress_type') is not None:
                st = BoolVal(d['compress_type'] == zipfile.ZIP_STORED)
            data = d['data']
            if isinstance(data, (str, SStr)):
                data = SBytes(enc(sterm(c, data)))
            self.write(c, nm, st, bytes_term(c, data))
        fns = dict(writestr=writestr, close=lambda c, a, k: self.close(c), __enter__=lambda c, a, k: self, __exit__=lambda c, a, k: self.close(c))
        if name not in fns:
            raise Unsupported('ZipFile.' + name)
        return Native(fns[name], 'ZipFile.' + name)


class ZipR(Sym):
    def __init__(self, z):
        self.z = z

    def sym_isinstance(self, c, cls):
        return issubclass(zipfile.ZipFile, cls)

    def infos(self, c):
        return Seq(zn(self.z), lambda i: SZipInfo(Select(zname(self.z), i), i, 'zi.src'), self)

    def sym_getattr(self, c, name):
        z = self.z

        def read(c, a, k):
            x = a[0]
            t = x.name if isinstance(x, SZipInfo) else sterm(c, x)
            if t is None:
                raise PyExc(TypeError, ('name',))
            if not c.branch(Select(zcnt(z), t) > 0):
                raise PyExc(KeyError, (x,))
            c.assume(Select(zdat(z), t) != NONE)
            if c.ver.fs_faults and c.choose(2):
                raise PyExc(zipfile.BadZipFile, ('damaged',))
            return SBytes(Select(zdat(z), t))
        if name == 'filelist':
            return self.infos(c)
        fns = dict(read=read, infolist=lambda c, a, k: self.infos(c), close=lambda c, a, k: None,
                   namelist=lambda c, a, k: Seq(zn(z), lambda i: SStr(Select(zname(z), i)), self),
                   __enter__=lambda c, a, k: self, __exit__=lambda c, a, k: None)
        if name not in fns:
            raise Unsupported('ZipFile.' + name)
        return Native(fns[name], 'ZipFile.' + name)


class SBuf(Sym):
    """io.BytesIO"""
    def __init__(self, code=None):
        self.code = code        # content number, None: empty

    def term(self, c):
        return c.lit('bytes:b\'\'') if self.code is None else cbytes(self.code)

    def sym_isinstance(self, c, cls):
        return issubclass(io.BytesIO, cls)

    def sym_getattr(self, c, name):
        def write(c, a, k):
            t = bytes_term(c, a[0])
            self.code = bcode(t if self.code is None else cat(cbytes(self.code), t))

        def read(c, a, k):
            if a or k:
                raise Unsupported('partial read')
            return SBytes(self.term(c))
        fns = dict(getvalue=lambda c, a, k: SBytes(self.term(c)), write=write, read=read, seek=lambda c, a, k: 0, close=lambda c, a, k: None,
                   flush=lambda c, a, k: None, __enter__=lambda c, a, k: self, __exit__=lambda c, a, k: None)
        if name not in fns:
            raise Unsupported('BytesIO.' + name)
        return Native(fns[name], 'BytesIO.' + name)


class SStream(Sym):
    """a file opened for reading (code) or writing (k)"""
    def __init__(self, code=None, k=None):
        self.code, self.k, self.data, self.open = code, k, None, True

    def close(self, c):
        if self.k is None or not self.open:
            self.open = False
            return
        fault(c, 'close')
        self.open = False
        fs_set(c, self.k, bcode(self.data if self.data is not None else c.lit('bytes:b\'\'')))

    def sym_isinstance(self, c, cls):
        return cls is object or cls is io.IOBase

    def sym_getattr(self, c, name):
        def write(c, a, k):
            if self.k is None:
                raise PyExc(io.UnsupportedOperation, ())
            fault(c, 'write')
            t = bytes_term(c, a[0])
            self.data = t if self.data is None else cat(self.data, t)
            fs_set(c, self.k, partial(c))

        def read(c, a, k):
            if a or k or self.code is None:
                raise Unsupported('partial read')
            return SBytes(cbytes(self.code))
        fns = dict(write=write, read=read, close=lambda c, a, k: self.close(c), flush=lambda c, a, k: None, fileno=lambda c, a, k: 0, __enter__=lambda c, a, k: self,
                   __exit__=lambda c, a, k: self.close(c))
        if name not in fns:
            raise Unsupported('file.' + name)
        return Native(fns[name], 'file.' + name)


# ------------------------------------------------------------------ natives
def remove(c, a, k):
    p = key(c, a[0])
    fault(c, 'remove')
    if c.branch(fs_get(c, p) == 0):
        raise PyExc(OSError, ('no such file',))
    fs_set(c, p, IntVal(0))


def rename(c, a, k):
    p, q = key(c, a[0]), key(c, a[1])
    fault(c, 'rename')
    if c.branch(fs_get(c, p) == 0):
        raise PyExc(OSError, ('no such file',))
    if c.branch(p == q):
        return
    v = fs_get(c, p)
    c.setH('fs', Store(c.h['fs'], q, v))
    for x in (p, q):
        if x.get_id() not in [y.get_id() for y in c.ver.fs_written]:
            c.ver.fs_written.append(x)
    c.setH('fs', Store(c.h['fs'], p, IntVal(0)))
    crashpoint(c)


def copyfile(c, a, k):
    p, q = key(c, a[0]), key(c, a[1])
    if c.branch(fs_get(c, p) == 0):
        raise PyExc(OSError, ('no such file',))
    v = fs_get(c, p)
    fault(c, 'copy')
    fs_set(c, q, partial(c))
    fault(c, 'copy')
    fs_set(c, q, v)
    return a[1]


def open_(c, a, k):
    d = dict(zip(('file', 'mode'), a))
    d.update(k)
    mode = d.get('mode', 'r')
    p = key(c, d['file'])
    if mode in ('rb', 'r'):
        if c.branch(fs_get(c, p) == 0):
            raise PyExc(FileNotFoundError, ())
        return SStream(code=fs_get(c, p))
    if mode not in ('wb', 'w', 'xb'):
        raise Unsupported('open mode %s' % mode)
    fault(c, 'open')
    if mode == 'xb' and c.branch(fs_get(c, p) != 0):
        raise PyExc(FileExistsError, ())
    fs_set(c, p, partial(c))
    return SStream(k=p)


def zipfile_(c, a, k):
    d = dict(zip(('file', 'mode', 'compression'), a))
    d.update(k)
    f, mode = d['file'], d.get('mode', 'r')
    if mode == 'r':
        code = f.code if isinstance(f, (SBuf, SStream)) else fs_get(c, key(c, f))
        if code is None or not c.branch(And(code > 0, isz(code))):
            raise PyExc(zipfile.BadZipFile, ())
        c.assume(source_axioms(code))
        return ZipR(code)
    if mode not in ('w', 'x'):
        raise Unsupported('ZipFile mode %r' % (mode,))
    if isinstance(f, SBuf):
        return ZipW(c, buf=f)
    if isinstance(f, SStream):
        raise Unsupported('ZipFile on an open file')
    p = key(c, f)
    fault(c, 'open')
    if mode == 'x' and c.branch(fs_get(c, p) != 0):
        raise PyExc(FileExistsError, ())
    fs_set(c, p, partial(c))
    return ZipW(c, k=p)


def is_zipfile(c, a, k):
    f = a[0]
    if f is None:
        raise PyExc(TypeError, ())
    code = f.code if isinstance(f, (SBuf, SStream)) else fs_get(c, key(c, f))
    if code is None:
        return False
    return c.b2v(And(code > 0, isz(code)))


def strfn(f, conc):
    def g(c, a, k):
        if all(isinstance(x, str) for x in a) and conc is not None:
            return conc(*a)
        ts = []
        for x in a:
            t = sterm(c, x)
            if t is None or (isinstance(x, SStr) and x.maybe and c.branch(t == NONE)):
                raise PyExc(TypeError, ('path',))
            ts.append(t)
        r = f(*ts)
        c.assume(r != NONE)
        return SStr(r)
    return g


def splitext(c, a, k):
    t = sterm(c, a[0])
    r = pext(t)
    c.assume(r != NONE)
    x = c.fresh('stem', T)
    c.assume(And(x != NONE, t == cat(x, r)))
    return (SStr(x), SStr(r))


def sample(c, a, k):
    l = c.sym_list('str', name='sample')
    j = z3.Int('j!')
    c.assume(FA([j], And(Select(l.arr, j) != NONE, slen(Select(l.arr, j)) == 1), Select(l.arr, j)))
    return l


def zipinfo(c, a, k):
    t = sterm(c, a[0])
    return SZipInfo(t, c.fint('zipinfo'), 'zi.new')


def setup(c, faults=False, crash=None):
    """files and packages for this path"""
    from ezodf.filemanager import FileObject
    ver = c.ver
    ver.fs_faults, ver.crash = faults, None
    ver.fs_written, ver.zip_writer = [], None
    ver.format_cat = True
    c.H('fs', ATI)
    c.assume(FA([xp], Select(c.h['fs'], xp) >= 0, Select(c.h['fs'], xp)))
    c.assume(axioms(c))
    c.lit('text/xml')

    def bytesio(c, a, k):
        if not a or a[0] is None:
            return SBuf()
        return SBuf(bcode(bytes_term(c, a[0])))
    nat = ver.native
    nat(os.path.exists, lambda c, a, k: c.b2v(fs_get(c, key(c, a[0])) != 0), 'exists')
    nat(os.path.isfile, lambda c, a, k: c.b2v(fs_get(c, key(c, a[0])) != 0), 'isfile')
    nat(os.path.lexists, lambda c, a, k: c.b2v(fs_get(c, key(c, a[0])) != 0), 'lexists')
    nat(os.path.abspath, strfn(pabs, None), 'abspath')
    nat(os.path.realpath, strfn(pabs, None), 'realpath')
    nat(os.path.join, lambda c, a, k: a[0] if len(a) == 1 else strfn(pjoin, os.path.join)(c, a[:2], {}) if len(a) == 2 else Unsupported_('join'), 'join')
    nat(os.path.dirname, strfn(pdir, os.path.dirname), 'dirname')
    nat(os.path.splitext, lambda c, a, k: os.path.splitext(a[0]) if isinstance(a[0], str) else splitext(c, a, k), 'splitext')
    nat(os.remove, remove, 'remove')
    nat(os.unlink, remove, 'unlink')
    nat(os.rename, rename, 'rename')
    nat(os.replace, rename, 'replace')
    nat(shutil.copyfile, copyfile, 'copyfile')
    nat(shutil.copy, copyfile, 'copy')
    nat(shutil.copy2, copyfile, 'copy2')
    nat(shutil.move, rename, 'move')
    nat(open, open_, 'open')
    nat(zipfile.ZipFile, zipfile_, 'ZipFile')
    nat(zipfile.ZipInfo, zipinfo, 'ZipInfo')
    nat(zipfile.is_zipfile, is_zipfile, 'is_zipfile')
    nat(io.BytesIO, bytesio, 'BytesIO')
    nat(random.sample, sample, 'sample')
    nat(datetime.datetime.now, lambda c, a, k: SAny(), 'now')
    from lxml import etree

    def tostring(c, a, k):
        if c.ver.fs_faults and c.choose(2):
            raise PyExc(ValueError, ('cannot be serialized',))
        t = xmlbytes(a[0].t)
        c.assume(t != NONE)
        return SBytes(t)
    nat(etree.tostring, tostring, 'tostring')
    ver.encode_hook = lambda c, o: SBytes(enc(sterm(c, o)))
    ver.str_decode = lambda c, a: SStr(dec(bytes_term(c, a[0])))
    ver.member = member_of

    def serialize(c, o, kw):
        if c.ver.fs_faults and c.choose(2):
            raise PyExc(ValueError, ('cannot be serialized',))
        d = kw.get('xml_declaration', False)
        t = ser(o.t, BoolVal(d) if isinstance(d, bool) else d.t)
        c.assume(t != NONE)
        return SBytes(t)

    def getattr_(c, o, name):
        if isinstance(o, SFile):
            m = c.class_lookup(FileObject, name)
            if name == 'element':
                return SContent(fo_el(o.t))
            if name == 'media_type':
                return SStr(fo_mt(o.t))
            if name == 'zipinfo':
                return SZipInfo(fo_name(o.t), o.t, 'zi.stored')
            if m is MISSING:
                raise PyExc(AttributeError, (name,))
            return c.bind(m, o, FileObject)
        if isinstance(o, SContent):
            if name == 'tobytes' and c.branch(has_tb(o.t)):
                return Native(lambda c, a, k: serialize(c, o, dict(zip(('xml_declaration',), a), **k)), 'tobytes')
            if name == 'encode' and c.branch(And(Not(has_tb(o.t)), is_str(o.t))):
                return Native(lambda c, a, k: SBytes(enc(raw(o.t))), 'encode')
            raise PyExc(AttributeError, (name,))
        raise Unsupported('attribute %s of an opaque object' % name)

    def isinstance_(c, o, cls):
        if isinstance(o, SContent):
            if cls is str:
                return c.b2v(And(Not(has_tb(o.t)), is_str(o.t)))
            if cls is bytes:
                return c.b2v(And(Not(has_tb(o.t)), Not(is_str(o.t))))
            return cls is object
        if isinstance(o, SFile):
            return issubclass(FileObject, cls)
        return cls is object

    def hasattr_(c, o, name):
        if isinstance(o, SContent):
            if name == 'tobytes':
                return c.b2v(has_tb(o.t))
            if name == 'encode':
                return c.b2v(And(Not(has_tb(o.t)), is_str(o.t)))
        raise Unsupported('hasattr on an opaque object')

    def bterm(c, o):
        return raw(o.t)
    ver.opaque_getattr, ver.opaque_isinstance, ver.opaque_hasattr = getattr_, isinstance_, hasattr_
    c.crash_spec = crash

    if crash is not None:
        ver.crash = crash


def Unsupported_(w):
    raise Unsupported(w)


def member_of(c, l, x):
    """x occurs in the list of strings l"""
    if l.concrete:
        ts = [c.eq_term(SStr(x), y) for y in l.items]
        return Or(*[BoolVal(t) if isinstance(t, bool) else t for t in ts]) if ts else BoolVal(False)
    return mem(l.arr, l.n, x)


def mem(arr, n, x):
    if z3.is_int_value(n) and n.as_long() == 0:
        return BoolVal(False)
    if z3.is_store(arr) and z3.is_int_value(simplify(n - arr.arg(1))) and simplify(n - arr.arg(1)).as_long() == 1:
        return Or(mem(arr.arg(0), arr.arg(1), x), arr.arg(2) == x)
    return member(arr, n, x)


# ------------------------------------------------------------------ loop invariants
def invariants(c, L):
    """loops over the directory or over the entries of a package"""
    out = []
    h0 = L.pre.h
    if 'w.count' not in h0:
        return out
    w = c.ver.zip_writer
    cnt, cnt0, dat, dat0 = c.h['w.count'], h0['w.count'], c.h['w.data'], h0['w.data']
    s = Select(cnt, xn)
    out.append(('first entry', And(c.h['w.n'] >= h0['w.n'], z3.Implies(h0['w.n'] > 0, And(c.h['w.first'] == h0['w.first'], c.h['w.stored'] == h0['w.stored'])))))
    if w is not None and w.k is not None:
        p = Select(c.h['fs'], xp)
        out.append(('only the package is written', FA([xp], z3.Implies(xp != w.k, p == Select(h0['fs'], xp)), p)))
        out.append(('package incomplete', Select(c.h['fs'], w.k) < 0))
    src = L.seq.src if L.seq is not None else None
    if isinstance(src, ODict):
        D = src
        done = And(D.has(xn), Select(D.idx, xn) < L.k)
        out.append(('parts written', FA([xn], s == z3.If(Or(Select(cnt0, xn) > 0, done), IntVal(1), IntVal(0)), s)))
        out.append(('data written', FA([xn], z3.Implies(And(done, s > 0), Select(dat, xn) == z3.If(Select(cnt0, xn) > 0, Select(dat0, xn), D.data(xn))), Select(dat, xn))))
        out.append(('data kept', FA([xn], z3.Implies(Select(cnt0, xn) > 0, Select(dat, xn) == Select(dat0, xn)), Select(dat, xn))))
    if isinstance(src, ZipR):
        z = src.z
        done = And(Select(zcnt(z), xn) > 0, Select(zidx(z), xn) < L.k)
        out.append(('parts copied', FA([xn], s == z3.If(Select(cnt0, xn) > 0, Select(cnt0, xn), z3.If(done, IntVal(1), IntVal(0))), s)))
        out.append(('data copied', FA([xn], z3.Implies(s > 0, Select(dat, xn) == z3.If(Select(cnt0, xn) > 0, Select(dat0, xn), Select(zdat(z), xn))), Select(dat, xn))))
    for lid in sorted(L.info.lists):
        l = c.lists.get(lid)
        if l is not None and (l.concrete or l.kind == 'str') and all(kind_of_value(x) == 'str' for x in (l.items or [])):
            m = member_of(c, l, xn)
            out.append(('written names %s' % lid, FA([xn], m == (s > 0), s)))
    return out
