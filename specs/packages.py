"""shared by C11 and C12: file managers over an arbitrary directory and file system"""
from .common import *
from pyvc import fs
from pyvc.fs import *
from ezodf.filemanager import FileManager
from ezodf.bytestreammanager import ByteStreamManager

MIME = 'mimetype'


def setup(c, kind, faults=False):
    """kind: file (opened from a file), new, bytes"""
    fs.setup(c, faults=False)
    c.ver.contracts['new ezodf.manifest:Manifest'] = Con(lambda c, a, k: SContent(c.fint('manifest')))
    c.ver.opaque_getattr = manifest(c.ver.opaque_getattr)
    S = type('S', (), {})()
    if kind == 'file':
        S.source = c.string('zipname')
        S.z = Select(c.h['fs'], pabs(S.source.t))
        c.assume(And(S.z > 0, isz(S.z), source_axioms(S.z)))
        fm = c.call(FileManager, [S.source], {})
    elif kind == 'bytes':
        b = c.fresh('package', T)
        c.assume(b != NONE)
        S.source = None
        S.z = bcode(b)
        c.assume(And(isz(S.z), source_axioms(S.z)))
        fm = c.call(ByteStreamManager, [SBytes(b)], {})
    else:
        S.source, S.z = None, None
        fm = c.call(FileManager, [], {})
    S.D = ODict(c)
    fm.f['directory'] = S.D
    m = fo_el(Select(S.D.val, c.lit(MIME)))
    c.assume(And(S.D.has(c.lit(MIME)), Not(has_tb(m)), is_str(m)))
    c.ver.invariants['*'] = [fs.invariants]
    c.ver.fs_faults = faults
    c.ver.fs_written = []
    S.fm = fm
    S.fs0 = c.h['fs']
    return S


def manifest(nxt):
    def f(c, o, name):
        if name in ('add', 'remove'):
            return Native(lambda c, a, k: None, 'manifest.' + name)
        return nxt(c, o, name)
    return f


def in_source(S, nm):
    return Select(zcnt(S.z), nm) > 0 if S.z is not None else BoolVal(False)


def complete(c, S, z):
    """the package z holds exactly the registered parts, and the other parts of the source"""
    n, d = Select(zcnt(z), xn), Select(zdat(z), xn)
    reg, src = S.D.has(xn), in_source(S, xn)
    return [('mimetype first, not compressed', And(zfirst(z) == c.lit(MIME), zstored(z))),
            ('every part once, no others', FA([xn], n == If(Or(reg, src), IntVal(1), IntVal(0)), n)),
            ('registered parts with their present content', FA([xn], Implies(reg, d == S.D.data(xn)), d)),
            ] + ([('other parts unchanged', FA([xn], Implies(And(Not(reg), src), d == Select(zdat(S.z), xn)), d))] if S.z is not None else [])


def target(c):
    """name of the file to save to (not one of the names the temporary files have)"""
    f = c.string('filename')
    c.assume(lastc(pabs(f.t)) != c.lit('.tmp'))
    return f
