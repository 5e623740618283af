"""pyvc core: symbolic execution of the real Python source of ezodf.

The code that runs is the code that is verified: for every function object
reached from an imported ezodf module the AST is parsed from the file and line
recorded in its code object; globals, closure cells, class hierarchies and
module constants are the ones of the imported modules.  Functions without a
contract are executed in place (inlined), functions with a contract are
replaced by it at call sites, loops over symbolic data are cut by invariants.

Exploration is by re-execution: a path is a list of decisions; every symbolic
branch consults the list and schedules the other side when it is feasible.
"""
import ast, types, builtins, inspect, functools
import z3
from z3 import And, Or, Not, Implies, If, Int, IntVal, BoolVal, Store, Select, is_true, is_false
from .smt import *
from . import smt


class PathEnd(Exception):
    pass


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    pass


class PyExc(Exception):
    """a Python exception raised by the interpreted program"""
    def __init__(self, cls, args=()):
        Exception.__init__(self, cls.__name__)
        self.cls = cls
        self.xargs = args


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------ values
class Sym(object):
    pass


class SInt(Sym):
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool(Sym):
    def __init__(self, t):
        self.t = t


class SFlt(Sym):
    def __init__(self, t):
        self.t = t


class SStr(Sym):
    """symbolic string; maybe=True: the term may be NONE (Python None)"""
    def __init__(self, t, maybe=False):
        self.t = t
        self.maybe = maybe
    def __repr__(self):
        return 'SStr(%s)' % self.t


class SEl(Sym):
    """lxml element by reference"""
    def __init__(self, t):
        self.t = t
    def __repr__(self):
        return 'SEl(%s)' % self.t


class SWrap(Sym):
    """an ezodf wrapper object of statically unknown class around element t"""
    def __init__(self, t):
        self.t = t


class SOpaque(Sym):
    """opaque python object (identity only); fields via ctx.ofield"""
    def __init__(self, t, cls=None):
        self.t = t
        self.cls = cls


class PObj(object):
    """instance of an interpreted Python class"""
    def __init__(self, cls, oid):
        self.cls = cls
        self.oid = oid
        self.f = {}
        self.klass_over = None
    def __repr__(self):
        return '<%s #%s>' % (self.cls.__name__, self.oid)


class PList(object):
    """mutable list: concrete (items) or symbolic (n, arr, kind[, idx])"""
    def __init__(self, lid, items=None):
        self.lid = lid
        self.items = items if items is not None else []
        self.n = None
        self.arr = None
        self.kind = None
        self.idx = None
        self.name = None

    @property
    def concrete(self):
        return self.items is not None

    def state(self):
        return (None if self.items is None else tuple(self.items), self.n, self.arr, self.kind, self.idx)

    def restore(self, s):
        self.items = None if s[0] is None else list(s[0])
        self.n, self.arr, self.kind, self.idx = s[1:]


class PDict(object):
    """dict created by interpreted code; concrete keys, insertion ordered"""
    def __init__(self, did, d=None):
        self.did = did
        self.d = dict(d or {})

    def state(self):
        return dict(self.d)

    def restore(self, s):
        self.d = dict(s)


class Seq(object):
    """read-only sequence view: length (int or z3 Int) and getter(index)"""
    def __init__(self, n, get, src=None, what=''):
        self.n = n
        self.get = get
        self.src = src
        self.what = what
        self.idx = None
        self.ref = None        # function index-term -> element ref term (element sequences)
        self.live = None       # element whose children are iterated in place


class Iter(object):
    """one-shot iterator over a Seq"""
    def __init__(self, seq):
        self.seq = seq
        self.pos = 0


class Closure(object):
    def __init__(self, node, env, glob, qual, defaults, kwdefaults, cls=None):
        self.node, self.env, self.glob, self.qual = node, env, glob, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.cls = cls


class BoundM(object):
    def __init__(self, func, self_, name=None):
        self.func = func
        self.self_ = self_


class Native(object):
    """python callable model: fn(ctx, args, kwargs)"""
    def __init__(self, fn, name=''):
        self.fn = fn
        self.name = name


class SuperP(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Unk(object):
    """value lost at a loop head"""
    def __init__(self, why):
        self.why = why


class GenObj(object):
    pass


class Env(object):
    __slots__ = ('vars', 'parent', 'glob', 'nonlocals', 'globals', 'yields', 'cls', 'selfv')

    def __init__(self, parent, glob):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.nonlocals = set()
        self.globals = set()
        self.yields = None
        self.cls = None
        self.selfv = None

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyExc(NameError, (name,))

    def store(self, name, v):
        if name in self.nonlocals:
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
        if name in self.globals:
            raise Unsupported('global assignment')
        self.vars[name] = v


# ------------------------------------------------------------------ sources
_SRC = {}


def module_ast(filename):
    if filename not in _SRC:
        with open(filename, encoding='utf-8') as fp:
            src = fp.read()
        tree = ast.parse(src)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if getattr(node, 'decorator_list', None):
                    line = min([line] + [d.lineno for d in node.decorator_list])
                name = getattr(node, 'name', '<lambda>')
                idx.setdefault((line, name), node)
                idx.setdefault((node.lineno, name), node)
        _SRC[filename] = (src, tree, idx)
    return _SRC[filename]


def func_ast(f):
    co = f.__code__
    src, tree, idx = module_ast(co.co_filename)
    node = idx.get((co.co_firstlineno, co.co_name))
    if node is None:
        raise Unsupported('no source for %s' % f.__qualname__)
    return node


def qual(f):
    return '%s:%s' % (f.__module__, f.__qualname__)


class LoopInfo(object):
    def __init__(self):
        self.dropped = set()
        self.vars = {}       # name -> kind or 'unk'
        self.heap = set()
        self.lists = {}      # list id -> kind
        self.fields = set()  # (oid, field)
        self.globals_ = set()
        self.templates = {}  # auto candidates found in earlier passes: name -> builder(L) -> formula
        self.proved = {}
        self.completed = False   # some path reached the end of an iteration


class Snapshot(object):
    pass


class LoopCtx(object):
    """what candidate builders may talk about"""
    def __init__(self, ctx, key, fn, pre, seq):
        self.ctx, self.key, self.fn, self.pre, self.seq = ctx, key, fn, pre, seq
        self.k = IntVal(0)
        self.cur = None


PKG = 'ezodf'


class Ctx(object):
    """one path"""
    def __init__(self, ver, prefix):
        self.ver = ver
        self.prover = ver.prover
        self.prefix = list(prefix)
        self.pos = 0
        self.trace = []
        self.pc = list(ver.axioms)
        self.h = {}
        self.hs = {}            # component -> sort (for havoc)
        self.cnt = {}
        self.objs = {}
        self.lists = {}
        self.dicts = {}
        self.litseen = set()
        self.known_wrappers = {}
        self.notes = []
        self.stack = []
        self.retfn = None
        self.no_fork = 0
        self.fuel = 60000
        self.hints = {}
        self.ghost = {}
        self.views = {}
        self.depth = 0
        self.yield_stack = []
        self.alloc_base = None
        for s in ver.used_lits:
            self.lit(s)

    # -------------------------------------------------- facts and names
    def fresh_name(self, base):
        n = self.cnt.get(base, 0)
        self.cnt[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def fint(self, base='n'):
        return self.fresh(base, I)

    def assume(self, f):
        if f is None:
            return
        if isinstance(f, (list, tuple)):
            for x in f:
                self.assume(x)
            return
        if isinstance(f, bool):
            f = BoolVal(f)
        if is_true(f):
            return
        if z3.is_and(f):
            for c in f.children():
                self.assume(c)
            return
        self.pc.append(f)

    def lit(self, s):
        t = smt.lit(s)
        if s not in self.litseen:
            self.litseen.add(s)
            self.pc.extend(lit_facts(s))
        return t

    # -------------------------------------------------- decisions
    def entails(self, f, timeout=None):
        if isinstance(f, bool):
            return f
        f = simplify(f)
        if is_true(f):
            return True
        if is_false(f):
            return self.prover.check(self.pc, BoolVal(False), timeout=timeout or 3000, retry=False) is True
        if z3.is_and(f):
            return all(self.prover.check(self.pc, g, timeout=timeout or 3000, retry=False) is True for g in f.children())
        return self.prover.check(self.pc, f, timeout=timeout or 3000, retry=False) is True

    def surely(self, f):
        """entails, for formulas that normally hold (more effort)"""
        return all(self.prover.check(self.pc, g, timeout=1500, retry='mid') is True for g in (f.children() if z3.is_and(f) else [f]))

    def branch(self, cond, label=''):
        if isinstance(cond, bool):
            return cond
        c = simplify(cond)
        if is_true(c):
            return True
        if is_false(c):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(d)
        else:
            if self.no_fork:
                # evaluating speculatively: only forced decisions allowed
                if self.entails(cond):
                    return True
                if self.entails(Not(cond)):
                    return False
                raise NeedFork()
            if self.entails(cond):
                d = True
            elif self.entails(Not(cond)):
                d = False
            else:
                d = True
                self.ver.schedule(self.trace + [False])
            self.prefix.append(d)
            self.pos += 1
            self.trace.append(d)
        self.assume(cond if d else Not(cond))
        return d

    def choose(self, n, label=''):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            if self.no_fork:
                raise NeedFork()
            d = 0
            for other in range(1, n):
                self.ver.schedule(self.trace + [other])
            self.prefix.append(d)
        self.pos += 1
        self.trace.append(d)
        return d

    # -------------------------------------------------- heap components
    def H(self, name, sort=None):
        if name not in self.h:
            assert sort is not None, name
            self.h[name] = z3.Const(name + '_0', sort)
            self.hs[name] = sort
        return self.h[name]

    def setH(self, name, t):
        self.h[name] = t

    # -------------------------------------------------- objects
    def new_list(self, items=None, name=None):
        lid = self.fresh_name('L')
        l = PList(lid, list(items) if items is not None else [])
        l.name = name
        self.lists[lid] = l
        return l

    def sym_list(self, kind, n=None, name='lst', nonneg=True):
        l = self.new_list([], name)
        l.items = None
        l.kind = kind
        l.n = self.fint(name + '.n') if n is None else n
        l.arr = self.fresh(name + '.a', z3.ArraySort(I, KSORT[kind]))
        self.assume(l.n >= 0)
        return l

    def new_dict(self, d=None):
        did = self.fresh_name('D')
        o = PDict(did, d)
        self.dicts[did] = o
        return o

    def new_obj(self, cls):
        oid = self.fresh_name('O')
        o = PObj(cls, oid)
        self.objs[oid] = o
        return o

    # -------------------------------------------------- snapshots
    def snapshot(self, env=None):
        s = Snapshot()
        s.h = dict(self.h)
        s.lists = {k: l.state() for k, l in self.lists.items()}
        s.dicts = {k: d.state() for k, d in self.dicts.items()}
        s.objs = {k: dict(o.f) for k, o in self.objs.items()}
        s.envs = []
        s.pcn = len(self.pc)
        s.cnt = dict(self.cnt)
        s.views = {k: v for k, v in self.views.items()}
        s.ghost = dict(self.ghost)
        e = env
        while e is not None:
            s.envs.append((e, dict(e.vars), None if e.yields is None else e.yields))
            e = e.parent
        return s


# ------------------------------------------------------------------ packing
PairS = z3.Datatype('PairII')
PairS.declare('mk', ('a', I), ('b', I))
PairS = PairS.create()
KSORT = {'el': I, 'int': I, 'str': T, 'mstr': T, 'pair': PairS, 'val': Val, 'wrap': I, 'obj': I, 'bool': B, 'flt': F}


def _lit_of(ctx, s):
    return ctx.lit(s)


def iterm(v):
    if isinstance(v, bool):
        return IntVal(int(v))
    if isinstance(v, int):
        return IntVal(v)
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, SBool):
        return If(v.t, IntVal(1), IntVal(0))
    return None


def sterm(ctx, v):
    if v is None:
        return NONE
    if isinstance(v, str):
        return ctx.lit(v)
    if isinstance(v, SStr):
        return v.t
    return None


def kind_of_value(v):
    if isinstance(v, bool) or isinstance(v, SBool):
        return 'bool'
    if isinstance(v, (int, SInt)):
        return 'int'
    if v is None:
        return 'mstr'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, SStr):
        return 'mstr' if v.maybe else 'str'
    if isinstance(v, SEl):
        return 'el'
    if isinstance(v, SWrap):
        return 'wrap'
    if isinstance(v, (SFlt, float)):
        return 'flt'
    if isinstance(v, SOpaque):
        return 'obj'
    if isinstance(v, tuple) and len(v) == 2 and all(iterm(x) is not None for x in v):
        return 'pair'
    if isinstance(v, PObj) and isinstance(v.f.get('xmlnode'), SEl):
        return 'wrap'
    return None


def join_kind(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    if set((a, b)) == set(('str', 'mstr')):
        return 'mstr'
    if set((a, b)) in (set(('el', 'mstr')), set(('el', 'mel')), set(('mel', 'mstr'))):
        return 'mel'      # an element or None
    return 'val'


def pack(ctx, v, kind):
    k = kind_of_value(v)
    if k is None:
        raise Unsupported('cannot store %r in a symbolic list' % (v,))
    if kind == 'val':
        if v is None:
            return Val.VNone
        if k in ('str', 'mstr'):
            return Val.VStr(sterm(ctx, v))
        if k == 'int':
            return Val.VInt(iterm(v))
        if k == 'bool':
            return Val.VBool(v.t if isinstance(v, SBool) else BoolVal(v))
        if k == 'el':
            return Val.VEl(v.t)
        if k == 'wrap':
            if isinstance(v, PObj):
                ctx.known_wrappers[v.f['xmlnode'].t.get_id()] = v
                return Val.VWr(v.f['xmlnode'].t)
            return Val.VWr(v.t)
        if k == 'obj':
            return Val.VObj(v.t)
        if k == 'flt':
            return Val.VFlt(fterm(v))
        if k == 'pair':
            return Val.VPair(iterm(v[0]), iterm(v[1]))
    if kind == 'int' and k in ('int', 'bool'):
        return iterm(v)
    if kind in ('str', 'mstr') and k in ('str', 'mstr'):
        return sterm(ctx, v)
    if kind == 'pair' and k == 'pair':
        return PairS.mk(iterm(v[0]), iterm(v[1]))
    if kind == k:
        if k == 'bool':
            return v.t if isinstance(v, SBool) else BoolVal(v)
        if k == 'flt':
            return fterm(v)
        if isinstance(v, PObj):
            ctx.known_wrappers[v.f['xmlnode'].t.get_id()] = v
            return v.f['xmlnode'].t
        return v.t
    raise Unsupported('kind mismatch %s/%s' % (kind, k))


_FLT = {}


def fterm(v):
    if isinstance(v, SFlt):
        return v.t
    if isinstance(v, float):
        key = repr(v)
        if key not in _FLT:
            _FLT[key] = z3.Const('flt:' + key, F)
        return _FLT[key]
    return None


def unpack(ctx, t, kind):
    if kind == 'int':
        t = simplify(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)
    if kind == 'bool':
        return SBool(t)
    if kind == 'str':
        v = lit_value(t)
        return v if v is not None else SStr(t)
    if kind == 'mstr':
        return SStr(t, True)
    if kind == 'el':
        return SEl(t)
    if kind == 'wrap':
        w = ctx.known_wrappers.get(t.get_id())
        return w if w is not None else SWrap(t)
    if kind == 'obj':
        return SOpaque(t)
    if kind == 'flt':
        return SFlt(t)
    if kind == 'pair':
        return (SInt(PairS.a(t)), SInt(PairS.b(t)))
    if kind == 'val':
        # decide the constructor by forking
        t = simplify(t)
        for rec, mk in ((Val.is_VStr, lambda: SStr(Val.vs(t))), (Val.is_VWr, lambda: SWrap(Val.vw(t))),
                        (Val.is_VNone, lambda: None), (Val.is_VEl, lambda: SEl(Val.ve(t))),
                        (Val.is_VInt, lambda: SInt(Val.vi(t))), (Val.is_VBool, lambda: SBool(Val.vb(t))),
                        (Val.is_VFlt, lambda: SFlt(Val.vf(t))), (Val.is_VObj, lambda: SOpaque(Val.vo(t)))):
            if ctx.branch(rec(t)):
                return mk()
        return (SInt(Val.va(t)), SInt(Val.vc(t)))
    raise Unsupported('unpack ' + kind)


def set_inv(l, inv):
    """inverse of an element list: x is in l iff 0 <= inv[x] < n and arr[inv[x]] == x"""
    l.inv = None if inv is None else (l.n, l.arr, inv)


def inv_of(l):
    v = getattr(l, 'inv', None)
    if v is None or l.concrete or not v[0].eq(l.n) or not v[1].eq(l.arr):
        return None
    return v[2]


def list_symbolic(ctx, l, kind=None):
    """make a concrete PList symbolic in place"""
    if not l.concrete:
        if kind and kind != l.kind:
            raise Unsupported('list kind change')
        return
    k = kind
    for v in l.items:
        k = join_kind(k, kind_of_value(v))
    k = k or 'val'
    arr = ctx.fresh('%s.a' % (l.name or 'lst'), z3.ArraySort(I, KSORT[k]))
    for i, v in enumerate(l.items):
        arr = Store(arr, IntVal(i), pack(ctx, v, k))
    l.n, l.arr, l.kind, l.items, l.idx = IntVal(len(l.items)), arr, k, None, None


def list_len(l):
    return len(l.items) if l.concrete else l.n


def list_append(ctx, l, v):
    if l.concrete:
        l.items.append(v)
        return
    k = join_kind(l.kind, kind_of_value(v))
    if k != l.kind and k == 'val':
        widen(ctx, l)
    p = pack(ctx, v, l.kind)
    l.arr = Store(l.arr, l.n, p)
    if l.idx is not None and l.kind == 'pair':
        a, b = PairS.a(p), PairS.b(p)
        l.idx = Store(l.idx, a, Store(Select(l.idx, a), b, l.n))
    l.n = simplify(l.n + 1)


def widen(ctx, l):
    """symbolic list of one kind -> list of any kind"""
    mk = {'int': Val.VInt, 'bool': Val.VBool, 'str': Val.VStr, 'el': Val.VEl, 'wrap': Val.VWr, 'flt': Val.VFlt, 'obj': Val.VObj}.get(l.kind)
    if mk is None:
        raise Unsupported('list of %s and others' % l.kind)
    new = ctx.fresh('wide', z3.ArraySort(I, Val))
    j = z3.Int('j!')
    ctx.assume(FA([j], Select(new, j) == mk(Select(l.arr, j)), Select(new, j)))
    l.arr, l.kind, l.idx = new, 'val', None


def arr_insert(ctx, arr, i, x, name='ins'):
    new = ctx.fresh(name, arr.sort())
    j = z3.Int('j!')
    ctx.assume(FA([j], Select(new, j) == If(j < i, Select(arr, j), If(j == i, x, Select(arr, j - 1))), Select(new, j)))
    return new


def arr_remove(ctx, arr, i, name='del'):
    new = ctx.fresh(name, arr.sort())
    j = z3.Int('j!')
    ctx.assume(FA([j], Select(new, j) == If(j < i, Select(arr, j), Select(arr, j + 1)), Select(new, j)))
    return new


def arr_concat(ctx, arr, n, arr2, name='cat'):
    new = ctx.fresh(name, arr.sort())
    j = z3.Int('j!')
    ctx.assume(FA([j], Select(new, j) == If(j < n, Select(arr, j), Select(arr2, j - n)), Select(new, j)))
    return new
