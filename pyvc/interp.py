"""pyvc interpreter: executes Python ASTs over concrete and symbolic values."""
import ast, re, types, builtins, inspect, sys
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Store, Select, is_true, is_false, simplify
from .smt import *
from . import smt
from .core import *
from . import core

MISSING = object()
jn = z3.Function('join', AIT, I, T)                 # concatenation of the first n strings (None counts as '')
jsep = z3.Function('joinsep', T, AIT, I, T)
_a = z3.Const('a!', AIT)
_x = z3.Const('x!', T)
_k = z3.Int('k!')
_m = z3.Int('m2!')


def join_axioms():
    s = z3.Const('s!', T)
    y = z3.Const('y!', T)
    a = z3.Const('a!', AIT)
    k, m = z3.Ints('k! m!')
    return [
        FA([a], jn(a, 0) == EMPTY, jn(a, 0)),
        FA([a, k], Implies(k > 0, jn(a, k) == cat(jn(a, k - 1), If(a[k - 1] == NONE, EMPTY, a[k - 1]))), jn(a, k)),
        FA([a, k, y, m], Implies(m <= k, jn(Store(a, k, y), m) == jn(a, m)), jn(Store(a, k, y), m)),
        FA([a, k], jn(a, k) != NONE, jn(a, k)),
        FA([s, a], jsep(s, a, 0) == EMPTY, jsep(s, a, 0)),
        FA([s, a, k], Implies(k == 1, jsep(s, a, k) == a[0]), jsep(s, a, k)),
        FA([s, a, k], Implies(k > 1, jsep(s, a, k) == cat(cat(jsep(s, a, k - 1), s), a[k - 1])), jsep(s, a, k)),
        FA([s, a, k, y, m], Implies(m <= k, jsep(s, Store(a, k, y), m) == jsep(s, a, m)), jsep(s, Store(a, k, y), m)),
        FA([s, a, k], Implies(k >= 0, jsep(s, a, k) != NONE), jsep(s, a, k)),
    ]


class ExcObj(object):
    def __init__(self, cls, args):
        self.cls = cls
        self.args = args


class SliceV(object):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


def is_concrete(v):
    if isinstance(v, (Sym, PObj, PList, PDict, Seq, Iter, Closure, BoundM, Native, SuperP, Unk, ExcObj)):
        return False
    if isinstance(v, (tuple, list)):
        return all(is_concrete(x) for x in v)
    return True


def consts_in(ts):
    out, todo, seen = [], list(ts), set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
        elif z3.is_app(t):
            if t.num_args() == 0:
                out.append(t)
            todo.extend(t.children())
    return out


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return type(a) is type(b) and a.t.eq(b.t) and getattr(a, 'maybe', 0) == getattr(b, 'maybe', 0)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, BoundM) and isinstance(b, BoundM):
        return a.func is b.func and same_value(a.self_, b.self_)
    if isinstance(a, Closure) and isinstance(b, Closure):
        return a.node is b.node
    if type(a) is type(b) and isinstance(a, (int, str, float, bool, type(None))):
        return a == b
    return False


def is_ezodf_class(cls):
    return isinstance(cls, type) and getattr(cls, '__module__', '').split('.')[0] == PKG


def has_ite(t):
    return z3.is_app(t) and (t.decl().kind() == z3.Z3_OP_ITE or any(has_ite(x) for x in t.children()))


class Interp(Ctx):
    # ================================================== lifting real objects
    def lift(self, v):
        if isinstance(v, (Sym, PObj, PList, PDict, Closure, BoundM, Native)):
            return v
        cls = type(v)
        if is_ezodf_class(cls) and not isinstance(v, type):
            return self.lift_obj(v)
        if isinstance(v, types.MethodType) and is_ezodf_class(type(v.__self__)):
            spec = self.ver.native_of(v)
            if spec is not None:
                return spec
            return BoundM(v.__func__, self.lift_obj(v.__self__))
        return v

    def lift_obj(self, v):
        table = self.ghost.setdefault('lifted', {})
        if id(v) not in table:
            o = self.new_obj(type(v))
            table[id(v)] = o
            for k, x in getattr(v, '__dict__', {}).items():
                o.f[k] = self.lift_container(x)
        return table[id(v)]

    def lift_container(self, x):
        if type(x) is list:
            return self.new_list([self.lift(y) for y in x])
        if type(x) is dict:
            return self.new_dict({k: self.lift(y) for k, y in x.items()})
        return self.lift(x)

    # ================================================== truth and comparison
    def truth_term(self, v):
        """python bool or z3 Bool"""
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SStr):
            return And(v.t != NONE, v.t != EMPTY) if v.maybe else v.t != EMPTY
        if isinstance(v, SFlt):
            return smt.ftrue(v.t)
        if isinstance(v, PList):
            return len(v.items) > 0 if v.concrete else v.n > 0
        if isinstance(v, PDict):
            return len(v.d) > 0
        if isinstance(v, Seq):
            return v.n > 0
        if isinstance(v, (Closure, BoundM, Native, SOpaque, ExcObj)):
            return True
        if isinstance(v, SEl):
            return self.ver.lx.klen(self, v.t) > 0
        if isinstance(v, (PObj, SWrap)):
            m = self.class_lookup(v.cls, '__bool__') if isinstance(v, PObj) else MISSING
            if m is not MISSING:
                return self.truth_term(self.call(BoundM(m, v), [], {}))
            if isinstance(v, SWrap):
                return self.ver.lx.klen(self, v.t) > 0
            m = self.class_lookup(v.cls, '__len__')
            if m is not MISSING:
                return self.truth_term(self.call(BoundM(m, v), [], {}))
            return True
        if isinstance(v, Unk):
            raise Unsupported('value of %s unknown after loop' % v.why)
        return bool(v)

    def truth(self, v):
        return self.branch(self.truth_term(v))

    def resolve_maybe(self, v):
        """a maybe-None string becomes None or a plain string"""
        if isinstance(v, SStr) and v.maybe:
            if self.branch(v.t == NONE):
                return None
            return SStr(v.t)
        return v

    def eq_term(self, a, b):
        if a is b and not isinstance(a, (SFlt, float)):
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            raise Unsupported('compare unknown')
        ia, ib = iterm(a), iterm(b)
        if ia is not None and ib is not None:
            if isinstance(a, Sym) or isinstance(b, Sym):
                return ia == ib
            return a == b
        sa, sb = sterm(self, a), sterm(self, b)
        if sa is not None and sb is not None:
            if isinstance(a, Sym) or isinstance(b, Sym):
                return sa == sb
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            ts = [self.eq_term(x, y) for x, y in zip(a, b)]
            if all(isinstance(t, bool) for t in ts):
                return all(ts)
            return And(*[BoolVal(t) if isinstance(t, bool) else t for t in ts])
        for X in (SEl, SOpaque):
            if isinstance(a, X) and isinstance(b, X):
                return a.t == b.t
        wa = a.t if isinstance(a, SWrap) else (a.f['xmlnode'].t if isinstance(a, PObj) and isinstance(a.f.get('xmlnode'), SEl) else None)
        wb = b.t if isinstance(b, SWrap) else (b.f['xmlnode'].t if isinstance(b, PObj) and isinstance(b.f.get('xmlnode'), SEl) else None)
        if (isinstance(a, SWrap) and wb is not None) or (isinstance(b, SWrap) and wa is not None):
            return wa == wb
        if isinstance(a, PObj) and isinstance(b, PObj):
            m = self.class_lookup(a.cls, '__eq__')
            if m is not MISSING and isinstance(m, types.FunctionType):
                return self.truth_term(self.call(BoundM(m, a), [b], {}))
            return a is b
        if isinstance(a, PList) and isinstance(b, PList) and a.concrete and b.concrete:
            return self.eq_term(tuple(a.items), tuple(b.items))
        fa, fb = fterm(a), fterm(b)
        if fa is not None and fb is not None:
            raise Unsupported('float comparison')
        if is_concrete(a) and is_concrete(b):
            return a == b
        # different categories
        cats = ((SInt, SBool, int), (SStr, str), (SEl,), (SWrap, PObj), (PList, list), (tuple,), (PDict, dict), (type(None),))
        def cat_of(v):
            for i, c in enumerate(cats):
                if isinstance(v, c):
                    return i
            return None
        ca, cb = cat_of(a), cat_of(b)
        if ca is not None and cb is not None and ca != cb:
            return False
        raise Unsupported('== of %r and %r' % (a, b))

    def is_term(self, a, b):
        if a is None or b is None:
            x = b if a is None else a
            if x is None:
                return True
            if isinstance(x, SStr):
                return x.t == NONE if x.maybe else False
            if isinstance(x, Unk):
                raise Unsupported('is on unknown')
            return False
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return self.eq_term(a, b)
        if isinstance(a, (SEl, SWrap, SOpaque)) or isinstance(b, (SEl, SWrap, SOpaque)):
            return self.eq_term(a, b)
        if isinstance(a, (PObj, PList, PDict)) or isinstance(b, (PObj, PList, PDict)):
            return a is b
        if is_concrete(a) and is_concrete(b):
            return a is b or (isinstance(a, (int, str)) and type(a) is type(b) and a == b)
        raise Unsupported('is')

    def b2v(self, t):
        if isinstance(t, bool):
            return t
        t = simplify(t)
        if is_true(t):
            return True
        if is_false(t):
            return False
        return SBool(t)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.b2v(self.is_term(a, b))
        if isinstance(op, ast.IsNot):
            return self.neg(self.b2v(self.is_term(a, b)))
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return self.neg(self.contains(b, a))
        if isinstance(op, ast.Eq):
            return self.b2v(self.eq_term(a, b))
        if isinstance(op, ast.NotEq):
            return self.neg(self.b2v(self.eq_term(a, b)))
        if is_concrete(a) and is_concrete(b):
            try:
                return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[type(op)]()
            except TypeError as e:
                raise PyExc(TypeError, e.args)
        a, b = self.resolve_maybe(a), self.resolve_maybe(b)
        ia, ib = iterm(a), iterm(b)
        if ia is not None and ib is not None:
            t = {ast.Lt: lambda: ia < ib, ast.LtE: lambda: ia <= ib, ast.Gt: lambda: ia > ib, ast.GtE: lambda: ia >= ib}[type(op)]()
            return self.b2v(t)
        if a is None or b is None:
            raise PyExc(TypeError, ('unorderable',))
        raise Unsupported('comparison of %r, %r' % (a, b))

    def neg(self, v):
        if isinstance(v, SBool):
            return self.b2v(Not(v.t))
        return not v

    def contains(self, coll, x):
        if isinstance(coll, PObj):
            m = self.class_lookup(coll.cls, '__contains__')
            if m is not MISSING:
                return self.call(BoundM(m, coll), [x], {})
        if isinstance(coll, Native) and hasattr(coll, 'contains'):
            return coll.contains(self, x)
        if hasattr(coll, 'sym_contains'):
            return coll.sym_contains(self, x)
        if isinstance(coll, PDict):
            coll = list(coll.d.keys())
        elif isinstance(coll, PList):
            if coll.concrete:
                coll = coll.items
            else:
                p = pack(self, x, coll.kind)
                j = z3.Int('j!')
                inv = inv_of(coll)
                if inv is not None:
                    w = Select(inv, p)
                    return SBool(And(0 <= w, w < coll.n, Select(coll.arr, w) == p))
                b = self.ver.member(self, coll, p) if self.ver.member is not None and coll.kind == 'str' else self.fresh('in', B)
                w = self.fint('w')
                self.assume(Implies(b, And(0 <= w, w < coll.n, Select(coll.arr, w) == p)))
                self.assume(Implies(Not(b), FA([j], Implies(And(0 <= j, j < coll.n), Select(coll.arr, j) != p), Select(coll.arr, j))))
                return SBool(b)
        elif isinstance(coll, dict):
            coll = list(coll.keys())
        if isinstance(coll, (list, tuple, set, frozenset)):
            if is_concrete(x):
                ts = []
                for y in sorted(coll, key=str) if isinstance(coll, (set, frozenset)) else coll:
                    t = self.eq_term(x, y)
                    if t is True:
                        return True
                    if t is not False:
                        ts.append(t)
                return self.b2v(Or(*ts)) if ts else False
            ts = []
            for y in sorted(coll, key=str) if isinstance(coll, (set, frozenset)) else coll:
                t = self.eq_term(x, y)
                if t is True:
                    return True
                if t is not False:
                    ts.append(t)
            return self.b2v(Or(*ts)) if ts else False
        if isinstance(coll, (str, SStr)) and isinstance(x, (str, SStr)):
            if is_concrete(coll) and is_concrete(x):
                return x in coll
            f = z3.Function('str_in', T, T, B)
            return SBool(f(sterm(self, x), sterm(self, coll)))
        if isinstance(coll, Seq):
            return self.contains(self.to_list(coll), x)
        if is_concrete(coll) and is_concrete(x):
            return x in coll
        raise Unsupported('in %r' % (coll,))

    # ================================================== classes and attributes
    def class_lookup(self, cls, name):
        for k in cls.__mro__:
            if name in k.__dict__:
                if k is object and name not in ('__init__', '__new__'):
                    if name in ('__eq__', '__ne__', '__str__', '__repr__', '__hash__', '__setattr__', '__getattribute__'):
                        continue
                return k.__dict__[name]
        return MISSING

    def getattr_(self, o, name, default=MISSING):
        try:
            return self.getattr1(o, name)
        except PyExc as e:
            if default is not MISSING and issubclass(e.cls, AttributeError):
                return default
            raise

    def bind(self, attr, obj, cls):
        if isinstance(attr, property):
            return self.call(attr.fget, [obj], {})
        if isinstance(attr, staticmethod):
            return attr.__func__
        if isinstance(attr, classmethod):
            return BoundM(attr.__func__, cls)
        if isinstance(attr, types.FunctionType):
            return BoundM(attr, obj)
        if hasattr(type(attr), '__get__') and not isinstance(attr, type) and not isinstance(attr, (types.BuiltinFunctionType,)):
            if isinstance(attr, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                return BoundM(attr, obj)
            if isinstance(attr, (types.MemberDescriptorType,)):
                raise PyExc(AttributeError, ('slot',))
        return self.lift(attr)

    def getattr1(self, o, name):
        if isinstance(o, PObj):
            m = self.class_lookup(o.cls, name)
            if isinstance(m, property):
                return self.bind(m, o, o.cls)
            if name in o.f:
                return o.f[name]
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                raise Unsupported('__dict__')
            if m is not MISSING and not isinstance(m, types.MemberDescriptorType):
                return self.bind(m, o, o.cls)
            g = self.class_lookup(o.cls, '__getattr__')
            if g is not MISSING:
                return self.call(BoundM(g, o), [name], {})
            raise PyExc(AttributeError, (name,))
        if isinstance(o, SuperP):
            mro = (o.obj.cls if isinstance(o.obj, PObj) else o.obj).__mro__
            i = mro.index(o.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__:
                    return self.bind(k.__dict__[name], o.obj, o.cls)
            raise PyExc(AttributeError, (name,))
        if isinstance(o, SEl):
            return self.ver.lx.getattr(self, o, name)
        if isinstance(o, SWrap):
            return self.ver.wrap_getattr(self, o, name)
        if isinstance(o, SOpaque):
            return self.ver.opaque_getattr(self, o, name)
        if isinstance(o, (SStr, str)):
            o = self.resolve_maybe(o)
            if o is None:
                raise PyExc(AttributeError, (name,))
            if isinstance(o, str):
                if not hasattr(o, name):
                    raise PyExc(AttributeError, (name,))
                m = 'str_' + name
                return Native(lambda c, a, k, o=o: c.str_method(o, name, a, k), 'str.' + name)
            if not hasattr('', name):
                raise PyExc(AttributeError, (name,))
            return Native(lambda c, a, k, o=o: c.str_method(o, name, a, k), 'str.' + name)
        if isinstance(o, PList):
            return Native(lambda c, a, k, o=o: c.list_method(o, name, a, k), 'list.' + name)
        if isinstance(o, PDict):
            return Native(lambda c, a, k, o=o: c.dict_method(o, name, a, k), 'dict.' + name)
        if isinstance(o, Native) and hasattr(o, 'attrs'):
            return o.attrs(self, name)
        if hasattr(o, 'sym_getattr'):
            return o.sym_getattr(self, name)
        if isinstance(o, Unk):
            raise Unsupported('value of %s unknown after loop' % o.why)
        if isinstance(o, ExcObj):
            if name == 'args':
                return tuple(o.args)
            raise Unsupported('exception attribute ' + name)
        if o is None or isinstance(o, (SInt, SBool, int, float, SFlt)):
            v = getattr(o, name, MISSING) if not isinstance(o, Sym) else MISSING
            if v is MISSING:
                if isinstance(o, (SInt, SBool)) and name == '__class__':
                    return int if isinstance(o, SInt) else bool
                raise PyExc(AttributeError, (name,))
            return v
        if isinstance(o, (Closure, BoundM)):
            if name == '__name__':
                return 'f'
            raise Unsupported('function attribute')
        if isinstance(o, type) and is_ezodf_class(o):
            m = self.class_lookup(o, name)
            if m is MISSING:
                if name == '__name__':
                    return o.__name__
                raise PyExc(AttributeError, (name,))
            if isinstance(m, staticmethod):
                return m.__func__
            if isinstance(m, classmethod):
                return BoundM(m.__func__, o)
            return self.lift_container(m) if not isinstance(m, (dict, list)) else m
        if isinstance(o, Seq) or isinstance(o, Iter):
            raise PyExc(AttributeError, (name,))
        if isinstance(o, (dict, list, tuple, set, frozenset)):
            return Native(lambda c, a, k, o=o: c.real_method(o, name, a, k), name)
        try:
            v = getattr(o, name)
        except AttributeError as e:
            raise PyExc(AttributeError, e.args)
        return self.lift(v)

    def real_method(self, o, name, a, k):
        if name in ('append', 'add', 'pop', 'remove', 'clear', 'update', 'insert', 'extend', 'setdefault', 'sort', 'reverse', 'popitem', 'discard'):
            raise Unsupported('mutation of a module level container')
        if name == 'get' and isinstance(o, dict):
            try:
                return self.getitem(o, a[0])
            except PyExc as e:
                if e.cls is KeyError:
                    return a[1] if len(a) > 1 else None
                raise
        if name == 'index':
            for i, y in enumerate(o):
                if self.branch(self.eq_term(a[0], y)):
                    return i
            raise PyExc(ValueError)
        if all(is_concrete(x) for x in a):
            try:
                r = getattr(o, name)(*a, **k)
            except Exception as e:
                raise PyExc(type(e), e.args)
            return r
        if name == 'count':
            return self.builtin_sum(Seq(len(o), lambda i: self.b2v(self.eq_term(o[i], a[0]))), 0)
        raise Unsupported('method %s of %s with symbolic arguments' % (name, type(o)))

    def setattr_(self, o, name, v):
        if isinstance(o, PObj):
            m = self.class_lookup(o.cls, name)
            if isinstance(m, property):
                if m.fset is None:
                    raise PyExc(AttributeError, (name,))
                self.call(m.fset, [o, v], {})
                return
            o.f[name] = v
            return
        if isinstance(o, SEl):
            self.ver.lx.setattr(self, o, name, v)
            return
        if isinstance(o, SWrap):
            self.ver.wrap_setattr(self, o, name, v)
            return
        if isinstance(o, SOpaque):
            self.ver.opaque_setattr(self, o, name, v)
            return
        if hasattr(o, 'sym_setattr'):
            return o.sym_setattr(self, name, v)
        raise Unsupported('attribute store on %r' % (o,))

    def delattr_(self, o, name):
        if isinstance(o, PObj):
            m = self.class_lookup(o.cls, name)
            if isinstance(m, property):
                if m.fdel is None:
                    raise PyExc(AttributeError, (name,))
                self.call(m.fdel, [o], {})
                return
            if name in o.f:
                del o.f[name]
                return
            raise PyExc(AttributeError, (name,))
        raise Unsupported('attribute delete')

    # ================================================== items
    def norm_index(self, i, n, exc=IndexError):
        """python index -> checked non-negative index (forks on sign and range)"""
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int) and isinstance(n, int):
            j = i + n if i < 0 else i
            if not 0 <= j < n:
                raise PyExc(exc, ('index out of range',))
            return j
        t = iterm(i)
        if t is None:
            raise PyExc(TypeError, ('index type',))
        n = n if not isinstance(n, int) else IntVal(n)
        if not isinstance(i, int):
            if self.branch(t < 0):
                t = t + n
        elif i < 0:
            t = t + n
        if not self.branch(And(t >= 0, t < n)):
            raise PyExc(exc, ('index out of range',))
        t = simplify(t)
        if has_ite(t):
            # triggers can not contain conditionals
            x = self.fint('idx')
            self.assume(x == t)
            t = x
        return t.as_long() if z3.is_int_value(t) else t

    def clamp(self, i, n, default):
        if i is None:
            return default
        if isinstance(i, int) and isinstance(n, int):
            return max(0, i + n) if i < 0 else min(i, n)
        t = iterm(i)
        if t is None:
            raise PyExc(TypeError, ('slice index',))
        n_ = IntVal(n) if isinstance(n, int) else n
        if isinstance(i, int) and i >= 0:
            return simplify(If(t > n_, n_, t)) if i > 0 else IntVal(0)
        t2 = If(t < 0, If(t + n_ < 0, IntVal(0), t + n_), If(t > n_, n_, t))
        return simplify(t2)

    def getitem(self, o, i):
        if isinstance(o, PObj):
            m = self.class_lookup(o.cls, '__getitem__')
            if m is MISSING:
                raise PyExc(TypeError, ('not subscriptable',))
            return self.call(BoundM(m, o), [i], {})
        if isinstance(o, SEl):
            return self.ver.lx.getitem(self, o, i)
        if isinstance(o, PList):
            if isinstance(i, SliceV):
                return self.list_slice(o, i)
            if o.concrete:
                if isinstance(i, SInt):
                    idx = self.norm_index(i, len(o.items))
                    if isinstance(idx, int):
                        return o.items[idx]
                    return self.pick(o.items, idx)
                return o.items[self.norm_index(i, len(o.items))]
            t = self.norm_index(i, o.n)
            return unpack(self, Select(o.arr, t), o.kind)
        if isinstance(o, Seq):
            if isinstance(i, SliceV):
                return self.getitem(self.to_list(o), i)
            t = self.norm_index(i, o.n)
            return o.get(t)
        if isinstance(o, (list, tuple)):
            if isinstance(i, SliceV):
                if all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                    return o[i.lo:i.hi:i.step]
                n = len(o)
                lo, hi = self.clamp(i.lo, n, 0), self.clamp(i.hi, n, n)
                lo = self.concretize(lo, 0, n)
                hi = self.concretize(hi, 0, n)
                return o[lo:hi]
            idx = self.norm_index(i, len(o))
            if isinstance(idx, int):
                return self.lift(o[idx])
            return self.pick(o, idx)
        if isinstance(o, PDict):
            return self.dict_get(o.d, i)
        if isinstance(o, dict):
            return self.lift(self.dict_get(o, i))
        if isinstance(o, (str, SStr)):
            return self.str_getitem(o, i)
        if hasattr(o, 'sym_getitem'):
            return o.sym_getitem(self, i)
        if isinstance(o, Unk):
            raise Unsupported('subscript of unknown')
        if o is None or isinstance(o, (int, SInt)):
            raise PyExc(TypeError, ('not subscriptable',))
        if isinstance(o, SWrap):
            return self.call(self.getattr_(o, '__getitem__'), [i], {})
        raise Unsupported('subscript of %r' % (o,))

    def concretize(self, t, lo, hi):
        if isinstance(t, int):
            return t
        for v in range(lo, hi + 1):
            if v == hi or self.branch(t == v):
                if v == hi and not self.entails(t == v):
                    self.branch(t == v)
                return v

    def pick(self, items, idx):
        for v in range(len(items)):
            if v == len(items) - 1 or self.branch(idx == v):
                return items[v]

    def dict_get(self, d, key):
        if is_concrete(key):
            try:
                if key in d:
                    return d[key]
            except TypeError as e:
                raise PyExc(TypeError, e.args)
            for k2 in d:
                if not is_concrete(k2) and self.branch(self.eq_term(k2, key)):
                    return d[k2]
            raise PyExc(KeyError, (key,))
        for k2, v in d.items():
            t = self.eq_term(key, k2)
            if t is False:
                continue
            if self.branch(t):
                return v
        raise PyExc(KeyError, (key,))

    def dict_key(self, d, key):
        for k2 in d:
            if k2 is key or same_value(k2, key):
                return k2
        if is_concrete(key) and all(is_concrete(k2) for k2 in d):
            return key
        for k2 in list(d):
            t = self.eq_term(key, k2)
            if t is False:
                continue
            if self.branch(t):
                return k2
        return key

    def setitem(self, o, i, v):
        if isinstance(o, PObj):
            m = self.class_lookup(o.cls, '__setitem__')
            if m is MISSING:
                raise PyExc(TypeError, ('no item assignment',))
            return self.call(BoundM(m, o), [i, v], {})
        if isinstance(o, SEl):
            return self.ver.lx.setitem(self, o, i, v)
        if isinstance(o, PList):
            if isinstance(i, SliceV):
                raise Unsupported('slice assignment')
            if o.concrete and isinstance(i, int):
                o.items[self.norm_index(i, len(o.items))] = v
                return
            list_symbolic(self, o, kind_of_value(v) if o.concrete and not o.items else None)
            t = self.norm_index(i, o.n)
            o.arr = Store(o.arr, t, pack(self, v, o.kind))
            return
        if isinstance(o, PDict):
            o.d[self.dict_key(o.d, i)] = v
            return
        if hasattr(o, 'sym_setitem'):
            return o.sym_setitem(self, i, v)
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, i):
        if isinstance(o, PObj):
            m = self.class_lookup(o.cls, '__delitem__')
            if m is MISSING:
                raise PyExc(TypeError, ('no item deletion',))
            return self.call(BoundM(m, o), [i], {})
        if isinstance(o, SEl):
            return self.ver.lx.delitem(self, o, i)
        if isinstance(o, PList):
            self.list_method(o, 'pop', [i], {})
            return
        if isinstance(o, PDict):
            k = self.dict_key(o.d, i)
            if k not in o.d:
                raise PyExc(KeyError, (i,))
            del o.d[k]
            return
        if hasattr(o, 'sym_delitem'):
            return o.sym_delitem(self, i)
        raise Unsupported('item deletion on %r' % (o,))

    def list_slice(self, o, s):
        if s.step not in (None, 1):
            if o.concrete and all(x is None or isinstance(x, int) for x in (s.lo, s.hi, s.step)):
                return self.new_list(o.items[s.lo:s.hi:s.step])
            if s.step == -1 and s.lo is None and s.hi is None:
                return self.to_list(Seq(o.n, lambda i: unpack(self, Select(o.arr, o.n - 1 - i), o.kind)))
            raise Unsupported('slice step')
        if o.concrete:
            if all(x is None or isinstance(x, int) for x in (s.lo, s.hi)):
                return self.new_list(o.items[s.lo:s.hi])
            c = self.new_list(list(o.items))
            list_symbolic(self, c)
            o = c
        lo, hi = self.clamp(s.lo, o.n, IntVal(0)), self.clamp(s.hi, o.n, o.n)
        new = self.new_list([], o.name)
        new.items, new.kind = None, o.kind
        lo_ = IntVal(lo) if isinstance(lo, int) else lo
        hi_ = IntVal(hi) if isinstance(hi, int) else hi
        n = self.fint('slice.n')
        self.assume(n == If(hi_ > lo_, hi_ - lo_, IntVal(0)))
        new.n = n
        if z3.is_int_value(lo_) and lo_.as_long() == 0:
            new.arr = o.arr
            new.n = simplify(hi_) if not has_ite(hi_) and self.entails(hi_ >= 0) else n
        else:
            new.arr = self.fresh('slice.a', o.arr.sort())
            j = z3.Int('j!')
            self.assume(FA([j], Select(new.arr, j) == Select(o.arr, j + lo_), Select(new.arr, j)))
        return new

    # ================================================== list / dict / str methods
    def list_method(self, l, name, a, k):
        if name == 'append':
            if l.concrete and len(l.items) > 400:
                raise Unsupported('list too long')
            list_append(self, l, a[0])
            return None
        if name == 'extend':
            src = self.seq_of(a[0])
            if isinstance(src.n, int):
                for i in range(src.n):
                    list_append(self, l, src.get(i))
                return None
            if isinstance(a[0], PList) and not a[0].concrete:
                s = a[0]
                if l.concrete and not l.items:
                    l.items, l.n, l.arr, l.kind = None, s.n, s.arr, s.kind
                    return None
                list_symbolic(self, l, None)
                if l.kind == s.kind:
                    l.arr = arr_concat(self, l.arr, l.n, s.arr)
                    l.n = simplify(l.n + s.n)
                    return None
            self.run_loop('extend', src, None, lambda v: list_append(self, l, v))
            return None
        if name == 'pop':
            n = list_len(l)
            i = a[0] if a else -1
            if l.concrete and isinstance(i, int):
                if not l.items:
                    raise PyExc(IndexError, ('pop from empty list',))
                return l.items.pop(self.norm_index(i, len(l.items)))
            list_symbolic(self, l)
            t = self.norm_index(i, l.n)
            v = unpack(self, Select(l.arr, t), l.kind)
            l.arr = arr_remove(self, l.arr, t if not isinstance(t, int) else IntVal(t))
            l.n = simplify(l.n - 1)
            return v
        if name == 'insert':
            if l.concrete and isinstance(a[0], int):
                l.items.insert(a[0], a[1])
                return None
            list_symbolic(self, l, None)
            t = self.clamp(a[0], l.n, None)
            t = IntVal(t) if isinstance(t, int) else t
            l.arr = arr_insert(self, l.arr, t, pack(self, a[1], l.kind))
            l.n = simplify(l.n + 1)
            return None
        if name == 'index':
            if l.concrete:
                for i, y in enumerate(l.items):
                    if self.branch(self.eq_term(a[0], y)):
                        return i
                raise PyExc(ValueError, ('not in list',))
            p = pack(self, a[0], l.kind)
            j = z3.Int('j!')
            w = self.fint('idx')
            if self.branch(self.contains(l, a[0]).t):
                inv = inv_of(l)
                if inv is not None:
                    return SInt(Select(inv, p))
                self.assume(And(0 <= w, w < l.n, Select(l.arr, w) == p))
                self.assume(FA([j], Implies(And(0 <= j, j < w), Select(l.arr, j) != p), Select(l.arr, j)))
                return SInt(w)
            raise PyExc(ValueError, ('not in list',))
        if name == 'remove':
            i = self.list_method(l, 'index', a, k)
            self.list_method(l, 'pop', [i], {})
            return None
        if name == 'count':
            if l.concrete:
                return self.builtin_sum(Seq(len(l.items), lambda i: self.b2v(self.eq_term(l.items[i], a[0]))), 0)
            raise Unsupported('list.count')
        if name == 'clear':
            l.items, l.n, l.arr, l.kind = [], None, None, None
            return None
        if name == 'copy':
            return self.to_list(self.seq_of(l))
        if name == 'reverse':
            if l.concrete:
                l.items.reverse()
                return None
            n, arr = l.n, l.arr
            new = self.fresh('rev', arr.sort())
            j = z3.Int('j!')
            self.assume(FA([j], Select(new, j) == Select(arr, n - 1 - j), Select(new, j)))
            l.arr = new
            return None
        if name == '__len__':
            return self.len_(l)
        if name == '__getitem__':
            return self.getitem(l, a[0])
        raise Unsupported('list.' + name)

    def dict_method(self, d, name, a, k):
        if name == 'get':
            try:
                return self.dict_get(d.d, a[0])
            except PyExc as e:
                if e.cls is KeyError:
                    return a[1] if len(a) > 1 else None
                raise
        if name == 'items':
            return self.new_list([(x, y) for x, y in d.d.items()])
        if name == 'keys':
            return self.new_list(list(d.d.keys()))
        if name == 'values':
            return self.new_list(list(d.d.values()))
        if name == 'pop':
            key = self.dict_key(d.d, a[0])
            if key in d.d:
                return d.d.pop(key)
            if len(a) > 1:
                return a[1]
            raise PyExc(KeyError, (a[0],))
        if name == 'setdefault':
            key = self.dict_key(d.d, a[0])
            return d.d.setdefault(key, a[1] if len(a) > 1 else None)
        if name == 'clear':
            d.d.clear()
            return None
        if name == 'update':
            if a:
                o = a[0]
                for x, y in (o.d if isinstance(o, PDict) else o).items():
                    d.d[self.dict_key(d.d, x)] = y
            d.d.update(k)
            return None
        if name == 'copy':
            return self.new_dict(d.d)
        if name == '__contains__':
            return self.contains(d, a[0])
        raise Unsupported('dict.' + name)

    def str_uf(self, name, *args):
        """deterministic uninterpreted string operation"""
        ts = []
        sorts = []
        for x in args:
            s = sterm(self, x)
            if s is not None:
                ts.append(s)
                sorts.append(T)
                continue
            i = iterm(x)
            if i is not None:
                ts.append(i)
                sorts.append(I)
                continue
            raise Unsupported('string operation %s(%r)' % (name, args))
        f = z3.Function('s_' + name, *(sorts + [T]))
        r = f(*ts)
        self.assume(r != NONE)
        return SStr(r)

    def str_method(self, o, name, a, k):
        if isinstance(o, str) and all(is_concrete(x) for x in a) and all(is_concrete(x) for x in k.values()) and name != 'join':
            try:
                r = getattr(o, name)(*a, **k)
            except Exception as e:
                raise PyExc(type(e), e.args)
            return self.new_list(r) if isinstance(r, list) else r
        if name == 'join':
            return self.str_join(o, a[0])
        if name in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize') and not k:
            r = self.str_uf(name, o, *a)
            h = self.ver.str_hook
            if h:
                h(self, name, o, a, r)
            return r
        if name == 'replace':
            r = self.str_uf('replace', o, *a)
            if self.ver.str_hook:
                self.ver.str_hook(self, name, o, a, r)
            return r
        if name in ('startswith', 'endswith') and len(a) == 1:
            f = z3.Function('s_' + name, T, T, B)
            r = SBool(f(sterm(self, o), sterm(self, a[0])))
            if self.ver.str_hook:
                self.ver.str_hook(self, name, o, a, r)
            return r
        if name == 'format':
            return SStr(self.fresh('fmt', T))
        if name == 'encode':
            return self.ver.encode_hook(self, o) if getattr(self.ver, 'encode_hook', None) else self.str_uf('encode', o)
        r = self.ver.str_special(self, o, name, a, k)
        if r is not MISSING:
            return r
        raise Unsupported('str.%s' % name)

    def str_join(self, sep, arg):
        filt = isinstance(arg, Seq) and getattr(arg, 'filtered', False)
        if filt:
            l = arg.src
        else:
            l = self.to_list(self.seq_of(arg)) if not isinstance(arg, PList) else arg
        if l.concrete:
            items = []
            for x in l.items:
                if filt:
                    if isinstance(x, SStr) and x.maybe:
                        t = If(x.t == NONE, EMPTY, x.t)
                        x = SStr(t)
                    elif not isinstance(x, SStr) and not x:
                        continue
                else:
                    x = self.resolve_maybe(x)
                    if not isinstance(x, (str, SStr)):
                        raise PyExc(TypeError, ('sequence item',))
                items.append(x)
            if all(isinstance(x, str) for x in items) and isinstance(sep, str):
                return sep.join(items)
            acc = None
            for x in items:
                acc = sterm(self, x) if acc is None else cat(cat(acc, sterm(self, sep)), sterm(self, x)) if sep != '' else cat(acc, sterm(self, x))
            return '' if acc is None else SStr(acc)
        if l.kind == 'val':
            raise Unsupported('join of mixed list')
        if l.kind not in ('str', 'mstr'):
            raise PyExc(TypeError, ('sequence item',)) if self.branch(l.n > 0) else Unsupported('join')
        if l.kind == 'mstr' and not filt:
            j = z3.Int('j!')
            if not self.entails(FA([j], Implies(And(0 <= j, j < l.n), Select(l.arr, j) != NONE), Select(l.arr, j))):
                w = self.fint('w')
                if self.choose(2) == 1:
                    self.assume(And(0 <= w, w < l.n, Select(l.arr, w) == NONE))
                    raise PyExc(TypeError, ('sequence item',))
                self.assume(FA([j], Implies(And(0 <= j, j < l.n), Select(l.arr, j) != NONE), Select(l.arr, j)))
        if sep == '':
            r = jn(l.arr, l.n)
        else:
            if filt:
                raise Unsupported('filtered join')
            r = jsep(sterm(self, sep), l.arr, l.n)
        self.lit('')
        return SStr(r)

    def str_getitem(self, o, i):
        if isinstance(o, str) and (isinstance(i, int) or (isinstance(i, SliceV) and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)))):
            if isinstance(i, SliceV):
                return o[i.lo:i.hi:i.step]
            try:
                return o[i]
            except IndexError as e:
                raise PyExc(IndexError, e.args)
        o = self.resolve_maybe(o)
        if o is None:
            raise PyExc(TypeError, ('None',))
        if isinstance(i, SliceV):
            if isinstance(o, str):
                self.lit(o)
            hook = self.ver.str_special(self, o, '__slice__', [i], {})
            if hook is not MISSING:
                return hook
            return self.str_uf('slice', o, *[(-10**9 if x is None else x) for x in (i.lo, i.hi, i.step)])
        t = sterm(self, o)
        idx = self.norm_index(i, slen(t))
        return SStr(nth(t, idx))

    # ================================================== iteration
    def len_(self, v):
        if isinstance(v, PList):
            return len(v.items) if v.concrete else (lambda t: t.as_long() if z3.is_int_value(t) else SInt(t))(simplify(v.n))
        if isinstance(v, Seq):
            return v.n if isinstance(v.n, int) else SInt(v.n)
        if isinstance(v, PDict):
            return len(v.d)
        if isinstance(v, SStr):
            v = self.resolve_maybe(v)
            if v is None:
                raise PyExc(TypeError, ('len of None',))
            return SInt(slen(v.t))
        if isinstance(v, SEl):
            return self.ver.lx.len(self, v)
        if isinstance(v, PObj):
            m = self.class_lookup(v.cls, '__len__')
            if m is MISSING:
                raise PyExc(TypeError, ('no len()',))
            return self.call(BoundM(m, v), [], {})
        if isinstance(v, SWrap):
            return self.ver.lx.len(self, SEl(v.t))
        if hasattr(v, 'sym_len'):
            return v.sym_len(self)
        if isinstance(v, (Sym, Unk)):
            raise PyExc(TypeError, ('len',))
        try:
            return len(v)
        except TypeError as e:
            raise PyExc(TypeError, e.args)

    def seq_of(self, v):
        """iterable -> Seq"""
        if isinstance(v, Seq):
            return v
        if isinstance(v, Iter):
            if isinstance(v.pos, int) and v.pos == 0:
                return v.seq
            s = v.seq
            p = v.pos
            n = s.n - p if not isinstance(s.n, int) or not isinstance(p, int) else max(0, s.n - p)
            r = Seq(n, lambda i: s.get(i + p), s.src)
            if s.ref:
                r.ref = lambda i: s.ref(i + p)
            return r
        if isinstance(v, PList):
            if v.concrete:
                items = v.items
                return Seq(len(items), lambda i: items[i] if isinstance(i, int) else self.pick(items, i), v)
            n, arr, kind = v.n, v.arr, v.kind
            s = Seq(n, lambda i: unpack(self, Select(arr, i), kind), v)
            if kind in ('el', 'wrap'):
                s.ref = lambda i: Select(arr, i)
            s.idx = v.idx
            return s
        if isinstance(v, (list, tuple)):
            return Seq(len(v), lambda i: self.lift(v[i]) if isinstance(i, int) else self.pick(v, i), None)
        if isinstance(v, (set, frozenset)):
            return self.seq_of(sorted(v, key=str))
        if isinstance(v, dict):
            return self.seq_of(list(v.keys()))
        if isinstance(v, PDict):
            return self.seq_of(list(v.d.keys()))
        if isinstance(v, range):
            return Seq(len(v), lambda i: v[i], None)
        if isinstance(v, str):
            return Seq(len(v), lambda i: v[i] if isinstance(i, int) else SStr(nth(self.lit(v), i)), None)
        if isinstance(v, SStr):
            v = self.resolve_maybe(v)
            if v is None:
                raise PyExc(TypeError, ('not iterable',))
            return Seq(slen(v.t), lambda i: SStr(nth(v.t, i)), v)
        if isinstance(v, SEl):
            return self.ver.lx.children_seq(self, v)
        if isinstance(v, PObj):
            m = self.class_lookup(v.cls, '__iter__')
            if m is not MISSING:
                return self.seq_of(self.call(BoundM(m, v), [], {}))
            m = self.class_lookup(v.cls, '__getitem__')
            raise PyExc(TypeError, ('not iterable',)) if m is MISSING else Unsupported('getitem iteration')
        if isinstance(v, SWrap):
            return self.seq_of(self.ver.wrap_iter(self, v))
        if hasattr(v, 'sym_iter'):
            return self.seq_of(v.sym_iter(self))
        if v is None or isinstance(v, (int, float, SInt, SBool, SFlt)):
            raise PyExc(TypeError, ('not iterable',))
        raise Unsupported('iteration over %r' % (v,))

    def to_list(self, seq):
        seq = self.seq_of(seq)
        if isinstance(seq.n, int):
            return self.new_list([seq.get(i) for i in range(seq.n)])
        if getattr(seq, 'wraps', None) is not None and self.ver.wrap_split:
            src = seq.wraps
            l = self.new_list([])
            l.items, l.n, l.arr, l.kind = None, src.n, src.arr, 'wrap'
            return l
        if isinstance(seq.src, PList) and not seq.src.concrete and not getattr(seq, 'mapped', False):
            l = self.new_list([])
            l.items, l.n, l.arr, l.kind, l.idx = None, seq.src.n, seq.src.arr, seq.src.kind, seq.src.idx
            if l.n.eq(seq.n) if hasattr(seq.n, 'eq') else False:
                return l
        out = self.new_list([])
        self.run_loop('tolist', seq, None, lambda v: list_append(self, out, v))
        return out

    # ================================================== expressions
    def ev(self, node, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unsupported('path too long')
        return getattr(self, 'e_' + type(node).__name__, self.e_unsupported)(node, env)

    def e_unsupported(self, node, env):
        raise Unsupported('expression %s' % type(node).__name__)

    def e_Constant(self, node, env):
        return node.value

    def e_Name(self, node, env):
        v = env.lookup(node.id)
        if isinstance(v, Unk):
            raise Unsupported('value of %s unknown after loop' % v.why)
        return self.lift(v)

    def e_Attribute(self, node, env):
        return self.getattr_(self.ev(node.value, env), self.mangle(node.attr, env))

    def mangle(self, name, env):
        return name

    def e_Subscript(self, node, env):
        return self.getitem(self.ev(node.value, env), self.ev(node.slice, env))

    def e_Slice(self, node, env):
        return SliceV(*[None if x is None else self.ev(x, env) for x in (node.lower, node.upper, node.step)])

    def e_Tuple(self, node, env):
        return tuple(self.elts(node.elts, env))

    def e_List(self, node, env):
        return self.new_list(self.elts(node.elts, env))

    def e_Set(self, node, env):
        vals = self.elts(node.elts, env)
        if all(is_concrete(v) for v in vals):
            return set(vals)
        raise Unsupported('symbolic set')

    def elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.seq_of(self.ev(e.value, env))
                if not isinstance(s.n, int):
                    raise Unsupported('starred symbolic sequence')
                out.extend(s.get(i) for i in range(s.n))
            else:
                out.append(self.ev(e, env))
        return out

    def e_Dict(self, node, env):
        d = self.new_dict()
        for k, v in zip(node.keys, node.values):
            if k is None:
                o = self.ev(v, env)
                d.d.update(o.d if isinstance(o, PDict) else o)
            else:
                d.d[self.ev(k, env)] = self.ev(v, env)
        return d

    def e_Lambda(self, node, env):
        return self.make_closure(node, env, '<lambda>')

    def e_IfExp(self, node, env):
        return self.ev(node.body if self.truth(self.ev(node.test, env)) else node.orelse, env)

    def e_BoolOp(self, node, env):
        v = None
        for i, e in enumerate(node.values):
            v = self.ev(e, env)
            if i == len(node.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(node.op, ast.And) and not t:
                return False if isinstance(v, SBool) else v
            if isinstance(node.op, ast.Or) and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, node, env):
        v = self.ev(node.operand, env)
        if isinstance(node.op, ast.Not):
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else self.b2v(Not(t))
        if isinstance(node.op, ast.USub):
            if isinstance(v, (SInt, SBool)):
                return self.mkint(-iterm(v))
            return -v
        if isinstance(node.op, ast.UAdd):
            return v
        raise Unsupported('unary op')

    def mkint(self, t):
        t = simplify(t)
        return t.as_long() if z3.is_int_value(t) else SInt(t)

    def e_Compare(self, node, env):
        left = self.ev(node.left, env)
        res = True
        for i, (op, c) in enumerate(zip(node.ops, node.comparators)):
            right = self.ev(c, env)
            r = self.compare(op, left, right)
            if len(node.ops) == 1:
                return r
            if i < len(node.ops) - 1:
                if not self.truth(r):
                    return False
                left = right
            else:
                res = r
        return res

    def e_BinOp(self, node, env):
        return self.binop(node.op, self.ev(node.left, env), self.ev(node.right, env))

    def binop(self, op, a, b, inplace=False):
        if isinstance(a, PObj):
            names = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Mod: '__mod__'}
            if inplace and isinstance(op, ast.Add):
                m = self.class_lookup(a.cls, '__iadd__')
                if m is not MISSING:
                    return self.call(BoundM(m, a), [b], {})
            m = self.class_lookup(a.cls, names.get(type(op), '__none__'))
            if m is not MISSING:
                return self.call(BoundM(m, a), [b], {})
            raise PyExc(TypeError, ('operand',))
        if isinstance(op, ast.Mod) and isinstance(a, (str, SStr)):
            return self.str_format(a, b)
        if isinstance(op, ast.Add) and isinstance(a, (PList, list)) and isinstance(b, (PList, list)):
            if isinstance(a, PList) and inplace:
                self.list_method(a, 'extend', [b], {})
                return a
            new = self.to_list(self.seq_of(a))
            self.list_method(new, 'extend', [b], {})
            return new
        a, b = self.resolve_maybe(a), self.resolve_maybe(b)
        if is_concrete(a) and is_concrete(b):
            fn = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                  ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b, ast.BitAnd: lambda: a & b,
                  ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b}.get(type(op))
            if fn is None:
                raise Unsupported('binop')
            try:
                return fn()
            except (TypeError, ZeroDivisionError, ValueError, OverflowError) as e:
                raise PyExc(type(e), e.args)
        if isinstance(op, ast.Add) and isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            self.lit('')
            return SStr(cat(sterm(self, a), sterm(self, b)))
        if isinstance(op, ast.Add) and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, str) and x == ' ' and iterm(y) is not None:
                    t = iterm(y)
                    self.lit(' ')
                    return SStr(spaces(If(t < 0, IntVal(0), t))) if not self.entails(t >= 0) else SStr(spaces(t))
                if isinstance(x, (str, SStr)) and isinstance(y, SInt):
                    return self.str_uf('repeat', x, y)
        ia, ib = iterm(a), iterm(b)
        if ia is not None and ib is not None:
            if isinstance(op, ast.Add):
                return self.mkint(ia + ib)
            if isinstance(op, ast.Sub):
                return self.mkint(ia - ib)
            if isinstance(op, ast.Mult):
                return self.mkint(ia * ib)
            if isinstance(op, (ast.FloorDiv, ast.Mod)):
                if self.branch(ib == 0):
                    raise PyExc(ZeroDivisionError, ())
                if not self.entails(ib > 0):
                    raise Unsupported('division by a possibly negative number')
                return self.mkint(ia / ib if isinstance(op, ast.FloorDiv) else ia % ib)
            if isinstance(op, ast.Pow) and self.entails(ib >= 0):
                return self.mkint(powi(ia, ib))
            r = self.ver.int_binop(self, op, a, b)
            if r is not MISSING:
                return r
        if a is None or b is None:
            raise PyExc(TypeError, ('operand',))
        if (isinstance(a, (str, SStr)) and ib is not None) or (isinstance(b, (str, SStr)) and ia is not None):
            raise PyExc(TypeError, ('operand',))
        raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))

    def str_format(self, fmt, args):
        if is_concrete(fmt) and is_concrete(args):
            try:
                return fmt % args
            except (TypeError, ValueError) as e:
                raise PyExc(type(e), e.args)
        tup = args if isinstance(args, tuple) else (args,)
        ok = isinstance(fmt, str) and all((sterm(self, x) is not None and not (isinstance(x, SStr) and x.maybe)) or iterm(x) is not None for x in tup)
        if not ok:
            r = self.fresh('fmt', T)
            self.assume(And(r != NONE))
            return SStr(r)
        if fmt.count('%') == fmt.count('%s') == len(tup) and getattr(self.ver, 'format_cat', False):
            parts = fmt.split('%s')
            acc = self.lit(parts[0])
            for p, x in zip(parts[1:], tup):
                s = sterm(self, x)
                acc = cat(acc, s if s is not None else str_of_int(iterm(x)))
                acc = cat(acc, self.lit(p))
            return SStr(acc)
        sorts, ts = [], []
        for x in tup:
            s = sterm(self, x)
            ts.append(s if s is not None else iterm(x))
            sorts.append(T if s is not None else I)
        f = z3.Function('fmt:' + fmt, *(sorts + [T]))
        r = f(*ts)
        self.assume(r != NONE)
        if len(tup) == 1 and fmt.count('%') == 1:
            # one hole: the text is injective in the argument
            g = z3.Function('unfmt:' + fmt, T, sorts[0])
            self.assume(g(r) == ts[0])
        return SStr(r)

    def e_JoinedStr(self, node, env):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    if is_concrete(x):
                        spec = self.e_JoinedStr(v.format_spec, env) if v.format_spec is not None else ''
                        if v.conversion == 114:
                            x = repr(x)
                        parts.append(format(x, spec))
                        continue
                    parts.append(SStr(self.fresh('fmt', T)))
                    continue
                parts.append(self.builtin_str(x))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        acc = None
        for p in parts:
            if p == '':
                continue
            acc = sterm(self, p) if acc is None else cat(acc, sterm(self, p))
        return '' if acc is None else SStr(acc)

    def e_NamedExpr(self, node, env):
        v = self.ev(node.value, env)
        env.store(node.target.id, v)
        return v

    def e_Starred(self, node, env):
        raise Unsupported('starred')

    def e_Yield(self, node, env):
        v = None if node.value is None else self.ev(node.value, env)
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        if e is None:
            raise Unsupported('yield outside generator')
        list_append(self, e.yields, v)
        return None

    def e_YieldFrom(self, node, env):
        v = self.ev(node.value, env)
        e = env
        while e is not None and e.yields is None:
            e = e.parent
        self.list_method(e.yields, 'extend', [v], {})
        return None

    # comprehensions
    def pure_comp(self, node, gen, src, cenv, out):
        """[V(x) for x in src if C(x)] where V and C have no effects: the result by its definition"""
        j = self.fint('fj')
        npc, cnt, h, seen, lists = len(self.pc), dict(self.cnt), dict(self.h), set(self.litseen), {k: l.state() for k, l in self.lists.items()}
        nviews, objs = dict(self.views), len(self.objs)
        self.no_fork += 1
        C = val = None
        try:
            self.assume(And(0 <= j, j < src.n))
            n1 = len(self.pc)
            self.assign(gen.target, src.get(j), cenv)
            cs = []
            for cond in gen.ifs:
                t = self.truth_term(self.ev(cond, cenv))
                if isinstance(t, bool):
                    t = BoolVal(t)
                cs.append(t)
                self.assume(t)
            val = self.ev(node.elt, cenv)
            kind = kind_of_value(val)
            if kind is None or kind == 'wrap':
                return False
            p = pack(self, val, kind)
            ok = self.cnt == cnt and all(self.h.get(k) is v for k, v in h.items()) and len(self.h) == len(h) and len(self.objs) == objs \
                and len(self.views) == len(nviews) and all(self.views[k] is v for k, v in nviews.items()) and set(lists) == set(self.lists) \
                and all(same_value(x, y) for k in lists for x, y in zip(lists[k], self.lists[k].state()) if x is not y)
        except (NeedFork, PyExc, Unsupported):
            ok = False
        finally:
            self.no_fork -= 1
            del self.pc[npc:]
            self.prover.cur = None
            self.litseen = seen
        if not ok:
            return False
        C = And(*cs) if len(cs) > 1 else cs[0] if cs else BoolVal(True)
        for t in [C, p]:
            for x in consts_in([t]):
                lv = lit_value(x)
                if lv is not None:
                    self.lit(lv)
        sub = lambda t, i: z3.substitute(t, (j, i))
        i_, j_ = z3.Ints('i! c!')
        base = src
        while getattr(base, 'base', None) is not None:
            base = base.base
        ref = base.ref
        arr = self.fresh('comp.a', z3.ArraySort(I, KSORT[kind]))
        src_inv = inv_of(src.src) if isinstance(src.src, PList) and not getattr(src, 'mapped', False) else None
        if not cs:
            n2 = src.n
            self.assume(FA([i_], Implies(And(0 <= i_, i_ < n2), Select(arr, i_) == sub(p, i_)), Select(arr, i_)))
            f = g = None
        else:
            n2 = self.fint('comp.n')
            f, g = self.fresh('comp.f', AII), self.fresh('comp.g', AII)
            self.assume(And(0 <= n2, n2 <= src.n))
            fi, gj = Select(f, i_), Select(g, j_)
            self.assume(FA([i_], Implies(And(0 <= i_, i_ < n2), And(0 <= fi, fi < src.n, sub(C, fi), Select(arr, i_) == sub(p, fi), Select(g, fi) == i_)), Select(arr, i_)))
            self.assume(FA([i_, j_], Implies(And(0 <= i_, i_ < j_, j_ < n2), fi < Select(f, j_)), [fi, Select(f, j_)]))
            pats = [gj] + ([ref(j_)] if ref is not None else [])
            self.assume(FA([j_], Implies(And(0 <= j_, j_ < src.n, sub(C, j_)), And(0 <= gj, gj < n2, Select(f, gj) == j_, Select(arr, gj) == sub(p, j_))), *pats))
        inv = None
        if kind == 'el' and src_inv is not None and ref is not None and p.eq(ref(j)):
            inv = self.fresh('comp.x', AII)
            x = z3.Int('e!')
            k = Select(src_inv, x)
            mem = And(0 <= k, k < src.n, ref(k) == x)
            s = Select(inv, x)
            if g is None:
                inv = src_inv
            else:
                self.assume(FA([x], If(And(mem, sub(C, k)), And(s == Select(g, k)), s == -1), s))
        if out.concrete and not out.items:
            out.items, out.n, out.arr, out.kind = None, n2, arr, kind
            set_inv(out, inv)
            return True
        oinv = inv_of(out)
        list_symbolic(self, out, None)
        if out.kind != kind:
            raise Unsupported('mixed kinds in a comprehension')
        n0, a0 = out.n, out.arr
        out.arr = arr_concat(self, a0, n0, arr)
        i0 = z3.Int('i!')
        self.assume(FA([i0], Implies(And(0 <= i0, i0 < n0), Select(out.arr, i0) == Select(a0, i0)), Select(a0, i0)))
        self.assume(FA([i0], Implies(And(0 <= i0, i0 < n2), Select(out.arr, n0 + i0) == Select(arr, i0)), Select(arr, i0)))
        out.n = simplify(n0 + n2)
        if inv is not None and oinv is not None:
            new = self.fresh('cat.x', AII)
            x = z3.Int('e!')
            s, k1, k2 = Select(new, x), Select(oinv, x), Select(inv, x)
            m1, m2 = And(0 <= k1, k1 < n0, Select(a0, k1) == x), And(0 <= k2, k2 < n2, Select(arr, k2) == x)
            self.assume(FA([x], s == If(m1, k1, If(m2, n0 + k2, IntVal(-1))), s))
            set_inv(out, new)
        return True

    def comp(self, node, env, emit, out=None):
        cenv = Env(env, env.glob)

        def level(i, keybase):
            gen = node.generators[i]
            src = self.seq_of(self.ev(gen.iter, env if i == 0 else cenv))

            def body(v):
                self.assign(gen.target, v, cenv)
                for cond in gen.ifs:
                    if not self.truth(self.ev(cond, cenv)):
                        return
                if i + 1 < len(node.generators):
                    level(i + 1, keybase)
                else:
                    emit(cenv)
            if out is not None and i + 1 == len(node.generators) and not isinstance(src.n, int) and not z3.is_int_value(simplify(src.n)) and not self.ver.loop_comps:
                if self.pure_comp(node, gen, src, cenv, out):
                    return
            self.run_loop('comp%d:%d:%d' % (node.lineno, node.col_offset, i), src, cenv, body)
        level(0, None)

    def e_ListComp(self, node, env):
        out = self.new_list([])
        self.comp(node, env, lambda e: list_append(self, out, self.ev(node.elt, e)), out)
        return out

    def e_SetComp(self, node, env):
        l = self.e_ListComp(node, env)
        if l.concrete and all(is_concrete(x) for x in l.items):
            return set(l.items)
        raise Unsupported('symbolic set')

    def e_DictComp(self, node, env):
        d = self.new_dict()
        def emit(e):
            k = self.ev(node.key, e)
            d.d[self.dict_key(d.d, k)] = self.ev(node.value, e)
        self.comp(node, env, emit)
        return d

    def e_GeneratorExp(self, node, env):
        gen = node.generators[0]
        if len(node.generators) == 1 and not gen.ifs:
            src = self.seq_of(self.ev(gen.iter, env))

            def get(i):
                cenv = Env(env, env.glob)
                self.assign(gen.target, src.get(i), cenv)
                return self.ev(node.elt, cenv)
            s = Seq(src.n, get, src.src)
            s.mapped = True
            s.base = src
            return Iter(s)
        return Iter(self.seq_of(self.e_ListComp(node, env)))

    # ================================================== calls
    def e_Call(self, node, env):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args:
            e = env
            while e is not None and e.cls is None:
                e = e.parent
            if e is None:
                raise Unsupported('super()')
            return SuperP(e.cls, e.selfv)
        f = self.ev(node.func, env)
        args = self.elts(node.args, env)
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                for x, y in (d.d if isinstance(d, PDict) else d).items():
                    kw[x] = y
            else:
                kw[k.arg] = self.ev(k.value, env)
        self.stack.append(('call', node.lineno, node.col_offset))
        try:
            return self.call(f, args, kw)
        finally:
            self.stack.pop()

    def call(self, f, args, kw):
        if isinstance(f, BoundM):
            if isinstance(f.func, (types.WrapperDescriptorType, types.MethodDescriptorType)):
                if f.func is object.__init__:
                    return None
                if f.func is object.__setattr__:
                    f.self_.f[args[0]] = args[1]
                    return None
                raise Unsupported('slot wrapper %r' % f.func)
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, Native):
            return f.fn(self, list(args), kw)
        if isinstance(f, Closure):
            return self.exec_function(f.node, f.env, f.glob, f.qual, args, kw, f.defaults, f.kwdefaults, f.cls)
        n = self.ver.native_of(f)
        if n is not None:
            return n.fn(self, list(args), kw)
        if any(f is x for x in (re.match, re.fullmatch, re.search)) and 2 <= len(args) <= 3 and isinstance(args[0], str) and not is_concrete(args[1]):
            from . import regex
            return regex.match(self, re.compile(*([args[0]] + [int(x) for x in args[2:]])), f.__name__, args[1])
        if isinstance(f, types.FunctionType):
            q = qual(f)
            con = self.ver.contract_for(self, q, args)
            if con is not None:
                return con.apply(self, args, kw)
            if (f.__module__ or '').split('.')[0] == PKG:
                return self.call_function(f, args, kw)
            raise Unsupported('call of %s' % q)
        if isinstance(f, type):
            return self.call_type(f, args, kw)
        if isinstance(f, types.MethodType):
            return self.call(f.__func__, [self.lift(f.__self__)] + list(args), kw)
        if isinstance(f, PObj):
            m = self.class_lookup(f.cls, '__call__')
            if m is not MISSING:
                return self.call(BoundM(m, f), args, kw)
            raise PyExc(TypeError, ('not callable',))
        if f is None or isinstance(f, Sym):
            raise PyExc(TypeError, ('not callable',))
        b = BUILTINS.get(id(f))
        if b is not None:
            return b(self, list(args), kw)
        if isinstance(f, types.BuiltinFunctionType) and isinstance(getattr(f, '__self__', None), re.Pattern) and f.__name__ in ('match', 'fullmatch', 'search') \
                and len(args) == 1 and not kw and not is_concrete(args[0]):
            from . import regex
            return regex.match(self, f.__self__, f.__name__, args[0])
        if isinstance(f, types.BuiltinFunctionType) and all(is_concrete(x) for x in args) and not kw:
            if getattr(f, '__module__', None) in ('builtins', 'math', '_operator', 'operator', None):
                try:
                    return f(*args)
                except Exception as e:
                    raise PyExc(type(e), e.args)
        raise Unsupported('call of %r' % (f,))

    def call_function(self, f, args, kw):
        node = func_ast(f)
        env = None
        cls = None
        if f.__closure__:
            env = Env(None, f.__globals__)
            for name, cell in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    env.vars[name] = cell.cell_contents
                except ValueError:
                    pass
            cls = env.vars.get('__class__')
        kwd = dict(f.__kwdefaults__ or {})
        return self.exec_function(node, env, f.__globals__, qual(f), args, kw, list(f.__defaults__ or ()), kwd, cls)

    def make_closure(self, node, env, name):
        a = node.args
        return Closure(node, env, env.glob, name, [self.ev(d, env) for d in a.defaults],
                       {x.arg: self.ev(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    def exec_function(self, node, penv, glob, q, args, kw, defaults, kwdefaults, cls=None):
        if self.depth > 60:
            raise Unsupported('recursion depth in %s' % q)
        env = Env(penv, glob)
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        env.cls = cls
        if args:
            env.selfv = args[0]
        for i, nme in enumerate(names):
            if i < len(args):
                if nme in kw:
                    raise PyExc(TypeError, ('multiple values',))
                env.vars[nme] = args[i]
            elif nme in kw:
                env.vars[nme] = kw.pop(nme)
            elif i - (len(names) - len(defaults)) >= 0 and defaults:
                d = defaults[i - (len(names) - len(defaults))]
                env.vars[nme] = self.lift(d)
            else:
                raise PyExc(TypeError, ('missing argument %s' % nme,))
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(args[len(names):])
        elif len(args) > len(names):
            raise PyExc(TypeError, ('too many arguments',))
        for x in a.kwonlyargs:
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif x.arg in kwdefaults:
                env.vars[x.arg] = kwdefaults[x.arg]
            else:
                raise PyExc(TypeError, ('missing keyword argument',))
        if a.kwarg:
            env.vars[a.kwarg.arg] = self.new_dict(kw)
        elif kw:
            raise PyExc(TypeError, ('unexpected keyword %s' % sorted(kw),))
        self.depth += 1
        self.stack.append(('fn', q))
        self.ver.seen_functions.add(q)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if is_generator(node):
                env.yields = self.new_list([])
                gh = self.ver.gen_hook
                if gh:
                    gh(self, q, env)
                try:
                    self.block(node.body, env)
                except _Return_:
                    pass
                return Iter(self.seq_of(env.yields))
            try:
                self.block(node.body, env)
            except _Return_ as r:
                return r.value
            return None
        finally:
            self.depth -= 1
            self.stack.pop()

    def call_type(self, cls, args, kw):
        if isinstance(cls, type) and issubclass(cls, BaseException):
            return ExcObj(cls, tuple(args))
        b = BUILTINS.get(id(cls))
        if b is not None:
            return b(self, list(args), kw)
        if is_ezodf_class(cls):
            con = self.ver.contract_for(self, 'new ' + cls.__module__ + ':' + cls.__qualname__, args)
            if con is not None:
                return con.apply(self, args, kw)
            o = self.new_obj(cls)
            init = self.class_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(init, [o] + list(args), kw)
            elif args or kw:
                raise PyExc(TypeError, ('takes no arguments',))
            return o
        raise Unsupported('instance of %r' % cls)

    def builtin_str(self, v):
        if isinstance(v, (str,)):
            return v
        if isinstance(v, SStr):
            v = self.resolve_maybe(v)
            return 'None' if v is None else v
        if isinstance(v, SBool):
            return 'True' if self.branch(v.t) else 'False'
        if isinstance(v, SInt):
            return SStr(str_of_int(v.t))
        if isinstance(v, SFlt):
            return SStr(str_of_flt(v.t))
        if isinstance(v, PObj):
            m = self.class_lookup(v.cls, '__str__')
            if m is not MISSING:
                return self.call(BoundM(m, v), [], {})
            r = self.fresh('repr', T)
            self.assume(r != NONE)
            return SStr(r)
        if isinstance(v, SWrap):
            return self.call(self.ver.wrap_getattr(self, v, '__str__'), [], {})
        if isinstance(v, (Sym, PList, PDict, Seq, ExcObj, Closure, BoundM, Native)) or not is_concrete(v):
            r = self.fresh('repr', T)
            self.assume(r != NONE)
            return SStr(r)
        return str(v)

    def builtin_int(self, v):
        if isinstance(v, (SInt, SBool)):
            return self.mkint(iterm(v))
        if isinstance(v, SStr):
            v = self.resolve_maybe(v)
            if v is None:
                raise PyExc(TypeError, ('int(None)',))
            if self.branch(is_int(v.t)):
                return self.mkint(int_of_str(v.t))
            raise PyExc(ValueError, ('invalid literal',))
        if isinstance(v, SFlt):
            return SInt(z3.Function('int_of_flt', F, I)(v.t))
        if isinstance(v, (Sym, PObj, PList, PDict)):
            raise PyExc(TypeError, ('int()',))
        try:
            return int(v)
        except Exception as e:
            raise PyExc(type(e), e.args)

    def builtin_float(self, v):
        if isinstance(v, SFlt):
            return v
        if isinstance(v, SStr):
            v = self.resolve_maybe(v)
            if v is None:
                raise PyExc(TypeError, ('float(None)',))
            if self.branch(is_flt(v.t)):
                return SFlt(flt_of_str(v.t))
            raise PyExc(ValueError, ('could not convert',))
        if isinstance(v, (SInt, SBool)):
            return SFlt(flt_of_int(iterm(v)))
        if isinstance(v, (Sym, PObj, PList, PDict)):
            raise PyExc(TypeError, ('float()',))
        try:
            return float(v)
        except Exception as e:
            raise PyExc(type(e), e.args)

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            r = False
            for c in cls:
                x = self.isinstance_(v, c)
                if x is True:
                    return True
                if x is not False:
                    r = x if r is False else SBool(Or(r.t, x.t))
            return r
        if isinstance(v, SInt):
            return issubclass(int, cls)
        if isinstance(v, SBool):
            return issubclass(bool, cls)
        if isinstance(v, SFlt):
            return issubclass(float, cls)
        if isinstance(v, SStr):
            if not v.maybe:
                return issubclass(str, cls)
            if issubclass(str, cls) and issubclass(type(None), cls):
                return True
            if issubclass(str, cls):
                return self.b2v(v.t != NONE)
            if issubclass(type(None), cls):
                return self.b2v(v.t == NONE)
            return False
        if isinstance(v, PObj):
            return issubclass(v.cls, cls)
        if isinstance(v, PList) or isinstance(v, list):
            return issubclass(list, cls)
        if isinstance(v, PDict):
            return issubclass(dict, cls)
        if isinstance(v, SWrap):
            return self.ver.wrap_isinstance(self, v, cls)
        if isinstance(v, SEl):
            return cls is object or cls.__name__ == '_Element'
        if isinstance(v, SOpaque):
            return self.ver.opaque_isinstance(self, v, cls)
        if isinstance(v, ExcObj):
            return issubclass(v.cls, cls)
        if isinstance(v, (Closure, BoundM, Native)):
            return cls is object
        if isinstance(v, (Seq, Iter)):
            return cls is object
        if isinstance(v, Unk):
            raise Unsupported('isinstance of unknown')
        if hasattr(v, 'sym_isinstance'):
            return v.sym_isinstance(self, cls)
        return isinstance(v, cls)

    def hasattr_(self, v, name):
        if isinstance(v, (SInt, SBool, SFlt)):
            return hasattr({SInt: 1, SBool: True, SFlt: 1.0}[type(v)], name)
        if isinstance(v, SStr):
            v = self.resolve_maybe(v)
            return hasattr(None if v is None else '', name)
        if isinstance(v, PObj):
            m = self.class_lookup(v.cls, name)
            if isinstance(m, property):
                try:
                    self.getattr_(v, name)
                    return True
                except PyExc as e:
                    if issubclass(e.cls, AttributeError):
                        return False
                    raise
            return name in v.f or (m is not MISSING and not isinstance(m, types.MemberDescriptorType)) or hasattr(object, name)
        if isinstance(v, SWrap):
            return self.ver.wrap_hasattr(self, v, name)
        if isinstance(v, SOpaque):
            return self.ver.opaque_hasattr(self, v, name)
        if isinstance(v, PList):
            return hasattr([], name)
        if isinstance(v, PDict):
            return hasattr({}, name)
        if isinstance(v, SEl):
            return self.ver.lx.hasattr(name)
        if is_concrete(v):
            return hasattr(v, name)
        raise Unsupported('hasattr')

    def type_of(self, v):
        for c, t in ((SBool, bool), (SInt, int), (SFlt, float), (PList, list), (PDict, dict)):
            if isinstance(v, c):
                return t
        if isinstance(v, SStr):
            v = self.resolve_maybe(v)
            return type(None) if v is None else str
        if isinstance(v, PObj):
            return v.cls
        if isinstance(v, ExcObj):
            return v.cls
        if isinstance(v, (SWrap, SEl, SOpaque, Seq, Iter, Unk)):
            raise Unsupported('type()')
        return type(v)

    def builtin_sum(self, seq, start):
        seq = self.seq_of(seq)
        if isinstance(seq.n, int):
            acc = start
            for i in range(seq.n):
                acc = self.binop(ast.Add(), acc, seq.get(i))
            return acc
        h = self.ver.sum_hook
        if h:
            r = h(self, seq, start)
            if r is not MISSING:
                return r
        env = Env(None, {})
        env.vars['acc'] = start

        def body(v):
            env.vars['acc'] = self.binop(ast.Add(), env.vars['acc'], v)
        self.run_loop('sum', seq, env, body)
        return env.vars['acc']

    def minmax(self, args, kw, ismin):
        if kw:
            raise Unsupported('min/max keywords')
        if len(args) == 1:
            s = self.seq_of(args[0])
            if isinstance(s.n, int):
                if s.n == 0:
                    raise PyExc(ValueError, ('empty sequence',))
                args = [s.get(i) for i in range(s.n)]
            else:
                l = self.to_list(s)
                if self.branch(l.n == 0):
                    raise PyExc(ValueError, ('empty sequence',))
                if l.kind != 'int':
                    raise Unsupported('min of non-integers')
                m = self.fint('min' if ismin else 'max')
                w = self.fint('w')
                j = z3.Int('j!')
                e = Select(l.arr, j)
                self.assume(And(0 <= w, w < l.n, Select(l.arr, w) == m))
                self.assume(FA([j], Implies(And(0 <= j, j < l.n), m <= e if ismin else m >= e), e))
                return SInt(m)
        if all(is_concrete(x) for x in args):
            return min(args) if ismin else max(args)
        acc = args[0]
        for x in args[1:]:
            a, b = iterm(acc), iterm(x)
            if a is None or b is None:
                raise Unsupported('min/max')
            acc = self.mkint(If(b < a, b, a) if ismin else If(b > a, b, a))
        return acc

    # ================================================== statements
    def block(self, stmts, env):
        for s in stmts:
            self.fuel -= 1
            if self.fuel < 0:
                raise Unsupported('path too long')
            m = getattr(self, 's_' + type(s).__name__, None)
            if m is None:
                raise Unsupported('statement %s' % type(s).__name__)
            m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Return(self, s, env):
        raise _Return_(None if s.value is None else self.ev(s.value, env))

    def s_Break(self, s, env):
        raise core._Break()

    def s_Continue(self, s, env):
        raise core._Continue()

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.store(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.seq_of(v)
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred assignment')
            if isinstance(s.n, int):
                if s.n != n:
                    raise PyExc(ValueError, ('unpack',))
            elif not self.branch(s.n == n):
                raise PyExc(ValueError, ('unpack',))
            for i, e in enumerate(t.elts):
                self.assign(e, s.get(i if isinstance(s.n, int) else IntVal(i)), env)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.e_Name(t, env)
            env.store(t.id, self.binop(s.op, cur, self.ev(s.value, env), True))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.binop(s.op, cur, self.ev(s.value, env), True))
        else:
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.binop(s.op, cur, self.ev(s.value, env), True))

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                self.delattr_(self.ev(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            else:
                raise Unsupported('del target')

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyExc(AssertionError, ())

    def s_FunctionDef(self, s, env):
        c = self.make_closure(s, env, s.name)
        for d in reversed(s.decorator_list):
            raise Unsupported('decorated nested function')
        env.store(s.name, c)

    def s_Import(self, s, env):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            env.store(a.asname or a.name.split('.')[0], m if a.asname else sys.modules[a.name.split('.')[0]])

    def s_ImportFrom(self, s, env):
        import importlib
        pkg = env.glob.get('__package__') or env.glob['__name__'].rpartition('.')[0]
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg) if s.level else importlib.import_module(s.module)
        for a in s.names:
            env.store(a.asname or a.name, getattr(m, a.name))

    def s_Nonlocal(self, s, env):
        env.nonlocals.update(s.names)

    def s_Global(self, s, env):
        env.globals.update(s.names)

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'handling', None)
            if cur:
                raise cur[-1]
            raise PyExc(RuntimeError, ())
        v = self.ev(s.exc, env)
        if isinstance(v, type) and issubclass(v, BaseException):
            raise PyExc(v, ())
        if isinstance(v, ExcObj):
            raise PyExc(v.cls, v.args)
        if isinstance(v, BaseException):
            raise PyExc(type(v), v.args)
        raise PyExc(TypeError, ('exceptions must derive from BaseException',))

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ts = t if isinstance(t, tuple) else (t,)
                        ok = any(issubclass(e.cls, x) for x in ts)
                    if ok:
                        if h.name:
                            env.store(h.name, ExcObj(e.cls, e.xargs))
                        if not hasattr(self, 'handling'):
                            self.handling = []
                        self.handling.append(e)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        except (PyExc, _Return_, core._Break, core._Continue):
            self.block(s.finalbody, env)
            raise
        else:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        if len(s.items) != 1:
            raise Unsupported('with')
        it = s.items[0]
        m = self.ev(it.context_expr, env)
        v = self.call(self.getattr_(m, '__enter__'), [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        ex = self.getattr_(m, '__exit__')
        try:
            self.block(s.body, env)
        except PyExc as e:
            r = self.call(ex, [e.cls, ExcObj(e.cls, e.xargs), None], {})
            if self.truth(r):
                return
            raise
        except (_Return_, core._Break, core._Continue):
            self.call(ex, [None, None, None], {})
            raise
        self.call(ex, [None, None, None], {})

    # ================================================== loops
    def s_For(self, s, env):
        src = self.ev(s.iter, env)
        seq = self.seq_of(src)
        if isinstance(src, Iter):
            src.pos = src.seq.n

        def body(v):
            self.assign(s.target, v, env)
            self.block(s.body, env)
        broke = self.run_loop('for%d:%d' % (s.lineno, s.col_offset), seq, env, body)
        if not broke:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        broke = self.run_while('while%d:%d' % (s.lineno, s.col_offset), s, env)
        if not broke:
            self.block(s.orelse, env)

    def loop_key(self, name):
        return tuple(x for x in self.stack) + (name, tuple(self.trace))

    def run_loop(self, name, seq, env, body):
        """returns True when left by break"""
        if isinstance(seq.n, int):
            if seq.n > 3000:
                raise Unsupported('large concrete loop')
            for i in range(seq.n):
                try:
                    body(seq.get(i))
                except core._Continue:
                    continue
                except core._Break:
                    return True
            return False
        n = simplify(seq.n)
        if z3.is_int_value(n):
            return self.run_loop(name, self.reseq(seq, n.as_long()), env, body)
        return self.cut_loop(name, seq, env, body, None)

    def reseq(self, seq, n):
        s = Seq(n, lambda i: seq.get(IntVal(i)), seq.src)
        s.ref = seq.ref
        s.idx = seq.idx
        return s

    def run_while(self, name, s, env):
        forked = False
        for _ in range(3000):
            if forked:
                return self.cut_loop(name, None, env, lambda _: self.block(s.body, env), s.test)
            ntr = len(self.trace)
            # concrete iterations are unrolled, as long as the body does not branch
            self.no_fork += 1
            npc = len(self.pc)
            try:
                v = self.truth_term(self.ev(s.test, env))
                if not isinstance(v, bool):
                    v = simplify(v)
                    v = True if is_true(v) else False if is_false(v) else None
            except NeedFork:
                v = None
            finally:
                self.no_fork -= 1
            if v is None:
                return self.cut_loop(name, None, env, lambda _: self.block(s.body, env), s.test)
            if v is False:
                return False
            try:
                self.block(s.body, env)
            except core._Continue:
                pass
            except core._Break:
                return True
            forked = len(self.trace) > ntr
        raise Unsupported('long concrete loop')

    def cut_loop(self, name, seq, env, body, test):
        ver = self.ver
        key = self.loop_key(name)
        info = ver.loops.get(key)
        if info is None:
            info = ver.loops[key] = LoopInfo()
        fn = [x[1] for x in self.stack if x[0] == 'fn']
        L = LoopCtx(self, key, fn[-1] if fn else '', self.snapshot(env), seq)
        L.env = env
        L.test = test
        L.info = info
        L.nconst = set()
        pre = L.pre
        n = None
        if seq is not None:
            n = seq.n
            if not self.entails(n >= 0):
                nn = self.fint('n0')
                self.assume(nn == If(n < 0, IntVal(0), n))
                n = nn
        L.n = n
        L.alloc0 = self.h.get('alloc')
        # --- invariants hold on entry
        L.k = IntVal(0)
        entry = set()
        for cname, f in ver.candidates(self, L):
            entry.add(cname)
            if cname in info.dropped:
                continue
            if f is None or not ver.prove_inv(self, f, (L.key[:-1], cname)):
                ver.trace_drop(L, cname, f)
                info.dropped.add(cname)
                ver.dirty = True
        which = self.choose(2)
        self.havoc(L, env)
        k = self.fint('k')
        L.k = k
        self.assume(k >= 0)
        if L.alloc0 is not None and 'alloc' in self.h:
            self.assume(self.h['alloc'] >= L.alloc0)
        L.assumed = set()
        for cname, f in ver.candidates(self, L):
            if cname not in info.dropped and f is not None:
                if cname.startswith('user ') and cname not in entry:
                    # not stated on entry, so not proved there
                    info.dropped.add(cname)
                    ver.dirty = True
                    continue
                L.assumed.add(cname)
                self.assume(f)
        if not info.completed:
            self.assume(k == 0)     # no iteration is known to reach its end
        if which == 1:
            if seq is not None:
                self.assume(k == n)
            else:
                t = self.truth_term(self.ev(test, env))
                if not self.require(t, False):
                    raise PathEnd()
            ver.exit_hook(self, L)
            return False
        # --- one arbitrary iteration
        if seq is not None:
            self.assume(k < n)
        else:
            t = self.truth_term(self.ev(test, env))
            if not self.require(t, True):
                raise PathEnd()
        mid = self.snapshot(env)
        npc = len(self.pc)
        known = dict(self.cnt)
        try:
            if seq is not None:
                v = seq.get(k)
                L.item = v
                if seq.live is not None and {'kids', 'parent', 'pos', 'klen'} & set(info.heap):
                    ver.obligation(self, 'iteration over children follows the changes made in the loop', ver.lx.undisturbed(self, seq, k, n))
            else:
                v = None
            body(v)
        except core._Continue:
            pass
        except core._Break:
            return True
        self.loop_end(L, mid, npc, env)
        raise PathEnd()

    def require(self, t, want):
        """continue only where t == want (other side is covered elsewhere)"""
        if isinstance(t, bool):
            return t == want
        c = t if want else Not(t)
        if self.entails(Not(c)):
            return False
        self.assume(c)
        return True

    def fresh_of_kind(self, kind, name):
        if isinstance(kind, tuple) and kind[0] == 'list':
            return self.sym_list(kind[1], name=name)
        if isinstance(kind, tuple) and kind[0] == 'tuple':
            return tuple(self.fresh_of_kind(k, '%s.%d' % (name, i)) for i, k in enumerate(kind[1]))
        if kind == 'int':
            return SInt(self.fresh(name, I))
        if kind == 'bool':
            return SBool(self.fresh(name, B))
        if kind in ('str', 'mstr'):
            t = self.fresh(name, T)
            if kind == 'str':
                self.assume(t != NONE)
            return SStr(t, kind == 'mstr')
        if kind == 'el':
            return SEl(self.fresh(name, I))
        if kind == 'mel':
            return None if self.choose(2) else SEl(self.fresh(name, I))
        if kind == 'wrap':
            return SWrap(self.fresh(name, I))
        if kind == 'flt':
            return SFlt(self.fresh(name, F))
        if kind == 'obj':
            return SOpaque(self.fresh(name, I))
        return Unk(name)

    def havoc(self, L, env):
        info = L.info
        for (depth, vname), kind in sorted(info.vars.items(), key=str):
            e = env
            for _ in range(depth):
                e = e.parent
            e.vars[vname] = self.fresh_of_kind(kind, vname)
        for (oid, field), kind in sorted(info.fieldkinds.items() if hasattr(info, 'fieldkinds') else []):
            if oid in self.objs:
                self.objs[oid].f[field] = self.fresh_of_kind(kind, field)
        for comp in sorted(info.heap):
            if comp in self.h:
                self.h[comp] = self.fresh(comp, self.h[comp].sort())
        for vk in sorted(getattr(info, 'views', ())):
            if vk in self.views:
                self.views[vk] = self.ver.lx.havoc_view(self, vk)
        for lid, kind in sorted(info.lists.items()):
            l = self.lists.get(lid)
            if l is None:
                continue
            if kind is None:
                kind = 'val'
            had_idx = l.idx
            l.items = None
            l.kind = kind
            l.n = self.fint((l.name or 'lst') + '.n')
            l.arr = self.fresh((l.name or 'lst') + '.a', z3.ArraySort(I, KSORT[kind]))
            if had_idx is not None:
                l.idx = self.fresh('idx', had_idx.sort())
            self.assume(l.n >= 0)
        for g in sorted(getattr(info, 'ghosts', ())):
            old = self.ghost.get(g)
            if isinstance(old, z3.ExprRef):
                self.ghost[g] = self.fresh(g, old.sort())
        if info.heap or getattr(info, 'views', None):
            self.ver.lx.after_havoc(self, info.heap)

    def vkind(self, a, b):
        """kind covering the entry value a and the value b after an iteration"""
        def k1(v):
            if isinstance(v, PList):
                if v.concrete:
                    k = None
                    for x in v.items:
                        k = join_kind(k, kind_of_value(x))
                    return ('list', k)
                return ('list', v.kind)
            if isinstance(v, tuple):
                return ('tuple', tuple(k1(x) for x in v))
            return kind_of_value(v)
        ka, kb = k1(a), k1(b)
        if ka == kb:
            return ka
        if isinstance(ka, tuple) and isinstance(kb, tuple) and ka[0] == kb[0] == 'list':
            return ('list', join_kind(ka[1], kb[1]))
        if isinstance(ka, tuple) or isinstance(kb, tuple) or ka is None or kb is None:
            return 'unk'
        j = join_kind(ka, kb)
        return j if j != 'val' else ('int' if set((ka, kb)) == set(('int', 'bool')) else 'unk')

    def loop_end(self, L, mid, npc, env):
        """modification sets and invariant preservation"""
        ver, info = self.ver, L.info
        if self.entails(BoolVal(False)):
            return      # an impossible path tells nothing
        grown = not info.completed
        info.completed = True
        # local variables
        for depth, (e, vars0, y) in enumerate(mid.envs):
            pre_vars = L.pre.envs[depth][1]
            for vname, v in e.vars.items():
                old = vars0.get(vname, MISSING)
                if old is not MISSING and same_value(old, v):
                    continue
                entry = pre_vars.get(vname, MISSING)
                if entry is MISSING:
                    kind = 'unk'
                elif isinstance(entry, Unk) or isinstance(v, Unk):
                    kind = 'unk'
                else:
                    kind = self.vkind(entry, v)
                key = (depth, vname)
                if key in info.vars:
                    if entry is not MISSING and info.vars[key] != kind and info.vars[key] != 'unk':
                        nk = self.merge_kind(info.vars[key], kind)
                        if nk != info.vars[key]:
                            info.vars[key] = nk
                            grown = True
                else:
                    info.vars[key] = kind
                    grown = True
        if not hasattr(info, 'fieldkinds'):
            info.fieldkinds = {}
        for oid, f0 in mid.objs.items():
            o = self.objs[oid]
            if oid not in L.pre.objs:
                continue
            for fld, v in o.f.items():
                old = f0.get(fld, MISSING)
                if old is not MISSING and same_value(old, v):
                    continue
                entry = L.pre.objs[oid].get(fld, MISSING)
                kind = 'unk' if entry is MISSING else self.vkind(entry, v)
                key = (oid, fld)
                if key not in info.fieldkinds:
                    info.fieldkinds[key] = kind
                    grown = True
                else:
                    nk = self.merge_kind(info.fieldkinds[key], kind)
                    if nk != info.fieldkinds[key]:
                        info.fieldkinds[key] = nk
                        grown = True
        for comp, t in self.h.items():
            old = mid.h.get(comp)
            if old is None:
                continue
            if not old.eq(t) and comp not in info.heap:
                info.heap.add(comp)
                grown = True
        if not hasattr(info, 'views'):
            info.views = set()
        for vk, v in self.views.items():
            if vk in mid.views and mid.views[vk] is not v and vk not in info.views:
                info.views.add(vk)
                grown = True
        if not hasattr(info, 'ghosts'):
            info.ghosts = set()
        for g, v in self.ghost.items():
            if isinstance(v, z3.ExprRef) and g in mid.ghost and not v.eq(mid.ghost[g]) and g not in info.ghosts:
                info.ghosts.add(g)
                grown = True
        for lid, s0 in mid.lists.items():
            l = self.lists[lid]
            if lid not in L.pre.lists:
                continue
            s1 = l.state()
            changed = not (s0[0] is not None and s1[0] is not None and len(s0[0]) == len(s1[0]) and all(same_value(x, y) for x, y in zip(s0[0], s1[0])))
            if s0[0] is None and s1[0] is None:
                changed = not (s0[1].eq(s1[1]) and s0[2].eq(s1[2]))
            if changed:
                k = None
                if l.concrete:
                    for x in l.items:
                        k = join_kind(k, kind_of_value(x))
                else:
                    k = l.kind
                p = L.pre.lists[lid]
                if p[0] is not None:
                    for x in p[0]:
                        k = join_kind(k, kind_of_value(x))
                else:
                    k = join_kind(k, p[3])
                if k is None:
                    k = 'val'
                if lid not in info.lists:
                    info.lists[lid] = k
                    grown = True
                elif info.lists[lid] != k:
                    nk = join_kind(info.lists[lid], k)
                    if nk != info.lists[lid]:
                        info.lists[lid] = nk
                        grown = True
        for did, d0 in mid.dicts.items():
            d = self.dicts[did]
            if did in L.pre.dicts and (set(map(id, d0)) != set(map(id, d.d)) or any(not same_value(d0[x], d.d[x]) for x in d0 if x in d.d)):
                raise Unsupported('dict modified in a symbolic loop')
        if grown:
            ver.dirty = ver.grew = True
            info.dropped.clear()
            return
        if ver.discover(self, L, mid, npc):
            ver.grew = True
            # new candidates: they were not assumed at the head of this iteration
            info.dropped.clear()
            return
        if ver.grew:
            return      # another pass follows, nothing dropped now would stay dropped
        L.k = L.k + 1
        stated = set()
        for cname, f in ver.candidates(self, L):
            stated.add(cname)
            if cname in info.dropped:
                continue
            if f is None or not ver.prove_inv(self, f, (L.key[:-1], cname)):
                ver.trace_drop(L, cname, f)
                info.dropped.add(cname)
                ver.dirty = True
        for cname in L.assumed - stated - info.dropped:
            if cname.startswith('user '):
                info.dropped.add(cname)     # no longer stated at the end of an iteration
                ver.dirty = True

    def merge_kind(self, a, b):
        if a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'list':
            return ('list', join_kind(a[1], b[1]))
        if isinstance(a, tuple) or isinstance(b, tuple):
            return 'unk'
        if a == 'unk' or b == 'unk':
            return 'unk'
        j = join_kind(a, b)
        return 'unk' if j == 'val' else j


class _Return_(Exception):
    def __init__(self, value):
        self.value = value


_GEN = {}


def is_generator(node):
    r = _GEN.get(id(node))
    if r is None:
        r = False
        todo = list(node.body)
        while todo:
            x = todo.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(x))
        _GEN[id(node)] = r
    return r


# ------------------------------------------------------------------ builtins
BUILTINS = {}


def builtin(*fs):
    def deco(g):
        for f in fs:
            BUILTINS[id(f)] = g
        return g
    return deco


@builtin(len)
def _b(c, a, k):
    return c.len_(a[0])


@builtin(str)
def _b(c, a, k):
    if not a:
        return ''
    if len(a) > 1:
        return c.ver.str_decode(c, a)
    return c.builtin_str(a[0])


@builtin(int)
def _b(c, a, k):
    return c.builtin_int(a[0]) if a else 0


@builtin(float)
def _b(c, a, k):
    return c.builtin_float(a[0]) if a else 0.0


@builtin(bool)
def _b(c, a, k):
    t = c.truth_term(a[0]) if a else False
    return t if isinstance(t, bool) else c.b2v(t)


@builtin(isinstance)
def _b(c, a, k):
    return c.isinstance_(a[0], a[1])


@builtin(issubclass)
def _b(c, a, k):
    return issubclass(a[0], a[1])


@builtin(hasattr)
def _b(c, a, k):
    return c.hasattr_(a[0], a[1])


@builtin(getattr)
def _b(c, a, k):
    if not isinstance(a[1], str):
        r = c.ver.getattr_symbolic(c, a)
        if r is not MISSING:
            return r
        raise Unsupported('getattr with symbolic name')
    return c.getattr_(a[0], a[1], a[2] if len(a) > 2 else MISSING)


@builtin(setattr)
def _b(c, a, k):
    c.setattr_(a[0], a[1], a[2])


@builtin(type)
def _b(c, a, k):
    return c.type_of(a[0])


@builtin(range)
def _b(c, a, k):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if any(iterm(x) is None for x in a):
        raise PyExc(TypeError, ('range',))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if st not in (1, -1):
        raise Unsupported('range step')
    lo_, hi_ = iterm(lo), iterm(hi)
    d = simplify(hi_ - lo_ if st == 1 else lo_ - hi_)
    if z3.is_int_value(d):
        n = max(0, d.as_long())
    elif c.entails(d >= 0):
        n = d
    else:
        n = c.fint('range.n')
        c.assume(n == If(d < 0, IntVal(0), d))
    s = Seq(n, lambda i: c.mkint(lo_ + (i if st == 1 else -i)), None, 'range')
    return s


@builtin(enumerate)
def _b(c, a, k):
    s = c.seq_of(a[0])
    st = a[1] if len(a) > 1 else k.get('start', 0)
    r = Seq(s.n, lambda i: (c.mkint(IntVal(i) + iterm(st) if isinstance(i, int) else i + iterm(st)), s.get(i)), s.src)
    r.mapped = True
    r.ref, r.base = s.ref, s
    return Iter(r)


@builtin(zip)
def _b(c, a, k):
    ss = [c.seq_of(x) for x in a]
    if all(isinstance(s.n, int) for s in ss):
        n = min(s.n for s in ss) if ss else 0
    else:
        n = ss[0].n if not isinstance(ss[0].n, int) else IntVal(ss[0].n)
        for s in ss[1:]:
            m = s.n if not isinstance(s.n, int) else IntVal(s.n)
            n = If(m < n, m, n)
    r = Seq(n, lambda i: tuple(s.get(i) for s in ss))
    return Iter(r)


@builtin(reversed)
def _b(c, a, k):
    v = a[0]
    s = c.seq_of(v)
    n = s.n
    r = Seq(n, lambda i: s.get((n - 1 - i) if isinstance(i, int) and isinstance(n, int) else simplify((n if not isinstance(n, int) else IntVal(n)) - 1 - i)), s.src)
    r.mapped = True
    r.reversed_of = s
    if s.ref:
        r.ref = lambda i: s.ref(n - 1 - i)
    return Iter(r)


@builtin(map)
def _b(c, a, k):
    f = a[0]
    if len(a) != 2:
        raise Unsupported('map')
    s = c.seq_of(a[1])
    r = Seq(s.n, lambda i: c.call(f, [s.get(i)], {}), s.src)
    r.mapped = True
    r.base = s
    r.ref = s.ref
    nat = c.ver.native_of(c.ver.X.wrap)
    if (f is nat or c.ver.native_of(f) is nat) and isinstance(s.src, PList) and not s.src.concrete and s.src.kind == 'el' and not getattr(s, 'mapped', False) \
            and hasattr(s.n, 'eq') and s.n.eq(s.src.n):
        r.wraps = s.src
    return Iter(r)


@builtin(filter)
def _b(c, a, k):
    l = c.to_list(c.seq_of(a[1])) if not isinstance(a[1], PList) else a[1]
    if a[0] is None:
        if l.concrete and not any(isinstance(x, SStr) and x.maybe for x in l.items):
            return Iter(c.seq_of(c.new_list([x for x in l.items if c.truth(x)])))
        s = Seq(0, None, l)
        s.filtered = True
        return s
    out = c.new_list([])

    def body(v):
        if c.truth(c.call(a[0], [v], {})):
            list_append(c, out, v)
    c.run_loop('filter', c.seq_of(l), None, body)
    return Iter(c.seq_of(out))


@builtin(list)
def _b(c, a, k):
    return c.to_list(c.seq_of(a[0])) if a else c.new_list([])


@builtin(tuple)
def _b(c, a, k):
    if not a:
        return ()
    s = c.seq_of(a[0])
    if isinstance(s.n, int):
        return tuple(s.get(i) for i in range(s.n))
    return c.to_list(s)


@builtin(dict)
def _b(c, a, k):
    d = c.new_dict()
    if a:
        o = a[0]
        if isinstance(o, PDict):
            d.d.update(o.d)
        elif isinstance(o, dict):
            d.d.update(o)
        else:
            s = c.seq_of(o)
            if not isinstance(s.n, int):
                raise Unsupported('dict() of symbolic sequence')
            for i in range(s.n):
                x, y = s.get(i)
                d.d[c.dict_key(d.d, x)] = y
    d.d.update(k)
    return d


@builtin(set, frozenset)
def _b(c, a, k):
    if not a:
        return set()
    s = c.seq_of(a[0])
    if isinstance(s.n, int):
        items = [s.get(i) for i in range(s.n)]
        if all(is_concrete(x) for x in items):
            return set(items)
    r = c.ver.set_hook(c, s)
    if r is not MISSING:
        return r
    raise Unsupported('symbolic set')


@builtin(iter)
def _b(c, a, k):
    if isinstance(a[0], Iter):
        return a[0]
    return Iter(c.seq_of(a[0]))


@builtin(next)
def _b(c, a, k):
    it = a[0]
    if not isinstance(it, Iter):
        raise Unsupported('next')
    p, n = it.pos, it.seq.n
    if isinstance(p, int) and isinstance(n, int):
        more = p < n
    else:
        more = c.branch((IntVal(p) if isinstance(p, int) else p) < n)
    if not more:
        if len(a) > 1:
            return a[1]
        raise PyExc(StopIteration, ())
    v = it.seq.get(p if isinstance(n, int) else (IntVal(p) if isinstance(p, int) else p))
    it.pos = p + 1
    return v


@builtin(sum)
def _b(c, a, k):
    return c.builtin_sum(a[0], a[1] if len(a) > 1 else 0)


@builtin(min)
def _b(c, a, k):
    return c.minmax(a, k, True)


@builtin(max)
def _b(c, a, k):
    return c.minmax(a, k, False)


@builtin(abs)
def _b(c, a, k):
    t = iterm(a[0])
    if isinstance(a[0], Sym) and t is not None:
        return c.mkint(If(t < 0, -t, t))
    return abs(a[0])


@builtin(divmod)
def _b(c, a, k):
    return (c.binop(ast.FloorDiv(), a[0], a[1]), c.binop(ast.Mod(), a[0], a[1]))


@builtin(any, all)
def _b(c, a, k):
    raise Unsupported('any/all')


def _any(want):
    def f(c, a, k):
        s = c.seq_of(a[0])
        if isinstance(s.n, int):
            for i in range(s.n):
                if c.truth(s.get(i)) == want:
                    return want
            return not want
        env = Env(None, {})

        def body(v):
            if c.truth(v) == want:
                raise core._Break()
        return want if c.run_loop('any' if want else 'all', s, env, body) else (not want)
    return f


BUILTINS[id(any)] = _any(True)
BUILTINS[id(all)] = _any(False)


@builtin(ord)
def _b(c, a, k):
    v = a[0]
    if isinstance(v, str):
        try:
            return ord(v)
        except TypeError as e:
            raise PyExc(TypeError, e.args)
    if isinstance(v, SStr):
        return SInt(ordf(v.t))
    raise PyExc(TypeError, ('ord',))


@builtin(chr)
def _b(c, a, k):
    if isinstance(a[0], int):
        return chr(a[0])
    t = chrf(iterm(a[0]))
    c.assume(And(t != NONE, slen(t) == 1, ordf(t) == iterm(a[0])))
    return SStr(t)


@builtin(id)
def _b(c, a, k):
    v = a[0]
    if isinstance(v, SEl):
        return SInt(v.t)     # only elements have symbolic ids: an injection
    if isinstance(v, PObj):
        return hash(v.oid)
    raise Unsupported('id()')


@builtin(callable)
def _b(c, a, k):
    return isinstance(a[0], (Closure, BoundM, Native, types.FunctionType, types.MethodType, type)) or callable(a[0])


@builtin(repr)
def _b(c, a, k):
    if is_concrete(a[0]):
        return repr(a[0])
    return SStr(c.fresh('repr', T))


@builtin(sorted)
def _b(c, a, k):
    s = c.seq_of(a[0])
    if isinstance(s.n, int) and not k:
        items = [s.get(i) for i in range(s.n)]
        if all(is_concrete(x) for x in items):
            return c.new_list(sorted(items))
    raise Unsupported('sorted')


@builtin(print)
def _b(c, a, k):
    return None


@builtin(super)
def _b(c, a, k):
    return SuperP(a[0], a[1])


@builtin(object)
def _b(c, a, k):
    return SOpaque(c.fint('object'))
