"""pyvc verifier: explores all paths of a unit, infers loop invariants by
Houdini over generated and user candidates, and discharges the obligations."""
import time, types, sys, os, traceback
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Store, Select, is_true, is_false, simplify, substitute
from .smt import *
from . import smt
from .core import *
from . import core
from .interp import Interp, MISSING, join_axioms, is_concrete
from . import interp
from .lx import Lx, View, xe, xi, xc, SORTS

UNITS = {}          # property id -> [Unit]
JJ = z3.Int('jj!')


DEBUG = os.environ.get('PYVC_DEBUG')


class Unit(object):
    def __init__(self, prop, target, name, fn, opts):
        self.prop, self.target, self.name, self.fn, self.opts = prop, target, name, fn, opts
        self.id = '%s/%s' % (target, name) if name else target


def unit(prop, target, name='', **opts):
    def deco(fn):
        UNITS.setdefault(prop, []).append(Unit(prop, target, name, fn, opts))
        return fn
    return deco


class Outcome(object):
    def __init__(self, value, exc):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *cls):
        return self.exc is not None and issubclass(self.exc.cls, cls)


class Path(Interp):
    """one path of a unit; adds the specification API"""
    def __init__(self, ver, prefix):
        self.lx = ver.lx
        Interp.__init__(self, ver, prefix)

    # ------------------------------------------------ specification API
    def integer(self, name='n', lo=None, hi=None):
        t = self.fresh(name, I)
        self.hints[name] = t
        if lo is not None:
            self.assume(t >= lo)
        if hi is not None:
            self.assume(t <= hi)
        return SInt(t)

    def string(self, name='s', maybe=False, nonempty=False):
        t = self.fresh(name, T)
        if not maybe:
            self.assume(t != NONE)
        if nonempty:
            self.lit('')
            self.assume(t != EMPTY)
        return SStr(t, maybe)

    def boolean(self, name='b'):
        t = self.fresh(name, B)
        self.hints[name] = t
        return SBool(t)

    def flt(self, name='f'):
        return SFlt(self.fresh(name, F))

    def element(self, tag=None, name='e', root=None):
        """an existing element; root=True: no parent"""
        self.lx.init(self)
        t = self.fresh(name, I)
        self.assume(And(t > 0, t <= self.lx.h(self, 'alloc')))
        tg = Select(self.lx.h(self, 'tag'), t)
        self.assume(tg != NONE)
        if tag is not None:
            self.assume(tg == self.lit(tag))
            self.known_tags = getattr(self, 'known_tags', {})
            self.known_tags[t.get_id()] = tag
            self.keep = getattr(self, 'keep', [])
            self.keep.append(t)
        if root is True:
            self.assume(Select(self.lx.h(self, 'parent'), t) == 0)
        return SEl(t)

    def wrapper(self, cls, el, **fields):
        o = self.new_obj(cls)
        o.f['xmlnode'] = el
        o.f.update(fields)
        return o

    def mark_run(self):
        # loops of different calls from the specification are different loops
        self.runs = getattr(self, 'runs', 0) + 1
        self.stack[:] = [x for x in self.stack if x[0] != 'run'] + [('run', self.runs)]

    def run(self, f, *args, **kw):
        self.mark_run()
        try:
            if isinstance(f, property):
                f = f.fget
            return Outcome(self.call(f, list(args), kw), None)
        except PyExc as e:
            return Outcome(None, e)

    def run_set(self, obj, name, value):
        self.mark_run()
        try:
            self.setattr_(obj, name, value)
            return Outcome(None, None)
        except PyExc as e:
            return Outcome(None, e)

    def run_get(self, obj, name):
        self.mark_run()
        try:
            return Outcome(self.getattr_(obj, name), None)
        except PyExc as e:
            return Outcome(None, e)

    def run_del(self, obj, name):
        self.mark_run()
        try:
            self.delattr_(obj, name)
            return Outcome(None, None)
        except PyExc as e:
            return Outcome(None, e)

    def h1(self, comp, e):
        """heap component of element e in the current heap"""
        return Select(self.lx.h(self, comp), e.t if isinstance(e, SEl) else e)

    def attr(self, e, key):
        return self.lx.attr(self, e.t if isinstance(e, SEl) else e, self.lit(key) if isinstance(key, str) else key)

    def ensure(self, name, f):
        if isinstance(f, bool):
            f = BoolVal(f)
        self.ver.obligation(self, name, f)

    def cover(self, name):
        self.ver.cover(self, name)

    def heap(self):
        return dict(self.h)

    def unchanged(self, old, comps, except_=(), upto=None):
        """components agree with `old` on every element that existed then"""
        al = old.get('alloc', None)
        fs = []
        for n in comps:
            cur, o = self.h.get(n), old.get(n)
            if cur is None or (o is not None and cur.eq(o)):
                continue
            s = Select(cur, xe)
            fs.append(FA([xe], Implies(And(xe <= al, *[xe != x for x in except_]), s == Select(o, xe)), s))
        return And(*fs) if fs else BoolVal(True)


STRUCT = ('tag', 'text', 'tail', 'attr', 'klen', 'kids', 'parent', 'pos')


class Verifier(object):
    def __init__(self, unit=None, timeout=8000):
        self.prover = Prover(timeout=timeout)
        self.axioms = list(BASE_AXIOMS)
        self.used_lits = ['']
        self.lx = Lx()
        self.loops = {}
        self.dirty = self.grew = False
        self.pending = []
        self.final = False
        self.obls = {}           # name -> dict
        self.covers = set()
        self.seen_functions = set()
        self.contracts_used = set()
        self.contracts = {}
        self.natives = {}
        self.invariants = {}     # function qual -> [fn(c, L) -> [(name, formula)]]
        self.gen_hook = None
        self.str_hook = None
        self.sum_hook = None
        self.encode_hook = None
        self.member = None
        self.format_cat = False
        self.max_paths = 3000
        self.unsupported = []
        self.assumptions = set()
        self.interesting_tags = []
        self.wrap_split = []     # classes of wrapped elements to distinguish by case
        self.loop_comps = False   # comprehensions as loops with invariants
        self.feasible_ends = 0
        self.paths = 0
        self.passes = 0
        self.failed_once = set()
        self.setup_natives()
        self.wrap_classes = True

    # ------------------------------------------------ exploring
    def schedule(self, prefix):
        self.pending.append(list(prefix))

    def explore(self, fn):
        self.pending = [[]]
        n = 0
        while self.pending:
            prefix = self.pending.pop()
            n += 1
            if n > self.max_paths:
                self.note_unsupported('too many paths')
                return
            if time.time() > self.deadline:
                self.note_unsupported('time limit of the unit')
                return
            c = Path(self, prefix)
            self.cur = c
            try:
                fn(c)
                if self.final and self.prover.check(c.pc, BoolVal(False), timeout=3000, retry=False) is not True:
                    self.feasible_ends += 1
            except PathEnd:
                pass
            except Unsupported as e:
                if self.final or True:
                    if self.prover.check(c.pc, BoolVal(False), timeout=5000, retry=False) is not True:
                        self.note_unsupported(str(e), c)
            except NeedFork:
                self.note_unsupported('speculative fork', c)
        self.paths += n

    def note_unsupported(self, why, c=None):
        if self.final:
            where = [x[1] for x in c.stack if x[0] == 'fn'] if c is not None else []
            self.unsupported.append('%s%s' % (why, ' in ' + where[-1] if where else ''))

    def run(self, fn, budget=240):
        self.deadline = time.time() + budget
        for i in range(25):
            self.passes += 1
            self.dirty = False
            self.final = False
            if time.time() > self.deadline:
                break
            self.grew = False
            self.explore(fn)
            if not self.dirty:
                break
            if self.grew:
                # what was dropped may have been missing facts about another loop
                for info in self.loops.values():
                    info.dropped.clear()
        self.final = True
        self.obls = {}
        self.deadline = max(self.deadline, time.time() + 30)
        self.explore(fn)
        if self.dirty:
            self.unsupported.append('loop invariants not stable')
        for n, o in sorted(self.obls.items()):
            if not o.get('live'):
                self.unsupported.append('vacuous: no feasible path reaches the obligation "%s"' % n)
        return self

    def obligation(self, c, name, f):
        if not self.final:
            return
        o = self.obls.setdefault(name, dict(paths=0, proved=0, failed=[]))
        o['paths'] += 1
        if not o.get('live') and self.prover.check(c.pc, BoolVal(False), timeout=3000, retry=False) is not True:
            o['live'] = True
        for g in f.children() if z3.is_and(f) else [f]:
            r = self.prover.check(c.pc, g)
            if r is not True:
                gs = goals(g)
                if len(gs) > 1 and all(self.prover.check(c.pc, x) is True for x in gs):
                    r = True
            if r is not True:
                h, vals = self.prover.model_hints(c.pc, g, c.hints) if len(o['failed']) < 3 else ('', {})
                o['failed'].append(dict(result={False: 'sat', None: 'unknown'}[r], formula=str(simplify(g))[:600],
                                        trace=[x for x in c.trace], model=vals, solver=h, npc=len(c.pc)))
                return
        o['proved'] += 1

    def cover(self, c, name):
        if self.final and name not in self.covers:
            if self.prover.check(c.pc, BoolVal(False), timeout=3000, retry=False) is not True:
                self.covers.add(name)

    # ------------------------------------------------ loop candidates
    def prove_inv(self, c, f, key=None):
        if isinstance(f, bool):
            return f
        fs = f.children() if z3.is_and(f) else [f]
        # a candidate that failed for the same loop on another path gets the cheap attempt only
        limit = 4000 if key is None or key[1].startswith('user') else 1000
        prove = lambda g: self.prover.check(c.pc, g, timeout=limit, retry=False if key in self.failed_once else 'mid') is True
        r = True
        for g in fs:
            if not prove(g):
                gs = goals(g)
                if len(gs) == 1 or not all(prove(x) for x in gs):
                    r = False
                    break
        if not r:
            self.failed_once.add(key)
        return r

    def env_at(self, L, depth):
        e = L.env
        for _ in range(depth):
            e = e.parent
        return e

    def candidates(self, c, L):
        info = L.info
        k = L.k
        out = []
        T_ = info.templates
        for (depth, v), kind in sorted(info.vars.items(), key=str):
            if kind == 'int':
                e = self.env_at(L, depth)
                cur = iterm(e.vars[v]) if v in e.vars else None
                v0 = iterm(L.pre.envs[depth][1].get(v)) if v in L.pre.envs[depth][1] else None
                if cur is None or v0 is None:
                    continue
                for st in sorted(T_.get(('step', depth, v), ())):
                    out.append(('int %d %s +%d' % (depth, v, st), cur == v0 + st * k))
                out.append(('int %d %s >=v0' % (depth, v), cur >= v0))
                out.append(('int %d %s <=v0' % (depth, v), cur <= v0))
                out.append(('int %d %s >=0' % (depth, v), cur >= 0))
                out.append(('int %d %s >=1' % (depth, v), cur >= 1))
            elif kind in ('el', 'mel'):
                e = self.env_at(L, depth)
                cur, v0 = e.vars.get(v), L.pre.envs[depth][1].get(v)
                if cur is None:
                    for (d2, w), k2 in sorted(info.vars.items(), key=str):
                        x = self.env_at(L, d2).vars.get(w)
                        if k2 == 'el' and isinstance(x, SEl):
                            out.append(('top %d %s %d %s' % (depth, v, d2, w), Select(c.h['parent'], x.t) == 0))
                elif isinstance(cur, SEl):
                    out.append(('exists %d %s' % (depth, v), And(cur.t > 0, cur.t <= c.h['alloc'])))
                    if 'root' in c.h and isinstance(v0, SEl):
                        out.append(('same root %d %s' % (depth, v), Select(c.h['root'], cur.t) == Select(c.h['root'], v0.t)))
        for lid, kind in sorted(info.lists.items()):
            l = c.lists.get(lid)
            if l is None or lid not in L.pre.lists:
                continue
            self.list_candidates(c, L, lid, l, out)
        self.heap_candidates(c, L, out)
        self.view_candidates(c, L, out)
        for nm, b in sorted(T_.get('search', {}).items()):
            pre = self.pre_consts(c, L)
            ks = T_['searchk']
            conds = [x for x in b if all(y.eq(ks) or y.get_id() in pre or y.get_id() in c_lits() for y in consts_of(x))] or b
            body = Or(*conds) if len(conds) > 1 else conds[0]
            ks = T_['searchk']
            g = substitute(body, (ks, JJ))
            pats = [p for p in self.select_pats(g, JJ)]
            out.append(('search %s' % nm, ForAll([JJ], Implies(And(0 <= JJ, JJ < k), g), patterns=pats) if pats
                        else ForAll([JJ], Implies(And(0 <= JJ, JJ < k), g))))
        used = {}
        for fi, fn in enumerate(list(self.invariants.get(L.fn, ())) + list(self.invariants.get('*', ()))):
            try:
                for nm, f in fn(c, L) or ():
                    if isinstance(f, bool):
                        f = BoolVal(f)
                    nm = 'user %d %s' % (fi, nm)
                    if nm in used:
                        raise Unsupported('two invariants of one name: ' + nm)
                    used[nm] = True
                    out.append((nm, f))
            except (KeyError, AttributeError, z3.Z3Exception, TypeError) as e:
                if DEBUG:
                    traceback.print_exc()
        return out

    def trace_drop(self, L, cname, f):
        if DEBUG and cname.startswith('user '):
            print('   DROP pass', self.passes, L.key[-2:], 'entry' if z3.is_int_value(L.k) else 'end', cname)

    def select_pats(self, g, j):
        """select terms over the bound variable usable as triggers"""
        out = []
        seen = set()

        def walk(t):
            if t.get_id() in seen:
                return False
            seen.add(t.get_id())
            has = t.eq(j)
            for ch in t.children():
                has = walk(ch) or has
            if has and z3.is_select(t) and not z3.is_quantifier(t) and len(out) < 4:
                if t.children()[1].eq(j):
                    out.append(t)
            return has or z3_contains(t, j)
        walk(g)
        out = [t for t in out if not any(z3_has_bool(t) for _ in (0,))]
        return out[:2]

    def list_candidates(self, c, L, lid, l, out):
        s0 = L.pre.lists[lid]
        n0 = IntVal(len(s0[0])) if s0[0] is not None else s0[1]
        n = IntVal(len(l.items)) if l.concrete else l.n
        T_ = L.info.templates
        for st in sorted(T_.get(('lstep', lid), ())):
            out.append(('len %s +%d' % (lid, st), n == n0 + st * L.k))
        out.append(('len %s >=' % lid, n >= n0))
        if l.concrete:
            # entry state of a concrete list: nothing to say about its elements yet
            arr = None
        else:
            arr = l.arr
        kind = L.info.lists.get(lid)
        # prefix unchanged
        if s0[0] is not None:
            fs = []
            for i, v in enumerate(s0[0]):
                if arr is not None:
                    try:
                        fs.append(Select(arr, IntVal(i)) == pack(c, v, l.kind))
                    except Unsupported:
                        fs = None
                        break
            if fs is not None:
                out.append(('prefix %s' % lid, And(*fs) if len(fs) > 1 else (fs[0] if fs else BoolVal(True))))
        elif arr is not None and arr.sort() == s0[2].sort():
            out.append(('prefix %s' % lid, FA([xi], Implies(And(0 <= xi, xi < n0), Select(arr, xi) == Select(s0[2], xi)), Select(arr, xi))))
        t = T_.get(('lmap', lid))
        if t is not None:
            val, ks = t
            if arr is None:
                out.append(('map %s' % lid, BoolVal(True)) if n0.eq(n) or True else None)
            else:
                g = substitute(val, (ks, xi - n0))
                if g.sort() == arr.sort().range():
                    out.append(('map %s' % lid, FA([xi], Implies(And(n0 <= xi, xi < n0 + L.k), Select(arr, xi) == g), Select(arr, xi))))

    def heap_candidates(self, c, L, out):
        info = L.info
        T_ = info.templates
        h0 = L.pre.h
        if not info.heap:
            return
        al0 = h0.get('alloc')
        for st in sorted(T_.get(('hstep', 'alloc'), ())):
            out.append(('alloc +%d' % st, c.h['alloc'] == al0 + st * L.k))
        for comp in sorted(info.heap):
            if comp == 'alloc' or comp not in h0:
                continue
            cur, o = c.h[comp], h0[comp]
            if not z3.is_array(cur) or cur.sort().domain() != I:
                continue
            s = Select(cur, xe)
            if al0 is not None:
                out.append(('frame %s' % comp, FA([xe], Implies(xe <= al0, s == Select(o, xe)), s)))
                locs = T_.get(('locs', comp), ())
                if locs:
                    out.append(('frame %s but' % comp, FA([xe], Implies(And(xe <= al0, *[xe != x for x in locs]), s == Select(o, xe)), s)))
                    if comp in ('kids',):
                        for x in locs:
                            # children prefix of a growing element
                            kx, k0 = Select(cur, x), Select(o, x)
                            n0 = Select(h0['klen'], x)
                            sx = Select(kx, xi)
                            out.append(('kids prefix %s' % x, FA([xi], Implies(And(0 <= xi, xi < n0), sx == Select(k0, xi)), sx)))
                    if comp == 'klen':
                        for x in locs:
                            for st in (-1, 0, 1):
                                out.append(('klen %s +%d' % (x, st), Select(cur, x) == Select(o, x) + st * L.k))
                            out.append(('klen %s >=' % x, Select(cur, x) >= Select(o, x)))
                for x in T_.get(('locs', 'klen'), ()):
                    if comp in ('parent', 'pos'):
                        out.append(('frame %s off %s' % (comp, x), FA([xe], Implies(And(xe <= al0, Select(h0['parent'], xe) != x), s == Select(o, xe)), s)))
                    if comp in ('pt', 'root') and 'root' in h0:
                        out.append(('frame %s off %s' % (comp, x), FA([xe], Implies(And(xe <= al0, Select(h0['root'], xe) != Select(h0['root'], x)), s == Select(o, xe)), s)))
                        if comp == 'root':
                            out.append(('root of %s' % x, Select(cur, x) == Select(o, x)))
                for val in T_.get(('newval', comp), ()):
                    out.append(('new %s %s' % (comp, val), FA([xe], Implies(And(al0 < xe, xe <= c.h['alloc']), s == val), s)))
                if comp in ('kids', 'klen'):
                    pass

    def item_term(self, L, i):
        s = L.seq
        while getattr(s, 'base', None) is not None:
            s = s.base
        if s.ref is None:
            return None
        try:
            t = s.ref(i)
        except Exception:
            return None
        return t if z3.is_select(t) else None

    def item_candidates(self, c, L, out):
        """the elements a loop runs over: those to come are as before, those done all got the same value"""
        info, h0 = L.info, L.pre.h
        if L.seq is None or not info.heap:
            return
        t = self.item_term(L, xi)
        if t is None:
            return
        v = SEl(t)
        src = L.seq.src
        inv = inv_of(src) if isinstance(src, PList) else None
        if inv is not None:
            ix = Select(inv, xe)
            mem = And(0 <= ix, ix < L.n, substitute(t, (xi, ix)) == xe)
            for comp in sorted(info.heap):
                if comp != 'alloc' and comp in h0 and z3.is_array(c.h[comp]) and c.h[comp].sort().domain() == I:
                    s = Select(c.h[comp], xe)
                    out.append(('frame items %s' % comp, FA([xe], Implies(And(xe <= h0['alloc'], Not(mem)), s == Select(h0[comp], xe)), s)))
        for comp in sorted(info.heap):
            if comp == 'alloc' or comp not in h0 or not z3.is_array(c.h[comp]) or c.h[comp].sort().domain() != I:
                continue
            s = Select(c.h[comp], v.t)
            out.append(('todo %s' % comp, FA([xi], Implies(And(L.k <= xi, xi < L.n), s == Select(h0[comp], v.t)), v.t)))
            for val, ks in info.templates.get(('donefn', comp), ()):
                g = substitute(val, (ks, xi))
                out.append(('donefn %s %s' % (comp, str(val)[:300]), FA([xi], Implies(And(0 <= xi, xi < L.k), s == g), v.t)))
            for val in info.templates.get(('doneval', comp), ()):
                out.append(('done %s %s' % (comp, val), FA([xi], Implies(And(0 <= xi, xi < L.k), s == val), v.t)))

    def view_candidates(self, c, L, out):
        self.item_candidates(c, L, out)
        for vk in sorted(getattr(L.info, 'views', ())):
            v, v0 = c.views.get(vk), L.pre.views.get(vk)
            if v is None or v0 is None:
                continue
            for st in sorted(L.info.templates.get(('vstep', vk), ())):
                out.append(('view %s %s +%d' % (vk[1], vk[2], st), v.n == v0.n + st * L.k))
                if st == -1:
                    y = Select(v0.arr, xi)
                    out.append(('view %s %s shift' % (vk[1], vk[2]), And(
                        FA([xi], Implies(And(0 <= xi, xi < v.n), Select(v.arr, xi) == Select(v0.arr, xi + L.k)), Select(v.arr, xi)),
                        FA([xi], Implies(And(L.k <= xi, xi < v0.n), And(Select(v.idx, y) == xi - L.k, Select(v.arr, xi - L.k) == y)), y))))
            s = Select(v.arr, xi)
            out.append(('view prefix %s' % (vk,), FA([xi], Implies(And(0 <= xi, xi < v0.n), s == Select(v0.arr, xi)), s)))
            # views that equal a list which changes in the same loop
            for lid in sorted(L.info.lists):
                l = c.lists.get(lid)
                if l is not None and not l.concrete and l.kind == 'el':
                    out.append(('view %s==%s' % (vk[1:], lid), And(v.n == l.n, FA([xi], Implies(And(0 <= xi, xi < v.n), Select(v.arr, xi) == Select(l.arr, xi)), s, Select(l.arr, xi)))))

    # ------------------------------------------------ template discovery
    def closed(self, c, L, t, extra=()):
        """rewrite t (a term at the end of an arbitrary iteration) over k and loop constants; None if impossible"""
        k = L.k
        info = L.info
        sub = []
        for (depth, v), kind in info.vars.items():
            sts = info.templates.get(('step', depth, v), ())
            if kind == 'int' and len(sts) == 1 and ('int %d %s +%d' % (depth, v, list(sts)[0])) not in info.dropped:
                head = L.head_vars.get((depth, v))
                v0 = iterm(L.pre.envs[depth][1].get(v))
                if head is not None and v0 is not None:
                    sub.append((head, v0 + list(sts)[0] * k))
        sts = info.templates.get(('hstep', 'alloc'), ())
        if len(sts) == 1 and ('alloc +%d' % list(sts)[0]) not in info.dropped and 'alloc' in L.head_h:
            sub.append((L.head_h['alloc'], L.pre.h['alloc'] + list(sts)[0] * k))
        for lid in info.lists:
            sts = info.templates.get(('lstep', lid), ())
            if len(sts) == 1 and lid in L.head_lists and L.head_lists[lid] is not None and ('len %s +%d' % (lid, list(sts)[0])) not in info.dropped:
                s0 = L.pre.lists[lid]
                n0 = IntVal(len(s0[0])) if s0[0] is not None else s0[1]
                sub.append((L.head_lists[lid], n0 + list(sts)[0] * k))
        for comp, b in L.head_h.items():
            if comp != 'alloc':
                pass
        if sub:
            t = substitute(t, *sub)
        t = simplify(t)
        for x in consts_of(t):
            if x.eq(k) or x.get_id() in L.pre_consts or x.get_id() in c_lits() or older(x, L):
                continue
            return None
        return t

    def discover(self, c, L, mid, npc):
        info = L.info
        T_ = info.templates
        new = [False]

        def dirty():
            self.dirty = True
            new[0] = True
        L.head_vars, L.head_lists, L.head_h = {}, {}, {}
        for (depth, v), kind in info.vars.items():
            if kind == 'int':
                L.head_vars[(depth, v)] = iterm(mid.envs[depth][1].get(v))
        for lid in info.lists:
            s = mid.lists.get(lid)
            L.head_lists[lid] = s[1] if s and s[0] is None else None
        for comp in info.heap:
            L.head_h[comp] = mid.h[comp]
        L.pre_consts = self.pre_consts(c, L)

        def add(key, val):
            s = T_.setdefault(key, set())
            if val not in s and len(s) < 4:
                s.add(val)
                dirty()
        for (depth, v), kind in info.vars.items():
            if kind == 'int':
                a, b = iterm(mid.envs[depth][1].get(v)), iterm(self.env_at(L, depth).vars.get(v))
                if a is not None and b is not None:
                    d = simplify(b - a)
                    if z3.is_int_value(d):
                        add(('step', depth, v), d.as_long())
        if 'alloc' in info.heap:
            d = simplify(c.h['alloc'] - mid.h['alloc'])
            if z3.is_int_value(d):
                add(('hstep', 'alloc'), d.as_long())
        for lid in info.lists:
            l = c.lists[lid]
            s = mid.lists.get(lid)
            if s is None or s[0] is not None or l.concrete:
                continue
            d = simplify(l.n - s[1])
            if z3.is_int_value(d):
                add(('lstep', lid), d.as_long())
                if d.as_long() == 1 and l.arr.decl().kind() == z3.Z3_OP_STORE and l.arr.arg(0).eq(s[2]):
                    val = self.closed(c, L, l.arr.arg(2))
                    old = T_.get(('lmap', lid), MISSING)
                    if val is None:
                        pass
                    elif old is MISSING:
                        T_[('lmap', lid)] = (val, L.k)
                        dirty()
                    elif old is not None and not substitute(val, (L.k, old[1])).eq(old[0]):
                        T_[('lmap', lid)] = None
                        dirty()
        for comp in info.heap:
            if comp == 'alloc':
                continue
            t, base = c.h[comp], mid.h[comp]
            stores = []
            while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE and not t.eq(base):
                stores.append((t.arg(1), t.arg(2)))
                t = t.arg(0)
            for loc, val in stores[:1]:
                it = self.item_term(L, L.k) if L.seq is not None else None
                if it is not None and loc.eq(it) and not self.is_pre(val, L):
                    g = substitute(val, *[(mid.h[x], L.pre.h[x]) for x in info.heap if x in L.pre.h])
                    g = self.closed(c, L, g)
                    lst = T_.setdefault(('donefn', comp), [])
                    if g is not None and len(lst) < 3 and not any(substitute(x, (ks, L.k)).eq(g) for x, ks in lst):
                        lst.append((g, L.k))
                        dirty()
            for loc, val in stores:
                if self.is_pre(loc, L):
                    key = ('locs', comp)
                    lst = T_.setdefault(key, [])
                    if not any(x.eq(loc) for x in lst) and len(lst) < 4:
                        lst.append(loc)
                        dirty()
                elif self.is_pre(val, L):
                    key = ('doneval', comp)
                    lst = T_.setdefault(key, [])
                    if not any(x.eq(val) for x in lst) and len(lst) < 3:
                        lst.append(val)
                        dirty()
                    key = ('newval', comp)
                    lst = T_.setdefault(key, [])
                    if not any(x.eq(val) for x in lst) and len(lst) < 3:
                        lst.append(val)
                        dirty()
        for vk in getattr(info, 'views', ()):
            v, v0 = c.views.get(vk), mid.views.get(vk)
            if v is not None and v0 is not None:
                d = simplify(v.n - v0.n)
                if z3.is_int_value(d):
                    add(('vstep', vk), d.as_long())
        # conditions under which an iteration continues
        pcnew = c.pc[npc:]
        good = []
        for f in pcnew:
            if z3.is_quantifier(f):
                continue
            g = self.closed(c, L, f)
            if g is None:
                continue
            if not any(x.eq(L.k) for x in consts_of(g)):
                continue
            good.append(g)
        ks = T_.setdefault('searchk', L.k)
        good = [substitute(g, (L.k, ks)) for g in good]
        cond = And(*good) if len(good) > 1 else (good[0] if good else BoolVal(True))
        lst = T_.setdefault('search', {}).setdefault('c', [])
        if not any(x.eq(cond) for x in lst):
            if len(lst) < 6:
                lst.append(cond)
                dirty()
            elif not any(is_true(x) for x in lst):
                lst.append(BoolVal(True))
                dirty()
        return new[0]

    def is_pre(self, t, L):
        return all(x.get_id() in L.pre_consts or x.get_id() in c_lits() or older(x, L) for x in consts_of(t))

    def pre_consts(self, c, L):
        ids = set()
        if not hasattr(L, '_pre'):
            s = set()
            for f in c.pc[:L.pre.pcn]:
                for x in consts_of(f):
                    s.add(x.get_id())
            for t in L.pre.h.values():
                for x in consts_of(t):
                    s.add(x.get_id())
            for st in L.pre.lists.values():
                for t in (st[1], st[2]):
                    if t is not None:
                        for x in consts_of(t):
                            s.add(x.get_id())
            if L.n is not None and not isinstance(L.n, int):
                for x in consts_of(L.n):
                    s.add(x.get_id())
            L._pre = s
        return L._pre

    def exit_hook(self, c, L):
        pass

    # ------------------------------------------------ contracts and natives
    def contract_for(self, c, q, args):
        con = self.contracts.get(q)
        if con is None:
            return None
        if c.ghost.get('no_contract') == q:
            return None
        if getattr(con, 'when', None) is not None and not con.when(c, args):
            return None
        self.contracts_used.add(q)
        return con

    def native_of(self, f):
        try:
            n = self.natives.get(f)
        except TypeError:
            return None
        return n

    def native(self, f, fn, name=''):
        self.natives[f] = Native(fn, name)

    def setup_natives(self):
        from lxml import etree
        import copy
        import ezodf.xmlns as X
        import ezodf.compatibility as C
        lx = self.lx

        def element(c, a, k):
            at = {}
            k = dict(k)
            k.pop('nsmap', None)
            if 'attrib' in k or len(a) > 1:
                raise Unsupported('Element attributes')
            return lx.new_element(c, a[0], k)

        def subelement(c, a, k):
            k = dict(k)
            k.pop('nsmap', None)
            x = lx.new_element(c, a[1], k)
            lx.append(c, lx.need_el(c, a[0]), x)
            return x

        def deepcopy(c, a, k):
            if isinstance(a[0], SEl):
                return lx.deepcopy(c, a[0].t)
            raise Unsupported('deepcopy')
        self.native(etree.Element, element, 'etree.Element')
        self.native(etree.SubElement, subelement, 'etree.SubElement')
        self.native(copy.deepcopy, deepcopy, 'deepcopy')
        self.native(X.wrap, lambda c, a, k: self.wrap(c, a[0]), 'wrap')
        self.X = X

        def is_string(c, a, k):
            return c.isinstance_(a[0], str)
        import itertools

    def known_tag(self, c, e):
        t = simplify(Select(self.lx.h(c, 'tag'), e))
        v = lit_value(t)
        if v is not None:
            return v
        cands = []
        for f in c.pc:
            if z3.is_eq(f):
                for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                    if a.sort() == T and lit_value(b) is not None and lit_value(b) not in cands:
                        cands.append(lit_value(b))
        for v in list(self.interesting_tags) + cands:
            if v and v.startswith('{') and c.entails(t == c.lit(v)):
                return v
        return None

    def wrap(self, c, el):
        if not isinstance(el, SEl):
            raise PyExc(AttributeError, ('tag',))
        tag = self.known_tag(c, el.t)
        if tag is None and not c.no_fork:
            for t in self.wrap_split:
                if c.branch(Select(self.lx.h(c, 'tag'), el.t) == c.lit(t)):
                    tag = t
                    break
        if tag is None:
            return SWrap(el.t)
        cls = self.X._ClassRegistry._classmap.get(tag) or self.X._ClassRegistry._classmap['GenericWrapper']
        return c.call(cls, [], {'xmlnode': el})

    # ------------------------------------------------ defaults for hooks
    def str_special(self, c, o, name, a, k):
        return MISSING

    def str_decode(self, c, a):
        raise Unsupported('str decode')

    def int_binop(self, c, op, a, b):
        return MISSING

    def set_hook(self, c, s):
        return MISSING

    def getattr_symbolic(self, c, a):
        return MISSING

    def wrap_getattr(self, c, o, name):
        if name == 'xmlnode':
            return SEl(o.t)
        if name == 'kind':
            t = kind_of(Select(self.lx.h(c, 'tag'), o.t))
            c.assume(t != NONE)
            return SStr(t)
        w = self.wrap(c, SEl(o.t)) if self.wrap_split else None
        if isinstance(w, PObj):
            return c.getattr_(w, name)
        from ezodf.base import GenericWrapper
        if name in ('tail', 'text'):
            return c.getattr_(SEl(o.t), name)
        raise Unsupported('attribute %s of a wrapper of unknown class' % name)

    def wrap_setattr(self, c, o, name, v):
        w = self.wrap(c, SEl(o.t)) if self.wrap_split else None
        if isinstance(w, PObj):
            return c.setattr_(w, name, v)
        if name in ('tail', 'text'):
            return c.setattr_(SEl(o.t), name, v)
        raise Unsupported('attribute %s of a wrapper of unknown class' % name)

    def wrap_iter(self, c, o):
        raise Unsupported('iteration over a wrapper of unknown class')

    def wrap_isinstance(self, c, o, cls):
        from ezodf.base import GenericWrapper
        if cls is GenericWrapper or cls is object:
            return True
        if isinstance(cls, type) and issubclass(cls, GenericWrapper):
            raise Unsupported('isinstance on a wrapper of unknown class')
        return False

    def wrap_hasattr(self, c, o, name):
        if name in ('kind', 'xmlnode', 'text', 'tail', 'plaintext', 'textlen'):
            return True
        raise Unsupported('hasattr on a wrapper of unknown class')

    def opaque_getattr(self, c, o, name):
        raise Unsupported('attribute %s of an opaque object' % name)

    def opaque_setattr(self, c, o, name, v):
        raise Unsupported('attribute %s of an opaque object' % name)

    def opaque_isinstance(self, c, o, cls):
        if cls is object:
            return True
        return False

    def opaque_hasattr(self, c, o, name):
        raise Unsupported('hasattr on an opaque object')


_CONSTS = {}


def consts_of(t):
    """uninterpreted constants of a term"""
    key = t.get_id()
    r = _CONSTS.get(key)
    if r is not None:
        return r[1]
    out, seen, todo = {}, set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
            continue
        if z3.is_var(x):
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[x.get_id()] = x
            else:
                todo.extend(x.children())
    r = list(out.values())
    _CONSTS[key] = (t, r)
    return r


def older(x, L):
    """constant made before the loop"""
    base, _, n = x.decl().name().rpartition('!')
    return n.isdigit() and base in L.pre.cnt and int(n) < L.pre.cnt[base]


def c_lits():
    d = LITCODE
    if len(c_lits.cache) != len(d) + 1:
        c_lits.cache = set(d.keys()) | {NONE.get_id()}
    return c_lits.cache


c_lits.cache = set()


def z3_contains(t, j):
    return any(ch.eq(j) for ch in t.children())


def z3_has_bool(t):
    """terms with boolean structure or arithmetic are no good triggers"""
    todo = [t]
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_STORE):
            return True
        todo.extend(x.children())
    return False
