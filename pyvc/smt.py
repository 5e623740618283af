"""SMT layer of pyvc: sorts, string/number axioms and the prover front end.

All obligations are first-order formulas over mathematical integers,
uninterpreted strings (sort T), uninterpreted floats (sort F) and arrays.
A goal counts as proved only when z3 answers `unsat` for its negation.
"""
import time, hashlib
import z3
z3.z3.Z3_DEBUG = False        # argument assertions of the python binding
from z3 import (DeclareSort, Function, Const, IntSort, BoolSort, ArraySort, And, Or, Not, Implies, ForAll,
                Int, If, Store, Select, BoolVal, IntVal, is_true, is_false, simplify, substitute)
z3.set_param('warning', False)

T = DeclareSort('T')            # Python str, plus the constant NONE (= absent / None)
F = DeclareSort('F')            # Python float
I = IntSort()
B = BoolSort()
AII = ArraySort(I, I)
ATT = ArraySort(T, T)
AIT = ArraySort(I, T)

NONE = Const('None_', T)

Val = z3.Datatype('Val')
Val.declare('VNone')
Val.declare('VInt', ('vi', I))
Val.declare('VBool', ('vb', B))
Val.declare('VStr', ('vs', T))
Val.declare('VFlt', ('vf', F))
Val.declare('VEl', ('ve', I))          # lxml element
Val.declare('VWr', ('vw', I))          # ezodf wrapper around an element
Val.declare('VPair', ('va', I), ('vc', I))
Val.declare('VObj', ('vo', I))         # opaque object
Val = Val.create()

code = Function('code', T, I)          # injective numbering of literals
slen = Function('slen', T, I)
cat = Function('cat', T, T, T)
nth = Function('nth', T, I, T)         # nth character (a string of length one)
prefix = Function('prefix', T, I, T)
spaces = Function('spaces', I, T)
ordf = Function('ord', T, I)
chrf = Function('chr', I, T)
str_of_int = Function('str_of_int', I, T)
int_of_str = Function('int_of_str', T, I)
is_int = Function('is_int', T, B)
str_of_flt = Function('str_of_flt', F, T)
flt_of_str = Function('flt_of_str', T, F)
is_flt = Function('is_flt', T, B)
ftrue = Function('ftrue', F, B)
flt_of_int = Function('flt_of_int', I, F)
powi = Function('powi', I, I, I)
kind_of = Function('kind_of', T, T)    # class name of the wrapper registered for a tag

LITS = {}      # python str -> z3 const
LITCODE = {}


def lit(s):
    if s not in LITS:
        LITS[s] = Const('str:%d:%s' % (len(LITS), s[:24].encode('ascii', 'replace').decode()), T)
        LITCODE[LITS[s].get_id()] = (s, len(LITS))
    return LITS[s]


EMPTY = lit('')


def lit_value(t):
    """the python string of a literal term, or None"""
    r = LITCODE.get(t.get_id())
    return r[0] if r else None


def lit_facts(s):
    t = lit(s)
    fs = [code(t) == LITCODE[t.get_id()][1], slen(t) == len(s)]
    if len(s) == 1:
        fs.append(ordf(t) == ord(s))
    try:
        if str(int(s)) == s:
            fs += [str_of_int(IntVal(int(s))) == t]
        fs += [int_of_str(t) == int(s), is_int(t)]
    except ValueError:
        fs.append(Not(is_int(t)))
    try:
        float(s)
        fs.append(is_flt(t))
    except ValueError:
        fs.append(Not(is_flt(t)))
    return fs


def FA(vs, body, *pats):
    pats = [p if not isinstance(p, (list, tuple)) else z3.MultiPattern(*p) for p in pats]
    try:
        return ForAll(vs, body, patterns=list(pats)) if pats else ForAll(vs, body)
    except z3.Z3Exception:      # a term that cannot be a pattern (if-then-else in it)
        return ForAll(vs, body)


_s, _t, _u = z3.Consts('s! t! u!', T)
_i, _j, _n, _m = z3.Ints('i! j! n! m!')
_f = Const('f!', F)

BASE_AXIOMS = [
    code(NONE) == 0,
    FA([_n], And(int_of_str(str_of_int(_n)) == _n, is_int(str_of_int(_n)), is_flt(str_of_int(_n)),
                 str_of_int(_n) != NONE, str_of_int(_n) != EMPTY, slen(str_of_int(_n)) > 0,
                 flt_of_str(str_of_int(_n)) == flt_of_int(_n)), str_of_int(_n)),
    FA([_f], And(flt_of_str(str_of_flt(_f)) == _f, is_flt(str_of_flt(_f)),
                 str_of_flt(_f) != NONE, str_of_flt(_f) != EMPTY, slen(str_of_flt(_f)) > 0), str_of_flt(_f)),
    FA([_s], And(slen(_s) >= 0, (slen(_s) == 0) == (_s == EMPTY)), slen(_s)),
    FA([_i], powi(_i, 0) == 1, powi(_i, 0)),
    FA([_i, _n, _m], Implies(And(_n > 0, _m == _n - 1), powi(_i, _n) == _i * powi(_i, _m)), [powi(_i, _n), powi(_i, _m)]),
    slen(NONE) == 1,  # arbitrary: NONE is no string; only here to keep slen total and EMPTY distinct
]

TEXT_AXIOMS = [
    FA([_s, _t, _u], cat(cat(_s, _t), _u) == cat(_s, cat(_t, _u)), cat(cat(_s, _t), _u)),
    FA([_s], cat(_s, EMPTY) == _s, cat(_s, EMPTY)),
    FA([_s], cat(EMPTY, _s) == _s, cat(EMPTY, _s)),
    FA([_s, _t], And(slen(cat(_s, _t)) == slen(_s) + slen(_t), cat(_s, _t) != NONE), cat(_s, _t)),
    spaces(0) == EMPTY,
    FA([_n], Implies(_n > 0, spaces(_n) == cat(spaces(_n - 1), lit(' '))), spaces(_n)),
    FA([_n], Implies(_n > 0, spaces(_n) == cat(lit(' '), spaces(_n - 1))), spaces(_n)),
    FA([_n], Implies(_n >= 0, And(slen(spaces(_n)) == _n, spaces(_n) != NONE)), spaces(_n)),
    FA([_s], prefix(_s, 0) == EMPTY, prefix(_s, 0)),
    FA([_s, _n], Implies(_n > 0, prefix(_s, _n) == cat(prefix(_s, _n - 1), nth(_s, _n - 1))), prefix(_s, _n)),
    FA([_s], Implies(_s != NONE, prefix(_s, slen(_s)) == _s), slen(_s)),
    FA([_s, _n], And(slen(nth(_s, _n)) == 1, nth(_s, _n) != NONE), nth(_s, _n)),
] + lit_facts('') + lit_facts(' ')


INCQ = int(__import__('os').environ.get('PYVC_INCQ', 500))
RL = int(__import__('os').environ.get('PYVC_RL', 40000))


def goals(f, depth=0):
    """formulas that together are f: conjuncts, also below quantifiers and premises"""
    if z3.is_and(f):
        return [g for x in f.children() for g in goals(x, depth)]
    if z3.is_quantifier(f) and f.is_forall():
        # the names are used nowhere else, and not twice in one formula
        vs = [z3.Const('%d?goal?%d' % (depth, i), f.var_sort(i)) for i in range(f.num_vars())]
        gs = goals(z3.substitute_vars(f.body(), *reversed(vs)), depth + 1)
        return [f] if len(gs) == 1 else [z3.ForAll(vs, g) for g in gs]
    if z3.is_implies(f):
        gs = goals(f.arg(1), depth)
        return [f] if len(gs) == 1 else [Implies(f.arg(0), g) for g in gs]
    return [f]


def given_up(why):
    return any(x in why for x in ('timeout', 'canceled', 'resource'))


class Prover(object):
    """proves `facts => goal`; results are cached per formula"""

    def __init__(self, timeout=20000):
        self.seed = 0
        self.timeout = timeout
        self.cache = {}
        self.keep = []
        self.queries = 0
        self.solver_s = 0.0
        self.by = {}
        self.core = None
        self.cur, self.lists, self.chain = None, [], {}

    def _solver(self, timeout, seed=0, solve_eqs=True):
        """the resource limit decides (the same on every run), not the clock"""
        s = z3.Solver()
        s.set('auto_config', False)
        s.set('mbqi', False)
        if not solve_eqs:
            s.set('smt.solve_eqs', False)
        s.set('timeout', int(timeout) * 6)
        s.set('rlimit', int(timeout) * 2000)
        if seed or self.seed:
            s.set('random_seed', seed + self.seed)
        return s

    def ids(self, facts):
        """ids of a growing list of facts (the list object of one path)"""
        if self.cur is not facts:
            self.cur, self.cur_ids, self.inc = facts, [], [None, None]
            self.lists.append(facts)
            self.cur_key = 0
        l = self.cur_ids
        for i in range(len(l), len(facts)):
            x = facts[i].get_id()
            l.append(x)
            # chained exact key: numbers for (prefix, next fact) pairs
            k = (self.cur_key, x)
            n = self.chain.get(k)
            if n is None:
                n = self.chain[k] = len(self.chain) + 1
            self.cur_key = n
        return self.cur_key

    def check(self, facts, goal, timeout=None, retry=True):
        """True = proved, False = refuted (sat), None = unknown"""
        if is_true(goal):
            return True
        key = (self.ids(facts), goal.get_id())
        r = self.cache.get(key)
        if r is not None:
            return r[0]
        t0 = time.time()
        to = timeout or self.timeout
        res = None
        # solving equations in advance is fast, but loses terms that trigger instances: without it in a second attempt
        for attempt in ((0, 1, 2, 3) if retry is True else (0, 1, 2) if retry else (0, 1)):
            if attempt < 2:
                if self.inc[attempt] is None:
                    self.inc[attempt] = [self._solver(to, 0, attempt == 0), 0, 0]
                i = self.inc[attempt]
                s = i[0]
                s.set('timeout', 10000)
                s.set('rlimit', RL)
                for f in facts[i[1]:]:
                    s.add(f)
                i[1] = len(facts)
                s.push()
                s.add(Not(goal))
                self.queries += 1
                c = s.check()
                why = s.reason_unknown() if c == z3.unknown else ''
                s.pop()
                i[2] += 1
                if c != z3.unsat or i[2] > INCQ:
                    self.inc[attempt] = None     # learned instances slow the solver down: start afresh
            else:
                s = self._solver(to, 0 if attempt == 2 else 7, attempt == 3)
                s.add(*facts)
                s.add(Not(goal))
                self.queries += 1
                c = s.check()
                why = s.reason_unknown() if c == z3.unknown else ''
            if c == z3.unsat:
                res = True
                self.by['z3'] = self.by.get('z3', 0) + 1
                break
            if c == z3.sat:
                res = False
                break
            if not given_up(why) and attempt in (1, 2):
                break  # saturated: another seed will not help
            if attempt == 0 and not retry and given_up(why):
                break
        self.solver_s += time.time() - t0
        self.keep.append(goal)
        self.cache[key] = (res,)
        return res

    def model_hints(self, facts, goal, consts, timeout=4000):
        """values of the named constants in a (possibly partial) counter-model"""
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(*facts)
        s.add(Not(goal))
        out = {}
        try:
            c = s.check()
            m = s.model()
        except z3.Z3Exception:
            s = self._solver(timeout)
            s.add(*facts)
            s.add(Not(goal))
            try:
                c = s.check()
                m = s.model()
            except z3.Z3Exception:
                return 'unknown', out
        for name, t in consts.items():
            try:
                v = m.eval(t, model_completion=False)
                if z3.is_int_value(v):
                    out[name] = v.as_long()
                elif z3.is_true(v) or z3.is_false(v):
                    out[name] = z3.is_true(v)
            except z3.Z3Exception:
                pass
        return str(c), out
