"""shared specification vocabulary"""
import z3
from z3 import And, Or, Not, Implies, If, IntVal, BoolVal, Store, Select
from pyvc.smt import *
from pyvc.core import *
from pyvc.core import PathEnd, Unsupported, PyExc
from pyvc.interp import MISSING, is_concrete
from pyvc.lx import xe, xi, xc, iso, SAttrib
from pyvc import verify
from pyvc.verify import unit, Outcome, STRUCT
import ezodf
from ezodf.xmlns import CN


class Con(object):
    """contract used at call sites instead of the body"""
    def __init__(self, fn, when=None):
        self.fn = fn
        self.when = when

    def apply(self, c, args, kw):
        return self.fn(c, args, kw)


def bind(names, args, kw, defaults=None):
    d = dict(defaults or {})
    for n, a in zip(names, args):
        d[n] = a
    d.update(kw)
    return d


def is_(c, v, x):
    """formula: python value v equals x"""
    t = c.eq_term(v, x)
    return BoolVal(t) if isinstance(t, bool) else t


def isnone(c, v):
    t = c.is_term(v, None)
    return BoolVal(t) if isinstance(t, bool) else t


def same_lists(v, l):
    """view v and list l hold the same elements"""
    return And(v.n == l.n, FA([xi], Implies(And(0 <= xi, xi < v.n), Select(v.arr, xi) == Select(l.arr, xi)), Select(v.arr, xi), Select(l.arr, xi)))
