"""helpers shared by the contracts"""
import z3
from pyvc.core import *
from pyvc.core import Path, Seq, SObj, SList, SDict, SExc, Model, GhostVal, Ref, HObj, UNDEF, PyRaise
from pyvc.verify import Contract, Inv, Ctx
from pyvc.builtin_models import SByteArray
from pyvc.interp import BoundM, GenIter

I = z3.IntSort()


def F(name, *sorts):
    """uninterpreted specification function (unfolded where the contracts need it)"""
    return z3.Function(name, *([I] * (len(sorts) or 1)), I) if not sorts else z3.Function(name, *sorts)


def F2(name):
    return z3.Function(name, I, I, I)


def allof(*cs):
    return And(*cs)


def tup(v, n):
    """components of a returned tuple, or None"""
    if isinstance(v, tuple) and len(v) == n:
        return v
    if isinstance(v, SObj) and v.items is not None and len(v.items) == n:
        return tuple(v.items)
    return None


def is_exc(e, *cls):
    return issubclass(e.cls, cls)


def P2(e):
    """2**e as a specification term (1 for a concrete negative e, never used there)"""
    e = conc(e)
    if isinstance(e, int):
        return z3.IntVal(2 ** max(e, 0))
    return zint(Path.cur.pow2(e))


def blen(v):
    """length of bytes or bytearray"""
    return zint(as_sbytes(v).n)


def bat(v, i):
    return zint(as_sbytes(v).get(i))
