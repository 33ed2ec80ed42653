"""Vocabulary shared by the contracts."""
import z3
import pyvc.core  # noqa: F401

from pyvc import contract as C
from pyvc.contract import And, If, Implies, Not, Or, View, axiom, contract, exists, fld, forall, is_, lst, dct, sets, dom, owner, fresh_name
from pyvc.core import AB, AI, AR, B, CARD, CNT, I, PROD, PRODI, R, SUM, SUMI, TYP, is_class
from pyvc.expr import DIG, RANK

import contracts.schema  # noqa: F401

Contract = C.Contract

# ------------------------------------------------------------- table rows
MATCH = z3.Function("rowmatch", AB, AI, AB, AI, B)
MW = z3.Function("match_wit", AB, AI, AB, AI, I)
_d1, _d2 = z3.Const("d1", AB), z3.Const("d2", AB)
_v1, _v2 = z3.Const("v1", AI), z3.Const("v2", AI)
_k = z3.Int("k")
_m = MATCH(_d1, _v1, _d2, _v2)
_w = MW(_d1, _v1, _d2, _v2)
axiom("match: definition (all keys of the second row are in the first with the same value)", ["rowmatch"], z3.And(
    z3.ForAll([_d1, _v1, _d2, _v2, _k], Implies(And(_m, _d2[_k]), And(_d1[_k], _v1[_k] == _v2[_k])), patterns=[z3.MultiPattern(_m, _d2[_k])]),
    z3.ForAll([_d1, _v1, _d2, _v2], Or(_m, And(_d2[_w], Or(Not(_d1[_w]), _v1[_w] != _v2[_w]))), patterns=[_m])), "definition")


# a term the solver is to look at; true of everything
from pyvc.core import KNOWN  # noqa: E402
axiom("known: true of everything", ["known"], z3.ForAll([_k], KNOWN(_k), patterns=[KNOWN(_k)]), "definition")


def match(a, b):
    """row a matches row b (views of PotentialEntry)"""
    x, y = a.entries, b.entries
    return MATCH(x.dom, x.arr, y.dom, y.arr)


def lam(c, s, srt, f, over=()):
    """array i -> f(i); `over` lists the enclosing quantified variables."""
    old = s.binders
    s.binders = list(over)
    try:
        return c.eng.lam(s, srt, f)
    finally:
        s.binders = old


def sumr(c, s, n, f, over=()):
    return SUM(lam(c, s, R, f, over), n)


def prodr(c, s, n, f, over=()):
    return PROD(lam(c, s, R, f, over), n)


def rng(i, n):
    return And(i >= 0, i < n)


def distinct(lst_):
    return forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < lst_.len), lst_[i] != lst_[j]),
                  pat=lambda i, j: [(lst_[i].ref, lst_[j].ref)])


def all_of(lst_, p):
    return forall("i", lambda i: Implies(rng(i, lst_.len), p(lst_[i])), pat=lambda i: [lst_[i].ref])


def in_list(lst_, r):
    return exists("i", lambda i: And(rng(i, lst_.len), lst_[i].ref == r))
