"""Sidecar contracts on the functions of the repository."""
import z3

from . import types as T
from .core import And, If, Implies, Not, Or, V, View, exists, forall, fresh_name, owner

REG = {}          # (qualified function, receiver type) -> Contract instance
PROPS = {}        # property -> [label]
AXIOMS = []       # (symbol names that trigger it, formula)
LEMMAS = []       # (name, properties, formula, name of the axiom it justifies): proved by the solver on every run


class Contract:
    fn = None         # 'module:Class.name', or 'ext:...' for an external function
    recv = None       # type of self
    args = {}
    ret = None
    pure = False      # neither writes nor allocates
    trusted = False   # assumed, never verified
    loops = ()
    records = {}
    props = ()
    result_term = None
    label = None
    budget = None     # solver resource limit factor
    pub = None
    skips = ()        # background facts about these symbols are left out (they are of no use there)
    inline = False    # callers see the body
    nth = False       # filtered lists are aligned by the positions of what they keep
    view = False      # an external attribute that is a collection (and may be called for itself)

    def requires(self, c):
        return ()

    def ghost(self, c):
        """Facts about ghost functions (definitions), assumed at entry."""
        return ()

    def modifies(self, c):
        return ()

    def steps(self, c):
        """Intermediate claims at the exit, about locals too; each is proved, then used."""
        return ()

    def ensures(self, c):
        return ()

    def assumes(self, c):
        """Facts every caller may use that are not checked in the body (definitions of ghosts)."""
        return ()


def contract(*props):
    def deco(cls):
        k = cls()
        k.props = props
        short = cls.fn.split(":")[1]
        if k.recv and not short.startswith(k.recv.rstrip("!") + "."):
            short = "%s[%s]" % (short, k.recv.rstrip("!"))
        k.label = cls.label or short
        REG[(cls.fn, cls.recv)] = k
        for p in props:
            PROPS.setdefault(p, []).append((cls.fn, cls.recv))
        return cls
    return deco


def axiom(name, symbols, formula, proof=None):
    AXIOMS.append((name, set(symbols), formula, proof))


def lemma(props, name, symbols, formula, goals):
    """An axiom whose justification (the goals, over the definitions) is proved on every run."""
    AXIOMS.append((name, set(symbols), formula, "lemma"))
    LEMMAS.append((name, props, goals))


def fld(cls, attr, pred):
    """modifies: field attr of the objects satisfying pred."""
    o = T.field_owner(cls, attr)
    return [("f:%s.%s%s" % (o, attr, p), pred) for p, _ in T.flatten(T.SCHEMA[o][attr])]


def lst(ety, pred):
    t = T.parse(ety)
    k = T.key(t)
    return [("len:%s" % k, pred)] + [("elt:%s%s" % (k, p), pred) for p, _ in T.flatten(t)]


def dct(k, v, pred):
    k, v = T.parse(k), T.parse(v)
    return [("dom:%s:%s" % (T.key(k), T.key(v)), pred)] + [("val:%s:%s%s" % (T.key(k), T.key(v), p), pred) for p, _ in T.flatten(v)]


def sets(ety, pred):
    return [("mem:%s" % T.key(T.parse(ety)), pred)]


def dom(k, v, pred):
    k, v = T.parse(k), T.parse(v)
    return [("dom:%s:%s" % (T.key(k), T.key(v)), pred)]


def is_(*views):
    """predicate: r is one of these objects."""
    ts = [v.ref if isinstance(v, View) else v for v in views]
    return lambda r: Or([r == t for t in ts])
