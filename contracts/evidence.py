"""C03, C02: contracts on Evidence and EvidenceBuilder (pybbn/graph/jointree.py)."""
from contracts.common import *

M = "pybbn.graph.jointree:"
VIRTUAL, FINDING, OBSERVATION, UNOBSERVE = 1, 2, 3, 4


def states(c, e=None):
    return (e or c.o.self_).node.variable.values


def supplied(d, v):
    """likelihood the caller supplied for state v: 0 when not mentioned"""
    return If(d.has(v), d[v], 0)


def clamp(x):
    return If(x < 0, z3.RealVal(0), If(x > 1, z3.RealVal(1), x))


def states_ok(vs):
    yield "the variable has a state", And(vs.len >= 1, KNOWN(vs[0]))
    yield "states are distinct", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < vs.len), vs[i] != vs[j]), pat=lambda i, j: [(vs[i], vs[j])])


def keys_are_states(vs, d):
    return forall("k", lambda k: Implies(d.has(k), exists("i", lambda i: And(rng(i, vs.len), vs[i] == k))), pat=lambda k: [d.has(k)])


def every(vs, p):
    return forall("i", lambda i: Implies(rng(i, vs.len), p(vs[i])), pat=lambda i: [vs[i]])


def normalised(ty, vs, old, new):
    """the property C03: new is the normalisation of old for evidence kind ty"""
    s = lambda v: supplied(old, v)
    yield "a likelihood for every state", every(vs, new.has)
    yield "virtual: clamped to [0, 1]", Implies(ty == VIRTUAL, every(vs, lambda v: new[v] == clamp(s(v))))
    pos = exists("i", lambda i: And(rng(i, vs.len), s(vs[i]) > 0))
    yield "finding: 1 exactly for positive states, all 1 when there is none", Implies(ty == FINDING, And(
        Implies(pos, every(vs, lambda v: new[v] == If(s(v) > 0, z3.RealVal(1), z3.RealVal(0)))),
        Implies(Not(pos), every(vs, lambda v: new[v] == 1))))
    yield "observation: 1 for one state of maximal likelihood, 0 for all others", Implies(ty == OBSERVATION, exists("i", lambda i: And(
        rng(i, vs.len), every(vs, lambda v: s(v) <= s(vs[i])), every(vs, lambda v: new[v] == If(v == vs[i], z3.RealVal(1), z3.RealVal(0))))))
    yield "withdrawn: 1 everywhere", Implies(ty == UNOBSERVE, every(vs, lambda v: new[v] == 1))


# "d1 is the normalisation of d0 for evidence of kind ty over the states vs": what Evidence.validate
# ensures, under one name (never unfolded by a caller)
NORMAL = z3.Function("normalised", I, I, AI, AB, AR, AB, AR, B)


def all_keys(d, p):
    return forall("k", lambda k: Implies(d.has(k), p(k)), pat=lambda k: [d.has(k), d[k]])


def unit(d):
    return all_keys(d, lambda k: And(d[k] >= 0, d[k] <= 1))


class _Map:
    """a pair of arrays as a view of a dictionary"""
    def __init__(self, d, a):
        self.d, self.a = d, a

    def has(self, k):
        return self.d[k]

    def __getitem__(self, k):
        return self.a[k]


class _List:
    def __init__(self, a, n):
        self.a, self.len = a, n

    def __getitem__(self, i):
        return self.a[i]


def normal_def(t, n, vs, od, oa, nd, na):
    """definition of NORMAL: everything Evidence.validate ensures"""
    vs, new = _List(vs, n), _Map(nd, na)
    yield from normalised(t, vs, _Map(od, oa), new)
    yield "nothing but the states is mentioned", keys_are_states(vs, new)
    yield "likelihoods in [0, 1]", unit(new)


_n, _t, _i = z3.Int("n"), z3.Int("t"), z3.Int("i")
_vs, _od, _oa, _nd, _na = z3.Const("vs", AI), z3.Const("od", AB), z3.Const("oa", AR), z3.Const("nd", AB), z3.Const("na", AR)
_ed, _ea = z3.Const("ed", AB), z3.Const("ea", AR)
_N = NORMAL(_t, _n, _vs, _od, _oa, _nd, _na)
_N2 = NORMAL(_t, _n, _vs, _nd, _na, _ed, _ea)
_N3 = NORMAL(_t, _n, _vs, _od, _oa, _ed, _ea)
_F = And([f for _, f in normal_def(_t, _n, _vs, _od, _oa, _nd, _na)])
_F2 = And([f for _, f in normal_def(_t, _n, _vs, _nd, _na, _ed, _ea)])


def _close(f):
    vs = [_t, _n, _vs, _od, _oa, _nd, _na, _i, _ed, _ea]
    return z3.ForAll(vs, f)


C.lemma(("C02", "C03"), "normalised: a likelihood for every state; withdrawn evidence is one everywhere", ["normalised"], And(
    z3.ForAll([_t, _n, _vs, _od, _oa, _nd, _na, _i], Implies(And(_N, _i >= 0, _i < _n), _nd[_vs[_i]]), patterns=[z3.MultiPattern(_N, _vs[_i])]),
    z3.ForAll([_t, _n, _vs, _od, _oa, _nd, _na, _i], Implies(And(_N, _t == UNOBSERVE, _nd[_i]), _na[_i] == 1), patterns=[z3.MultiPattern(_N, _na[_i])])),
    lambda: [("every state", _close(Implies(And(_F, _i >= 0, _i < _n), _nd[_vs[_i]]))), ("withdrawn", _close(Implies(And(_F, _t == UNOBSERVE, _nd[_i]), _na[_i] == 1)))])
C.lemma(("C02", "C03"), "normalised: normalising again changes nothing", ["normalised"], And(
    z3.ForAll([_t, _n, _vs, _od, _oa, _nd, _na, _ed, _ea], Implies(And(_N, _N2, _n >= 1), _N3), patterns=[z3.MultiPattern(_N, _N2)]),
    z3.ForAll([_t, _n, _vs, _od, _oa, _nd, _na, _ed, _ea, _i], Implies(And(_N, _N2, _n >= 1, _t >= 1, _t <= 4), And(_ed[_i] == _nd[_i], Implies(_nd[_i], _ea[_i] == _na[_i]))),
              patterns=[z3.MultiPattern(_N, _N2, _na[_i]), z3.MultiPattern(_N, _N2, _ea[_i]), z3.MultiPattern(_N, _N2, _nd[_i]), z3.MultiPattern(_N, _N2, _ed[_i])])),
    lambda: [("same states", _close(Implies(And(_F, _F2, _n >= 1), _ed[_i] == _nd[_i])))]
    + [("same likelihoods, kind %d" % t, _close(Implies(And(_F, _F2, _n >= 1, _t == t, _nd[_i]), _ea[_i] == _na[_i]))) for t in (1, 2, 3, 4)]
    + [("normal: " + n, _close(Implies(And(_F, _F2, _n >= 1), f))) for n, f in normal_def(_t, _n, _vs, _od, _oa, _ed, _ea)])


def normal_view(e, old, new):
    vs = e.node.variable.values
    return NORMAL(e.type, vs.len, vs.arr, old.dom, old.arr, new.dom, new.arr)


def fill(d0, d, vs, k):
    yield "keys", forall("x", lambda x: d.has(x) == Or(d0.has(x), exists("i", lambda i: And(rng(i, k), i < vs.len, vs[i] == x))), pat=lambda x: [d.has(x)])
    yield "states filled", forall("i", lambda i: Implies(And(rng(i, k), i < vs.len), d.has(vs[i])), pat=lambda i: [vs[i]])
    yield "old values kept", forall("x", lambda x: Implies(d.has(x), d[x] == If(d0.has(x), d0[x], z3.RealVal(0))), pat=lambda x: [d[x]])


@contract("C03", "C02")
class Validate(Contract):
    fn = M + "Evidence.validate"
    recv = "Evidence"

    def requires(self, c):
        yield from states_ok(states(c))
        yield "only states are mentioned", keys_are_states(states(c), c.o.self_.values)

    def modifies(self, c):
        return dct("atom", "real", is_(c.o.self_.values))

    def ensures(self, c):
        yield from normalised(c.o.self_.type, states(c), c.o.self_.values, c.n.self_.values)
        yield "nothing but the states is mentioned", keys_are_states(states(c), c.n.self_.values)
        yield "likelihoods in [0, 1]", unit(c.n.self_.values)

    def assumes(self, c):
        yield "the name of all this", normal_view(c.o.self_, c.o.self_.values, c.n.self_.values)

    def _fill(L):
        yield from fill(L.o.self_.values, L.a.self_.values, states(L), L.k)

    def _map(f):
        def inv(L):
            vs = states(L)
            d, e = L.a.self_.values, L.se(L.a.self_).values
            yield "keys stay", forall("x", lambda x: d.has(x) == e.has(x), pat=lambda x: [d.has(x)])
            yield "done", forall("i", lambda i: Implies(rng(i, L.k), d[vs[i]] == f(L, e, vs[i])), pat=lambda i: [vs[i]])
            yield "to do", forall("i", lambda i: Implies(And(i >= L.k, i < vs.len), d[vs[i]] == e[vs[i]]), pat=lambda i: [vs[i]])
        return inv

    def _key(L, e, v):
        return If(v == L.v("key", "atom"), z3.RealVal(1), z3.RealVal(0))

    loops = [_fill, _map(lambda L, e, v: clamp(e[v])), _map(lambda L, e, v: If(e[v] > 0, z3.RealVal(1), z3.RealVal(0))),
             _map(lambda L, e, v: z3.RealVal(1)), _map(_key), _map(lambda L, e, v: z3.RealVal(1))]


def unobserved(d):
    return all_keys(d, lambda k: d[k] == 1)


def observed_at(d, k):
    """d gives 1 to k and 0 to every other key"""
    return And(d.has(k), d[k] == 1, forall("j", lambda j: Implies(And(d.has(j), j != k), d[j] == 0), pat=lambda j: [d.has(j), d[j]]))


@contract("C02")
class Convert(Contract):
    fn = M + "Evidence.__convert__"
    args = {"potentials": "dict[atom,Potential]"}
    ret = "dict[atom,real]"

    def requires(self, c):
        p = c.o.potentials
        yield "every table has a row", all_keys(p, lambda k: p[k].entries.len >= 1)

    def ensures(self, c):
        p, r = c.o.potentials, c.res
        yield "a new map", r.fresh(c.s0)
        yield "same keys", forall("k", lambda k: r.has(k) == p.has(k), pat=lambda k: [r.has(k), p.has(k)])
        yield "value of the first row", all_keys(r, lambda k: r[k] == p[k].entries[0].value)

    def _inv(L):
        m, p = L.v("m", "dict[atom,real]"), L.o.potentials
        yield "keys visited so far", forall("k", lambda k: m.has(k) == L.seen(k), pat=lambda k: [m.has(k)])
        yield "their values", forall("k", lambda k: Implies(L.seen(k), m[k] == p[k].entries[0].value), pat=lambda k: [m[k]])

    loops = [_inv]


@contract("C02")
class IsUnobserved(Contract):
    fn = M + "Evidence.__is_unobserved__"
    args = {"values": "dict[atom,real]"}
    ret = "bool"
    pure = True

    def requires(self, c):
        yield "likelihoods in [0, 1]", unit(c.o.values)

    def ensures(self, c):
        yield "true exactly when every likelihood is one", c.res == unobserved(c.o.values)


@contract("C02")
class IsObserved(Contract):
    fn = M + "Evidence.__is_observed__"
    args = {"values": "dict[atom,real]"}
    ret = "bool"
    pure = True

    def ensures(self, c):
        d = c.o.values
        yield "true exactly when one likelihood is one and all others zero", c.res == exists("k", lambda k: observed_at(d, k))


@contract("C02")
class GetObservedValue(Contract):
    fn = M + "Evidence.__get_observed_value__"
    args = {"values": "dict[atom,real]"}
    ret = "atom"

    def requires(self, c):
        yield "an observation", exists("k", lambda k: observed_at(c.o.values, k))

    def ensures(self, c):
        yield "the observed value", observed_at(c.o.values, c.res)


@contract("C02")
class Compare(Contract):
    fn = M + "Evidence.compare"
    recv = "Evidence"
    args = {"potentials": "dict[atom,Potential]"}
    ret = "ChangeType"

    def requires(self, c):
        p, d = c.o.potentials, c.o.self_.values
        yield "every table has a row", all_keys(p, lambda k: p[k].entries.len >= 1)
        yield "same states", forall("k", lambda k: d.has(k) == p.has(k), pat=lambda k: [d.has(k), p.has(k)])
        yield "likelihoods in [0, 1]", unit(d)
        yield "held likelihoods in [0, 1]", all_keys(p, lambda k: And(p[k].entries[0].value >= 0, p[k].entries[0].value <= 1))

    def ensures(self, c):
        p, d = c.o.potentials, c.o.self_.values
        NONE, RETRACTION = 1, 3
        yield "no change only if every likelihood equals the held one", Implies(c.res == NONE, all_keys(d, lambda k: d[k] == p[k].entries[0].value))
        yield "otherwise a retraction", Or(c.res == NONE, c.res == RETRACTION)


@contract("C03")
class AddValue(Contract):
    fn = M + "Evidence.add_value"
    recv = "Evidence"
    args = {"value": "atom", "likelihood": "real"}
    ret = "Evidence"

    def modifies(self, c):
        return dct("atom", "real", is_(c.o.self_.values))

    def ensures(self, c):
        d, e = c.o.self_.values, c.n.self_.values
        yield "same evidence", c.res == c.n.self_
        yield "the likelihood of that state is set, others stay", And(
            forall("k", lambda k: e.has(k) == Or(d.has(k), k == c.o.value), pat=lambda k: [e.has(k)]),
            forall("k", lambda k: Implies(e.has(k), e[k] == If(k == c.o.value, c.o.likelihood, d[k])), pat=lambda k: [e[k]]))


@contract("C03")
class WithEvidence(Contract):
    fn = M + "EvidenceBuilder.with_evidence"
    recv = "EvidenceBuilder"
    args = {"val": "atom", "likelihood": "real"}
    ret = "EvidenceBuilder"

    def modifies(self, c):
        return dct("atom", "real", is_(c.o.self_.values))

    def ensures(self, c):
        d, e = c.o.self_.values, c.n.self_.values
        yield "same builder", c.res == c.n.self_
        yield "the likelihood of that state is set, others stay", And(
            forall("k", lambda k: e.has(k) == Or(d.has(k), k == c.o.val), pat=lambda k: [e.has(k)]),
            forall("k", lambda k: Implies(e.has(k), e[k] == If(k == c.o.val, c.o.likelihood, d[k])), pat=lambda k: [e[k]]))


@contract("C03")
class Build(Contract):
    fn = M + "EvidenceBuilder.build"
    recv = "EvidenceBuilder"
    ret = "Evidence"

    def requires(self, c):
        yield "a node was given", c.o.self_.node.ref != 0

    def ensures(self, c):
        b, e = c.o.self_, c.res
        yield "new", And(e.fresh(c.s0), e.values.fresh(c.s0))
        yield "of that kind for that node", And(e.type == b.type, e.node.ref == b.node.ref)
        yield "the likelihoods given", And(
            forall("k", lambda k: e.values.has(k) == b.values.has(k), pat=lambda k: [e.values.has(k), b.values.has(k)]),
            forall("k", lambda k: Implies(b.values.has(k), e.values[k] == b.values[k]), pat=lambda k: [e.values[k], b.values[k]]))

    def _inv(L):
        e, b = L.v("evidence", "Evidence!"), L.o.self_
        yield "values so far", forall("k", lambda k: e.values.has(k) == L.seen(k), pat=lambda k: [e.values.has(k)])
        yield "as given", forall("k", lambda k: Implies(L.seen(k), e.values[k] == b.values[k]), pat=lambda k: [e.values[k]])

    loops = [_inv]


@contract("C03")
class WithNode(Contract):
    fn = M + "EvidenceBuilder.with_node"
    recv = "EvidenceBuilder"
    args = {"node": "BbnNode"}
    ret = "EvidenceBuilder"

    def modifies(self, c):
        return fld("EvidenceBuilder", "node", is_(c.o.self_))

    def ensures(self, c):
        yield "the node is set", And(c.res == c.n.self_, c.n.self_.node.ref == c.o.node.ref)


@contract("C03")
class WithType(Contract):
    fn = M + "EvidenceBuilder.with_type"
    recv = "EvidenceBuilder"
    args = {"type": "EvidenceType"}
    ret = "EvidenceBuilder"

    def modifies(self, c):
        return fld("EvidenceBuilder", "type", is_(c.o.self_))

    def ensures(self, c):
        yield "the kind is set", And(c.res == c.n.self_, c.n.self_.type == c.o.type)
