"""C05 (and the table algebra below C01): contracts on pybbn/graph/potential.py."""
from contracts.common import *

M = "pybbn.graph.potential:"


@contract("C05", "C01")
class Matches(Contract):
    fn = M + "PotentialEntry.matches"
    recv = "PotentialEntry"
    args = {"that": "PotentialEntry"}
    ret = "bool"
    pure = True

    def ensures(self, c):
        yield "true exactly when every key of that is here with the same value", c.res == match(c.o.self_, c.o.that)


@contract("C05", "C01")
class Duplicate(Contract):
    fn = M + "PotentialEntry.duplicate"
    recv = "PotentialEntry"
    ret = "PotentialEntry"

    def ensures(self, c):
        yield "a new entry", And(c.res.fresh(c.s0), c.res.entries.fresh(c.s0))
        e, r = c.o.self_.entries, c.res.entries
        yield "same keys", forall("k", lambda k: r.has(k) == e.has(k))
        yield "same values", forall("k", lambda k: Implies(e.has(k), r[k] == e[k]))
        yield "same number", c.res.value == c.o.self_.value

    def _inv(L):
        e, d = L.v("entry", "PotentialEntry").entries, L.old(L.o.self_.entries)
        yield "keys visited so far", forall("k", lambda k: e.has(k) == L.seen(k), pat=lambda k: [e.has(k)])
        yield "their values", forall("k", lambda k: Implies(L.seen(k), e[k] == d[k]), pat=lambda k: [e[k]])

    loops = [_inv]


def lens(c, s, nodes):
    """number of values of the j-th node"""
    return lam(c, s, I, lambda j: s(nodes)[j].variable.values.len)


def ids_distinct(nodes):
    return forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < nodes.len), nodes[i].id != nodes[j].id),
                  pat=lambda i, j: [(nodes[i].ref, nodes[j].ref)])


def row_is(c, s0, nodes, L, row, k):
    """row (post state) assigns to every node of `nodes` (entry state) its k-th combination"""
    n = nodes.len
    e = row.entries
    return [("keys are ids of the nodes", forall("x", lambda x: Implies(e.has(x), exists("j", lambda j: And(rng(j, n), nodes[j].id == x))), pat=lambda x: [e.has(x)])),
            ("every node has its value", forall("j", lambda j: Implies(rng(j, n), And(e.has(nodes[j].id), e[nodes[j].id] == nodes[j].variable.values[DIG(L, n, k, j)])), pat=lambda j: [nodes[j].ref]))]


def rows_spec(c, nodes, pot, upto=None, s=None):
    """pot enumerates the combinations of values of the nodes, in product order"""
    L = lens(c, c.s0, nodes)
    n = nodes.len
    es = pot.entries
    N = upto if upto is not None else PRODI(L, n)
    yield "rows are distinct", distinct_to(es, N)
    yield "row keys", forall("k", "x", lambda k, x: Implies(And(rng(k, N), es[k].entries.has(x)), exists("j", lambda j: And(rng(j, n), nodes[j].id == x))),
                             pat=lambda k, x: [es[k].entries.has(x)])
    yield "row values", forall("k", "j", lambda k, j: Implies(And(rng(k, N), rng(j, n)), And(
        es[k].entries.has(nodes[j].id), es[k].entries[nodes[j].id] == nodes[j].variable.values[DIG(L, n, k, j)])),
        pat=lambda k, j: [(es[k].ref, nodes[j].ref)])


def distinct_to(es, N):
    return forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < N), es[i] != es[j]), pat=lambda i, j: [(es[i].ref, es[j].ref)])


@contract("C05", "C01")
class FromNodes(Contract):
    fn = M + "PotentialUtil.get_potential_from_nodes"
    args = {"nodes": "list[BbnNode]"}
    ret = "Potential"

    def requires(self, c):
        yield "ids are distinct", ids_distinct(c.o.nodes)

    def ensures(self, c):
        p = c.res
        yield "a new table", And(p.fresh(c.s0), p.entries.fresh(c.s0))
        yield "one row per combination", p.entries.len == PRODI(lens(c, c.s0, c.o.nodes), c.o.nodes.len)
        yield "new rows", all_of(p.entries, lambda e: And(e.fresh(c.s0), e.entries.fresh(c.s0)))
        yield from rows_spec(c, c.o.nodes, p)
        yield "all ones", all_of(p.entries, lambda e: e.value == 1)

    def _outer(L):
        p = L.v("potential", "Potential")
        yield "a row per combination so far", p.entries.len == L.k
        yield "new rows", all_of(p.entries, lambda e: And(e.fresh(L.s0), e.entries.fresh(L.s0)))
        yield from rows_spec(L, L.o.nodes, p, upto=L.k)
        yield "all ones", all_of(p.entries, lambda e: e.value == 1)

    def _inner(L):
        e = L.v("entry", "PotentialEntry")
        nodes = L.o.nodes
        p = L.v("potential", "Potential")
        k = p.entries.len
        LL = lens(L, L.s0, nodes)
        yield "keys", forall("x", lambda x: Implies(e.entries.has(x), exists("j", lambda j: And(rng(j, L.k), rng(j, nodes.len), nodes[j].id == x))), pat=lambda x: [e.entries.has(x)])
        yield "values", forall("j", lambda j: Implies(And(rng(j, L.k), rng(j, nodes.len)), And(
            e.entries.has(nodes[j].id), e.entries[nodes[j].id] == nodes[j].variable.values[DIG(LL, nodes.len, k, j)])), pat=lambda j: [nodes[j].ref])
        yield "value", e.value == 1

    loops = [_outer, _inner]


def total_of_matches(c, s, cp, row, over=()):
    """sum of the values of the rows of cp that match row"""
    return sumr(c, s, cp.entries.len, lambda i: If(match(cp.entries[i], row), cp.entries[i].value, 0), over)


@contract("C05", "C01")
class Marginalize(Contract):
    fn = M + "PotentialUtil.marginalize_for"
    args = {"join_tree": "JoinTree", "clique": "Clique", "nodes": "list[BbnNode]"}
    ret = "Potential"

    def requires(self, c):
        yield "ids are distinct", ids_distinct(c.o.nodes)
        yield "clique has a table", c.o.join_tree.potentials.has(c.o.clique.id)

    def ensures(self, c):
        p = c.res
        cp = c.o.join_tree.potentials[c.o.clique.id]
        yield "a new table", And(p.fresh(c.s0), p.entries.fresh(c.s0))
        yield "one row per combination", p.entries.len == PRODI(lens(c, c.s0, c.o.nodes), c.o.nodes.len)
        yield "new rows", all_of(p.entries, lambda e: And(e.fresh(c.s0), e.entries.fresh(c.s0)))
        yield from rows_spec(c, c.o.nodes, p)
        yield "each row is the sum of the matching rows", forall("k", lambda k: Implies(rng(k, p.entries.len), p.entries[k].value == mtotal(c, cp, p.entries[k], k)),
                                                                pat=lambda k: [p.entries[k].ref])

    def _inv(L):
        p = L.v("potential", "Potential")
        cp = L.old(L.o.join_tree.potentials)[L.o.clique.id]
        yield "rows done so far", forall("k", lambda k: Implies(rng(k, L.k), p.entries[k].value == mtotal(L, cp, p.entries[k], k)), pat=lambda k: [p.entries[k].ref])

    loops = [_inv]


def mtotal(c, cp, row, k):
    return sumr(c, c.s, cp.entries.len, lambda i: If(match(cp.entries[i], row), cp.entries[i].value, 0), [k])


def values_of(pot):
    return lambda r: in_list(pot.entries, r)


SCALED = z3.Function("scaled", AR, AR, I, R, B)
SCW = z3.Function("scaled_wit", AR, AR, I, R, I)
_x1, _x2, _n, _t = z3.Const("x1", AR), z3.Const("x2", AR), z3.Int("n"), z3.Real("t")
_w = SCW(_x1, _x2, _n, _t)
axiom("sum: of quotients by one number", ["scaled"], z3.And(
    z3.ForAll([_x1, _x2, _n, _t], SCALED(_x1, _x2, _n, _t), patterns=[SCALED(_x1, _x2, _n, _t)]),
    z3.ForAll([_x1, _x2, _n, _t], Implies(_t != 0, Or(SUM(_x2, _n) == SUM(_x1, _n) / _t, And(rng(_w, _n), _x2[_w] != _x1[_w] / _t))), patterns=[SCALED(_x1, _x2, _n, _t)])), "Lean: sum_scaled")


@contract("C05", "C01")
class Normalize(Contract):
    fn = M + "PotentialUtil.normalize"
    args = {"potential": "Potential"}
    ret = "Potential"

    def requires(self, c):
        yield "rows are distinct", distinct(c.o.potential.entries)

    def modifies(self, c):
        return fld("PotentialEntry", "value", values_of(c.o.potential))

    def ensures(self, c):
        p = c.o.potential
        q = c.n.potential
        tot = sumr(c, c.s0, p.entries.len, lambda i: p.entries[i].value)
        yield "the same table", c.res == q
        yield "divided by the total", forall("i", lambda i: Implies(And(rng(i, p.entries.len), tot != 0), q.entries[i].value == p.entries[i].value / tot), pat=lambda i: [p.entries[i].ref])
        before, after = [lam(c, c.s0, R, lambda i, v=v: v.entries[i].value) for v in (p, q)]
        yield "!a term to look at", SCALED(before, after, p.entries.len, tot)
        yield "then the values add up to 1", Implies(tot != 0, SUM(after, p.entries.len) == 1)
        yield "unchanged when the total is zero", forall("i", lambda i: Implies(And(rng(i, p.entries.len), tot == 0), q.entries[i].value == p.entries[i].value), pat=lambda i: [p.entries[i].ref])

    def _inv(L):
        p = L.o.potential
        q = L.cur(p)
        tot = sumr(L, L.s0, p.entries.len, lambda i: p.entries[i].value)
        yield "done", forall("i", lambda i: Implies(rng(i, L.k), q.entries[i].value == p.entries[i].value / tot), pat=lambda i: [p.entries[i].ref])
        yield "to do", forall("i", lambda i: Implies(And(i >= L.k, i < p.entries.len), q.entries[i].value == p.entries[i].value), pat=lambda i: [p.entries[i].ref])

    loops = [_inv]


@contract("C05", "C01")
class Divide(Contract):
    fn = M + "PotentialUtil.divide"
    args = {"numerator": "Potential", "denominator": "Potential"}
    ret = "Potential"

    def requires(self, c):
        yield "as many rows", c.o.denominator.entries.len >= c.o.numerator.entries.len

    def _spec(c, p, upto):
        n, d = c.o.numerator, c.o.denominator
        es = p.entries
        yield "rows are new and distinct", And(forall("i", lambda i: Implies(rng(i, upto), And(es[i].fresh(c.s0), es[i].entries.fresh(c.s0))), pat=lambda i: [es[i].ref]), distinct_to(es, upto))
        yield "rows keep their keys", forall("i", "k", lambda i, k: Implies(rng(i, upto), es[i].entries.has(k) == n.entries[i].entries.has(k)), pat=lambda i, k: [es[i].entries.has(k), (es[i].ref, n.entries[i].entries.has(k))])
        yield "rows keep their values", forall("i", "k", lambda i, k: Implies(And(rng(i, upto), n.entries[i].entries.has(k)), es[i].entries[k] == n.entries[i].entries[k]), pat=lambda i, k: [es[i].entries[k], (es[i].ref, n.entries[i].entries[k])])
        yield "quotient, zero where either is zero", forall("i", lambda i: Implies(rng(i, upto), es[i].value == If(
            Or(n.entries[i].value == 0, d.entries[i].value == 0), 0, n.entries[i].value / d.entries[i].value)), pat=lambda i: [es[i].ref])

    def ensures(self, c):
        p = c.res
        yield "a new table", And(p.fresh(c.s0), p.entries.fresh(c.s0))
        yield "as many rows", p.entries.len == c.o.numerator.entries.len
        yield from Divide._spec(c, p, p.entries.len)

    def _inv(L):
        p = L.v("potential", "Potential")
        yield "as many rows so far", p.entries.len == L.k
        yield from Divide._spec(L, p, L.k)

    loops = [_inv]


@contract("C05", "C01")
class Multiply(Contract):
    fn = M + "PotentialUtil.multiply"
    args = {"bigger": "Potential", "smaller": "Potential"}

    def requires(self, c):
        b, s = c.o.bigger, c.o.smaller
        yield "rows are distinct", distinct(b.entries)
        yield "no shared rows", forall("i", "j", lambda i, j: Implies(And(rng(i, b.entries.len), rng(j, s.entries.len)), b.entries[i] != s.entries[j]), pat=lambda i, j: [(b.entries[i].ref, s.entries[j].ref)])

    def modifies(self, c):
        return fld("PotentialEntry", "value", values_of(c.o.bigger))

    def ensures(self, c):
        b, s, q = c.o.bigger, c.o.smaller, c.n.bigger
        yield "each row is multiplied by all rows it matches", forall("i", lambda i: Implies(rng(i, b.entries.len), q.entries[i].value == b.entries[i].value * factor(c, b, s, i, s.entries.len)), pat=lambda i: [b.entries[i].ref])

    def _outer(L):
        b, s, q = L.o.bigger, L.o.smaller, L.cur(L.o.bigger)
        yield "multiplied by the rows so far", forall("i", lambda i: Implies(rng(i, b.entries.len), q.entries[i].value == b.entries[i].value * factor(L, b, s, i, L.k)), pat=lambda i: [b.entries[i].ref])

    def _inner(L):
        b = L.o.bigger
        q, e = L.cur(b), L.se(b)
        row = L.v("entry", "PotentialEntry")
        yield "done", forall("i", lambda i: Implies(rng(i, L.k), q.entries[i].value == If(match(b.entries[i], row), e.entries[i].value * row.value, e.entries[i].value)), pat=lambda i: [b.entries[i].ref])
        yield "to do", forall("i", lambda i: Implies(And(i >= L.k, i < b.entries.len), q.entries[i].value == e.entries[i].value), pat=lambda i: [b.entries[i].ref])

    loops = [_outer, _inner]


def factors(c, b, s, i):
    return lam(c, c.s0, R, lambda j: If(match(b.entries[i], s.entries[j]), s.entries[j].value, 1), [i])


def factor(c, b, s, i, upto):
    return PROD(lam(c, c.s0, R, lambda j: If(match(b.entries[i], s.entries[j]), s.entries[j].value, 1), [i]), upto)


@contract("C05", "C01")
class GetPotential(Contract):
    fn = M + "PotentialUtil.get_potential"
    args = {"node": "BbnNode", "parents": "list[BbnNode]"}
    ret = "Potential"

    def requires(self, c):
        n, ps = c.o.node, c.o.parents
        yield "ids are distinct", ids_distinct(ps)
        yield "node is no parent of itself", all_of(ps, lambda p: p.id != n.id)
        yield "one probability per row", n.probs.len >= cpt_rows(c, n, ps)

    def ensures(self, c):
        p, n, ps = c.res, c.o.node, c.o.parents
        m = ps.len
        L = cpt_lens(c, n, ps)
        es = p.entries
        yield "a new table", And(p.fresh(c.s0), p.entries.fresh(c.s0))
        yield "one row per combination", es.len == cpt_rows(c, n, ps)
        yield "new rows", all_of(es, lambda e: And(e.fresh(c.s0), e.entries.fresh(c.s0)))
        yield "rows are distinct", distinct(es)
        yield "row keys", forall("k", "x", lambda k, x: Implies(And(rng(k, es.len), es[k].entries.has(x)), Or(x == n.id, exists("j", lambda j: And(rng(j, m), ps[j].id == x)))),
                                 pat=lambda k, x: [es[k].entries.has(x)])
        yield "parent values in product order", forall("k", "j", lambda k, j: Implies(And(rng(k, es.len), rng(j, m)), And(
            es[k].entries.has(ps[j].id), es[k].entries[ps[j].id] == ps[j].variable.values[DIG(L, m + 1, k, j)])), pat=lambda k, j: [(es[k].ref, ps[j].ref)])
        yield "own value is the last digit", forall("k", lambda k: Implies(rng(k, es.len), And(
            es[k].entries.has(n.id), es[k].entries[n.id] == n.variable.values[DIG(L, m + 1, k, m)])), pat=lambda k: [es[k].ref])
        yield "k-th row holds the k-th probability", forall("k", lambda k: Implies(rng(k, es.len), es[k].value == n.probs[k]), pat=lambda k: [es[k].ref])

    def _inv(L):
        p = L.v("potential", "Potential")
        yield "values so far", forall("k", lambda k: Implies(rng(k, L.k), p.entries[k].value == L.o.node.probs[k]), pat=lambda k: [p.entries[k].ref])

    loops = [_inv]


def cpt_lens(c, n, ps):
    return lam(c, c.s0, I, lambda j: If(j < ps.len, ps[j].variable.values.len, n.variable.values.len))


def cpt_rows(c, n, ps):
    return PRODI(cpt_lens(c, n, ps), ps.len + 1)
