"""C08: contracts on writing a BBN to a dictionary and reading it back."""
from contracts.common import *
from contracts.graph import E, wf
from contracts.graphs import has_item
from contracts.sampling import PLACE

D = "pybbn.graph.dag:"
has = lambda r, *ks: And(*[r.__getattr__("has:" + k) for k in ks])


def var_dict(d, v):
    """d describes variable v"""
    yield "entries", And(d.ref > 0, has(d, "id", "name", "values"))
    yield "id", d.id == v.id
    yield "name", d.name == v.name
    yield "states", And(d.values.ref > 0, d.values.len == v.values.len, forall("i", lambda i: Implies(rng(i, v.values.len), d.values[i] == v.values[i]), pat=lambda i: [d.values[i]]))


def node_dict(d, n):
    """d describes node n"""
    yield "entries of the node", And(d.ref > 0, has(d, "probs", "variable"))
    for nm, f in var_dict(d.variable, n.variable):
        yield "variable: " + nm, f
    yield "probabilities", And(d.probs.ref > 0, d.probs.len == n.probs.len, forall("i", lambda i: Implies(rng(i, n.probs.len), d.probs[i] == n.probs[i]), pat=lambda i: [d.probs[i]]))


@contract("C08")
class VariableToDict(Contract):
    fn = "pybbn.graph.variable:Variable.to_dict"
    recv = "Variable!"
    ret = "VarDict"
    records = {("id", "name", "values"): "VarDict"}

    def ensures(self, c):
        v = c.o.self_
        yield "new", And(c.res.fresh(c.s0), c.res.ref < c.s.top)
        yield from var_dict(c.res, v)


@contract("C08")
class NodeToDict(Contract):
    fn = "pybbn.graph.node:BbnNode.to_dict"
    recv = "BbnNode!"
    ret = "NodeDict"
    records = {("probs", "variable"): "NodeDict"}

    def requires(self, c):
        n = c.o.self_
        yield "objects", And(n.variable.ref > 0, n.probs.ref > 0, n.variable.values.ref > 0)

    def ensures(self, c):
        n, d = c.o.self_, c.res
        yield "new", And(d.fresh(c.s0), d.ref < c.s.top, d.variable.fresh(c.s0), d.variable.ref < c.s.top, d.probs.fresh(c.s0), d.probs.ref < c.s.top)
        yield from node_dict(c.res, n)


def as_bbn(g, k):
    return View(g._s, ("ref", "BbnNode", True), g.nodes[k].ref)


from pyvc.core import Unsupported, View  # noqa: E402


def bbn_nodes(g):
    yield "nodes are BBN nodes", forall("k", lambda k: Implies(g.nodes.has(k), And(g.nodes[k].ref > 0, g.nodes[k].isa("BbnNode"), as_bbn(g, k).variable.id == k)), pat=lambda k: [g.nodes.has(k)])


@contract("C08")
class ToDict(Contract):
    fn = D + "Bbn.to_dict"
    args = {"bbn": "Bbn!"}
    ret = "BbnDict"
    records = {("edges", "nodes"): "BbnDict", ("ch", "pa"): "EdgeDict"}

    def requires(self, c):
        yield from wf(c, c.o.bbn, "Bbn")
        yield from bbn_nodes(c.o.bbn)

    def ensures(self, c):
        g, d = c.o.bbn, c.res
        yield "new", And(d.fresh(c.s0), has(d, "nodes", "edges"))
        yield "the same ids", forall("k", lambda k: d.nodes.has(k) == g.nodes.has(k), pat=lambda k: [d.nodes.has(k)])
        for q, nm in enumerate([a for a, _ in node_dict(d.nodes[0], as_bbn(g, 0))]):
            yield nm, forall("k", lambda k, q=q: Implies(g.nodes.has(k), [f for _, f in node_dict(d.nodes[k], as_bbn(g, k))][q]), pat=lambda k: [d.nodes[k].ref])

        e = d.edges
        yield "edges are of listed parents", forall("i", lambda i: Implies(rng(i, e.len), And(e[i].ref > 0, has(e[i], "pa", "ch"), g.parents.has(e[i].ch), has_item(g.parents[e[i].ch], e[i].pa))), pat=lambda i: [e[i].ref])
        yield "every listed parent has an edge", forall("a", "j", lambda a, j: Implies(And(g.parents.has(a), rng(j, g.parents[a].len)), edge_of(e, g.parents[a][j], a)), pat=lambda a, j: [g.parents[a][j]])
        yield "edges are in the order of the parents", ordered(e, g)

    def _nodes(L):
        g, d = L.o.bbn, L.acc()
        yield "new", d.fresh(L.s0)
        yield "ids so far", forall("j", lambda j: Implies(rng(j, L.k), d.has(L.item(j).id)), pat=lambda j: [L.item(j).ref])
        yield "ids of nodes", forall("k", lambda k: Implies(d.has(k), g.nodes.has(k)), pat=lambda k: [d.has(k)])
        yield "new entries", forall("k", lambda k: Implies(d.has(k), And(d[k].ref >= L.s0.top, d[k].ref < L.s.top, d[k].variable.ref >= L.s0.top, d[k].variable.ref < L.s.top, d[k].probs.ref >= L.s0.top, d[k].probs.ref < L.s.top)), pat=lambda k: [d[k].ref])
        for q, nm in enumerate([a for a, _ in node_dict(d[0], as_bbn(g, 0))]):
            yield nm, forall("k", lambda k, q=q: Implies(d.has(k), [f for _, f in node_dict(d[k], as_bbn(g, k))][q]), pat=lambda k: [d[k].ref])

    def _lists(L):
        l = L.acc()
        yield "new", l.fresh(L.s0)
        yield "one list for every node so far", l.len == L.k
        yield from lists(L, l, L.k)
        P = L.o.bbn.parents
        yield "!edges of every parent so far", forall("a", "j", lambda a, j: Implies(And(P.has(a), L.q.pos(a) < L.k, rng(j, P[a].len)), And(KNOWN(L.q.pos(a)), KNOWN(j), l[L.q.pos(a)].len == P[a].len, l[L.q.pos(a)][j].pa == P[a][j], l[L.q.pos(a)][j].ch == a)), pat=lambda a, j: [P[a][j]])

    def _edges(L):
        l, x, ps = L.acc(), L.v("ch", "int"), L.v("parents", "list[int]")
        out = L.acc(1)
        yield "new", And(l.fresh(L.s0), out.fresh(L.s0), l != out)
        yield "one edge for every parent so far", l.len == L.k
        yield "new edges", forall("j", lambda j: Implies(rng(j, L.k), And(l[j].ref >= L.s0.top, l[j].ref < L.s.top)), pat=lambda j: [l[j].ref])
        yield "from the parent to the node", forall("j", lambda j: Implies(rng(j, L.k), And(has(l[j], "pa", "ch"), l[j].ch == x, l[j].pa == L.item(j))), pat=lambda j: [l[j].ref])

    def _inv(L):
        a = L.acc()._ty
        return (ToDict._nodes if a[0] == "dict" else ToDict._lists if a[1][0] == "list" else ToDict._edges)(L)

    loops = [_inv] * 6


def lists(L, l, k):
    yield "new lists", forall("i", lambda i: Implies(rng(i, k), And(l[i].ref >= L.s0.top, l[i].ref < L.s.top, l[i].len == L.item(i)[1].len)), pat=lambda i: [l[i].ref])
    yield "new edges", forall("i", "j", lambda i, j: Implies(And(rng(i, k), rng(j, l[i].len)), And(l[i][j].ref >= L.s0.top, l[i][j].ref < L.s.top)), pat=lambda i, j: [l[i][j].ref])
    yield "from the parent to the node", forall("i", "j", lambda i, j: Implies(And(rng(i, k), rng(j, l[i].len)), And(has(l[i][j], "pa", "ch"), l[i][j].ch == L.item(i)[0], l[i][j].pa == L.item(i)[1][j])), pat=lambda i, j: [l[i][j].ref])


def edge_of(e, a, b):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, e.len), KNOWN(i), e[i].pa == a, e[i].ch == b), patterns=[KNOWN(i), e[i].ref])


def ordered(e, g):
    """edges into a node are in the order of its list of parents"""
    at = lambda x: PLACE(g.parents[x.ch].arr, g.parents[x.ch].len, x.pa)
    return forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < e.len, e[i].ch == e[j].ch), at(e[i]) < at(e[j])), pat=lambda i, j: [(e[i].ref, e[j].ref)])


EIDX = z3.Function("edge_number", I, I, I, I)        # number of the edge from a to b in a list of edges


def from_node(n, d):
    """node n as described by d"""
    yield "id", And(n.ref > 0, n.id == d.variable.id, n.variable.ref > 0, n.variable.id == d.variable.id)
    yield "name", n.variable.name == d.variable.name
    yield "states", n.variable.values == d.variable.values
    yield "probabilities", n.probs == d.probs


@contract("C08")
class FromDict(Contract):
    fn = D + "Bbn.from_dict"
    args = {"d": "BbnDict"}
    ret = "Bbn!"

    def requires(self, c):
        d = c.o.d
        e = d.edges
        yield "entries", And(has(d, "nodes", "edges"), e.ref > 0)
        yield "nodes", forall("k", lambda k: Implies(d.nodes.has(k), And(d.nodes[k].ref > 0, has(d.nodes[k], "probs", "variable"), d.nodes[k].probs.ref > 0, d.nodes[k].variable.ref > 0,
              has(d.nodes[k].variable, "id", "name", "values"), d.nodes[k].variable.values.ref > 0, d.nodes[k].variable.id == k)), pat=lambda k: [d.nodes.has(k)])
        yield "edges", forall("i", lambda i: Implies(rng(i, e.len), And(e[i].ref > 0, has(e[i], "pa", "ch"), d.nodes.has(e[i].pa), d.nodes.has(e[i].ch))), pat=lambda i: [e[i].ref])
        yield "no edge is listed twice", forall("i", lambda i: Implies(rng(i, e.len), EIDX(d.ref, e[i].pa, e[i].ch) == i), pat=lambda i: [e[i].ref])

    def ensures(self, c):
        d, b = c.o.d, c.res
        yield "new", b.fresh(c.s0)
        yield from wf(c, b, "Bbn")
        yield "the same ids", forall("k", lambda k: b.nodes.has(k) == d.nodes.has(k), pat=lambda k: [b.nodes.has(k)])
        for q, nm in enumerate([a for a, _ in from_node(as_bbn(b, 0), d.nodes[0])]):
            yield nm, forall("k", lambda k, q=q: Implies(d.nodes.has(k), [f for _, f in from_node(as_bbn(b, k), d.nodes[k])][q]), pat=lambda k: [b.nodes[k].ref])
        yield from linked_as(d, b, d.edges.len)

    def _nodes(L):
        d, m = L.o.d, L.acc()
        yield "new", m.fresh(L.s0)
        yield "nodes so far", forall("k", lambda k: m.has(k) == L.seen(k), pat=lambda k: [m.has(k)])
        yield "new nodes", forall("k", lambda k: Implies(m.has(k), And(m[k].ref >= L.s0.top, m[k].ref < L.s.top, m[k].variable.ref >= L.s0.top, m[k].variable.ref < L.s.top, m[k].potential.ref == 0)), pat=lambda k: [m[k].ref])
        for q, nm in enumerate([a for a, _ in from_node(m[0], d.nodes[0])]):
            yield nm, forall("k", lambda k, q=q: Implies(m.has(k), [f for _, f in from_node(m[k], d.nodes[k])][q]), pat=lambda k: [m[k].ref])

    def _rest(L):
        d, b, m = L.o.d, L.v("bbn", "Bbn!"), L.v("nodes", "dict[int,BbnNode]")
        yield "new", And(b.fresh(L.s0), m.fresh(L.s0))
        yield from wf(L, b, "Bbn")
        yield "a node for every entry", forall("k", lambda k: m.has(k) == d.nodes.has(k), pat=lambda k: [m.has(k)])
        yield "under its id", And(m != b.nodes, forall("k", lambda k: Implies(m.has(k), m[k].id == k), pat=lambda k: [m.has(k), m[k].ref]))
        for q, nm in enumerate([a for a, _ in from_node(m[0], d.nodes[0])]):
            yield nm, forall("k", lambda k, q=q: Implies(m.has(k), [f for _, f in from_node(m[k], d.nodes[k])][q]), pat=lambda k: [m[k].ref])
        yield "listed themselves", forall("k", lambda k: Implies(b.nodes.has(k), And(m.has(k), b.nodes[k] == m[k])), pat=lambda k: [b.nodes.has(k), b.nodes[k].ref])

    def _add(L):
        b, m, e = L.v("bbn", "Bbn!"), L.v("nodes", "dict[int,BbnNode]"), L.ve("nodes", "dict[int,BbnNode]")
        yield from FromDict._rest(L)
        yield "the entries stay", forall("k", lambda k: m[k] == e[k], pat=lambda k: [m[k].ref])
        yield "nodes so far", forall("k", lambda k: b.nodes.has(k) == L.seen(k), pat=lambda k: [b.nodes.has(k)])
        yield "no edges yet", And(forall("a", "b", lambda x, y: Not(E(b, x, y)), pat=lambda x, y: [E(b, x, y)]), forall("a", lambda a: Not(b.parents.has(a)), pat=lambda a: [b.parents.has(a)]))

    def _link(L):
        d, b = L.o.d, L.v("bbn", "Bbn!")
        yield from FromDict._rest(L)
        yield "all nodes", forall("k", lambda k: b.nodes.has(k) == d.nodes.has(k), pat=lambda k: [b.nodes.has(k)])
        yield "new lists of parents", forall("a", lambda a: Implies(b.parents.has(a), And(b.parents[a].ref >= L.s0.top, b.parents[a].ref < L.s.top)), pat=lambda a: [b.parents[a].ref])
        yield from linked_as(d, b, L.k)

    def _inv(L):
        try:
            L.v("bbn", "Bbn!")
        except Unsupported:
            return FromDict._nodes(L)
        return (FromDict._add if type(L.q.elem).__name__ == "Tup" else FromDict._link)(L)

    loops = [_inv] * 4


def linked_as(d, b, k):
    """the first k edges are those of b, and lists of parents are in their order"""
    e, P = d.edges, b.parents
    no = lambda x, y: EIDX(d.ref, x, y)
    yield "edges that are listed", forall("a", "b", lambda x, y: Implies(E(b, x, y), And(rng(no(x, y), k), e[no(x, y)].pa == x, e[no(x, y)].ch == y)), pat=lambda x, y: [E(b, x, y)])
    yield "every listed edge", forall("i", lambda i: Implies(rng(i, k), E(b, e[i].pa, e[i].ch)), pat=lambda i: [e[i].ref])
    yield "parents in the order of the edges", forall("c", "i", "j", lambda c_, i, j: Implies(And(P.has(c_), i >= 0, i < j, j < P[c_].len), no(P[c_][i], c_) < no(P[c_][j], c_)), pat=lambda c_, i, j: [(P[c_][i], P[c_][j])])
