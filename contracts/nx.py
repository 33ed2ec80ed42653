"""networkx graphs: what the code assumes of the library (trusted contracts).

A graph is a set of nodes and a relation on them; `stamp` changes with every update, so that the order
in which the library lists things is a function of the graph and its stamp."""
from contracts.common import *
from contracts.graphs import REACH, REL

RELS = REL
UCONN = z3.Function("connected", AB, REL, B)                 # every two nodes are linked by a path, ignoring directions
UX, UY = z3.Function("conn_x", REL, REL, I), z3.Function("conn_y", REL, REL, I)
ARCN = z3.Function("arcs", REL, I)                           # number of arcs
PRED = z3.Function("pred_order", I, I, I, AI)                # order in which parents are listed: graph, stamp, node
PREDN = z3.Function("pred_count", I, I, I, I)

_r, _q, _ns = z3.Const("r", REL), z3.Const("q", REL), z3.Const("ns", AB)
_a, _b, _n = z3.Ints("a b n")
NONE_ = z3.K(I, z3.K(I, z3.BoolVal(False)))


def put(r, a, b, v):
    return z3.Store(r, a, z3.Store(r[a], b, z3.BoolVal(v)))


axiom("connected: keeping every link, in either direction, keeps a graph connected", ["connected"], z3.ForAll([_ns, _r, _q], Or(
    Not(UCONN(_ns, _r)), UCONN(_ns, _q),
    And(_r[UX(_r, _q)][UY(_r, _q)], Not(_q[UX(_r, _q)][UY(_r, _q)]), Not(_q[UY(_r, _q)][UX(_r, _q)]))),
    patterns=[z3.MultiPattern(UCONN(_ns, _r), UCONN(_ns, _q))]), "Lean: conn_mono")
CHX = z3.Function("chain_x", AB, REL, I, I)
_x = CHX(_ns, _r, _n)
CHAIN = z3.Function("chain", AB, REL, I, B)
axiom("connected: 0, .., n-1 with every i linked to i + 1 is connected", ["chain"], z3.ForAll([_ns, _r, _n], Or(
    UCONN(_ns, _r), And(_ns[_x], Not(And(_x >= 0, _x < _n))), And(_x >= 0, _x + 1 < _n, Not(_r[_x][_x + 1]))),
    patterns=[CHAIN(_ns, _r, _n)]), "Lean: conn_chain")
axiom("chain: true of everything", ["chain"], z3.ForAll([_ns, _r, _n], CHAIN(_ns, _r, _n), patterns=[CHAIN(_ns, _r, _n)]), "definition")
axiom("arcs: an empty relation has none, every new arc counts one", ["arcs"], And(
    ARCN(NONE_) == 0,
    z3.ForAll([_r], ARCN(_r) >= 0, patterns=[ARCN(_r)]),
    z3.ForAll([_r, _a, _b], ARCN(put(_r, _a, _b, True)) == ARCN(_r) + If(_r[_a][_b], 0, 1), patterns=[put(_r, _a, _b, True)]),
    z3.ForAll([_r, _a, _b], ARCN(put(_r, _a, _b, False)) == ARCN(_r) - If(_r[_a][_b], 1, 0), patterns=[put(_r, _a, _b, False)])), "Lean: arcs_put")
def upto(ns, n):
    """the nodes are 0, .., n-1"""
    return forall("a", lambda a: ns[a] == And(a >= 0, a < n), pat=lambda a: [ns[a]])


def edge(d, a, b):
    return d.arcs[a][b]


def ends_ok(d):
    return forall("a", "b", lambda a, b: Implies(d.arcs[a][b], And(d.ns[a], d.ns[b])), pat=lambda a, b: [d.arcs[a][b]])


def has_item(l, x):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, l.len), l[i] == x, KNOWN(i)), patterns=[KNOWN(i), l[i]])


def lists_nodes(r, ns):
    yield "nodes", forall("i", lambda i: Implies(rng(i, r.len), ns[r[i]]), pat=lambda i: [r[i]])
    yield "all of them", forall("a", lambda a: Implies(ns[a], has_item(r, a)), pat=lambda a: [ns[a]])
    yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), r[i] != r[j]), pat=lambda i, j: [(r[i], r[j])])


ALL = ("C13", "C17")


@contract(*ALL)
class NewDi(Contract):
    fn = "ext:networkx.DiGraph"
    ret = "NxDiGraph!"
    trusted = "networkx: a new directed graph has no nodes and no edges"

    def ensures(self, c):
        yield "new", c.res.fresh(c.s0)
        yield "empty", And(c.res.ns == z3.K(I, z3.BoolVal(False)), c.res.arcs == NONE_)


@contract(*ALL)
class NewU(Contract):
    fn = "ext:networkx.Graph"
    ret = "NxGraph!"
    trusted = "networkx: a new graph has no nodes and no edges"

    def ensures(self, c):
        yield "new", c.res.fresh(c.s0)
        yield "empty", And(c.res.ns == z3.K(I, z3.BoolVal(False)), c.res.links == NONE_)


def mods(g, cls):
    return fld(cls, "ns", is_(g)) + fld(cls, "arcs" if cls == "NxDiGraph" else "links", is_(g)) + (fld(cls, "stamp", is_(g)) if cls == "NxDiGraph" else [])


def add_node(cls):
    class AddNode(Contract):
        fn = "ext:%s.add_node" % cls
        recv = cls
        args = {"n": "int"}
        trusted = "networkx: add_node"

        def modifies(self, c):
            return fld(cls, "ns", is_(c.o.self_))

        def ensures(self, c):
            yield "the node is added", c.n.self_.ns == z3.Store(c.o.self_.ns, c.o.n, z3.BoolVal(True))

    contract(*ALL)(AddNode)


add_node("NxDiGraph")
add_node("NxGraph")


def linked_(r, a, b):
    """a -- b added to a symmetric relation"""
    return put(put(r, a, b, True), b, a, True)


def added(cls, g, h, a, b):
    yield "its ends are nodes", h.ns == z3.Store(z3.Store(g.ns, a, z3.BoolVal(True)), b, z3.BoolVal(True))
    if cls == "NxDiGraph":
        yield "the edge is added", h.arcs == put(g.arcs, a, b, True)
    else:
        yield "the edge is added", h.links == linked_(g.links, a, b)


def add_edges(cls):
    class AddEdge(Contract):
        fn = "ext:%s.add_edge" % cls
        recv = cls
        args = {"a": "int", "b": "int"}
        trusted = "networkx: add_edge"

        def modifies(self, c):
            return mods(c.o.self_, cls)

        def ensures(self, c):
            yield from added(cls, c.o.self_, c.n.self_, c.o.a, c.o.b)

    class AddEdges(Contract):
        fn = "ext:%s.add_edges_from" % cls
        recv = cls
        args = {"es": "list[tuple[int,int,dict[atom,int]]]"}
        trusted = "networkx: add_edges_from, for a list of one edge"

        def requires(self, c):
            yield "one edge", c.o.es.len == 1

        def modifies(self, c):
            return mods(c.o.self_, cls)

        def ensures(self, c):
            yield from added(cls, c.o.self_, c.n.self_, c.o.es[0][0], c.o.es[0][1])

    contract(*ALL)(AddEdge)
    contract(*ALL)(AddEdges)


add_edges("NxDiGraph")
add_edges("NxGraph")


@contract(*ALL)
class RemoveEdge(Contract):
    fn = "ext:NxDiGraph.remove_edge"
    recv = "NxDiGraph"
    args = {"a": "int", "b": "int"}
    trusted = "networkx: remove_edge"

    def requires(self, c):
        yield "an edge of the graph", edge(c.o.self_, c.o.a, c.o.b)

    def modifies(self, c):
        return fld("NxDiGraph", "arcs", is_(c.o.self_)) + fld("NxDiGraph", "stamp", is_(c.o.self_))

    def ensures(self, c):
        yield "the edge is removed", c.n.self_.arcs == put(c.o.self_.arcs, c.o.a, c.o.b, False)


def nodes(cls):
    class Nodes(Contract):
        fn = "ext:%s.nodes" % cls
        recv = cls
        ret = "list[int]"
        view = True
        trusted = "networkx: nodes"

        def ensures(self, c):
            yield "new", c.res.fresh(c.s0)
            yield from lists_nodes(c.res, c.o.self_.ns)
            yield "so many", c.res.len == CARD(c.o.self_.ns)

    contract(*ALL)(Nodes)


nodes("NxDiGraph")
nodes("NxGraph")


@contract(*ALL)
class Edges(Contract):
    fn = "ext:NxDiGraph.edges"
    recv = "NxDiGraph"
    ret = "list[tuple[int,int]]"
    view = True
    trusted = "networkx: edges"

    def ensures(self, c):
        r, d = c.res, c.o.self_
        i = z3.Int("i!e")
        yield "new", r.fresh(c.s0)
        yield "edges", forall("i", lambda i: Implies(rng(i, r.len), d.arcs[r[i][0]][r[i][1]]), pat=lambda i: [r[i][0], r[i][1]])
        yield "all of them", forall("a", "b", lambda a, b: Implies(d.arcs[a][b], z3.Exists([i], And(rng(i, r.len), KNOWN(i), r[i][0] == a, r[i][1] == b), patterns=[KNOWN(i)])), pat=lambda a, b: [d.arcs[a][b]])
        yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), Or(r[i][0] != r[j][0], r[i][1] != r[j][1])), pat=lambda i, j: [(r[i][0], r[j][0])])
        yield "their ends are nodes", ends_ok(d)


@contract(*ALL)
class Successors(Contract):
    fn = "ext:NxDiGraph.successors"
    recv = "NxDiGraph"
    args = {"n": "int"}
    ret = "list[int]"
    trusted = "networkx: the children of a node"

    def requires(self, c):
        yield "a node of the graph", c.o.self_.ns[c.o.n]

    def ensures(self, c):
        d, r, n = c.o.self_, c.res, c.o.n
        yield "new", r.fresh(c.s0)
        yield "children", forall("i", lambda i: Implies(rng(i, r.len), edge(d, n, r[i])), pat=lambda i: [r[i]])
        yield "all of them", forall("b", lambda b: Implies(edge(d, n, b), has_item(r, b)), pat=lambda b: [d.arcs[n][b]])


def preds(d, n):
    """(array, length) of the parents of n in the library's order"""
    return PRED(d.ref, d.stamp, n), PREDN(d.ref, d.stamp, n)


@contract(*ALL)
class Predecessors(Contract):
    fn = "ext:NxDiGraph.predecessors"
    recv = "NxDiGraph"
    args = {"n": "int"}
    ret = "list[int]"
    trusted = "networkx: the parents of a node, in the same order until the graph is changed"

    def requires(self, c):
        yield "a node of the graph", c.o.self_.ns[c.o.n]

    def ensures(self, c):
        d, r, n = c.o.self_, c.res, c.o.n
        A, k = preds(d, n)
        yield "new", r.fresh(c.s0)
        yield "parents", forall("i", lambda i: Implies(rng(i, r.len), And(edge(d, r[i], n), d.ns[r[i]])), pat=lambda i: [r[i]])
        yield "all of them", forall("b", lambda b: Implies(edge(d, b, n), has_item(r, b)), pat=lambda b: [d.arcs[b][n]])
        yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), r[i] != r[j]), pat=lambda i, j: [(r[i], r[j])])
        yield "in order", And(r.len == k, forall("i", lambda i: Implies(rng(i, k), r[i] == A[i]), pat=lambda i: [r[i], A[i]]))


@contract(*ALL)
class HasEdge(Contract):
    fn = "ext:NxDiGraph.has_edge"
    recv = "NxDiGraph"
    args = {"a": "int", "b": "int"}
    ret = "bool"
    pure = True
    trusted = "networkx: has_edge"

    def ensures(self, c):
        yield "edge", c.res == edge(c.o.self_, c.o.a, c.o.b)


@contract("C17")
class Descendants(Contract):
    fn = "ext:networkx.descendants"
    args = {"d": "NxDiGraph", "n": "int"}
    ret = "set[int]"
    trusted = "networkx: nodes reached from n, other than n"

    def requires(self, c):
        yield "a node of the graph", c.o.d.ns[c.o.n]

    def ensures(self, c):
        yield "new", c.res.fresh(c.s0)
        yield "reached nodes", forall("b", lambda b: c.res.has(b) == And(b != c.o.n, REACH(c.o.d.arcs, c.o.n, b)), pat=lambda b: [c.res.has(b)])


@contract("C13")
class IsDag(Contract):
    fn = "ext:networkx.algorithms.dag.is_directed_acyclic_graph"
    args = {"d": "NxDiGraph"}
    ret = "bool"
    pure = True
    trusted = "networkx: true exactly when no node reaches itself"

    def ensures(self, c):
        yield "no cycle", c.res == acyclic(c.o.d.arcs)


def acyclic(r):
    return forall("a", lambda a: Not(REACH(r, a, a)), pat=lambda a: [REACH(r, a, a)])


@contract("C13")
class IsConnected(Contract):
    fn = "ext:networkx.is_connected"
    args = {"u": "NxGraph"}
    ret = "bool"
    pure = True
    trusted = "networkx: true exactly when every two nodes are linked by a path"

    def requires(self, c):
        a = z3.Int("a!n")
        yield "the graph has a node", z3.Exists([a], And(KNOWN(a), c.o.u.ns[a]), patterns=[KNOWN(a), c.o.u.ns[a]])

    def ensures(self, c):
        yield "connected", c.res == UCONN(c.o.u.ns, c.o.u.links)
