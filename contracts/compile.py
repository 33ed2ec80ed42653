"""C04: compilation of a BBN to a join tree (pybbn/pptc)."""
from contracts.graphs import *
from contracts.graph import lists

MO = "pybbn.pptc.moralizer:"
TR = "pybbn.pptc.triangulator:"
TF = "pybbn.pptc.transformer:"
NO = "pybbn.graph.node:"


def undirected(g):
    yield "edges are undirected", forall("k", lambda k: Implies(g.edges.has(k), g.edges[k].type == UNDIRECTED), pat=lambda k: [g.edges.has(k)])


def ends(g):
    return forall("k", lambda k: Implies(g.edges.has(k), And(g.edges[k].i == g.nodes[g.edges[k].i.id], g.edges[k].j == g.nodes[g.edges[k].j.id])), pat=lambda k: [g.edges.has(k)])


def FAMILY(c, g, k):
    """node k and its parents"""
    return lam(c, g._s, B, lambda a: Or(a == k, E(g, a, k)), [k])


def family(g, a, b):
    """a and b are parent and child, or have a common child"""
    return Or(E(g, a, b), E(g, b, a), married(g, a, b))


def married(g, a, b):
    return And(a != b, exists("c", lambda x: And(KNOWN(x), E(g, a, x), E(g, b, x))))


def bbn_nodes_ok(g):
    yield "nodes are BBN nodes", forall("k", lambda k: Implies(g.nodes.has(k), And(g.nodes[k].isa("BbnNode"), g.nodes[k].metadata.ref > 0)), pat=lambda k: [g.nodes.has(k)])
    yield "nodes have their own notes", forall("a", "b", lambda a, b: Implies(And(g.nodes.has(a), g.nodes.has(b), a != b), g.nodes[a].metadata != g.nodes[b].metadata),
                                               pat=lambda a, b: [(g.nodes[a].ref, g.nodes[b].ref)])
    yield "edges end in the listed nodes", forall("k", lambda k: Implies(g.edges.has(k), And(g.edges[k].i == g.nodes[g.edges[k].i.id], g.edges[k].j == g.nodes[g.edges[k].j.id],
                                                  g.edges[k].i.id != g.edges[k].j.id)), pat=lambda k: [g.edges.has(k)])


@contract("C04")
class Moralize(Contract):
    fn = MO + "Moralizer.moralize"
    args = {"dag": "Bbn!"}
    ret = "Ug!"

    def requires(self, c):
        yield from wf(c, c.o.dag, "Bbn")
        yield from bbn_nodes_ok(c.o.dag)

    def modifies(self, c):
        g = c.o.dag
        meta = lambda r: exists("k", lambda k: And(g.nodes.has(k), r == g.nodes[k].metadata.ref))
        return touch(g) + fld("Meta", "parents", meta) + fld("Meta", "has:parents", meta)

    def ensures(self, c):
        g, r, h = c.o.dag, c.res, c.n.dag
        yield "a new graph", r.fresh(c.s0)
        yield "with the same nodes", forall("k", lambda k: And(r.nodes.has(k) == g.nodes.has(k), Implies(g.nodes.has(k), r.nodes[k] == g.nodes[k])), pat=lambda k: [r.nodes.has(k), g.nodes.has(k)])
        yield "only parents and children and parents of one child are linked", forall("a", "b", lambda a, b: Implies(E(r, a, b), family(g, a, b)), pat=lambda a, b: [E(r, a, b)])
        yield "!parents and children are linked", forall("a", "b", lambda a, b: Implies(E(g, a, b), And(E(r, a, b), E(r, b, a))), pat=lambda a, b: [E(g, a, b)])
        yield "!parents of one child are linked", forall("a", "b", "c", lambda a, b, x: Implies(And(E(g, a, x), E(g, b, x), a != b), E(r, a, b)), pat=lambda a, b, x: [(E(g, a, x), E(g, b, x))])
        yield from wf(c, r, "Ug")
        yield from undirected(r)
        yield "its tables are new", own(r, c.s0, c.s.top)
        F = lambda k: FAMILY(c, g, k)
        yield "!a family holds its node", forall("k", lambda k: Implies(g.nodes.has(k), And(F(k)[k], KNOWN(k))), pat=lambda k: [g.nodes.has(k)])
        yield "!families are nodes of the graph", forall("k", lambda k: Implies(g.nodes.has(k), INCL(r.nodes.dom, F(k))), pat=lambda k: [g.nodes.has(k)])
        yield "!members of a family are linked", forall("k", "a", "b", lambda k, a, b: Implies(And(g.nodes.has(k), F(k)[a], F(k)[b], a != b), E(r, a, b)), pat=lambda k, a, b: [(F(k)[a], F(k)[b])])
        yield "families are complete", forall("k", lambda k: Implies(g.nodes.has(k), And(F(k)[k], COMPLETE(nrel(c, r), F(k)), INCL(r.nodes.dom, F(k)))), pat=lambda k: [g.nodes.has(k)])
        yield "its edges end in its nodes", ends(r)
        yield "every node knows its parents", forall("a", "k", lambda a, k: Implies(E(g, a, k), has_ref(h.nodes[k].metadata.parents, g.nodes[a])), pat=lambda a, k: [E(g, a, k)])

    def _base(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        yield "new", own(u, L.s0, L.s.top)
        yield from wf(L, u, "Ug")
        yield from undirected(u)
        yield "its edges end in its nodes", ends(u)

    def _nodes(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        yield from Moralize._base(L)
        yield "nodes so far", forall("k", lambda k: Implies(u.nodes.has(k), And(g.nodes.has(k), u.nodes[k] == g.nodes[k])), pat=lambda k: [u.nodes.has(k)])
        yield "all so far", forall("j", lambda j: Implies(rng(j, L.k), u.nodes.has(L.item(j).id)), pat=lambda j: [L.item(j).ref])
        yield "no edge", forall("a", "b", lambda a, b: Not(E(u, a, b)), pat=lambda a, b: [E(u, a, b)])

    def _same_nodes(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        yield "same nodes", forall("k", lambda k: And(u.nodes.has(k) == g.nodes.has(k), Implies(g.nodes.has(k), u.nodes[k] == g.nodes[k])), pat=lambda k: [u.nodes.has(k), g.nodes.has(k)])

    def _edges(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        yield from Moralize._base(L)
        yield from Moralize._same_nodes(L)
        yield "only edges of the network", forall("a", "b", lambda a, b: Implies(E(u, a, b), Or(E(g, a, b), E(g, b, a))), pat=lambda a, b: [E(u, a, b)])
        yield "edges so far", forall("j", lambda j: Implies(rng(j, L.k), E(u, L.item(j).i.id, L.item(j).j.id)), pat=lambda j: [L.item(j).ref])

    def _moral(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        yield from Moralize._base(L)
        yield from Moralize._same_nodes(L)
        yield "only edges of the moral graph", forall("a", "b", lambda a, b: Implies(E(u, a, b), family(g, a, b)), pat=lambda a, b: [E(u, a, b)])
        yield "all edges of the network", forall("a", "b", lambda a, b: Implies(E(g, a, b), E(u, a, b)), pat=lambda a, b: [E(g, a, b)])

    def _marry(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        yield from Moralize._moral(L)
        yield "parents of the nodes so far", forall("j", "a", "b", lambda j, a, b: Implies(And(rng(j, L.k), E(g, a, L.item(j).id), E(g, b, L.item(j).id), a != b), E(u, a, b)),
                                                    pat=lambda j, a, b: [(E(g, a, L.item(j).id), E(g, b, L.item(j).id))])

    def _i(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        ps, w = L.v("parents", "list[Node]"), L.se(u)
        yield from Moralize._moral(L)
        yield "edges stay", forall("a", "b", lambda a, b: Implies(E(w, a, b), E(u, a, b)), pat=lambda a, b: [E(w, a, b)])
        yield "parents so far", forall("p", "q", lambda p, q: Implies(And(rng(p, L.k), p < q, q < ps.len), And(E(u, ps[p].id, ps[q].id), E(u, ps[q].id, ps[p].id))), pat=lambda p, q: [(ps[p].ref, ps[q].ref)])

    def _j(L):
        g, u = L.o.dag, L.v("ug", "Ug!")
        ps, w, i = L.v("parents", "list[Node]"), L.se(u), L.v("i", "int")
        yield from Moralize._moral(L)
        yield "edges stay", forall("a", "b", lambda a, b: Implies(E(w, a, b), E(u, a, b)), pat=lambda a, b: [E(w, a, b)])
        yield "pairs so far", forall("q", lambda q: Implies(And(q > i, q < i + 1 + L.k), And(E(u, ps[i].id, ps[q].id), E(u, ps[q].id, ps[i].id))), pat=lambda q: [ps[q].ref])

    def _meta(L):
        g, h = L.o.dag, L.a.dag
        u, w = L.v("ug", "Ug!"), L.se(L.v("ug", "Ug!"))
        yield "parents so far", forall("j", "a", lambda j, a: Implies(And(rng(j, L.k), E(g, a, L.item(j).id)), has_ref(h.nodes[L.item(j).id].metadata.parents, g.nodes[a])), pat=lambda j, a: [E(g, a, L.item(j).id)])
        yield "lists are new", forall("j", lambda j: Implies(rng(j, L.k), And(h.nodes[L.item(j).id].metadata.parents.fresh(L.s0), h.nodes[L.item(j).id].metadata.parents.ref > 0,
                                      h.nodes[L.item(j).id].metadata.parents.ref < L.s.top)), pat=lambda j: [L.item(j).ref])

    loops = [_nodes, _edges, _marry, _i, _j, _meta]


def has_ref(l, x):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, l.len), l[i].ref == x.ref, KNOWN(i)), patterns=[KNOWN(i), l[i].ref])


# ------------------------------------------------------------ triangulation
T_ = TR + "Triangulator."


def moral_ok(c, m):
    yield from wf(c, m, "Ug")
    yield from undirected(m)
    yield "nodes are BBN nodes", forall("k", lambda k: Implies(m.nodes.has(k), m.nodes[k].isa("BbnNode")), pat=lambda k: [m.nodes.has(k)])
    yield "links join nodes", forall("a", "b", lambda a, b: Implies(E(m, a, b), And(m.nodes.has(a), m.nodes.has(b))), pat=lambda a, b: [E(m, a, b)])


@contract("C04", "C07")
class GetNeighbors(Contract):
    fn = "pybbn.graph.graph:Graph.get_neighbors"
    recv = "Graph"
    args = {"id": "int"}
    ret = "set[int]"

    def modifies(self, c):
        return touch(c.o.self_)

    def ensures(self, c):
        yield "the neighbours table of the node", c.res == c.n.self_.neighbors[c.o.id]


@contract("C04", "C07")
class EdgeExists(Contract):
    fn = "pybbn.graph.graph:Graph.edge_exists"
    recv = "Graph"
    args = {"id1": "int", "id2": "int"}
    ret = "bool"

    def modifies(self, c):
        return touch(c.o.self_)

    def ensures(self, c):
        g, a, b = c.o.self_, c.o.id1, c.o.id2
        yield "linked one way or the other", c.res == Or(E(g, a, b), E(g, b, a))


@contract("C04", "C07")
class DirectedEdgeExists(Contract):
    fn = "pybbn.graph.dag:Dag.edge_exists"
    recv = "Dag"
    args = {"id1": "int", "id2": "int"}
    ret = "bool"

    def modifies(self, c):
        return touch(c.o.self_)

    def ensures(self, c):
        g, a, b = c.o.self_, c.o.id1, c.o.id2
        yield "an edge from the first to the second only", c.res == And(E(g, a, b), Not(E(g, b, a)))


@contract("C04")
class GetWeight(Contract):
    fn = T_ + "get_weight"
    args = {"n": "BbnNode", "m": "Ug!"}
    ret = "int"

    def requires(self, c):
        yield from moral_ok(c, c.o.m)

    def modifies(self, c):
        return touch(c.o.m)


def neighbour_list(m, n, nb):
    """nb lists the neighbours of node n, each once"""
    yield "neighbours only", forall("i", lambda i: Implies(rng(i, nb.len), And(m.nodes.has(nb[i].id), N(m, n.id, nb[i].id), nb[i] == m.nodes[nb[i].id])), pat=lambda i: [nb[i].ref])
    yield "all neighbours", forall("x", lambda x: Implies(N(m, n.id, x), exists("i", lambda i: And(rng(i, nb.len), KNOWN(i), nb[i].id == x))), pat=lambda x: [N(m, n.id, x)])
    yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < nb.len), nb[i].id != nb[j].id), pat=lambda i, j: [(nb[i].ref, nb[j].ref)])


def fill(m, n, es):
    """es lists the links missing between neighbours of node n"""
    yield "missing links between neighbours", forall("k", lambda k: Implies(rng(k, es.len), And(
        es[k].type == UNDIRECTED, es[k].i.id != es[k].j.id, N(m, n.id, es[k].i.id), N(m, n.id, es[k].j.id), Not(E(m, es[k].i.id, es[k].j.id)),
        m.nodes.has(es[k].i.id), m.nodes.has(es[k].j.id), es[k].i == m.nodes[es[k].i.id], es[k].j == m.nodes[es[k].j.id])), pat=lambda k: [es[k].ref])
    yield "all of them", forall("a", "b", lambda a, b: Implies(And(N(m, n.id, a), N(m, n.id, b), a != b, Not(E(m, a, b))), exists("k", lambda k: And(
        rng(k, es.len), KNOWN(k), Or(And(es[k].i.id == a, es[k].j.id == b), And(es[k].i.id == b, es[k].j.id == a))))), pat=lambda a, b: [(N(m, n.id, a), N(m, n.id, b))])


@contract("C04")
class GetEdgesToAdd(Contract):
    fn = T_ + "get_edges_to_add"
    args = {"n": "BbnNode", "m": "Ug!"}
    ret = "list[Edge]"

    def requires(self, c):
        yield from moral_ok(c, c.o.m)

    def modifies(self, c):
        return touch(c.o.m)

    def ensures(self, c):
        yield "new", c.res.fresh(c.s0)
        yield "new edges", all_of(c.res, lambda e: And(e.fresh(c.s0), e.ref > 0, e.ref < c.s.top))
        yield from fill(c.o.m, c.o.n, c.res)

    def _inv(L):
        m, n, es = L.o.m, L.o.n, L.v("#comp", "list[Edge]")
        yield "new", es.fresh(L.s0)
        yield "new edges", all_of(es, lambda e: And(e.fresh(L.s0), e.ref > 0, e.ref < L.s.top))
        yield list(fill(m, n, es))[0]
        nb = L.v("neighbors", "list[Node]")
        yield from neighbour_list(m, n, nb)
        yield "pairs so far", forall("j", lambda j: Implies(rng(j, L.k), Or(E(m, nb[pair(L, j, 0)].id, nb[pair(L, j, 1)].id), exists("k", lambda k: And(
            rng(k, es.len), KNOWN(k), es[k].i == nb[pair(L, j, 0)], es[k].j == nb[pair(L, j, 1)])))), pat=lambda j: [pair(L, j, 0), pair(L, j, 1)])

    loops = [_inv]


def pair(L, j, i):
    return L.item(j)[i]


def node_clique(m, q):
    """q describes a node, its neighbours and the links they miss"""
    yield "a node", And(q.node.ref > 0, m.nodes.has(q.node.id), m.nodes[q.node.id] == q.node, q.neighbors.ref > 0, q.edges.ref > 0)
    yield from neighbour_list(m, q.node, q.neighbors)
    yield from fill(m, q.node, q.edges)


def node_cliques(c, m, r, s0, top):
    yield "new", forall("i", lambda i: Implies(rng(i, r.len), And(r[i].ref > 0, r[i].fresh(s0), r[i].ref < top, r[i].neighbors.fresh(s0), r[i].neighbors.ref < top,
                        r[i].edges.fresh(s0), r[i].edges.ref < top)), pat=lambda i: [r[i].ref])
    yield "new edges", forall("i", "k", lambda i, k: Implies(And(rng(i, r.len), rng(k, r[i].edges.len)), And(r[i].edges[k].ref > 0, r[i].edges[k].fresh(s0), r[i].edges[k].ref < top)), pat=lambda i, k: [r[i].edges[k].ref])
    n = len(list(node_clique(m, r[0])))
    for j in range(n):
        nm = [a for a, _ in node_clique(m, r[0])][j]
        yield nm, forall("i", lambda i, j=j: Implies(rng(i, r.len), [f for _, f in node_clique(m, r[i])][j]), pat=lambda i: [r[i].ref])


@contract("C04")
class GenerateCliques(Contract):
    fn = T_ + "generate_cliques"
    args = {"m": "Ug!"}
    ret = "list[NodeClique]"

    def requires(self, c):
        yield from moral_ok(c, c.o.m)

    def modifies(self, c):
        return touch(c.o.m)

    def ensures(self, c):
        m, r = c.o.m, c.res
        yield "new list", r.fresh(c.s0)
        yield from node_cliques(c, m, r, c.s0, c.s.top)
        yield "one for every node", forall("k", lambda k: Implies(m.nodes.has(k), exists("i", lambda i: And(rng(i, r.len), KNOWN(i), r[i].node == m.nodes[k]))), pat=lambda k: [m.nodes.has(k)])

    def _inv(L):
        m, r = L.o.m, L.v("#comp", "list[NodeClique]")
        yield "new list", And(r.fresh(L.s0), r.len == L.k)
        yield from node_cliques(L, m, r, L.s0, L.s.top)
        yield "so far", forall("j", lambda j: Implies(rng(j, L.k), r[j].node == L.item(j)), pat=lambda j: [r[j].ref, L.item(j).ref])

    loops = [_inv]


@contract("C04")
class SelectNode(Contract):
    fn = T_ + "select_node"
    args = {"m": "Ug!"}
    ret = "NodeClique"

    def requires(self, c):
        m = c.o.m
        yield from moral_ok(c, m)
        yield "there is a node", exists("k", lambda k: And(m.nodes.has(k), KNOWN(k)))

    def modifies(self, c):
        return touch(c.o.m)

    def ensures(self, c):
        m, q = c.o.m, c.res
        yield "new", And(q.fresh(c.s0), q.neighbors.fresh(c.s0), q.edges.fresh(c.s0))
        yield "new edges", all_of(q.edges, lambda e: And(e.fresh(c.s0), e.ref > 0, e.ref < c.s.top))
        yield from node_clique(m, q)
        nb = q.neighbors
        yield "all linked nodes are neighbours", forall("x", lambda x: Implies(And(E(m, q.node.id, x), N(m, q.node.id, x)), exists("i", lambda i: And(rng(i, nb.len), KNOWN(i), nb[i].id == x))), pat=lambda x: [E(m, q.node.id, x)])


@contract("C04")
class DuplicateGraph(Contract):
    fn = T_ + "duplicate"
    args = {"g": "Ug!"}
    ret = "Ug!"

    def requires(self, c):
        yield from moral_ok(c, c.o.g)
        yield "edges end in the listed nodes", forall("k", lambda k: Implies(c.o.g.edges.has(k), And(c.o.g.edges[k].i == c.o.g.nodes[c.o.g.edges[k].i.id], c.o.g.edges[k].j == c.o.g.nodes[c.o.g.edges[k].j.id])), pat=lambda k: [c.o.g.edges.has(k)])

    def ensures(self, c):
        g, r = c.o.g, c.res
        yield "a new graph", own(r, c.s0, c.s.top)
        yield from same(g, r)
        yield "the same links", forall("a", "b", lambda a, b: E(r, a, b) == E(g, a, b), pat=lambda a, b: [E(r, a, b), E(g, a, b)])
        yield from moral_ok(c, r)

    def _nodes(L):
        g, u = L.o.g, L.v("ug", "Ug!")
        yield "new", own(u, L.s0, L.s.top)
        yield from wf(L, u, "Ug")
        yield from undirected(u)
        yield "nodes so far", forall("k", lambda k: Implies(u.nodes.has(k), And(g.nodes.has(k), u.nodes[k] == g.nodes[k])), pat=lambda k: [u.nodes.has(k)])
        yield "all so far", forall("j", lambda j: Implies(rng(j, L.k), u.nodes.has(L.item(j).id)), pat=lambda j: [L.item(j).ref])
        yield "no edge", forall("a", "b", lambda a, b: Not(E(u, a, b)), pat=lambda a, b: [E(u, a, b)])

    def _edges(L):
        g, u = L.o.g, L.v("ug", "Ug!")
        yield "new", own(u, L.s0, L.s.top)
        yield from moral_ok(L, u)
        yield from same(g, u)
        yield "links so far", forall("a", "b", lambda a, b: Implies(E(u, a, b), E(g, a, b)), pat=lambda a, b: [E(u, a, b)])
        yield "all so far", forall("j", lambda j: Implies(rng(j, L.k), E(u, L.item(j).i.id, L.item(j).j.id)), pat=lambda j: [L.item(j).ref])

    loops = [_nodes, _edges]


def own(g, s0, top):
    """the graph's tables were made since s0"""
    return And([And(x.fresh(s0), x.ref < top) for x in (g, g.nodes, g.edges, g.edge_map, g.neighbors)])


def same(g, u):
    yield "same nodes", forall("k", lambda k: And(u.nodes.has(k) == g.nodes.has(k), Implies(g.nodes.has(k), u.nodes[k] == g.nodes[k])), pat=lambda k: [u.nodes.has(k), g.nodes.has(k)])


# ------------------------------------------------------------------ cliques
INCL = z3.Function("includes", AB, AB, B)      # every member of the second is in the first
IW = z3.Function("includes_wit", AB, AB, I)
_p, _q = z3.Const("p", AB), z3.Const("q", AB)
_x = z3.Int("x")
axiom("includes: definition (every member of the second set is in the first)", ["includes"], And(
    z3.ForAll([_p, _q, _x], Implies(And(INCL(_p, _q), _q[_x]), _p[_x]), patterns=[z3.MultiPattern(INCL(_p, _q), _q[_x])]),
    z3.ForAll([_p, _q], Or(INCL(_p, _q), And(_q[IW(_p, _q)], Not(_p[IW(_p, _q)]))), patterns=[INCL(_p, _q)])), "definition")


def ids(q):
    """the ids of a clique's nodes as a set"""
    return q.node_ids.dom


def ids_of(s, l):
    """s has exactly the ids of the nodes of l"""
    yield "ids of a clique are ids of its nodes", forall("x", lambda x: Implies(s.has(x), exists("i", lambda i: And(rng(i, l.len), KNOWN(i), l[i].id == x))), pat=lambda x: [s.has(x)])
    yield "all of them", forall("i", lambda i: Implies(rng(i, l.len), s.has(l[i].id)), pat=lambda i: [l[i].ref])


@contract("C04")
class GetBbnNodes(Contract):
    fn = TR + "NodeClique.get_bbn_nodes"
    recv = "NodeClique"
    ret = "list[BbnNode]"

    def ensures(self, c):
        q, r = c.o.self_, c.res
        nb = q.neighbors
        yield "new list", And(r.fresh(c.s0), r.len == nb.len + 1)
        yield "the neighbours", forall("i", lambda i: Implies(rng(i, nb.len), r[i] == nb[i]), pat=lambda i: [r[i].ref])
        yield "each of them", forall("i", lambda i: Implies(rng(i, nb.len), r[i] == nb[i]), pat=lambda i: [nb[i].ref])
        yield "and the node", And(r[nb.len] == q.node, KNOWN(nb.len))


@contract("C04")
class IsSuperset(Contract):
    fn = NO + "Clique.is_superset"
    recv = "Clique"
    args = {"that": "Clique"}
    ret = "bool"
    pure = True

    def ensures(self, c):
        yield "true exactly when it has all nodes of the other", c.res == INCL(ids(c.o.self_), ids(c.o.that))


@contract("C04")
class IsSubset(Contract):
    fn = T_ + "is_subset"
    args = {"cliques": "list[Clique]", "clique": "Clique"}
    ret = "bool"
    pure = True

    def ensures(self, c):
        l, q = c.o.cliques, c.o.clique
        yield "true only if one includes it", Implies(c.res, exists("i", lambda i: And(rng(i, l.len), KNOWN(i), INCL(ids(l[i]), ids(q)))))
        yield "false only if none includes it", forall("i", lambda i: Implies(And(Not(c.res), rng(i, l.len)), Not(INCL(ids(l[i]), ids(q)))), pat=lambda i: [l[i].ref])


COMPLETE = z3.Function("complete_set", REL, AB, B)
_cw1, _cw2 = z3.Function("incomplete_x", REL, AB, I), z3.Function("incomplete_y", REL, AB, I)
_S, _r = z3.Const("S", AB), z3.Const("r", REL)
_a, _b = z3.Ints("a b")
axiom("complete set: definition (any two different members are linked)", ["complete_set"], And(
    z3.ForAll([_r, _S, _a, _b], Implies(And(COMPLETE(_r, _S), _S[_a], _S[_b], _a != _b), _r[_a][_b]), patterns=[z3.MultiPattern(COMPLETE(_r, _S), _S[_a], _S[_b])]),
    z3.ForAll([_r, _S], Or(COMPLETE(_r, _S), And(_S[_cw1(_r, _S)], _S[_cw2(_r, _S)], _cw1(_r, _S) != _cw2(_r, _S), Not(_r[_cw1(_r, _S)][_cw2(_r, _S)]))), patterns=[COMPLETE(_r, _S)])), "definition")


def nrel(c, g):
    return rel(c, g._s, lambda x, y: E(g, x, y))


def clique_ok(m, q):
    """a clique of nodes of m"""
    yield "cliques have nodes", q.nodes.len >= 1
    yield "clique nodes are nodes of the graph", forall("i", lambda i: Implies(rng(i, q.nodes.len), And(q.nodes[i].ref > 0, m.nodes.has(q.nodes[i].id), m.nodes[q.nodes[i].id] == q.nodes[i])), pat=lambda i: [q.nodes[i].ref])
    yield "clique nodes are listed once", ids_once(q.nodes)
    yield from ids_of(q.node_ids, q.nodes)


def ids_once(l):
    return forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < l.len), l[i].id != l[j].id), pat=lambda i, j: [(l[i].ref, l[j].ref)])


def cliques_ok(c, m, l):
    yield "cliques are new", forall("i", lambda i: Implies(rng(i, l.len), And(l[i].ref > 0, l[i].fresh(c.s0), l[i].ref < c.s.top, l[i].nodes.fresh(c.s0), l[i].nodes.ref < c.s.top, l[i].node_ids.fresh(c.s0), l[i].node_ids.ref < c.s.top, l[i].node_ids.ref > 0,
                              TYP(l[i].ref) == pyvc.core.tag("Clique"))), pat=lambda i: [l[i].ref])
    n = len(list(clique_ok(m, l[0])))
    for j in range(n):
        nm = [a for a, _ in clique_ok(m, l[0])][j]
        yield nm, forall("i", lambda i, j=j: Implies(rng(i, l.len), [f for _, f in clique_ok(m, l[i])][j]), pat=lambda i: [l[i].ref])
    yield "no clique includes another", forall("i", "j", lambda i, j: Implies(And(rng(i, l.len), rng(j, l.len), i != j), Not(INCL(ids(l[i]), ids(l[j])))), pat=lambda i, j: [INCL(ids(l[i]), ids(l[j]))])


def covered(c, l, S):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, l.len), KNOWN(i), INCL(ids(l[i]), S)), patterns=[KNOWN(i), l[i].ref])


@contract("C04")
class Triangulate(Contract):
    fn = T_ + "triangulate"
    args = {"m": "Ug!"}
    ret = "list[Clique]"

    def requires(self, c):
        m = c.o.m
        yield from moral_ok(c, m)
        yield list(DuplicateGraph().requires(_as_g(c)))[-1]

    def modifies(self, c):
        return tables(c.o.m)

    def ensures(self, c):
        m, l = c.o.m, c.res
        yield "new list", l.fresh(c.s0)
        yield from cliques_ok(c, m, l)
        yield "cliques are different", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < l.len), And(Not(INCL(ids(l[i]), ids(l[j]))), l[i] != l[j])), pat=lambda i, j: [(l[i].ref, l[j].ref)])
        S, x = z3.Const(fresh_name("S"), AB), z3.Int(fresh_name("x"))
        cs = COMPLETE(nrel(c, m), S)
        yield "every complete set of nodes is in a clique", z3.ForAll([S, x], Implies(And(cs, S[x], INCL(m.nodes.dom, S)), covered(c, l, S)), patterns=[z3.MultiPattern(cs, S[x])])

    def assumes(self, c):
        l = c.res
        yield "cliques with different nodes have different ids (sorted ids joined by hyphens)", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < l.len), l[i].id != l[j].id), pat=lambda i, j: [(l[i].ref, l[j].ref)])

    def _inv(L):
        m, h = L.o.m, L.a.m
        l, u = L.v("cliques", "list[Clique]"), L.v("mm", "Ug!")
        yield "the copy is separate", own(u, L.s0, L.s.top)
        yield "list is new", l.fresh(L.s0)
        yield from (("the copy: " + a, f) for a, f in moral_ok(L, u))
        yield from (("the graph: " + a, f) for a, f in moral_ok(L, h))
        yield "the graph keeps its nodes", forall("k", lambda k: And(h.nodes.has(k) == m.nodes.has(k), Implies(m.nodes.has(k), h.nodes[k] == m.nodes[k])), pat=lambda k: [h.nodes.has(k), m.nodes.has(k)])
        yield "the copy has nodes of the graph", forall("k", lambda k: Implies(u.nodes.has(k), And(m.nodes.has(k), u.nodes[k] == m.nodes[k])), pat=lambda k: [u.nodes.has(k)])
        yield "the copy keeps the links of its nodes", forall("a", "b", lambda a, b: Implies(And(E(m, a, b), u.nodes.has(a), u.nodes.has(b)), E(u, a, b)), pat=lambda a, b: [E(m, a, b)])
        yield from cliques_ok(L, m, l)
        yield "every clique has a node that is gone", forall("i", lambda i: Implies(rng(i, l.len), Not(INCL(u.nodes.dom, ids(l[i])))), pat=lambda i: [l[i].ref])
        S, x = z3.Const(fresh_name("S"), AB), z3.Int(fresh_name("x"))
        cs = COMPLETE(nrel(L, m), S)
        yield "complete sets are covered or still there", z3.ForAll([S, x], Implies(And(cs, S[x], INCL(m.nodes.dom, S)), Or(INCL(u.nodes.dom, S), covered(L, l, S))), patterns=[z3.MultiPattern(cs, S[x])])

    def _fill(L):
        l = L.v("cliques", "list[Clique]")
        v = L.se(l)
        yield "!cliques keep their nodes' ids", forall("i", lambda i: Implies(rng(i, l.len), ids(l[i]) == ids(v[i])), pat=lambda i: [l[i].ref])
        q, n = L.v("clique", "Clique"), L.v("node_clique", "NodeClique")
        yield "!the node is in its clique and gone", And(q.node_ids.has(n.node.id), Not(L.v("mm", "Ug!").nodes.has(n.node.id)))
        u, es, m = L.v("mm", "Ug!"), n.edges, L.o.m
        yield "!new links join nodes of the copy", forall("k", lambda k: Implies(rng(k, es.len), And(es[k].ref > 0, u.nodes.has(es[k].i.id), u.nodes.has(es[k].j.id))), pat=lambda k: [es[k].ref])
        i = z3.Int(fresh_name("i"))
        yield "!the node's clique is covered", z3.Exists([i], And(rng(i, l.len), KNOWN(i), INCL(ids(l[i]), ids(q))), patterns=[KNOWN(i), l[i].ref])
        S, x = z3.Const(fresh_name("S"), AB), z3.Int(fresh_name("x"))
        cs = COMPLETE(nrel(L, m), S)
        yield "!linked nodes are in the clique", forall("y", lambda y: Implies(And(E(m, n.node.id, y), u.nodes.has(y)), q.node_ids.has(y)), pat=lambda y: [E(m, n.node.id, y)])
        yield "!complete sets with the node", z3.ForAll([S, x], Implies(And(cs, S[x], S[n.node.id], INCL(m.nodes.dom, S)), Or(INCL(ids(q), S), covered(L, l, S))), patterns=[z3.MultiPattern(cs, S[x])])
        yield from Triangulate._inv(L)

    loops = [_inv] + [_fill] * 4


class _as_g:
    """the requirements of duplicate, for triangulate's argument"""

    def __init__(self, c):
        self.eng, self.s0, self.s = c.eng, c.s0, c.s
        self.o = type("o", (), {"g": c.o.m})
