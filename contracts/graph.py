"""C06, C07: contracts on Graph, Ug, Dag, Bbn, Pdag."""
from contracts.graphs import *

G = "pybbn.graph.graph:"
D = "pybbn.graph.dag:"
P = "pybbn.graph.pdag:"


@contract("C07", "C06")
class EdgeKey(Contract):
    fn = "pybbn.graph.edge:Edge.key"
    recv = "Edge"
    ret = "atom"
    pure = True

    def ensures(self, c):
        yield "the key names the ends and the direction", c.res == key_of(c, c.o.self_)


# -------------------------------------------------------------------- queries
def lists(res, p):
    """the list holds exactly the x with p(x), each once"""
    yield "only those", forall("i", lambda i: Implies(rng(i, res.len), p(res[i])), pat=lambda i: [res[i]])
    yield "all of them", forall("x", lambda x: Implies(p(x), has_item(res, x)), pat=lambda x: [p(x)] if not z3.is_and(p(x)) else [p(x).arg(0)])
    yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < res.len), res[i] != res[j]), pat=lambda i, j: [(res[i], res[j])])


def dset(g):
    """keys without an entry have no members behind them"""
    yield "adjacency tables are complete", forall("a", "b", lambda a, b: And(Implies(E(g, a, b), g.edge_map.has(a))), pat=lambda a, b: [E(g, a, b)])


def query(fname, cls, recv, spec, props, ret="list[int]"):
    class Query(Contract):
        fn = fname
        args = {"id": "int"}

        def modifies(self, c):
            return touch(c.o.self_)

        def ensures(self, c):
            g = c.o.self_
            yield from lists(c.res, lambda x: spec(g, x, c.o.id))

    Query.recv = recv
    Query.ret = ret
    contract(*props)(Query)


query(D + "Dag.get_parents", "Dag", "Dag", lambda g, x, i: E(g, x, i), ["C06", "C07"])
query(D + "Dag.get_children", "Dag", "Dag", lambda g, x, i: E(g, i, x), ["C06", "C07"])
query(P + "Pdag.get_parents", "Pdag", "Pdag", lambda g, x, i: E(g, x, i), ["C06", "C07"])
query(P + "Pdag.get_out_nodes", "Pdag", "Pdag", lambda g, x, i: And(N(g, i, x), Not(E(g, x, i))), ["C06", "C07"])


class GetNode(Contract):
    fn = G + "Graph.get_node"
    recv = "Graph"
    args = {"id": "int"}
    ret = "Node"
    pure = True

    def requires(self, c):
        yield "a node of the graph", c.o.self_.nodes.has(c.o.id)

    def ensures(self, c):
        yield "the node listed under the id", c.res == c.o.self_.nodes[c.o.id]


contract("C07", "C11", "C16")(GetNode)


def listing(fname, table, val, key, props):
    """every entry of the table, once, each under its key"""
    class Listing(Contract):
        fn = G + fname
        recv = "Graph"
        ret = "list[%s]" % val
        inline = True

        def requires(self, c):
            m = getattr(c.o.self_, table)
            yield "entries are listed under their keys", forall("k", lambda k: Implies(m.has(k), key(c, m[k]) == k), pat=lambda k: [m.has(k), m[k].ref])

        def ensures(self, c):
            m, r = getattr(c.o.self_, table), c.res
            at = lambda i: key(c, r[i])
            i = z3.Int("i!l")
            yield "new", r.fresh(c.s0)
            yield "listed under its key", forall("i", lambda i: Implies(rng(i, r.len), And(m.has(at(i)), m[at(i)] == r[i])), pat=lambda i: [r[i].ref])
            yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), at(i) != at(j)), pat=lambda i, j: [(r[i].ref, r[j].ref)])
            yield "all of them", forall("k", lambda k: Implies(m.has(k), z3.Exists([i], And(rng(i, r.len), r[i] == m[k], KNOWN(i)), patterns=[KNOWN(i), r[i].ref])), pat=lambda k: [m.has(k)])

    contract(*props)(Listing)


listing("Graph.get_nodes", "nodes", "Node", lambda c, n: n.id, ["C07", "C11"])
listing("Graph.get_edges", "edges", "Edge", key_of, ["C07"])


@contract("C07", "C11")
class ParentsOrdered(Contract):
    fn = D + "Bbn.get_parents_ordered"
    recv = "Bbn!"
    args = {"id": "int"}
    ret = "list[int]"

    def requires(self, c):
        yield from wf(c, c.o.self_, "Bbn")

    def ensures(self, c):
        g, r, x = c.o.self_, c.res, c.o.id
        yield "new", r.fresh(c.s0)
        yield "parents", forall("i", lambda i: Implies(rng(i, r.len), E(g, r[i], x)), pat=lambda i: [r[i]])
        yield "all of them", forall("a", lambda a: Implies(E(g, a, x), has_item(r, a)), pat=lambda a: [E(g, a, x)])
        yield "ascending, each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), r[i] < r[j]), pat=lambda i, j: [(r[i], r[j])])


# --------------------------------------------------------------- path search
def search(module, cls, relation, props, gets):
    class Find(Contract):
        fn = module + "PathDetector.__find__"
        recv = cls
        args = {"i": "int"}
        ret = "bool"

        def modifies(self, c):
            d = c.o.self_
            return sets("int", is_(d.seen)) + touch(d.graph)

        def requires(self, c):
            d = c.o.self_
            yield "the seen set is not part of the graph", own_seen(d)
            if cls.startswith("Pdag"):
                yield "neighbours are the linked pairs", linked(d.graph)

        def ensures(self, c):
            d, n = c.o.self_, c.n.self_
            r = relation(c, d.graph)
            yield "true only if there is a path", Implies(c.res, REACH(r, c.o.i, d.stop))
            yield "seen only grows", forall("x", lambda x: Implies(d.seen.has(x), n.seen.has(x)), pat=lambda x: [d.seen.has(x)])
            yield "otherwise what it has seen is closed and misses the target", Implies(Not(c.res), And(n.seen.has(c.o.i), closed(r, d, n.seen, None)))

        def _inv(L):
            d, n = L.o.self_, L.a.self_
            r = relation(L, d.graph)
            yield "seen only grows", forall("x", lambda x: Implies(d.seen.has(x), n.seen.has(x)), pat=lambda x: [d.seen.has(x)])
            yield "start was seen", n.seen.has(L.o.i)
            yield "closed but for the start", closed(r, d, n.seen, L.o.i)
            yield "items so far were seen", forall("j", lambda j: Implies(rng(j, L.k), n.seen.has(L.item(j))), pat=lambda j: [L.item(j)])

        loops = [_inv]

    contract(*props)(Find)

    class Exists(Contract):
        fn = module + "PathDetector.exists"
        recv = cls
        ret = "bool"

        def modifies(self, c):
            d = c.o.self_
            return sets("int", is_(d.seen)) + touch(d.graph)

        def requires(self, c):
            d = c.o.self_
            yield "the seen set is not part of the graph", own_seen(d)
            if cls.startswith("Pdag"):
                yield "neighbours are the linked pairs", linked(d.graph)
            yield "nothing was seen", forall("x", lambda x: Not(d.seen.has(x)), pat=lambda x: [d.seen.has(x)])

        def ensures(self, c):
            d = c.o.self_
            r = relation(c, d.graph)
            yield "true exactly when stop is start or can be reached", Implies(MARK(c.n.self_.seen.dom), c.res == Or(d.start == d.stop, REACH(r, d.start, d.stop)))

    contract(*props)(Exists)
    return Find, Exists


def own_seen(d):
    return d.seen.ref > 0


def linked(g):
    return forall("a", "b", lambda a, b: N(g, a, b) == Or(E(g, a, b), E(g, b, a)), pat=lambda a, b: [N(g, a, b)])


def closed(r, d, seen, but):
    """every new member's successors were seen and none is the target"""
    def p(x):
        new = [seen.has(x), Not(d.seen.has(x))] + ([x != but] if but is not None else [])
        return And(new)
    return And(forall("x", "y", lambda x, y: Implies(And(p(x), r[x][y]), seen.has(y)), pat=lambda x, y: [(seen.has(x), r[x][y])]),
               forall("x", lambda x: Implies(p(x), Not(r[x][d.stop])), pat=lambda x: [seen.has(x)]))


search(D, "DagPathDetector", erel, ["C06", "C07"], None)
search(P, "PdagPathDetector", drel, ["C06", "C07"], None)


# ------------------------------------------------------------------ updates
MOD = {"Graph": G + "Graph", "Ug": G + "Ug", "Dag": D + "Dag", "Bbn": D + "Bbn", "Pdag": P + "Pdag"}


def accepts(c, cls, g, e):
    """is edge e added to g?"""
    i, j = e.i.id, e.j.id
    if cls in ("Graph", "Ug"):
        return And(i != j, If(e.type == UNDIRECTED, Not(And(E(g, i, j), E(g, j, i))), Not(E(g, i, j))))
    if cls == "Dag":
        return And(e.type == DIRECTED, i != j, Not(E(g, i, j)), Not(E(g, j, i)), Not(REACH(erel(c, g), j, i)))
    if cls == "Pdag":
        return And(i != j, Not(E(g, i, j)), Not(E(g, j, i)), Not(REACH(drel(c, g), j, i)))
    # Bbn: every edge between two BbnNodes (see known-findings.txt)
    return z3.BoolVal(True)


def admissible(cls, e):
    if cls == "Bbn":
        yield "ends are BBN nodes", And(e.i.isa("BbnNode"), e.j.isa("BbnNode"))
        yield "edge is directed", e.type == DIRECTED


def parent_tables(g):
    return dct("int", "list[int]", is_(g.parents)) + lst("int", lambda r: exists("k", lambda k: And(g.parents.has(k), r == g.parents[k].ref)))


def updates(cls):
    home = {"Graph": G + "Graph", "Ug": G + "Graph", "Dag": D + "Dag", "Bbn": D + "Bbn", "Pdag": P + "Pdag"}[cls]

    class ShouldAdd(Contract):
        fn = home + ".__shouldadd__"
        recv = cls + "!"
        args = {"edge": "Edge"}
        ret = "bool"

        def requires(self, c):
            yield from admissible(cls, c.o.edge)
            if cls == "Pdag":
                yield "neighbours are the linked pairs", linked(c.o.self_)

        def modifies(self, c):
            return touch(c.o.self_)

        def ensures(self, c):
            yield "true exactly for the edges to be added", c.res == accepts(c, cls, c.o.self_, c.o.edge)

    contract("C06", "C07")(ShouldAdd)

    class AddEdge(Contract):
        fn = G + "Graph.add_edge"
        recv = cls + "!"
        args = {"edge": "Edge"}
        ret = cls + "!"

        def requires(self, c):
            yield from wf(c, c.o.self_, cls)
            yield from admissible(cls, c.o.edge)

        def modifies(self, c):
            g = c.o.self_
            return tables(g) + (parent_tables(g) if cls == "Bbn" else [])

        def ensures(self, c):
            g, h, e = c.o.self_, c.n.self_, c.o.edge
            acc = accepts(c, cls, g, e)
            key = key_of(c, e)
            i, j = e.i.id, e.j.id
            yield "the same graph", c.res == h
            yield "both ends are nodes, all nodes stay", forall("k", lambda k: h.nodes.has(k) == Or(g.nodes.has(k), k == i, k == j), pat=lambda k: [h.nodes.has(k)])
            yield "no node is replaced", forall("k", lambda k: Implies(g.nodes.has(k), h.nodes[k] == g.nodes[k]), pat=lambda k: [h.nodes[k].ref])
            yield "new nodes are the ends of the edge", And(Implies(Not(g.nodes.has(i)), h.nodes[i] == e.i), Implies(And(Not(g.nodes.has(j)), i != j), h.nodes[j] == e.j))
            yield "the edge is listed if it is accepted, all edges stay", forall("k", lambda k: h.edges.has(k) == Or(g.edges.has(k), And(acc, k == key)), pat=lambda k: [h.edges.has(k)])
            yield "no edge is replaced", forall("k", lambda k: Implies(And(g.edges.has(k), Not(And(acc, k == key))), h.edges[k] == g.edges[k]), pat=lambda k: [h.edges[k].ref])
            yield "the accepted edge itself is listed", Implies(acc, h.edges[key] == e)
            und = e.type == UNDIRECTED
            yield "exactly the accepted edge becomes adjacent", forall("a", "b", lambda a, b: E(h, a, b) == Or(E(g, a, b), And(acc, Or(And(a == i, b == j), And(und, a == j, b == i)))),
                                                                      pat=lambda a, b: [E(h, a, b), E(g, a, b)])
            if cls != "Bbn":
                yield "an accepted edge is new", Implies(acc, Not(g.edges.has(key)))
            if cls == "Bbn":
                p, q = g.parents, h.parents
                n0 = If(p.has(j), p[j].len, 0)
                yield "a new parent is listed last", Implies(Not(E(g, i, j)), And(q.has(j), q[j].len == n0 + 1, q[j][n0] == i))
                yield "a parent already listed is not listed again", Implies(E(g, i, j), q[j].len == n0)
                yield "the other lists are as before", forall("c", lambda c_: And(q.has(c_) == Or(p.has(c_), c_ == j), Implies(And(p.has(c_), c_ != j), q[c_].len == p[c_].len)), pat=lambda c_: [q.has(c_), q[c_].ref])
                yield "lists stay where they are, new ones are new", forall("c", lambda c_: Implies(q.has(c_), q[c_].ref == If(p.has(c_), p[c_].ref, q[c_].ref)), pat=lambda c_: [q[c_].ref])
                yield "a new list is new", Implies(And(q.has(j), Not(p.has(j))), And(q[j].fresh(c.s0), q[j].ref < c.s.top))
                yield "listed parents keep their places", forall("c", "k", lambda c_, k: Implies(And(p.has(c_), rng(k, p[c_].len)), q[c_][k] == p[c_][k]), pat=lambda c_, k: [q[c_][k], p[c_][k]])
            for nm, f in wf(c, h, cls):
                yield nm, f
            if cls == "Dag":
                r, s = erel(c, g), erel(c, h)
                yield "acyclic graphs stay acyclic", Implies(And(ADDS(r, s, i, j), acyclic(r)), acyclic(s))
            if cls == "Pdag":
                r, s = drel(c, g), drel(c, h)
                yield "no directed cycle appears", Implies(And(ADDS(r, s, i, j), acyclic(r)), acyclic(s))

    contract("C06", "C07")(AddEdge)

    class AddNode(Contract):
        fn = G + "Graph.add_node"
        recv = cls + "!"
        args = {"node": "Node"}
        ret = cls + "!"

        def requires(self, c):
            yield from wf(c, c.o.self_, cls)

        def modifies(self, c):
            return dct("int", "Node", is_(c.o.self_.nodes))

        def ensures(self, c):
            g, h, n = c.o.self_, c.n.self_, c.o.node
            yield "the same graph", c.res == h
            yield "the node is listed, all nodes stay", forall("k", lambda k: h.nodes.has(k) == Or(g.nodes.has(k), k == n.id), pat=lambda k: [h.nodes.has(k)])
            yield "no node is replaced", forall("k", lambda k: Implies(g.nodes.has(k), h.nodes[k] == g.nodes[k]), pat=lambda k: [h.nodes[k].ref])
            yield "a new node is listed itself", Implies(Not(g.nodes.has(n.id)), h.nodes[n.id] == n)
            yield from wf(c, h, cls)

    contract("C07")(AddNode)

    class RemoveNode(Contract):
        fn = (D + "Bbn" if cls == "Bbn" else G + "Graph") + ".remove_node"
        recv = cls + "!"
        args = {"id": "int"}

        def requires(self, c):
            yield from wf(c, c.o.self_, cls)

        def modifies(self, c):
            g = c.o.self_
            return tables(g) + (parent_tables(g) if cls == "Bbn" else [])

        def ensures(self, c):
            g, h, i = c.o.self_, c.n.self_, c.o.id
            yield "exactly that node goes", forall("k", lambda k: h.nodes.has(k) == And(g.nodes.has(k), k != i), pat=lambda k: [h.nodes.has(k)])
            yield "no node is replaced", forall("k", lambda k: Implies(h.nodes.has(k), h.nodes[k] == g.nodes[k]), pat=lambda k: [h.nodes[k].ref])
            yield "exactly its links go", forall("a", "b", lambda a, b: E(h, a, b) == And(E(g, a, b), a != i, b != i), pat=lambda a, b: [E(h, a, b), E(g, a, b)])
            yield "exactly its edges go", forall("k", lambda k: h.edges.has(k) == And(g.edges.has(k), g.edges[k].i.id != i, g.edges[k].j.id != i), pat=lambda k: [h.edges.has(k)])
            yield "no edge is replaced", forall("k", lambda k: Implies(h.edges.has(k), h.edges[k] == g.edges[k]), pat=lambda k: [h.edges[k].ref])
            yield from wf(c, h, cls)

        def _inv(L):
            # which table is being cleaned up decides the invariant, not the order of the loops
            g, h, i = L.se(L.a.self_), L.a.self_, L.o.id
            live = lambda t: L.q.dom.eq(t.dom)
            for m, n, w in ((g.edge_map, h.edge_map, "adjacency"), (g.neighbors, h.neighbors, "neighbours")):
                done = lambda a, b: And(b == i, L.seen(a)) if live(m) else z3.BoolVal(False)
                yield w + " so far", forall("a", "b", lambda a, b: n[a].has(b) == And(m[a].has(b), Not(done(a, b))), pat=lambda a, b: [n[a].has(b)])
            if live(g.edges):
                hit = lambda e: Or(e.i.id == i, e.j.id == i)
                yield "edges so far", forall("k", lambda k: h.edges.has(k) == And(g.edges.has(k), Not(And(L.seen(k), hit(g.edges[k])))), pat=lambda k: [h.edges.has(k)])
                yield "edges are kept", forall("k", lambda k: Implies(g.edges.has(k), h.edges[k] == g.edges[k]), pat=lambda k: [h.edges[k].ref])
            if cls == "Bbn" and live(g.parents):
                P_, Q = g.parents, h.parents
                yield "the lists are the same objects", forall("c", lambda c_: Q[c_] == P_[c_], pat=lambda c_: [Q[c_].ref])
                yield "lists so far no longer hold it", forall("c", "j", lambda c_, j: Implies(And(P_.has(c_), L.seen(c_), rng(j, Q[c_].len)), Q[c_][j] != i), pat=lambda c_, j: [Q[c_][j]])
                yield "lists hold parents only", forall("c", "j", lambda c_, j: Implies(And(P_.has(c_), rng(j, Q[c_].len)), has_item(P_[c_], Q[c_][j])), pat=lambda c_, j: [Q[c_][j]])
                yield "others stay", forall("c", "j", lambda c_, j: Implies(And(P_.has(c_), rng(j, P_[c_].len), P_[c_][j] != i), has_item(Q[c_], P_[c_][j])), pat=lambda c_, j: [P_[c_][j]])
                yield "listed once", forall("c", "i", "j", lambda c_, a, b: Implies(And(P_.has(c_), a >= 0, a < b, b < Q[c_].len), Q[c_][a] != Q[c_][b]), pat=lambda c_, a, b: [(Q[c_][a], Q[c_][b])])

        loops = [_inv] * 4

    contract("C07")(RemoveNode)


for _cls in ("Graph", "Ug", "Dag", "Bbn", "Pdag"):
    updates(_cls)
