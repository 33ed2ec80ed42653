"""C09: contracts on writing a join tree to a dictionary."""
from contracts.jointree import bbn, bbn_at, clique, in_tree, is_clique, only_cliques, unique, V_
from contracts.serial import *
from contracts.graph import key_of
from pyvc.core import STR

STR_INV = z3.Function("str_inv", I, I)

J = "pybbn.graph.jointree:"


def jt_node(d, t, k):
    """d describes the clique or separation set listed under k"""
    n, q = clique(t, k), V_(t, "SepSet", t.nodes[k].ref)
    sep = n.isa("SepSet")
    yield "kind", And(d.ref > 0, has(d, "type"), has(d, "left") == sep, has(d, "right") == sep, has(d, "node_ids") == Not(sep))
    yield "ends of a separation set", Implies(sep, And(d.left == q.left.id, d.right == q.right.id))
    yield "ids of a clique", Implies(Not(sep), And(d.node_ids.ref > 0, forall("x", lambda x: n.node_ids.has(x) == has_item(d.node_ids, x), pat=lambda x: [n.node_ids.has(x)])))


@contract("C09")
class JtToDict(Contract):
    fn = J + "JoinTree.to_dict"
    args = {"jt": "JoinTree!", "bbn": "Bbn!"}
    ret = "JtDict"
    records = {("edges", "nodes", "parent_info"): "JtGraphDict", ("bbn_nodes", "jt"): "JtDict", ("left", "right", "type"): "JtNodeDict", ("node_ids", "type"): "JtNodeDict"}

    def requires(self, c):
        t = c.o.jt
        yield from only_cliques(t)
        yield from unique(t)
        yield "nodes are complete", forall("k", "i", lambda k, i: Implies(bbn_at(t, k, i), complete(bbn(t, k, i))), pat=lambda k, i: [bbn(t, k, i).ref])
        yield "ends of separation sets", forall("k", lambda k: Implies(And(t.nodes.has(k), t.nodes[k].isa("SepSet")), And(V_(t, "SepSet", t.nodes[k].ref).left.ref > 0, V_(t, "SepSet", t.nodes[k].ref).right.ref > 0)), pat=lambda k: [t.nodes.has(k)])
        yield "ids of cliques", forall("k", lambda k: Implies(t.nodes.has(k), clique(t, k).node_ids.ref > 0), pat=lambda k: [t.nodes.has(k)])
        yield "cliques and separation sets are listed under their ids", forall("k", lambda k: Implies(t.nodes.has(k), t.nodes[k].id == k), pat=lambda k: [t.nodes.has(k), t.nodes[k].ref])
        m = t.edges
        yield "edges go through separation sets", forall("k", lambda k: Implies(m.has(k), And(m[k].ref > 0, key_of(c, m[k]) == k, m[k].isa("JtEdge"), sep(t, m[k].ref).ref > 0)), pat=lambda k: [m.has(k), m[k].ref])
        yield "lists of parents", forall("k", lambda k: Implies(c.o.bbn.parents.has(k), c.o.bbn.parents[k].ref > 0), pat=lambda k: [c.o.bbn.parents.has(k)])

    def ensures(self, c):
        t, d = c.o.jt, c.res
        b, m, e, p = d.bbn_nodes, d.jt.nodes, d.jt.edges, d.jt.parent_info
        yield "new", And(d.fresh(c.s0), has(d, "bbn_nodes", "jt"), has(d.jt, "nodes", "edges", "parent_info"))
        yield "ids of the nodes of the tree", forall("x", lambda x: Implies(b.has(x), exists("k", "i", lambda k, i: And(bbn_at(t, k, i), KNOWN(k), KNOWN(i), bbn(t, k, i).id == x))), pat=lambda x: [b.has(x)])
        yield "every node of the tree", forall("k", "i", lambda k, i: Implies(bbn_at(t, k, i), b.has(bbn(t, k, i).id)), pat=lambda k, i: [bbn(t, k, i).ref])
        for q, nm in enumerate([a for a, _ in node_dict(b[0], bbn(t, z3.IntVal(0), z3.IntVal(0)))]):
            yield nm, forall("k", "i", lambda k, i, q=q: Implies(bbn_at(t, k, i), [f for _, f in node_dict(b[bbn(t, k, i).id], bbn(t, k, i))][q]), pat=lambda k, i: [bbn(t, k, i).ref])
        yield "ids of the cliques and separation sets", forall("k", lambda k: m.has(k) == t.nodes.has(k), pat=lambda k: [m.has(k)])
        for q, nm in enumerate([a for a, _ in jt_node(m[0], t, z3.IntVal(0))]):
            yield nm, forall("k", lambda k, q=q: Implies(t.nodes.has(k), [f for _, f in jt_node(m[k], t, k)][q]), pat=lambda k: [m[k].ref])
        yield "edges are separation sets of edges of the tree", forall("i", lambda i: Implies(rng(i, e.len), exists("k", lambda k: And(t.edges.has(k), KNOWN(k), sep(t, t.edges[k].ref).id == e[i]))), pat=lambda i: [e[i]])
        yield "every edge of the tree", forall("k", lambda k: Implies(t.edges.has(k), has_item(e, sep(t, t.edges[k].ref).id)), pat=lambda k: [t.edges.has(k)])
        yield from parent_info(p, c.o.bbn.parents, lambda a: c.o.bbn.parents.has(a))

    def _nodes(L):
        t, d = L.o.jt, L.acc()
        yield "new", d.fresh(L.s0)
        yield "ids so far", forall("j", lambda j: Implies(rng(j, L.k), d.has(L.item(j).id)), pat=lambda j: [L.item(j).ref])
        yield "ids of nodes", forall("x", lambda x: Implies(d.has(x), exists("j", lambda j: And(rng(j, L.k), KNOWN(j), L.item(j).id == x))), pat=lambda x: [d.has(x)])
        yield "new entries", forall("k", lambda k: Implies(d.has(k), And(d[k].ref >= L.s0.top, d[k].ref < L.s.top, d[k].variable.ref >= L.s0.top, d[k].variable.ref < L.s.top, d[k].probs.ref >= L.s0.top, d[k].probs.ref < L.s.top)), pat=lambda k: [d[k].ref])
        for q, nm in enumerate([a for a, _ in node_dict(d[0], L.item(z3.IntVal(0)))]):
            yield nm, forall("j", lambda j, q=q: Implies(rng(j, L.k), [f for _, f in node_dict(d[L.item(j).id], L.item(j))][q]), pat=lambda j: [L.item(j).ref])

    def _parts(L, d):
        t = L.o.jt
        yield "new", d.fresh(L.s0)
        yield "ids so far", forall("j", lambda j: Implies(rng(j, L.k), d.has(L.item(j).id)), pat=lambda j: [L.item(j).ref])
        yield "ids of parts", forall("x", lambda x: Implies(d.has(x), And(t.nodes.has(x), exists("j", lambda j: And(rng(j, L.k), KNOWN(j), L.item(j).id == x)))), pat=lambda x: [d.has(x)])
        yield "new entries", forall("k", lambda k: Implies(d.has(k), And(d[k].ref >= L.s0.top, d[k].ref < L.s.top, Implies(has(d[k], "node_ids"), And(d[k].node_ids.ref >= L.s0.top, d[k].node_ids.ref < L.s.top)))), pat=lambda k: [d[k].ref])
        for q, nm in enumerate([a for a, _ in jt_node(d[0], t, z3.IntVal(0))]):
            yield nm, forall("k", lambda k, q=q: Implies(d.has(k), [f for _, f in jt_node(d[k], t, k)][q]), pat=lambda k: [d[k].ref])

    def _edges(L):
        l = L.acc()
        yield "new", l.fresh(L.s0)
        yield "one entry for every edge so far", And(l.len == L.k, forall("j", lambda j: Implies(rng(j, L.k), l[j] == sep(L.o.jt, L.item(j).ref).id), pat=lambda j: [l[j]]))

    def _info(L):
        yield "new", L.acc().fresh(L.s0)
        yield from parent_info(L.acc(), L.o.bbn.parents, L.seen)

    def _inv(L):
        try:
            a = L.acc()
        except Unsupported:
            return JtToDict._parts(L, L.v("d", "dict[int,JtNodeDict]"))
        if a._ty[0] == "list":
            return JtToDict._edges(L)
        if a._ty[1][0] != "int":
            return JtToDict._info(L)
        return JtToDict._nodes(L) if a._ty[2][1] == "NodeDict" else JtToDict._parts(L, a)

    loops = [_inv] * 6


def complete(n):
    return And(n.ref > 0, n.variable.ref > 0, n.probs.ref > 0, n.variable.values.ref > 0)


def sep(t, e):
    """the separation set of an edge"""
    return V_(t, "JtEdge", e).sep_set


def parent_info(p, ps, seen):
    k = z3.Int("k!p")
    yield "lists of parents under the text of their node", forall("a", lambda a: Implies(seen(a), And(p.has(STR(a)), p[STR(a)] == ps[a])), pat=lambda a: [STR(a)])
    yield "no other lists", forall("x", lambda x: Implies(p.has(x), And(x == STR(STR_INV(x)), seen(STR_INV(x)))), pat=lambda x: [p.has(x)])
