"""C04: from cliques to the join tree."""
from contracts.compile import *
from contracts.graph import closed, own_seen, search

J = "pybbn.graph.jointree:"

FOREST = z3.Function("forest", REL, B)               # no cycle in the undirected graph of the links
_ex, _ey = z3.Function("link_x", REL, I), z3.Function("link_y", REL, I)
_sx, _sy = z3.Function("one_way_x", REL, I), z3.Function("one_way_y", REL, I)
_nb = z3.Function("some_link", REL, I, I)
LINKS = z3.Function("adds_links", REL, REL, I, I, I, B)    # marker
_lx, _ly = z3.Function("adds_links_x", REL, REL, I, I, I, I), z3.Function("adds_links_y", REL, REL, I, I, I, I)
_r1, _r2 = z3.Const("r1", REL), z3.Const("r2", REL)
_u, _v, _s, _a, _b = z3.Ints("u v s a b")
axiom("forest: no links, no cycle", ["forest"], z3.ForAll([_r1], Or(FOREST(_r1), _r1[_ex(_r1)][_ey(_r1)]), patterns=[FOREST(_r1)]), "Lean: forest_empty")
_x, _y = _lx(_r1, _r2, _u, _v, _s), _ly(_r1, _r2, _u, _v, _s)
axiom("forest: linking two unconnected nodes through a node without links closes no cycle", ["adds_links"], z3.ForAll([_r1, _r2, _u, _v, _s], Or(
    Not(FOREST(_r1)), FOREST(_r2), REACH(_r1, _u, _v), _u == _v, _r1[_s][_nb(_r1, _s)], _s == _u, _s == _v,
    And(_r1[_sx(_r1)][_sy(_r1)], Not(_r1[_sy(_r1)][_sx(_r1)])),
    And(_r2[_x][_y], Not(_r1[_x][_y]), Not(Or(And(_x == _u, _y == _s), And(_x == _s, _y == _u), And(_x == _v, _y == _s), And(_x == _s, _y == _v))))),
    patterns=[LINKS(_r1, _r2, _u, _v, _s)]), "Lean: forest_add")


def jrel(c, g):
    return rel(c, g._s, lambda x, y: N(g, x, y))


search(J, "JtPathDetector", jrel, ["C04"], None)


def mutual(g):
    return forall("a", "b", lambda a, b: Implies(N(g, a, b), N(g, b, a)), pat=lambda a, b: [N(g, a, b)])


def tree_ok(c, g):
    """a join tree under construction"""
    yield "tables are separate objects", g.edge_map != g.neighbors
    yield "nodes are listed under their ids", forall("k", lambda k: Implies(g.nodes.has(k), And(g.nodes[k].ref > 0, g.nodes[k].id == k)), pat=lambda k: [g.nodes.has(k)])
    yield "neighbours are the linked nodes", forall("a", "b", lambda a, b: N(g, a, b) == E(g, a, b), pat=lambda a, b: [N(g, a, b), E(g, a, b)])
    yield "links go both ways", mutual(g)
    yield "links join nodes", forall("a", "b", lambda a, b: Implies(N(g, a, b), And(g.nodes.has(a), g.nodes.has(b))), pat=lambda a, b: [N(g, a, b)])


@contract("C04")
class Intersects(Contract):
    fn = NO + "Clique.intersects"
    recv = "Clique"
    args = {"that": "Clique"}
    ret = "tuple[bool,list[int],list[int],list[int]]"

    def ensures(self, c):
        a, b = c.o.self_.nodes, c.o.that.nodes
        yes, lhs, rhs, both = c.res
        yield "new lists", And(lhs.fresh(c.s0), rhs.fresh(c.s0), both.fresh(c.s0))
        yield "true exactly when some id is common", yes == (both.len > 0)
        yield from common_ids(a, b, both)


def has_id(l, x):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, l.len), l[i].id == x, KNOWN(i)), patterns=[KNOWN(i), l[i].ref])


@contract("C04")
class TreeShouldAdd(Contract):
    fn = J + "JoinTree.__shouldadd__"
    recv = "JoinTree!"
    args = {"edge": "Edge"}
    ret = "bool"

    def modifies(self, c):
        return touch(c.o.self_)

    def ensures(self, c):
        g, e = c.o.self_, c.o.edge
        yield "true exactly when the ends are not connected", c.res == And(e.i.id != e.j.id, Not(REACH(jrel(c, g), e.i.id, e.j.id)))


@contract("C04")
class TreeAddNode(Contract):
    fn = "pybbn.graph.graph:Graph.add_node"
    recv = "JoinTree!"
    args = {"node": "Node"}
    ret = "JoinTree!"

    def modifies(self, c):
        return dct("int", "Node", is_(c.o.self_.nodes))

    def ensures(self, c):
        g, h, n = c.o.self_, c.n.self_, c.o.node
        yield "the same tree", c.res == h
        yield "the node is listed, all nodes stay", forall("k", lambda k: h.nodes.has(k) == Or(g.nodes.has(k), k == n.id), pat=lambda k: [h.nodes.has(k)])
        yield "no node is replaced", forall("k", lambda k: Implies(g.nodes.has(k), h.nodes[k] == g.nodes[k]), pat=lambda k: [h.nodes[k].ref])
        yield "a new node is listed itself", Implies(Not(g.nodes.has(n.id)), h.nodes[n.id] == n)


@contract("C04")
class TreeAddEdge(Contract):
    fn = J + "JoinTree.add_edge"
    recv = "JoinTree!"
    args = {"edge": "JtEdge!"}
    ret = "JoinTree!"

    def requires(self, c):
        g, e = c.o.self_, c.o.edge
        yield from tree_ok(c, g)
        yield "the separation set is new", Not(g.nodes.has(e.sep_set.id))
        yield "the separation set is not one of the ends", And(e.sep_set.id != e.i.id, e.sep_set.id != e.j.id)

    def modifies(self, c):
        return tables(c.o.self_)

    def ensures(self, c):
        g, h, e = c.o.self_, c.n.self_, c.o.edge
        i, j, s = e.i.id, e.j.id, e.sep_set.id
        r, t = jrel(c, g), jrel(c, h)
        acc = And(i != j, Not(REACH(r, i, j)))
        yield "the same tree", c.res == h
        yield "an edge between unconnected cliques goes through its separation set", forall("a", "b", lambda a, b: N(h, a, b) == Or(N(g, a, b), And(acc, Or(
            And(a == i, b == s), And(a == s, b == i), And(a == j, b == s), And(a == s, b == j)))), pat=lambda a, b: [N(h, a, b), N(g, a, b)])
        yield "its nodes are listed, all nodes stay", forall("k", lambda k: h.nodes.has(k) == Or(g.nodes.has(k), And(acc, Or(k == i, k == j, k == s))), pat=lambda k: [h.nodes.has(k)])
        yield "no node is replaced", forall("k", lambda k: Implies(g.nodes.has(k), h.nodes[k] == g.nodes[k]), pat=lambda k: [h.nodes[k].ref])
        yield "the separation set itself is listed", Implies(acc, h.nodes[s] == e.sep_set)
        yield "the ends are listed", Implies(acc, And(Implies(Not(g.nodes.has(i)), h.nodes[i] == e.i), Implies(Not(g.nodes.has(j)), h.nodes[j] == e.j)))
        yield "the edge is listed if it is added", forall("k", lambda k: h.edges.has(k) == Or(g.edges.has(k), And(acc, k == key_of(c, e))), pat=lambda k: [h.edges.has(k)])
        yield "the added edge itself", Implies(acc, h.edges[key_of(c, e)] == e)
        yield from tree_ok(c, h)
        yield "!the ends are linked through it", Implies(acc, And(t[i][s], t[s][j], REACH(t, s, j)))
        yield "the ends are connected now", Implies(i != j, REACH(t, i, j))
        yield "no cycle appears", Implies(And(FOREST(r), LINKS(r, t, i, j, s)), FOREST(t))
        yield "what was connected stays connected", forall("a", "b", lambda a, b: Implies(REACH(r, a, b), REACH(t, a, b)), pat=lambda a, b: [REACH(r, a, b)])


def common(a, b):
    """cliques a and b share a node id"""
    return exists("i", "j", lambda i, j: And(rng(i, a.nodes.len), rng(j, b.nodes.len), a.nodes[i].id == b.nodes[j].id))


def sep_set(q):
    """q is the separation set of two cliques: it holds exactly their common nodes"""
    a, b, l = q.left, q.right, q.nodes
    yield "common nodes only", forall("i", lambda i: Implies(rng(i, l.len), And(l[i].ref > 0, has_ref(a.nodes, l[i]), has_id(b.nodes, l[i].id))), pat=lambda i: [l[i].ref])
    yield "all common nodes", forall("i", "j", lambda i, j: Implies(And(rng(i, a.nodes.len), rng(j, b.nodes.len), a.nodes[i].id == b.nodes[j].id), has_ref(l, a.nodes[i])), pat=lambda i, j: [(a.nodes[i].ref, b.nodes[j].ref)])


def common_ids(a, b, both):
    yield "only common ids", forall("i", lambda i: Implies(rng(i, both.len), And(has_id(a, both[i]), has_id(b, both[i]))), pat=lambda i: [both[i]])
    yield "all common ids", forall("i", "j", lambda i, j: Implies(And(rng(i, a.len), rng(j, b.len), a[i].id == b[j].id), has_item(both, a[i].id)), pat=lambda i, j: [(a[i].ref, b[j].ref)])


@contract("C04")
class SepSetInit(Contract):
    fn = NO + "SepSet.__init__"
    recv = "SepSet!"
    args = {"left": "Clique", "right": "Clique", "lhs": "list[int]", "rhs": "list[int]", "intersection": "list[int]"}

    def requires(self, c):
        a, b, q = c.o.left, c.o.right, c.o.self_
        yield "not one of its cliques", And(a != q, b != q)
        yield "nor of their nodes", And(all_of(a.nodes, lambda n: And(n.ref > 0, n != q)), all_of(b.nodes, lambda n: And(n.ref > 0, n != q)))
        yield from common_ids(a.nodes, b.nodes, c.o.intersection)

    def modifies(self, c):
        q = is_(c.o.self_)
        return [m for f in ("id", "metadata", "nodes", "marked", "left", "right", "is_empty_intersection") for m in fld("SepSet", f, q)]

    def ensures(self, c):
        q = c.n.self_
        yield "between the cliques given", And(q.left == c.o.left, q.right == c.o.right)
        yield "its own list of nodes", And(q.nodes.fresh(c.s0), q.nodes.ref > 0, q.nodes.ref < c.s.top)
        yield from sep_set(q)


def sep_sets(c, l, r, top):
    yield "separation sets are new", all_of(r, lambda q: And(q.ref > 0, q.fresh(c.s0), q.ref < top, q.nodes.fresh(c.s0), q.nodes.ref < top, TYP(q.ref) == pyvc.core.tag("SepSet")))
    yield "they lie between cliques", all_of(r, lambda q: And(q.left.ref > 0, q.right.ref > 0, q.left != q.right, has_ref(l, q.left), has_ref(l, q.right)))
    for j in range(2):
        nm = [a for a, _ in sep_set(r[0])][j]
        yield nm, forall("i", lambda i, j=j: Implies(rng(i, r.len), [f for _, f in sep_set(r[i])][j]), pat=lambda i: [r[i].ref])


def between(r, a, b):
    """r has a separation set of a and b"""
    k = z3.Int(fresh_name("k"))
    return z3.Exists([k], And(rng(k, r.len), r[k].left == a, r[k].right == b, KNOWN(k)), patterns=[KNOWN(k), r[k].ref])


@contract("C04")
class GetSepSets(Contract):
    fn = TF + "Transformer.get_sep_sets"
    args = {"cliques": "list[Clique]"}
    ret = "list[SepSet]"

    def requires(self, c):
        l = c.o.cliques
        yield "cliques are different", distinct(l)
        yield "cliques have nodes", all_of(l, lambda q: And(q.ref > 0, q.nodes.len >= 1))
        yield "cliques have BBN nodes", forall("i", "k", lambda i, k: Implies(And(rng(i, l.len), rng(k, l[i].nodes.len)), l[i].nodes[k].ref > 0), pat=lambda i, k: [l[i].nodes[k].ref])

    def ensures(self, c):
        l, r = c.o.cliques, c.res
        yield "new list", r.fresh(c.s0)
        yield from sep_sets(c, l, r, c.s.top)
        yield "one for every two cliques with a common node", forall("i", "j", "a", "b", lambda i, j, a, b: Implies(And(i >= 0, i < j, j < l.len, shares(l, i, j, a, b)), between(r, l[i], l[j])),
                                                                   pat=lambda i, j, a, b: [(l[i].nodes[a].ref, l[j].nodes[b].ref)])
        yield "larger ones first", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), r[i].nodes.len >= r[j].nodes.len), pat=lambda i, j: [(r[i].ref, r[j].ref)])

    def assumes(self, c):
        r = c.res
        yield "separation sets of different pairs have different ids", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), r[i].id != r[j].id), pat=lambda i, j: [(r[i].ref, r[j].ref)])
        l = c.o.cliques
        yield "ids of separation sets differ from ids of cliques", forall("i", "j", lambda i, j: Implies(And(rng(i, r.len), rng(j, l.len)), r[i].id != l[j].id), pat=lambda i, j: [(r[i].ref, l[j].ref)])

    def _outer_at(L, k):
        l, r = L.o.cliques, L.v("sep_sets", "list[SepSet]")
        yield "list is new", r.fresh(L.s0)
        yield from sep_sets(L, l, r, L.s.top)
        yield "pairs so far", forall("i", "j", "a", "b", lambda i, j, a, b: Implies(And(i >= 0, i < j, j < l.len, i < k, shares(l, i, j, a, b)), between(r, l[i], l[j])),
                                     pat=lambda i, j, a, b: [(l[i].nodes[a].ref, l[j].nodes[b].ref)])

    def _outer(L):
        yield from GetSepSets._outer_at(L, L.k)

    def _inner(L):
        l, r, i = L.o.cliques, L.v("sep_sets", "list[SepSet]"), L.v("i")
        yield from GetSepSets._outer_at(L, i)
        yield "!a term to look at", KNOWN(r.len - 1)
        yield "pairs of this clique so far", forall("j", "a", "b", lambda j, a, b: Implies(And(j > i, j < l.len, j < i + 1 + L.k, shares(l, i, j, a, b)), between(r, l[i], l[j])),
                                                    pat=lambda j, a, b: [(l[i].nodes[a].ref, l[j].nodes[b].ref)])

    loops = [_outer, _inner]


def shares(l, i, j, a, b):
    return And(rng(a, l[i].nodes.len), rng(b, l[j].nodes.len), l[i].nodes[a].id == l[j].nodes[b].id)


def clique_at(l, t, k):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, l.len), KNOWN(i), l[i].id == k, t.nodes[k] == l[i]), patterns=[KNOWN(i), l[i].ref])


def through(t, q):
    """separation set q of the tree links exactly its two cliques, and holds exactly their common nodes"""
    yield "separation sets of the tree link their two cliques", And(t.nodes.has(q.left.id), t.nodes.has(q.right.id), t.nodes[q.left.id] == q.left, t.nodes[q.right.id] == q.right, q.left.ref > 0, q.right.ref > 0,
                                                       q.left != q.right, N(t, q.id, q.left.id), N(t, q.id, q.right.id))
    yield "and nothing else", forall("x", lambda x: Implies(N(t, q.id, x), Or(x == q.left.id, x == q.right.id)), pat=lambda x: [N(t, q.id, x)])
    yield from sep_set(q)


def as_sep(t, k):
    """node k of the tree as a separation set"""
    return View(t._s, ("ref", "SepSet"), t.nodes[k].ref)


@contract("C04")
class Transform(Contract):
    fn = TF + "Transformer.transform"
    args = {"cliques": "list[Clique]"}
    ret = "JoinTree!"

    def requires(self, c):
        yield from GetSepSets().requires(c)
        l = c.o.cliques
        yield "cliques have different ids", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < l.len), l[i].id != l[j].id), pat=lambda i, j: [(l[i].ref, l[j].ref)])
        yield "cliques are not separation sets", all_of(l, lambda q: TYP(q.ref) == pyvc.core.tag("Clique"))

    def ensures(self, c):
        l, t = c.o.cliques, c.res
        r = jrel(c, t)
        yield "a new tree", own(t, c.s0, c.s.top)
        yield "without evidence or tables", And(t.evidences.fresh(c.s0), t.potentials.fresh(c.s0), t.evidences.ref < c.s.top, t.potentials.ref < c.s.top, forall("i", lambda i: Not(t.evidences.has(i)), pat=lambda i: [t.evidences.has(i)]))
        yield "separation sets are new", forall("k", lambda k: Implies(And(t.nodes.has(k), t.nodes[k].isa("SepSet")), And(t.nodes[k].fresh(c.s0), t.nodes[k].ref < c.s.top)), pat=lambda k: [t.nodes.has(k)])
        yield "every clique is in it", all_of(l, lambda q: And(t.nodes.has(q.id), t.nodes[q.id] == q))
        yield "nothing but cliques and separation sets", forall("k", lambda k: Implies(And(t.nodes.has(k), Not(t.nodes[k].isa("SepSet"))), clique_at(l, t, k)), pat=lambda k: [t.nodes.has(k)])
        yield from tree_ok(c, t)
        yield "no cycle", FOREST(r)
        yield from Transform._seps(c, t)
        yield "cliques with a common node are connected", forall("i", "j", "a", "b", lambda i, j, a, b: Implies(And(i >= 0, i < j, j < l.len, shares(l, i, j, a, b)), REACH(r, l[i].id, l[j].id)),
                                                                pat=lambda i, j, a, b: [(l[i].nodes[a].ref, l[j].nodes[b].ref)])

    def _seps(c, t):
        n = len(list(through(t, as_sep(t, z3.IntVal(0)))))
        for j in range(n):
            nm = [a for a, _ in through(t, as_sep(t, z3.IntVal(0)))][j]
            yield nm, forall("k", lambda k, j=j: Implies(And(t.nodes.has(k), t.nodes[k].isa("SepSet")), [f for _, f in through(t, as_sep(t, k))][j]), pat=lambda k: [t.nodes.has(k)])

    def _nodes(L):
        l, t = L.o.cliques, L.v("join_tree", "JoinTree!")
        yield "a new tree", own(t, L.s0, L.s.top)
        yield from tree_ok(L, t)
        yield "cliques so far", forall("j", lambda j: Implies(rng(j, L.k), And(t.nodes.has(l[j].id), t.nodes[l[j].id] == l[j])), pat=lambda j: [l[j].ref])
        yield "only cliques so far", forall("k", lambda k: Implies(t.nodes.has(k), clique_at(l, t, k)), pat=lambda k: [t.nodes.has(k)])
        yield "only cliques so far, by position", forall("k", lambda k: Implies(t.nodes.has(k), exists("i", lambda i: And(rng(i, L.k), KNOWN(i), l[i].id == k))), pat=lambda k: [t.nodes.has(k)])
        yield "no links yet", forall("a", "b", lambda a, b: Not(N(t, a, b)), pat=lambda a, b: [N(t, a, b)])

    def _edges(L):
        l, t, s = L.o.cliques, L.v("join_tree", "JoinTree!"), L.v("sep_sets", "list[SepSet]")
        r = jrel(L, t)
        yield "a new tree", own(t, L.s0, L.s.top)
        yield from tree_ok(L, t)
        yield "every clique is in it", all_of(l, lambda q: And(t.nodes.has(q.id), t.nodes[q.id] == q))
        yield "nothing but cliques and separation sets", forall("k", lambda k: Implies(And(t.nodes.has(k), Not(t.nodes[k].isa("SepSet"))), clique_at(l, t, k)), pat=lambda k: [t.nodes.has(k)])
        yield "separation sets so far", forall("k", lambda k: Implies(And(t.nodes.has(k), t.nodes[k].isa("SepSet")), exists("j", lambda j: And(rng(j, L.k), KNOWN(j), s[j] == t.nodes[k]))), pat=lambda k: [t.nodes.has(k)])
        yield "no cycle", FOREST(r)
        yield from Transform._seps(L, t)
        yield "connected so far", forall("j", lambda j: Implies(rng(j, L.k), REACH(r, s[j].left.id, s[j].right.id)), pat=lambda j: [s[j].ref])

    loops = [_nodes, _edges]
