"""C13: generated networks (pybbn/generator/bbngenerator.py)."""
from contracts.common import *
from contracts.graphs import REACH
from contracts.nx import ARCN, CHAIN, NONE_, PRED, PREDN, UCONN, acyclic, edge, ends_ok, has_item, preds, put, upto

M = "pybbn.generator.bbngenerator:"

_r, _ns, _a, _n = z3.Const("r", z3.ArraySort(I, AB)), z3.Const("ns", AB), z3.Int("a"), z3.Int("n")
TREE = z3.Function("tree", AB, z3.ArraySort(I, AB), I, B)
TW = z3.Function("tree_wit", AB, I, I)
axiom("tree: connected on the nodes 0, .., n-1 with n - 1 arcs (definition)", ["tree"], And(
    z3.ForAll([_ns, _r, _n], Implies(TREE(_ns, _r, _n), And(UCONN(_ns, _r), ARCN(_r) == _n - 1)), patterns=[TREE(_ns, _r, _n)]),
    z3.ForAll([_ns, _r, _n], Or(TREE(_ns, _r, _n), Not(UCONN(_ns, _r)), ARCN(_r) != _n - 1, _ns[TW(_ns, _n)] != And(TW(_ns, _n) >= 0, TW(_ns, _n) < _n)), patterns=[TREE(_ns, _r, _n)])), "definition")
axiom("tree: no directed cycle", ["tree"], z3.ForAll([_ns, _r, _n, _a], Implies(And(TREE(_ns, _r, _n), REACH(_r, _a, _a)), False),
      patterns=[z3.MultiPattern(TREE(_ns, _r, _n), REACH(_r, _a, _a))]), "Lean: tree_acyclic")
OX, OY = z3.Function("order_x", z3.ArraySort(I, AB), I), z3.Function("order_y", z3.ArraySort(I, AB), I)
axiom("reach: a relation that only goes up has no cycle", ["reach"], z3.ForAll([_r, _a], Or(Not(REACH(_r, _a, _a)), And(_r[OX(_r)][OY(_r)], OX(_r) >= OY(_r))), patterns=[REACH(_r, _a, _a)]), "Lean: reach_up")


def graph(c, g, n, tree=False):
    yield "nodes 0 to n-1", And(upto(g.ns, n), CARD(g.ns) == n)
    yield "edges end in nodes", ends_ok(g)
    yield "connected", UCONN(g.ns, g.arcs)
    if tree:
        yield "one node more than edges: no undirected cycle", ARCN(g.arcs) == n - 1
    else:
        yield "no directed cycle", acyclic(g.arcs)


def rels(g):
    return fld("NxDiGraph", "ns", is_(g)) + fld("NxDiGraph", "arcs", is_(g)) + fld("NxDiGraph", "stamp", is_(g))


@contract("C13")
class SimpleTree(Contract):
    fn = M + "__get_simple_ordered_tree__"
    args = {"n": "int"}
    ret = "NxDiGraph!"

    def requires(self, c):
        yield "a node", c.o.n >= 1

    def steps(self, c):
        g = c.res
        yield "the chain", CHAIN(g.ns, g.arcs, c.o.n)

    def ensures(self, c):
        g, n = c.res, c.o.n
        yield "new", g.fresh(c.s0)
        yield "i is followed by i + 1", forall("a", "b", lambda a, b: edge(g, a, b) == And(a >= 0, a + 1 < n, b == a + 1), pat=lambda a, b: [edge(g, a, b)])
        yield from graph(c, g, n)
        yield "n - 1 edges", ARCN(g.arcs) == n - 1

    def _nodes(L):
        g = L.v("g", "NxDiGraph")
        yield "new", g.fresh(L.s0)
        yield "nodes so far", And(upto(g.ns, L.k), CARD(g.ns) == L.k)
        yield "no edges", g.arcs == NONE_

    def _edges(L):
        g, n = L.v("g", "NxDiGraph"), L.o.n
        yield "new", g.fresh(L.s0)
        yield "nodes", And(upto(g.ns, n), CARD(g.ns) == n)
        yield "edges so far", forall("a", "b", lambda a, b: edge(g, a, b) == And(a >= 0, a < L.k, b == a + 1), pat=lambda a, b: [edge(g, a, b)])
        yield "so many", ARCN(g.arcs) == L.k

    loops = [_nodes, _edges]


def same_nodes(u, d):
    return forall("a", lambda a: u.ns[a] == d.ns[a], pat=lambda a: [u.ns[a]])


def linked(d, a, b):
    return Or(edge(d, a, b), edge(d, b, a))


@contract("C13")
class ToUndirected(Contract):
    fn = M + "__convert_to_undirected_graph__"
    args = {"g": "NxDiGraph"}
    ret = "NxGraph"

    def requires(self, c):
        yield "edges end in nodes", ends_ok(c.o.g)

    def ensures(self, c):
        u, d = c.res, c.o.g
        yield "new", u.fresh(c.s0)
        yield "the same nodes", u.ns == d.ns
        yield "linked exactly when there is an edge", forall("a", "b", lambda a, b: u.links[a][b] == linked(d, a, b), pat=lambda a, b: [u.links[a][b]])
        yield "every edge is a link", forall("a", "b", lambda a, b: Implies(edge(d, a, b), u.links[a][b]), pat=lambda a, b: [edge(d, a, b)])

    def _nodes(L):
        u, d = L.v("u", "NxGraph"), L.o.g
        yield "new", u.fresh(L.s0)
        yield "only nodes", forall("a", lambda a: Implies(u.ns[a], d.ns[a]), pat=lambda a: [u.ns[a]])
        yield "nodes so far", forall("j", lambda j: Implies(rng(j, L.k), u.ns[L.item(j)]), pat=lambda j: [L.item(j)])
        yield "no links", u.links == NONE_

    def _edges(L):
        u, d = L.v("u", "NxGraph"), L.o.g
        yield "new", u.fresh(L.s0)
        yield "nodes", same_nodes(u, d)
        yield "links so far are edges", forall("a", "b", lambda a, b: Implies(u.links[a][b], linked(d, a, b)), pat=lambda a, b: [u.links[a][b]])
        yield "edges so far are linked", forall("j", lambda j: Implies(rng(j, L.k), And(u.links[L.item(j)[0]][L.item(j)[1]], u.links[L.item(j)[1]][L.item(j)[0]])), pat=lambda j: [L.item(j)[0], L.item(j)[1]])

    loops = [_nodes, _edges]


def nonempty(ns):
    a = z3.Int("a!n")
    return z3.Exists([a], And(KNOWN(a), ns[a]), patterns=[KNOWN(a), ns[a]])


@contract("C13")
class Connected(Contract):
    fn = M + "__is_connected__"
    args = {"g": "NxDiGraph"}
    ret = "bool"

    def requires(self, c):
        yield "edges end in nodes", ends_ok(c.o.g)
        yield "the graph has a node", nonempty(c.o.g.ns)

    def ensures(self, c):
        yield "true exactly when every two nodes are linked by a path", c.res == UCONN(c.o.g.ns, c.o.g.arcs)


@contract("C13")
class RandInt(Contract):
    fn = "ext:numpy.random.randint"
    args = {"lo": "int", "hi": "int"}
    ret = "int"
    pure = True
    trusted = "numpy: a random integer of [lo, hi)"

    def requires(self, c):
        yield "a non-empty range", c.o.lo < c.o.hi

    def ensures(self, c):
        yield "in the range", And(c.res >= c.o.lo, c.res < c.o.hi)


@contract("C13")
class RandReal(Contract):
    fn = "ext:numpy.random.random"
    ret = "real"
    pure = True
    trusted = "numpy: a random real of [0, 1)"

    def ensures(self, c):
        yield "in [0, 1)", And(c.res >= 0, c.res < 1)


@contract("C13")
class NodePair(Contract):
    fn = M + "__get_random_node_pair__"
    args = {"n": "int"}
    ret = "tuple[int,int]"

    def requires(self, c):
        yield "two nodes", c.o.n >= 2

    def ensures(self, c):
        i, j = c.res
        yield "two different nodes", And(rng(i, c.o.n), rng(j, c.o.n), i != j)

    def _inv(L):
        yield "a node", rng(L.v("j", "int"), L.o.n)

    loops = [_inv]


@contract("C13")
class EdgeExists(Contract):
    fn = M + "__edge_exists__"
    args = {"i": "int", "j": "int", "g": "NxDiGraph"}
    ret = "bool"

    def requires(self, c):
        yield "a node", c.o.g.ns[c.o.i]

    def ensures(self, c):
        yield "edge", c.res == edge(c.o.g, c.o.i, c.o.j)


@contract("C13")
class DelEdge(Contract):
    fn = M + "__del_edge__"
    args = {"i": "int", "j": "int", "g": "NxDiGraph"}

    def requires(self, c):
        g = c.o.g
        yield "edges end in nodes", ends_ok(g)
        yield "two nodes", And(g.ns[c.o.i], g.ns[c.o.j])
        yield "connected", UCONN(g.ns, g.arcs)

    def modifies(self, c):
        return rels(c.o.g)

    def ensures(self, c):
        g, h, i, j = c.o.g, c.n.g, c.o.i, c.o.j
        yield "the same nodes", h.ns == g.ns
        yield "nothing but the edge is removed", Or(h.arcs == g.arcs, And(edge(g, i, j), h.arcs == put(g.arcs, i, j, False)))
        yield "still connected", UCONN(h.ns, h.arcs)
        yield "no new cycle", forall("a", lambda a: Implies(REACH(h.arcs, a, a), REACH(g.arcs, a, a)), pat=lambda a: [REACH(h.arcs, a, a)])


@contract("C13")
class AddEdge(Contract):
    fn = M + "__add_edge__"
    args = {"i": "int", "j": "int", "g": "NxDiGraph"}

    def requires(self, c):
        g = c.o.g
        yield "edges end in nodes", ends_ok(g)
        yield "two nodes", And(g.ns[c.o.i], g.ns[c.o.j])
        yield "not an edge yet", Not(edge(g, c.o.i, c.o.j))
        yield "no cycle", acyclic(g.arcs)

    def modifies(self, c):
        return rels(c.o.g)

    def ensures(self, c):
        g, h, i, j = c.o.g, c.n.g, c.o.i, c.o.j
        yield "the same nodes", h.ns == g.ns
        yield "nothing but the edge is added", Or(h.arcs == g.arcs, h.arcs == put(g.arcs, i, j, True))
        yield "no cycle", acyclic(h.arcs)


@contract("C13")
class ShortestPath(Contract):
    fn = "ext:networkx.algorithms.shortest_paths.generic.shortest_path"
    args = {"u": "NxGraph", "a": "int", "b": "int"}
    ret = "list[int]"
    trusted = "networkx: a path exists between two nodes of a connected graph (no exception)"

    def requires(self, c):
        u = c.o.u
        yield "two nodes of a connected graph", And(u.ns[c.o.a], u.ns[c.o.b], UCONN(u.ns, u.links))

    def ensures(self, c):
        yield "new", c.res.fresh(c.s0)


@contract("C13")
class FindPredecessor(Contract):
    fn = M + "__find_predecessor__"
    args = {"i": "int", "j": "int", "g": "NxDiGraph"}
    ret = "opt[int]"

    def requires(self, c):
        g = c.o.g
        yield "edges end in nodes", ends_ok(g)
        yield "two nodes", And(g.ns[c.o.i], g.ns[c.o.j])
        yield "connected", UCONN(g.ns, g.arcs)

    def ensures(self, c):
        from pyvc.core import NULLI
        g = c.o.g
        yield "a parent", Implies(c.res != NULLI, edge(g, c.res, c.o.j))

    def _inv(L):
        yield "nothing was written", z3.BoolVal(True)

    loops = [_inv]


def structure(name, tree):
    class Structure(Contract):
        fn = M + name
        args = {"n": "int", "max_iter": "int"}
        ret = "NxDiGraph!"

        def requires(self, c):
            yield "a node", c.o.n >= 1

        def steps(self, c):
            g = c.res
            if tree:
                yield "a tree", TREE(g.ns, g.arcs, c.o.n)

        def ensures(self, c):
            g, n = c.res, c.o.n
            yield "new", g.fresh(c.s0)
            yield from graph(c, g, n, tree)
            if tree:
                yield "no directed cycle", acyclic(g.arcs)

        def _inv(L):
            g, n = L.v("g", "NxDiGraph"), L.o.n
            yield "new", g.fresh(L.s0)
            yield from graph(L, g, n, tree)

        loops = [_inv]

    contract("C13")(Structure)


structure("__generate_multi_connected_structure__", False)
structure("__generate_singly_structure__", True)


# -------------------------------------------------------------- parameters
def probability(row, n, c, s):
    """n probabilities that add up to one"""
    return And(row.len == n, forall("j", lambda j: Implies(rng(j, n), row[j] >= 0), pat=lambda j: [row[j]]), SUM(row.arr, n) == 1)


@contract("C13")
class NumValues(Contract):
    fn = M + "__generate_num_values__"
    args = {"n": "int", "max_values": "int"}
    ret = "list[int]"

    def requires(self, c):
        yield "a state is allowed", And(c.o.n >= 0, c.o.max_values >= 1)

    def ensures(self, c):
        r, m = c.res, c.o.max_values
        yield "new", r.fresh(c.s0)
        yield "one number per node", r.len == c.o.n
        yield "from two to the allowed number", forall("i", lambda i: Implies(rng(i, r.len), And(r[i] >= 2, r[i] <= If(m < 2, 2, m))), pat=lambda i: [r[i]])


@contract("C13")
class Alphas(Contract):
    fn = M + "__generate_alphas__"
    args = {"n": "int", "max_alpha": "int"}
    ret = "list[int]"

    def requires(self, c):
        yield "positive", And(c.o.n >= 0, c.o.max_alpha >= 1)

    def ensures(self, c):
        r = c.res
        yield "new", r.fresh(c.s0)
        yield "n positive numbers", And(r.len == c.o.n, forall("i", lambda i: Implies(rng(i, r.len), And(r[i] >= 1, r[i] <= c.o.max_alpha)), pat=lambda i: [r[i]]))


@contract("C13")
class DirichletRvs(Contract):
    fn = "ext:scipy.stats.dirichlet.rvs"
    args = {"alphas": "list[int]"}
    ret = "list[list[real]]"
    trusted = "scipy: one sample of probabilities adding up to one"

    def requires(self, c):
        a = c.o.alphas
        yield "positive parameters", And(a.len >= 1, forall("i", lambda i: Implies(rng(i, a.len), a[i] > 0), pat=lambda i: [a[i]]))

    def ensures(self, c):
        r = c.res
        yield "new", And(r.fresh(c.s0), r[0].fresh(c.s0), r[0].ref > 0)
        yield "one sample", And(r.len == 1, probability(r[0], c.o.alphas.len, c, c.s))


@contract("C13")
class SampleDirichlet(Contract):
    fn = M + "__sample_dirichlet__"
    args = {"n": "int", "max_alpha": "int"}
    ret = "list[real]"

    def requires(self, c):
        yield "positive", And(c.o.n >= 1, c.o.max_alpha >= 1)

    def ensures(self, c):
        yield "new", c.res.fresh(c.s0)
        yield "non-negative, adding up to one", probability(c.res, c.o.n, c, c.s)


def configs(c, s, parents, num):
    """number of configurations of the parents"""
    return PRODI(lam(c, s, I, lambda i: num[parents[i]]), parents.len)


def parents_ok(ps, num):
    yield "parents have numbers of states", forall("i", lambda i: Implies(rng(i, ps.len), And(ps[i] >= 0, ps[i] < num.len)), pat=lambda i: [ps[i]])
    yield "of at least one", forall("i", lambda i: Implies(rng(i, num.len), num[i] >= 1), pat=lambda i: [num[i]])


@contract("C13")
class NumInstantiations(Contract):
    fn = M + "__get_num_parent_instantiations__"
    args = {"parents": "list[int]", "num_values": "list[int]"}
    ret = "int"
    pure = True

    def requires(self, c):
        yield from parents_ok(c.o.parents, c.o.num_values)

    def ensures(self, c):
        yield "product of the numbers of states", c.res == configs(c, c.s0, c.o.parents, c.o.num_values)

    def _inv(L):
        yield "product so far", L.v("num_pa_instantiations", "int") == PRODI(lam(L, L.s0, I, lambda i: L.o.num_values[L.o.parents[i]]), L.k)

    loops = [_inv]


def table(c, s, t, rows, n):
    """rows of n non-negative numbers adding up to one"""
    yield "one row per configuration", t.len == rows
    yield "one probability per state", forall("k", lambda k: Implies(rng(k, t.len), t[k].len == n), pat=lambda k: [t[k].ref])
    yield "rows are probability distributions", forall("k", lambda k: Implies(rng(k, t.len), probability(t[k], n, c, s)), pat=lambda k: [t[k].ref])


@contract("C13")
class DirichletParameters(Contract):
    fn = M + "__generate_dirichlet_parameters__"
    args = {"i": "int", "parents": "list[int]", "num_values": "list[int]", "max_alpha": "int"}
    ret = "list[list[real]]"

    def requires(self, c):
        yield from parents_ok(c.o.parents, c.o.num_values)
        yield "a node", rng(c.o.i, c.o.num_values.len)
        yield "positive", c.o.max_alpha >= 1

    def ensures(self, c):
        r = c.res
        yield "new", r.fresh(c.s0)
        yield "new rows", forall("k", lambda k: Implies(rng(k, r.len), And(r[k].fresh(c.s0), r[k].ref > 0, r[k].ref < c.s.top)), pat=lambda k: [r[k].ref])
        yield from table(c, c.s, r, configs(c, c.s0, c.o.parents, c.o.num_values), c.o.num_values[c.o.i])

    def _inv(L):
        r = L.v("cpt", "list[list[real]]")
        yield "new", r.fresh(L.s0)
        yield "new rows", forall("k", lambda k: Implies(rng(k, r.len), And(r[k].fresh(L.s0), r[k].ref > 0, r[k].ref < L.s.top)), pat=lambda k: [r[k].ref])
        yield from table(L, L.s, r, L.k, L.o.num_values[L.o.i])

    loops = [_inv]


@contract("C13")
class Parameters(Contract):
    fn = M + "__generate_parameters__"
    args = {"g": "NxDiGraph", "max_values": "int", "max_alpha": "int"}
    ret = "dict[int,NodeParams]"
    records = {("params", "parents", "shape"): "NodeParams"}

    def requires(self, c):
        g = c.o.g
        yield "edges end in nodes", ends_ok(g)
        yield "nodes 0 to n-1", upto(g.ns, CARD(g.ns))
        yield "positive", And(c.o.max_values >= 1, c.o.max_alpha >= 1)

    def ensures(self, c):
        g, r = c.o.g, c.res
        yield "new", r.fresh(c.s0)
        yield "every node has parameters", forall("a", lambda a: r.has(a) == g.ns[a], pat=lambda a: [r.has(a)])
        yield from all_params(c, g, r, c.o.max_values, r.has)
        yield "one row per configuration of the parents", forall("a", lambda a: Implies(r.has(a), r[a].shape[0] == PRODI(lam(c, c.s, I, lambda j: r[PRED(g.ref, g.stamp, a)[j]].shape[1], over=[a]), r[a].parents.len)), pat=lambda a: [r[a].ref])

    def _inv(L):
        g, r = L.o.g, L.v("g_params", "dict[int,NodeParams]")
        num = L.v("num_values", "list[int]")
        yield "new", r.fresh(L.s0)
        yield "only nodes", forall("a", lambda a: Implies(r.has(a), g.ns[a]), pat=lambda a: [r.has(a)])
        yield "nodes so far", forall("j", lambda j: Implies(rng(j, L.k), r.has(L.item(j))), pat=lambda j: [L.item(j)])
        yield "states", forall("a", lambda a: Implies(r.has(a), r[a].shape[1] == num[a]), pat=lambda a: [r[a].ref])
        yield from all_params(L, g, r, L.o.max_values, r.has)
        yield "one row per configuration of the parents", forall("a", lambda a: Implies(r.has(a), r[a].shape[0] == PRODI(lam(L, L.s, I, lambda j: num[PRED(g.ref, g.stamp, a)[j]], over=[a]), r[a].parents.len)), pat=lambda a: [r[a].ref])

    loops = [_inv]


def all_params(c, g, r, m, has):
    at = lambda nm, p, pat=lambda a: [r[a].ref]: (nm, forall("a", lambda a: Implies(has(a), p(a, r[a])), pat=pat))
    hi = If(m < 2, 2, m)
    yield at("objects", lambda a, e: And(e.ref > 0, e.params.ref > 0, e.shape.ref > 0, e.parents.ref > 0, e.ref < c.s.top, e.params.ref < c.s.top, e.shape.ref < c.s.top, e.parents.ref < c.s.top))
    yield at("parents in the order of the graph", lambda a, e: And(e.parents.len == PREDN(g.ref, g.stamp, a), forall("j", lambda j: Implies(rng(j, e.parents.len), e.parents[j] == PRED(g.ref, g.stamp, a)[j]), pat=lambda j: [e.parents[j]])))
    yield "which are its parents", forall("a", "j", lambda a, j: Implies(And(has(a), rng(j, PREDN(g.ref, g.stamp, a))), And(g.ns[PRED(g.ref, g.stamp, a)[j]], edge(g, PRED(g.ref, g.stamp, a)[j], a))), pat=lambda a, j: [PRED(g.ref, g.stamp, a)[j]])
    yield at("from two to the allowed number of states", lambda a, e: And(e.shape.len == 2, e.shape[1] >= 2, e.shape[1] <= hi))
    yield at("one row per configuration", lambda a, e: e.params.len == e.shape[0])
    yield "rows of one probability per state", forall("a", "k", lambda a, k: Implies(And(has(a), rng(k, r[a].params.len)), And(r[a].params[k].ref > 0, r[a].params[k].ref < c.s.top, r[a].params[k].len == r[a].shape[1])), pat=lambda a, k: [r[a].params[k].ref])
    yield "rows are probability distributions", forall("a", "k", lambda a, k: Implies(And(has(a), rng(k, r[a].params.len)), probability(r[a].params[k], r[a].shape[1], c, c.s)), pat=lambda a, k: [r[a].params[k].ref])


def generate(name, tree):
    class Generate(Contract):
        fn = M + name
        args = {"n": "int", "max_iter": "int", "max_values": "int", "max_alpha": "int"}
        ret = "tuple[NxDiGraph,dict[int,NodeParams]]"

        def requires(self, c):
            yield "positive", And(c.o.n >= 1, c.o.max_values >= 1, c.o.max_alpha >= 1)

        def ensures(self, c):
            g, r = c.res
            yield from graph(c, g, c.o.n, tree)
            if tree:
                yield "no directed cycle", acyclic(g.arcs)
            yield "every node has parameters", forall("a", lambda a: r.has(a) == g.ns[a], pat=lambda a: [r.has(a)])
            yield from all_params(c, g, r, c.o.max_values, r.has)
            yield "one row per configuration of the parents", forall("a", lambda a: Implies(r.has(a), r[a].shape[0] == PRODI(lam(c, c.s, I, lambda j: r[PRED(g.ref, g.stamp, a)[j]].shape[1], over=[a]), r[a].parents.len)), pat=lambda a: [r[a].ref])

    contract("C13")(Generate)


generate("generate_multi_bbn", False)
generate("generate_singly_bbn", True)


# -------------------------------------------------------------- conversion
from contracts.graph import E, wf  # noqa: E402
from pyvc.core import V as Val  # noqa: E402
from pyvc.expr import QUO, RMD, fmt  # noqa: E402


def as_bbn_node(v):
    return View(v._s, ("ref", "BbnNode", False), v.ref)


def state_name(c, j):
    f, ax = fmt("state{}", [I])
    c.eng.fmtax[f.name()] = ax
    return f(j)


def converted(c, n, e, a):
    """BBN node n stands for node a with the parameters e"""
    v = n.variable
    w = e.shape[1]
    yield "its id", And(n.ref > 0, n.isa("BbnNode"), n.id == a, v.ref > 0, v.id == a)
    yield "its states", And(v.values.ref > 0, v.values.len == w, forall("j", lambda j: Implies(rng(j, w), v.values[j] == state_name(c, j)), pat=lambda j: [v.values[j]]))
    yield "its probabilities, row by row", And(n.probs.ref > 0, n.probs.len == e.params.len * If(e.params.len > 0, e.params[0].len, 0), forall("k", lambda k: Implies(
        rng(k, n.probs.len), n.probs[k] == e.params[QUO(k, w)][RMD(k, w)]), pat=lambda k: [n.probs[k]]))


def convertible(g, p):
    yield "edges end in nodes", ends_ok(g)
    yield "every node has parameters", forall("a", lambda a: Implies(g.ns[a], And(p.has(a), p[a].ref > 0, p[a].params.ref > 0, p[a].shape.ref > 0)), pat=lambda a: [g.ns[a], p[a].ref])
    yield "a shape and rows of that length", forall("a", lambda a: Implies(g.ns[a], And(p[a].shape.len == 2, p[a].shape[1] >= 1, p[a].params.len >= 1)), pat=lambda a: [p[a].ref])
    yield "rows of that length", forall("a", "k", lambda a, k: Implies(And(g.ns[a], rng(k, p[a].params.len)), And(p[a].params[k].ref > 0, p[a].params[k].len == p[a].shape[1])), pat=lambda a, k: [p[a].params[k].ref])
    yield "entries", forall("a", lambda a: Implies(g.ns[a], And(*[getattr(p[a], "__getattr__")("has:" + k) for k in ("params", "shape", "parents")])), pat=lambda a: [p[a].ref])


@contract("C13")
class Convert(Contract):
    fn = M + "convert_for_exact_inference"
    args = {"g": "NxDiGraph", "p": "dict[int,NodeParams]"}
    ret = "Bbn!"

    def requires(self, c):
        yield from convertible(c.o.g, c.o.p)

    def ensures(self, c):
        g, p, b = c.o.g, c.o.p, c.res
        yield "new", b.fresh(c.s0)
        yield from wf(c, b, "Bbn")
        yield "the same nodes", forall("a", lambda a: b.nodes.has(a) == g.ns[a], pat=lambda a: [b.nodes.has(a)])
        for k, nm in enumerate(["ids are kept", "states", "probabilities"]):
            yield nm, forall("a", lambda a, k=k: Implies(g.ns[a], [f for _, f in converted(c, as_bbn_node(b.nodes[a]), p[a], a)][k]), pat=lambda a: [b.nodes[a].ref])
        yield "the same edges", forall("a", "b", lambda x, y: E(b, x, y) == edge(g, x, y), pat=lambda x, y: [E(b, x, y), edge(g, x, y)])
        yield "parents in the order of the rows", forall("a", "j", lambda a, j: Implies(And(g.ns[a], rng(j, PREDN(g.ref, g.stamp, a))), And(
            b.parents.has(a), b.parents[a][j] == PRED(g.ref, g.stamp, a)[j])), pat=lambda a, j: [b.parents[a][j], PRED(g.ref, g.stamp, a)[j]])
        yield "no more parents", forall("a", lambda a: Implies(b.parents.has(a), And(g.ns[a], b.parents[a].len == PREDN(g.ref, g.stamp, a))), pat=lambda a: [b.parents.has(a)])

    def _nodes(L):
        g, p, b, m = L.o.g, L.o.p, L.v("bbn", "Bbn!"), L.v("bbn_nodes", "dict[int,BbnNode]")
        yield "new", And(b.fresh(L.s0), m.fresh(L.s0))
        yield from wf(L, b, "Bbn")
        yield "no edges yet", And(forall("a", "b", lambda x, y: Not(E(b, x, y)), pat=lambda x, y: [E(b, x, y)]), forall("a", lambda a: Not(b.parents.has(a)), pat=lambda a: [b.parents.has(a)]))
        yield "only nodes", forall("a", lambda a: And(b.nodes.has(a) == m.has(a), Implies(m.has(a), g.ns[a])), pat=lambda a: [b.nodes.has(a), m.has(a)])
        yield "nodes so far", forall("j", lambda j: Implies(rng(j, L.k), m.has(L.item(j))), pat=lambda j: [L.item(j)])
        yield "later nodes are not there yet", forall("j", lambda j: Implies(And(j >= L.k, j < L.q.bounds[0]), Not(m.has(L.item(j)))), pat=lambda j: [L.item(j)])
        yield "listed themselves", forall("a", lambda a: Implies(m.has(a), And(b.nodes[a] == m[a], m[a].ref < L.s.top)), pat=lambda a: [b.nodes[a].ref, m[a].ref])
        yield "new nodes", forall("a", lambda a: Implies(m.has(a), And(m[a].ref >= L.s0.top, m[a].variable.ref >= L.s0.top, m[a].variable.ref < L.s.top, m[a].variable.values.ref >= L.s0.top, m[a].variable.values.ref < L.s.top, m[a].probs.ref >= L.s0.top, m[a].probs.ref < L.s.top)), pat=lambda a: [m[a].ref])
        for k, nm in enumerate(["ids are kept", "states", "probabilities"]):
            yield nm, forall("a", lambda a, k=k: Implies(m.has(a), [f for _, f in converted(L, m[a], p[a], a)][k]), pat=lambda a: [m[a].ref])

    def _rest(L):
        g, p, b, m = L.o.g, L.o.p, L.v("bbn", "Bbn!"), L.v("bbn_nodes", "dict[int,BbnNode]")
        e = L.se(L.v("bbn", "Bbn!"))
        yield "new", And(b.fresh(L.s0), m.fresh(L.s0))
        yield from wf(L, b, "Bbn")
        yield "all nodes", forall("a", lambda a: And(b.nodes.has(a) == g.ns[a], m.has(a) == g.ns[a]), pat=lambda a: [b.nodes.has(a), m.has(a)])
        yield "listed themselves", forall("a", lambda a: Implies(m.has(a), b.nodes[a] == m[a]), pat=lambda a: [b.nodes[a].ref, m[a].ref])
        yield "new lists of parents", forall("a", lambda a: Implies(b.parents.has(a), And(b.parents[a].ref >= L.s0.top, b.parents[a].ref < L.s.top, b.parents[a].ref != L.live)), pat=lambda a: [b.parents[a].ref])
        yield "state lists are older", forall("a", lambda a: Implies(m.has(a), And(m[a].variable.values.ref < L.s.top, m[a].variable.values.ref > 0)), pat=lambda a: [m[a].ref])
        yield "state lists are no lists of parents", forall("a", "b", lambda a, c: Implies(And(m.has(a), b.parents.has(c)), m[a].variable.values.ref != b.parents[c].ref), pat=lambda a, c: [(m[a].ref, b.parents[c].ref)])
        for k, nm in enumerate(["ids are kept", "states", "probabilities"]):
            yield nm, forall("a", lambda a, k=k: Implies(m.has(a), [f for _, f in converted(L, m[a], p[a], a)][k]), pat=lambda a: [m[a].ref])
        yield "only edges", forall("a", "b", lambda x, y: Implies(E(b, x, y), edge(g, x, y)), pat=lambda x, y: [E(b, x, y)])

    def _children(L):
        g, b = L.o.g, L.v("bbn", "Bbn!")
        yield from Convert._rest(L)
        yield "parents so far", forall("i", "j", lambda i, j: Implies(And(rng(i, L.k), rng(j, PREDN(g.ref, g.stamp, L.item(i)))), And(
            b.parents.has(L.item(i)), b.parents[L.item(i)][j] == PRED(g.ref, g.stamp, L.item(i))[j])), pat=lambda i, j: [PRED(g.ref, g.stamp, L.item(i))[j]])
        yield "all edges so far", forall("i", "x", lambda i, x: Implies(And(rng(i, L.k), edge(g, x, L.item(i))), E(b, x, L.item(i))), pat=lambda i, x: [g.arcs[x][L.item(i)]])
        yield "no more parents", forall("i", lambda i: Implies(And(rng(i, L.k), b.parents.has(L.item(i))), b.parents[L.item(i)].len == PREDN(g.ref, g.stamp, L.item(i))), pat=lambda i: [L.item(i)])
        yield "no parents of later nodes", forall("i", lambda i: Implies(And(i >= L.k, i < L.q.bounds[0]), Not(b.parents.has(L.item(i)))), pat=lambda i: [L.item(i)])
        yield "parents are of nodes", forall("a", lambda a: Implies(b.parents.has(a), g.ns[a]), pat=lambda a: [b.parents.has(a)])

    def _parents(L):
        g, b, x = L.o.g, L.v("bbn", "Bbn!"), L.v("node", "int")
        e = L.se(L.v("bbn", "Bbn!"))
        yield from Convert._rest(L)
        yield "parents so far", And(Implies(L.k > 0, And(b.parents.has(x), b.parents[x].len == L.k)), Implies(b.parents.has(x), L.k > 0), forall("j", lambda j: Implies(rng(j, L.k), b.parents[x][j] == L.item(j)), pat=lambda j: [b.parents[x][j], L.item(j)]))
        yield "edges so far", forall("j", lambda j: Implies(rng(j, L.k), E(b, L.item(j), x)), pat=lambda j: [L.item(j)])
        yield "all edges stay", forall("a", "b", lambda a, c: Implies(E(e, a, c), E(b, a, c)), pat=lambda a, c: [E(e, a, c)])
        yield "other lists stay", forall("a", lambda a: Implies(a != x, And(b.parents.has(a) == e.parents.has(a), Implies(e.parents.has(a), And(b.parents[a].ref == e.parents[a].ref, b.parents[a].len == e.parents[a].len)))), pat=lambda a: [b.parents.has(a), b.parents[a].ref])
        yield "its list is new", Implies(b.parents.has(x), b.parents[x].ref >= L.se.top)
        yield "with their elements", forall("a", "j", lambda a, j: Implies(And(a != x, e.parents.has(a), rng(j, e.parents[a].len)), b.parents[a][j] == e.parents[a][j]), pat=lambda a, j: [b.parents[a][j], e.parents[a][j]])

    loops = [_nodes, _children, _parents]
