"""C17: paths, colliders and d-separation (pybbn/causality/do.py)."""
from contracts.common import *
from contracts.graphs import REACH
from contracts.nx import edge, has_item, NONE_, linked_, ends_ok

M = "pybbn.causality.do:"


@contract("C17")
class GetUndirectedGraph(Contract):
    fn = M + "get_undirected_graph"
    args = {"d": "NxDiGraph"}
    ret = "NxGraph"

    def requires(self, c):
        yield "edges end in nodes", ends_ok(c.o.d)

    def ensures(self, c):
        u, d = c.res, c.o.d
        yield "new", u.fresh(c.s0)
        yield "the same nodes", u.ns == d.ns
        yield "linked exactly when there is an edge", forall("a", "b", lambda a, b: u.links[a][b] == linked(d, a, b), pat=lambda a, b: [u.links[a][b]])

    def _nodes(L):
        u, d = L.v("u", "NxGraph"), L.o.d
        yield "new", u.fresh(L.s0)
        yield "only nodes", forall("a", lambda a: Implies(u.ns[a], d.ns[a]), pat=lambda a: [u.ns[a]])
        yield "nodes so far", forall("j", lambda j: Implies(rng(j, L.k), u.ns[L.item(j)]), pat=lambda j: [L.item(j)])
        yield "no links", u.links == NONE_

    def _edges(L):
        u, d = L.v("u", "NxGraph"), L.o.d
        yield "new", u.fresh(L.s0)
        yield "nodes", forall("a", lambda a: u.ns[a] == d.ns[a], pat=lambda a: [u.ns[a]])
        yield "links so far are edges", forall("a", "b", lambda a, b: Implies(u.links[a][b], linked(d, a, b)), pat=lambda a, b: [u.links[a][b]])
        yield "edges so far are linked", forall("j", lambda j: Implies(rng(j, L.k), And(u.links[L.item(j)[0]][L.item(j)[1]], u.links[L.item(j)[1]][L.item(j)[0]])), pat=lambda j: [L.item(j)[0], L.item(j)[1]])

    loops = [_nodes, _edges]


@contract("C17")
class GetGraph(Contract):
    fn = M + "get_graph"
    args = {"d": "NxDiGraph"}
    ret = "PathGraph"

    def requires(self, c):
        yield "edges end in nodes", ends_ok(c.o.d)
        yield "no pair is linked both ways", forall("a", "b", lambda a, b: Not(And(edge(c.o.d, a, b), edge(c.o.d, b, a))), pat=lambda a, b: [(c.o.d.arcs[a][b], c.o.d.arcs[b][a])])

    def ensures(self, c):
        yield "of that graph", c.res.d.ref == c.o.d.ref
        yield from graph_ok(c, c.res)


def linked(d, a, b):
    return Or(edge(d, a, b), edge(d, b, a))


def names(c):
    from pyvc.core import atom
    return [z3.IntVal(atom(x)) for x in ("serial", "diverging", "converging")]


@contract("C17")
class TripletType(Contract):
    fn = M + "get_triplet_type"
    args = {"g": "PathGraph", "x": "atom", "z": "atom", "y": "atom"}
    ret = "atom"
    pure = True

    def requires(self, c):
        d, x, z, y = c.o.g.d, c.o.x, c.o.z, c.o.y
        yield "nodes", And(d.ns[x], d.ns[z], d.ns[y])
        yield "consecutive nodes are linked", And(linked(d, x, z), linked(d, z, y))
        yield "no pair is linked both ways", And(Not(And(edge(d, x, z), edge(d, z, x))), Not(And(edge(d, y, z), edge(d, z, y))))

    def ensures(self, c):
        d, x, z, y = c.o.g.d, c.o.x, c.o.z, c.o.y
        s, v, k = names(c)
        yield "converging exactly when both arrows point in", (c.res == k) == And(edge(d, x, z), edge(d, y, z))
        yield "diverging exactly when both arrows point out", (c.res == v) == And(edge(d, z, x), edge(d, z, y))
        yield "serial otherwise", (c.res == s) == Or(And(edge(d, x, z), edge(d, z, y)), And(edge(d, y, z), edge(d, z, x)))


def collider(d, x, z, y):
    return And(edge(d, x, z), edge(d, y, z))


def opened(c, d, z, ev):
    """z or a descendant of z is in the evidence"""
    r = d.arcs
    b = z3.Int(fresh_name("b"))
    return z3.Exists([b], And(ev.has(b), Or(b == z, REACH(r, z, b))), patterns=[ev.has(b)])


def active(c, d, x, z, y, ev):
    return If(collider(d, x, z, y), opened(c, d, z, ev), Not(ev.has(z)))


def triplet_ok(d, x, z, y):
    yield "nodes", And(d.ns[x], d.ns[z], d.ns[y])
    yield "consecutive nodes are linked", And(linked(d, x, z), linked(d, z, y))
    yield "no pair is linked both ways", And(Not(And(edge(d, x, z), edge(d, z, x))), Not(And(edge(d, y, z), edge(d, z, y))))


@contract("C17")
class ActiveTriplet(Contract):
    fn = M + "is_active_triplet"
    args = {"g": "PathGraph", "x": "atom", "z": "atom", "y": "atom", "evidence": "set[atom]"}
    ret = "bool"
    pure = True

    def requires(self, c):
        yield from triplet_ok(c.o.g.d, c.o.x, c.o.z, c.o.y)

    def ensures(self, c):
        yield "a collider is active when it or a descendant is in the evidence, any other node when it is not", c.res == active(c, c.o.g.d, c.o.x, c.o.z, c.o.y, c.o.evidence)


def path_ok(g, p):
    """p is a path of the skeleton of a directed acyclic graph"""
    d = g.d
    yield "a path has a node", p.len >= 1
    yield "nodes", forall("i", lambda i: Implies(rng(i, p.len), d.ns[p[i]]), pat=lambda i: [p[i]])
    yield "consecutive nodes are linked", forall("i", lambda i: Implies(And(i >= 0, i + 1 < p.len), linked(d, p[i], p[i + 1])), pat=lambda i: [p[i]])
    yield "no pair is linked both ways", forall("a", "b", lambda a, b: Not(And(edge(d, a, b), edge(d, b, a))), pat=lambda a, b: [edge(d, a, b)])


def interior(p, i):
    return And(i >= 0, i + 2 < p.len)


def is_path_active(c, g, p, ev, res):
    d = g.d
    yield "a path without interior nodes is active when its ends are not in the evidence", Implies(p.len < 3, res == And(Not(ev.has(p[0])), Not(ev.has(p[p.len - 1]))))
    yield "active only if every interior node is", forall("i", lambda i: Implies(And(p.len >= 3, res, interior(p, i)), active(c, d, p[i], p[i + 1], p[i + 2], ev)), pat=lambda i: [p[i]])
    yield "inactive only if an interior node is", Implies(And(p.len >= 3, Not(res)), exists("i", lambda i: And(interior(p, i), KNOWN(i), Not(active(c, d, p[i], p[i + 1], p[i + 2], ev)))))


@contract("C17")
class ActivePath(Contract):
    fn = M + "is_active_path"
    args = {"g": "PathGraph", "path": "list[atom]", "evidence": "set[atom]"}
    ret = "bool"
    pure = True

    def requires(self, c):
        yield from path_ok(c.o.g, c.o.path)

    def ensures(self, c):
        yield from is_path_active(c, c.o.g, c.o.path, c.o.evidence, c.res)


@contract("C17")
class Colliders(Contract):
    fn = M + "get_colliders"
    args = {"g": "PathGraph", "path": "list[atom]"}
    ret = "list[atom]"

    def requires(self, c):
        yield from path_ok(c.o.g, c.o.path)

    def ensures(self, c):
        d, p, r = c.o.g.d, c.o.path, c.res
        yield "new", r.fresh(c.s0)
        yield "colliders of the path", forall("j", lambda j: Implies(rng(j, r.len), exists("i", lambda i: And(i >= 0, i + 2 < p.len, KNOWN(i), collider(d, p[i], p[i + 1], p[i + 2]), r[j] == p[i + 1]))), pat=lambda j: [r[j]])
        yield "all of them", forall("i", lambda i: Implies(And(i >= 0, i + 2 < p.len, collider(d, p[i], p[i + 1], p[i + 2])), has_item(r, p[i + 1])), pat=lambda i: [p[i]])


# ------------------------------------------------------------ simple paths
RELS = z3.ArraySort(I, AB)
SIMPLE = z3.Function("simple_path", RELS, AI, I, I, I, B)     # relation, nodes, length, start, stop
_r, _A, _n, _s, _t = z3.Const("r", RELS), z3.Const("A", AI), z3.Int("n"), z3.Int("s"), z3.Int("t")
_i, _j = z3.Ints("i j")
_SP = SIMPLE(_r, _A, _n, _s, _t)
axiom("simple path: consecutive nodes are linked, no node occurs twice (definition)", ["simple_path"], And(
    z3.ForAll([_r, _A, _n, _s, _t], Implies(_SP, And(_n >= 1, _A[0] == _s, _A[_n - 1] == _t)), patterns=[_SP]),
    z3.ForAll([_r, _A, _n, _s, _t, _i], Implies(And(_SP, _i >= 0, _i + 1 < _n), _r[_A[_i]][_A[_i + 1]]), patterns=[z3.MultiPattern(_SP, _A[_i])]),
    z3.ForAll([_r, _A, _n, _s, _t, _i, _j], Implies(And(_SP, _i >= 0, _i < _j, _j < _n), _A[_i] != _A[_j]), patterns=[z3.MultiPattern(_SP, _A[_i], _A[_j])])), "definition")


def ulinked(u, a, b):
    return u.links[a][b]


def simple(c, u, p, x, y):
    return SIMPLE(u.links, p.arr, p.len, x, y)


def listed_path(A, n, l, path):
    """some element of l has the path (A, n)"""
    i = z3.Int(fresh_name("i"))
    p = path(l[i])
    k = z3.Int(fresh_name("k"))
    return z3.Exists([i], And(rng(i, l.len), KNOWN(i), p.len == n, z3.ForAll([k], Implies(rng(k, n), p[k] == A[k]), patterns=[A[k], p[k]])))


def all_paths(c, u, l, x, y, path=lambda r: r):
    A, n = z3.Const(fresh_name("A"), AI), z3.Int(fresh_name("n"))
    sp = SIMPLE(u.links, A, n, x, y)
    return z3.ForAll([A, n], Implies(sp, listed_path(A, n, l, path)), patterns=[sp])


@contract("C17")
class AllSimplePaths(Contract):
    fn = "ext:networkx.all_simple_paths"
    args = {"u": "NxGraph", "x": "atom", "y": "atom"}
    ret = "list[list[atom]]"
    trusted = "networkx: all simple paths between two nodes"

    def requires(self, c):
        yield "different nodes", c.o.x != c.o.y
        yield "nodes", And(c.o.u.ns[c.o.x], c.o.u.ns[c.o.y])

    def ensures(self, c):
        u, r, x, y = c.o.u, c.res, c.o.x, c.o.y
        yield "new", And(r.fresh(c.s0), forall("i", lambda i: Implies(rng(i, r.len), And(r[i].fresh(c.s0), r[i].ref > 0, r[i].ref < c.s.top)), pat=lambda i: [r[i].ref]))
        yield "simple paths", forall("i", lambda i: Implies(rng(i, r.len), And(simple(c, u, r[i], x, y), r[i].len >= 2)), pat=lambda i: [r[i].ref])
        yield "all of them", all_paths(c, u, r, x, y)


def graph_ok(c, g):
    """u is the skeleton of the acyclic graph d"""
    u, d = g.u, g.d
    yield "u is the skeleton of d", forall("a", "b", lambda a, b: ulinked(u, a, b) == linked(d, a, b), pat=lambda a, b: [u.links[a][b], d.arcs[a][b], d.arcs[b][a]])
    yield "on the same nodes", forall("a", lambda a: u.ns[a] == d.ns[a], pat=lambda a: [u.ns[a], d.ns[a]])
    yield "edges end in nodes", ends_ok(d)
    yield "no pair is linked both ways", forall("a", "b", lambda a, b: Not(And(edge(d, a, b), edge(d, b, a))), pat=lambda a, b: [(d.arcs[a][b], d.arcs[b][a])])


def info_ok(c, g, r, x, y):
    """r describes its path"""
    d, p = g.d, r.path
    yield "ends", And(r.x == x, r.y == y)
    yield "a simple path of the skeleton", And(simple(c, g.u, p, x, y), p.len >= 2)
    yield "back-door exactly when its first edge points into the start", r.backdoor == edge(d, p[1], p[0])
    yield "front-door otherwise", r.frontdoor == edge(d, p[0], p[1])
    yield "colliders of the path", forall("j", lambda j: Implies(rng(j, r.colliders.len), is_collider_of(d, p, r.colliders[j])), pat=lambda j: [r.colliders[j]])
    yield "all of them", forall("i", lambda i: Implies(And(interior(p, i), collider(d, p[i], p[i + 1], p[i + 2])), has_item(r.colliders, p[i + 1])), pat=lambda i: [p[i]])
    yield "other nodes are interior non-colliders", forall("j", lambda j: Implies(rng(j, r.z.len), And(has_item(p, r.z[j]), r.z[j] != x, r.z[j] != y, Not(has_item(r.colliders, r.z[j])))), pat=lambda j: [r.z[j]])
    yield "all of them are listed", forall("i", lambda i: Implies(And(rng(i, p.len), p[i] != x, p[i] != y, Not(has_item(r.colliders, p[i]))), has_item(r.z, p[i])), pat=lambda i: [p[i]])
    yield "active without evidence only without colliders", forall("i", lambda i: Implies(And(r.is_active, interior(p, i)), Not(collider(d, p[i], p[i + 1], p[i + 2]))), pat=lambda i: [p[i]])
    yield "inactive without evidence only with a collider", Implies(Not(r.is_active), exists("i", lambda i: And(interior(p, i), KNOWN(i), collider(d, p[i], p[i + 1], p[i + 2]))))


def is_collider_of(d, p, v):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(interior(p, i), KNOWN(i), collider(d, p[i], p[i + 1], p[i + 2]), v == p[i + 1]))


@contract("C17")
class GetPaths(Contract):
    fn = M + "get_paths"
    args = {"g": "PathGraph", "x": "atom", "y": "atom"}
    ret = "list[PathInfo]"
    records = {("backdoor", "colliders", "frontdoor", "is_active", "path", "x", "y", "z"): "PathInfo"}

    def requires(self, c):
        g = c.o.g
        yield from graph_ok(c, g)
        yield "two nodes", And(c.o.x != c.o.y, g.d.ns[c.o.x], g.d.ns[c.o.y])

    def ensures(self, c):
        g, r = c.o.g, c.res
        n = len(list(info_ok(c, g, r[0], c.o.x, c.o.y)))
        for k in range(n):
            nm = [a for a, _ in info_ok(c, g, r[0], c.o.x, c.o.y)][k]
            yield nm, forall("i", lambda i, k=k: Implies(rng(i, r.len), [f for _, f in info_ok(c, g, r[i], c.o.x, c.o.y)][k]), pat=lambda i: [r[i].ref])
        yield "every simple path is reported", all_paths(c, g.u, r, c.o.x, c.o.y, lambda e: e.path)

    def _inv(L):
        g, r = L.o.g, L.v("#comp", "list[PathInfo]")
        x, y = L.o.x, L.o.y
        yield "one record per path so far", And(r.len == L.k, r.fresh(L.s0))
        yield "for that path", forall("i", lambda i: Implies(rng(i, L.k), r[i].path == L.item(i)), pat=lambda i: [r[i].ref])
        yield "new", forall("i", lambda i: Implies(rng(i, L.k), And(r[i].ref > 0, r[i].fresh(L.s0), r[i].ref < L.s.top, r[i].z.ref > 0, r[i].z.fresh(L.s0), r[i].z.ref < L.s.top, r[i].colliders.ref > 0, r[i].colliders.fresh(L.s0), r[i].colliders.ref < L.s.top)), pat=lambda i: [r[i].ref])
        n = len(list(info_ok(L, g, r[0], x, y)))
        for k in range(n):
            nm = [a for a, _ in info_ok(L, g, r[0], x, y)][k]
            yield nm, forall("i", lambda i, k=k: Implies(rng(i, L.k), [f for _, f in info_ok(L, g, r[i], x, y)][k]), pat=lambda i: [r[i].ref])

    loops = [_inv]
