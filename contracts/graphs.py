"""Vocabulary of graphs: edge relations, reachability, edge keys."""
from contracts.common import *
from pyvc.expr import fmt

REL = z3.ArraySort(I, AB)
REACH = z3.Function("reach", REL, I, I, B)          # a non-empty path from a to b
RX = z3.Function("reach_diff_x", REL, REL, I)
RY = z3.Function("reach_diff_y", REL, REL, I)
MARK = z3.Function("known_set", AB, B)
CX = z3.Function("unclosed_x", REL, AB, I)
CY = z3.Function("unclosed_y", REL, AB, I)
CW = z3.Function("last_before", REL, AB, I, I)
ADDS = z3.Function("adds_edge", REL, REL, I, I, B)  # marker
AX_, AY_ = z3.Function("adds_x", REL, REL, I, I, I), z3.Function("adds_y", REL, REL, I, I, I)
_r1, _r2, _S = z3.Const("r1", REL), z3.Const("r2", REL), z3.Const("S", AB)
_a, _b, _c, _u, _v = z3.Ints("a b c u v")

axiom("reach: an edge is a path", ["reach"], z3.ForAll([_r1, _a, _b], Implies(_r1[_a][_b], REACH(_r1, _a, _b)), patterns=[REACH(_r1, _a, _b)]), "Lean: reach_edge")
axiom("reach: an edge followed by a path is a path", ["reach"], z3.ForAll([_r1, _a, _b, _c], Implies(And(_r1[_a][_c], REACH(_r1, _c, _b)), REACH(_r1, _a, _b)),
      patterns=[z3.MultiPattern(_r1[_a][_c], REACH(_r1, _c, _b))]), "Lean: reach_step")
axiom("reach: monotone in the relation", ["reach"], z3.ForAll([_r1, _r2, _a, _b], Or(
      Not(REACH(_r1, _a, _b)), REACH(_r2, _a, _b), And(_r1[RX(_r1, _r2)][RY(_r1, _r2)], Not(_r2[RX(_r1, _r2)][RY(_r1, _r2)]))),
      patterns=[z3.MultiPattern(REACH(_r1, _a, _b), REACH(_r2, _a, _b))]), "Lean: reach_mono")
_x, _y, _w = CX(_r1, _S), CY(_r1, _S), CW(_r1, _S, _b)
axiom("reach: a path out of a closed set ends with an edge from the set", ["known_set"], z3.ForAll([_r1, _S, _a, _b], Or(
      Not(_S[_a]), Not(REACH(_r1, _a, _b)), And(_S[_x], _r1[_x][_y], Not(_S[_y])), And(_S[_w], _r1[_w][_b])),
      patterns=[z3.MultiPattern(MARK(_S), REACH(_r1, _a, _b))]), "Lean: reach_closed")
axiom("known_set: true of everything", ["known_set"], z3.ForAll([_S], MARK(_S), patterns=[MARK(_S)]), "definition")
_x, _y = AX_(_r1, _r2, _u, _v), AY_(_r1, _r2, _u, _v)
axiom("reach: a new edge closes a cycle only if its end reaches its start", ["adds_edge"], z3.ForAll([_r1, _r2, _u, _v, _a], Or(
      Not(REACH(_r2, _a, _a)), REACH(_r1, _a, _a), _u == _v, REACH(_r1, _v, _u),
      And(_r2[_x][_y], Not(_r1[_x][_y]), Not(And(_x == _u, _y == _v)))),
      patterns=[z3.MultiPattern(ADDS(_r1, _r2, _u, _v), REACH(_r2, _a, _a))]), "Lean: reach_add")
axiom("adds_edge: true of everything", ["adds_edge"], z3.ForAll([_r1, _r2, _u, _v], ADDS(_r1, _r2, _u, _v), patterns=[ADDS(_r1, _r2, _u, _v)]), "definition")


def rel(c, s, f):
    """relation {(x, y) | f(x, y)} as an array"""
    eng = c.eng
    x = z3.Int("x!rel")
    old = s.binders
    s.binders = [x]
    try:
        row = eng.lam(s, B, lambda y: f(x, y))
        s.binders = []
        return eng.lam(s, AB, lambda i: z3.substitute(row, (x, i)))
    finally:
        s.binders = old


_keys = {}


def key_u(c, a, b):
    """key of the undirected edge a -- b"""
    f, ax = fmt("{}--{}", [I, I])
    c.eng.fmtax[f.name()] = ax
    return f(If(a <= b, a, b), If(a <= b, b, a))


def key_d(c, a, b):
    f, ax = fmt("{}->{}", [I, I])
    c.eng.fmtax[f.name()] = ax
    return f(a, b)


_fd, _ = fmt("{}->{}", [I, I])
_fu, _ = fmt("{}--{}", [I, I])
KIND = z3.Function("key_kind", I, I)
axiom("edge keys: '->' keys and '--' keys differ (ids do not contain '>')", [_fd.name(), _fu.name()], z3.And(
    z3.ForAll([_a, _b], KIND(_fd(_a, _b)) == 1, patterns=[_fd(_a, _b)]), z3.ForAll([_a, _b], KIND(_fu(_a, _b)) == 0, patterns=[_fu(_a, _b)])), "assumed")

UNDIRECTED, DIRECTED = 1, 2


def key_of(c, e):
    return If(e.type == DIRECTED, key_d(c, e.i.id, e.j.id), key_u(c, e.i.id, e.j.id))


def E(g, a, b):
    return g.edge_map[a].has(b)


def N(g, a, b):
    return g.neighbors[a].has(b)


def erel(c, g):
    """the edge relation"""
    return rel(c, g._s, lambda x, y: E(g, x, y))


def drel(c, g):
    """directed edges of a partially directed graph"""
    return rel(c, g._s, lambda x, y: And(E(g, x, y), Not(E(g, y, x))))


def acyclic(r):
    return forall("a", lambda a: Not(REACH(r, a, a)), pat=lambda a: [REACH(r, a, a)])


def wf(c, g, cls):
    """the queries of g describe one graph"""
    yield "tables are separate objects", g.edge_map != g.neighbors
    yield "nodes are listed under their ids", forall("k", lambda k: Implies(g.nodes.has(k), g.nodes[k].id == k), pat=lambda k: [g.nodes.has(k)])
    yield "edges are listed under their keys and end in nodes", forall("k", lambda k: Implies(g.edges.has(k), And(
        g.edges[k].ref > 0, k == key_of(c, g.edges[k]), g.nodes.has(g.edges[k].i.id), g.nodes.has(g.edges[k].j.id))), pat=lambda k: [g.edges.has(k)])
    yield "adjacency lists exactly the edges", forall("a", "b", lambda a, b: E(g, a, b) == Or(
        g.edges.has(key_d(c, a, b)), g.edges.has(key_u(c, a, b))), pat=lambda a, b: [E(g, a, b)])
    yield "neighbours are the linked pairs", forall("a", "b", lambda a, b: N(g, a, b) == Or(E(g, a, b), E(g, b, a)), pat=lambda a, b: [N(g, a, b)])
    if cls in ("Dag", "Bbn"):
        yield "edges are directed", forall("k", lambda k: Implies(g.edges.has(k), g.edges[k].type == DIRECTED), pat=lambda k: [g.edges.has(k)])
    if cls == "Bbn":
        P = g.parents
        yield "parent lists are separate objects", forall("a", "b", lambda a, b: Implies(And(P.has(a), P.has(b), a != b), P[a] != P[b]), pat=lambda a, b: [(P[a].ref, P[b].ref)])
        yield "listed parents are parents", forall("c", "i", lambda c_, i: Implies(And(P.has(c_), rng(i, P[c_].len)), E(g, P[c_][i], c_)), pat=lambda c_, i: [P[c_][i]])
        yield "every parent is listed", forall("a", "c", lambda a, c_: Implies(E(g, a, c_), And(P.has(c_), has_item(P[c_], a))), pat=lambda a, c_: [E(g, a, c_)])
        yield "parents are listed once", forall("c", "i", "j", lambda c_, i, j: Implies(And(P.has(c_), i >= 0, i < j, j < P[c_].len), P[c_][i] != P[c_][j]), pat=lambda c_, i, j: [(P[c_][i], P[c_][j])])
    if cls != "Bbn":
        yield "no self loop", forall("a", lambda a: Not(E(g, a, a)), pat=lambda a: [E(g, a, a)])


def has_item(l, x):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, l.len), l[i] == x, KNOWN(i)), patterns=[KNOWN(i), l[i]])


def tables(g):
    """modifies: every table of the graph"""
    own = lambda r, m: r == m.ref
    sub = lambda m: (lambda r: exists("k", lambda k: r == m[k].ref))
    return dct("int", "Node", is_(g.nodes)) + dct("atom", "Edge", is_(g.edges)) + adj(g)


def adj(g):
    return dom("int", "set[int]", is_(g.edge_map, g.neighbors)) + sets("int", lambda r: exists("k", lambda k: Or(r == g.edge_map[k].ref, r == g.neighbors[k].ref)))


def touch(g):
    """reading a defaultdict may add an empty entry"""
    return dom("int", "set[int]", is_(g.edge_map, g.neighbors))
