"""C01: the steps of exact inference (pybbn/pptc)."""
from contracts.jointree import *
from contracts.jointree import J as JT
from contracts.graphs import E, N, has_item, touch, wf
from contracts.potential import *

JTC = JT + "JoinTree."


def V_(v, cls, ref):
    return View(v._s, ("ref", cls, False), ref)


# ------------------------------------------------------- listing the tree
def is_sep(t, k):
    return And(t.nodes.has(k), t.nodes[k].isa("SepSet"))


@contract("C01")
class GetSepSets(Contract):
    fn = JTC + "get_sep_sets"
    recv = "JoinTree!"
    ret = "list[SepSet]"

    def requires(self, c):
        yield from only_cliques(c.o.self_)

    def ensures(self, c):
        jt, r = c.o.self_, c.res
        yield "a new list", r.fresh(c.s0)
        yield "separation sets of the tree", forall("i", lambda i: Implies(rng(i, r.len), And(r[i].isa("SepSet"), exists("k", lambda k: And(
            is_sep(jt, k), KNOWN(k), jt.nodes[k].ref == r[i].ref)))), pat=lambda i: [r[i].ref])
        yield "all of them", forall("k", lambda k: Implies(is_sep(jt, k), exists("i", lambda i: And(rng(i, r.len), KNOWN(i), r[i].ref == jt.nodes[k].ref))), pat=lambda k: [jt.nodes[k].ref, jt.nodes.has(k)])


@contract("C01")
class AddPotential(Contract):
    fn = JTC + "add_potential"
    recv = "JoinTree!"
    args = {"clique": "Clique", "potential": "Potential"}
    ret = "JoinTree!"

    def modifies(self, c):
        return dct("int", "Potential", is_(c.o.self_.potentials))

    def ensures(self, c):
        p, q, k = c.o.self_.potentials, c.n.self_.potentials, c.o.clique.id
        yield "same tree", c.res == c.o.self_
        yield "the clique has that table", And(q.has(k), q[k] == c.o.potential)
        yield "others keep theirs", forall("k", lambda x: Implies(x != k, And(q.has(x) == p.has(x), q[x] == p[x])), pat=lambda x: [q.has(x), q[x].ref])


# ------------------------------------------------------------ one message
SINGLE = z3.Function("single_factor", AR, I, I, B)
SW = z3.Function("single_wit", AR, I, I, I)
_ar, _n, _j = z3.Const("ar", AR), z3.Int("n"), z3.Int("j")
_sw = SW(_ar, _n, _j)
axiom("product: all factors but one are 1", ["single_factor"], z3.And(
    z3.ForAll([_ar, _n, _j], SINGLE(_ar, _n, _j), patterns=[SINGLE(_ar, _n, _j)]),
    z3.ForAll([_ar, _n, _j], Implies(rng(_j, _n), Or(PROD(_ar, _n) == _ar[_j], And(_sw >= 0, _sw < _n, _sw != _j, _ar[_sw] != 1))), patterns=[SINGLE(_ar, _n, _j)])), "Lean: prod_single")


DD = z3.Function("ddig", AI, I, I, I, I)       # a position at which two combinations differ


def differ(c, nodes, p, j, k):
    """rows j and k of p give some node different values"""
    L, n = lens(c, c.s0, nodes), nodes.len
    x = DD(L, n, j, k)
    a, b = p.entries[j].entries, p.entries[k].entries
    i = nodes[x].id
    return And(rng(x, n), a.has(i), b.has(i), a[i] != b[i])


def agree(nodes):
    """the nodes have distinct states"""
    return forall("j", "x", "y", lambda j, x, y: Implies(And(rng(j, nodes.len), x >= 0, x < y, y < nodes[j].variable.values.len), nodes[j].variable.values[x] != nodes[j].variable.values[y]),
                  pat=lambda j, x, y: [(nodes[j].variable.values[x], nodes[j].variable.values[y])])


def rows_apart(p, q):
    return forall("i", "j", lambda i, j: Implies(And(rng(i, p.entries.len), rng(j, q.entries.len)), p.entries[i] != q.entries[j]), pat=lambda i, j: [(p.entries[i].ref, q.entries[j].ref)])


@contract("C01")
class PassSingleMessage(Contract):
    fn = M + "PotentialUtil.pass_single_message"
    args = {"join_tree": "JoinTree!", "x": "Clique", "s": "Clique", "y": "Clique"}

    def requires(self, c):
        t, x, s, y = c.o.join_tree, c.o.x, c.o.s, c.o.y
        P = t.potentials
        yield "ids of the separation set are distinct", ids_distinct(s.nodes)
        yield "all have tables", And(P.has(x.id), P.has(s.id), P.has(y.id), P[x.id].ref > 0, P[s.id].ref > 0, P[y.id].ref > 0)
        yield "states are distinct", agree(s.nodes)
        yield "the separation set is neither clique", And(s.id != x.id, s.id != y.id)
        yield "rows of the target are distinct", distinct(P[y.id].entries)
        yield "the separation set's table has its rows", P[s.id].entries.len == PRODI(lens(c, c.s0, s.nodes), s.nodes.len)

    def modifies(self, c):
        t, y = c.o.join_tree, c.o.y
        return dct("int", "Potential", is_(t.potentials)) + fld("PotentialEntry", "value", values_of(t.potentials[y.id]))

    def steps(self, c):
        t, u, s, y = c.o.join_tree, c.n.join_tree, c.o.s, c.o.y
        py, ps, qs = t.potentials[y.id], t.potentials[s.id], u.potentials[s.id]
        r = c.v("ratio", "Potential")
        yield "rows of the target were there", all_of(py.entries, lambda e: Not(e.fresh(c.s0)))
        yield "the ratio has rows of its own", rows_apart(py, r)
        yield "so has the separation set", rows_apart(py, qs)
        yield "as many", r.entries.len == qs.entries.len
        yield "ratio", forall("j", lambda j: Implies(rng(j, r.entries.len), r.entries[j].value == If(Or(qs.entries[j].value == 0, ps.entries[j].value == 0), 0, qs.entries[j].value / ps.entries[j].value)), pat=lambda j: [r.entries[j].ref, qs.entries[j].ref])
        yield "rows of the separation set differ", forall("j", "k", lambda j, k: Implies(And(rng(j, qs.entries.len), rng(k, qs.entries.len), j != k), differ(c, s.nodes, qs, j, k)), pat=lambda j, k: [(qs.entries[j].ref, qs.entries[k].ref)])
        yield "of the same rows", forall("i", "j", lambda i, j: Implies(And(rng(i, py.entries.len), rng(j, r.entries.len)), match(py.entries[i], r.entries[j]) == match(py.entries[i], qs.entries[j])), pat=lambda i, j: [match(py.entries[i], r.entries[j]), match(py.entries[i], qs.entries[j])])

        yield "a row of the target matches one", forall("i", "j", "k", lambda i, j, k: Implies(And(rng(i, py.entries.len), rng(j, qs.entries.len), rng(k, qs.entries.len), j != k), Or(
            Not(match(py.entries[i], qs.entries[j])), Not(match(py.entries[i], qs.entries[k])))), pat=lambda i, j, k: [(match(py.entries[i], qs.entries[j]), match(py.entries[i], qs.entries[k]))])

        yield "multiplied by the ratio", forall("i", lambda i: Implies(rng(i, py.entries.len), u.potentials[y.id].entries[i].value == py.entries[i].value * factor(c, py, r, i, r.entries.len)), pat=lambda i: [py.entries[i].ref])
        yield "one factor", forall("i", "j", lambda i, j: Implies(And(rng(i, py.entries.len), rng(j, r.entries.len), match(py.entries[i], r.entries[j])), And(
            SINGLE(factors(c, py, r, i), r.entries.len, j), factor(c, py, r, i, r.entries.len) == r.entries[j].value)), pat=lambda i, j: [match(py.entries[i], r.entries[j])])

    def ensures(self, c):
        t, u, x, s, y = c.o.join_tree, c.n.join_tree, c.o.x, c.o.s, c.o.y
        P, Q = t.potentials, u.potentials
        px, ps, py = P[x.id], P[s.id], P[y.id]
        qs = Q[s.id]
        yield "only the separation set's table is replaced", forall("k", lambda k: And(Q.has(k) == P.has(k), Implies(k != s.id, Q[k] == P[k])), pat=lambda k: [Q.has(k), Q[k].ref])
        yield "by a new one", And(qs.fresh(c.s0), qs.entries.fresh(c.s0), qs.entries.len == PRODI(lens(c, c.s0, s.nodes), s.nodes.len))
        yield "new rows", all_of(qs.entries, lambda e: And(e.fresh(c.s0), e.entries.fresh(c.s0)))
        yield from rows_spec(c, s.nodes, qs)
        yield "which is the source summed over everything else", forall("k", lambda k: Implies(rng(k, qs.entries.len), qs.entries[k].value == SUM(lam(
            c, c.s0, R, lambda i: If(MATCH(px.entries[i].entries.dom, px.entries[i].entries.arr, qs.entries[k].entries.dom, qs.entries[k].entries.arr), px.entries[i].value, 0), [k]), px.entries.len)), pat=lambda k: [qs.entries[k].ref])
        yield "the target is multiplied by new over old", forall("i", lambda i: Implies(rng(i, py.entries.len), u.potentials[y.id].entries[i].value == py.entries[i].value * PROD(lam(
            c, c.s, R, lambda j: If(MATCH(py.entries[i].entries.dom, py.entries[i].entries.arr, qs.entries[j].entries.dom, qs.entries[j].entries.arr),
                                    If(Or(qs.entries[j].value == 0, ps.entries[j].value == 0), 0, qs.entries[j].value / ps.entries[j].value), 1), [i]), qs.entries.len)), pat=lambda i: [py.entries[i].ref])
        both = lambda i, j: And(rng(i, py.entries.len), rng(j, qs.entries.len), match(py.entries[i], qs.entries[j]))
        zy = u.potentials[y.id]
        yield "!times the factor of its row", forall("i", "j", lambda i, j: Implies(both(i, j), zy.entries[i].value == py.entries[i].value * If(Or(qs.entries[j].value == 0, ps.entries[j].value == 0), 0, qs.entries[j].value / ps.entries[j].value)), pat=lambda i, j: [match(py.entries[i], qs.entries[j])])
        yield "target over separation set is preserved by the message (where the separation set was not 0)", forall("i", "j", lambda i, j: Implies(And(both(i, j), ps.entries[j].value != 0),
            zy.entries[i].value * ps.entries[j].value == py.entries[i].value * qs.entries[j].value), pat=lambda i, j: [match(py.entries[i], qs.entries[j])])
        yield "and is 0 where the separation set was 0", forall("i", "j", lambda i, j: Implies(And(both(i, j), ps.entries[j].value == 0), zy.entries[i].value == 0), pat=lambda i, j: [match(py.entries[i], qs.entries[j])])


# ------------------------------------------------- the clique of a node
def holds(cl, i):
    """clique cl has the node with id i"""
    return cl.node_ids.has(i)


def the_node(jt, k, j, i):
    """the j-th node of the clique listed under k is the one with id i"""
    return And(bbn_at(jt, k, j), bbn(jt, k, j).id == i)


def parents_of(n):
    return n.metadata.parents


def listed_parents(jt, k, j, x):
    n = bbn(jt, k, j)
    return And(n.metadata.__getattr__("has:parents"), rng(x, parents_of(n).len))


def known_node(c, i):
    """i is the id of a node of the tree; its parents, if listed, are nodes"""
    jt = c.o.self_
    yield from only_cliques(jt)
    yield from unique(jt)
    k, j = z3.Int(fresh_name("k")), z3.Int(fresh_name("j"))
    yield "a node of the tree", z3.Exists([k, j], And(the_node(jt, k, j, i), KNOWN(k), KNOWN(j)))


@contract("C01")
class GetParentIds(Contract):
    fn = JTC + "__get_parent_ids__"
    recv = "JoinTree!"
    args = {"id": "int"}
    ret = "list[int]"

    def requires(self, c):
        yield from known_node(c, c.o.id)

    def ensures(self, c):
        jt, r, i = c.o.self_, c.res, c.o.id
        yield "a new list", r.fresh(c.s0)
        yield "as many as listed", forall("k", "j", lambda k, j: Implies(the_node(jt, k, j, i), r.len == If(bbn(jt, k, j).metadata.__getattr__("has:parents"), parents_of(bbn(jt, k, j)).len, 0)), pat=lambda k, j: [bbn(jt, k, j).ref])
        yield "the ids of the parents listed", forall("k", "j", "x", lambda k, j, x: Implies(And(the_node(jt, k, j, i), listed_parents(jt, k, j, x)), r[x] == parents_of(bbn(jt, k, j))[x].id),
                                                      pat=lambda k, j, x: [parents_of(bbn(jt, k, j))[x].ref, (bbn(jt, k, j).ref, r[x])])


@contract("C01")
class FindCliques(Contract):
    fn = JTC + "find_cliques_with_node_and_parents"
    recv = "JoinTree!"
    args = {"id": "int"}
    ret = "list[Clique]"

    def requires(self, c):
        yield from known_node(c, c.o.id)

    def ensures(self, c):
        jt, r, i = c.o.self_, c.res, c.o.id
        yield "a new list", r.fresh(c.s0)
        yield "cliques of the tree", forall("x", lambda x: Implies(rng(x, r.len), exists("k", lambda k: And(is_clique(jt, k), KNOWN(k), jt.nodes[k].ref == r[x].ref))), pat=lambda x: [r[x].ref])
        yield "with the node", all_of(r, lambda q: holds(q, i))
        yield "and its parents", forall("x", "k", "j", "y", lambda x, k, j, y: Implies(And(rng(x, r.len), the_node(jt, k, j, i), listed_parents(jt, k, j, y)), holds(r[x], parents_of(bbn(jt, k, j))[y].id)),
                                        pat=lambda x, k, j, y: [(r[x].ref, parents_of(bbn(jt, k, j))[y].ref)])
        yield "all of them", forall("k", "j", "l", lambda k, j, l: Implies(And(the_node(jt, k, j, i), is_clique(jt, l), holds(clique(jt, l), i)), Or(
            exists("y", lambda y: And(KNOWN(y), listed_parents(jt, k, j, y), Not(holds(clique(jt, l), parents_of(bbn(jt, k, j))[y].id)))), exists("x", lambda x: And(rng(x, r.len), KNOWN(x), r[x].ref == jt.nodes[l].ref)))),
            pat=lambda k, j, l: [(bbn(jt, k, j).ref, jt.nodes[l].ref)])


@contract("C01")
class GetClique(Contract):
    fn = "pybbn.pptc.initializer:Initializer.get_clique"
    args = {"node": "BbnNode", "join_tree": "JoinTree!"}
    ret = "Clique"

    def requires(self, c):
        t, n = c.o.join_tree, c.o.node
        yield from only_cliques(t)
        yield from unique(t)
        yield "a node of the tree", in_tree(t, n)
        yield "notes", n.metadata.ref > 0
        fam = lambda l: And(is_clique(t, l), KNOWN(l), holds(clique(t, l), n.id), forall("y", lambda y: Implies(And(has_parents(n), rng(y, parents_of(n).len)), holds(clique(t, l), parents_of(n)[y].id)), pat=lambda y: [parents_of(n)[y].ref]))
        yield "some clique holds the node and its parents", exists("l", fam)

    def modifies(self, c):
        m = is_(c.o.node.metadata)
        return fld("Meta", "parent.clique", m) + fld("Meta", "has:parent.clique", m)

    def ensures(self, c):
        t, n, h, q = c.o.join_tree, c.o.node, c.n.node, c.res
        was = n.metadata.__getattr__("has:parent.clique")
        yield "the node remembers its clique", And(h.metadata.__getattr__("has:parent.clique"), h.metadata.__getattr__("parent.clique") == q)
        yield "a clique remembered stays", Implies(was, q == n.metadata.__getattr__("parent.clique"))
        yield "a clique of the tree", Implies(Not(was), exists("k", lambda k: And(is_clique(t, k), KNOWN(k), t.nodes[k].ref == q.ref)))
        yield "it holds the node", Implies(Not(was), holds(q, n.id))
        yield "and its parents", Implies(Not(was), forall("y", lambda y: Implies(And(has_parents(n), rng(y, parents_of(n).len)), holds(q, parents_of(n)[y].id)), pat=lambda y: [parents_of(n)[y].ref]))


def has_parents(n):
    return n.metadata.__getattr__("has:parents")


@contract("C02", "C16")
class GetBbnNodeByName(Contract):
    fn = JTC + "get_bbn_node_by_name"
    recv = "JoinTree!"
    args = {"name": "atom"}
    ret = "opt[BbnNode]"

    def requires(self, c):
        yield from only_cliques(c.o.self_)

    def ensures(self, c):
        jt, r = c.o.self_, c.res
        yield "a node of the tree with that name", Implies(r.ref != 0, And(in_tree(jt, r), r.variable.name == c.o.name))
        yield "none only if there is none", Implies(r.ref == 0, forall("k", "j", lambda k, j: Implies(bbn_at(jt, k, j), bbn(jt, k, j).variable.name != c.o.name), pat=lambda k, j: [bbn(jt, k, j).ref]))


@contract("C01", "C05")
class GetBbnPotential(Contract):
    fn = JTC + "get_bbn_potential"
    recv = "JoinTree!"
    args = {"node": "BbnNode"}
    ret = "Potential"

    def requires(self, c):
        jt, n = c.o.self_, c.o.node
        yield "the node was given a clique", n.metadata.__getattr__("has:parent.clique")
        cl = n.metadata.__getattr__("parent.clique")
        yield "which has a table", And(cl.ref > 0, jt.potentials.has(cl.id), jt.potentials[cl.id].ref > 0)

    def ensures(self, c):
        jt, n, p = c.o.self_, c.o.node, c.res
        vs = n.variable.values
        cp = jt.potentials[n.metadata.__getattr__("parent.clique").id]
        yield "a new table", And(p.fresh(c.s0), p.entries.fresh(c.s0))
        yield "new rows", all_of(p.entries, lambda e: And(e.fresh(c.s0), e.entries.fresh(c.s0)))
        yield "!one row per state", p.entries.len == vs.len
        yield "for that node only", forall("k", "x", lambda k, x: Implies(And(rng(k, p.entries.len), p.entries[k].entries.has(x)), x == n.id), pat=lambda k, x: [p.entries[k].entries.has(x)])
        yield "the states, in order", forall("k", lambda k: Implies(rng(k, p.entries.len), And(p.entries[k].entries.has(n.id), p.entries[k].entries[n.id] == vs[k])), pat=lambda k: [p.entries[k].ref])
        S = lambda k: SUM(lam(c, c.s0, R, lambda i: If(match(cp.entries[i], p.entries[k]), cp.entries[i].value, 0), [k]), cp.entries.len)
        T = lambda: SUM(lam(c, c.s0, R, lambda k: S(k)), vs.len)
        yield "!its share of the clique's table", forall("k", lambda k: Implies(And(rng(k, p.entries.len), T() != 0), p.entries[k].value == S(k) / T()), pat=lambda k: [p.entries[k].ref])
        yield "or nothing when the table is all 0", forall("k", lambda k: Implies(And(rng(k, p.entries.len), T() == 0), p.entries[k].value == S(k)), pat=lambda k: [p.entries[k].ref])
        yield "the posterior adds up to 1", Implies(T() != 0, SUM(lam(c, c.s0, R, lambda k: p.entries[k].value), vs.len) == 1)


# --------------------------------------------------------- tables of nodes
PI = "pybbn.pptc.potentialinitializer:PotentialInitializer."


def as_bbn(g, k):
    return View(g._s, ("ref", "BbnNode", False), g.nodes[k].ref)


class NET:
    """nodes and parents of a BBN, by id"""
    at = staticmethod(as_bbn)

    @staticmethod
    def parents(g):
        return g.parents


def arity(g, x, N=NET):
    """number of parents listed for node x"""
    return If(N.parents(g).has(x), N.parents(g)[x].len, 0)


def dims(c, g, x, N=NET):
    """numbers of states of the parents of x, and of x"""
    P = N.parents(g)
    return lam(c, c.s0, I, lambda j: If(j < arity(g, x, N), N.at(g, P[x][j]).variable.values.len, N.at(g, x).variable.values.len), [x])


def cpt_size(c, g, x, N=NET):
    return PRODI(dims(c, g, x, N), arity(g, x, N) + 1)


def cpts(c, g, t, nodes, s0=None, N=NET):
    """every node chosen holds its CPT: g gives structure, t the current tables;
    nodes: (variables, guard, id) describing the nodes meant"""
    s0 = s0 or c.s0
    P = N.parents(g)
    vs, on, idof = nodes
    nv = len(vs)

    def q(names, body, pat):
        return forall(*vs, *names, lambda *a: Implies(on(*a[:nv]), body(idof(*a[:nv]), *a[nv:])), pat=lambda *a: pat(idof(*a[:nv]), *a[nv:]))

    pot = lambda x: N.at(t, x).potential
    rows = lambda x: pot(x).entries
    inside = lambda x, k: rng(k, rows(x).len)
    yield "tables are new", q([], lambda x: And(pot(x).fresh(s0), rows(x).fresh(s0), pot(x).ref > 0), lambda x: [pot(x).ref])
    yield "one row per combination", q([], lambda x: rows(x).len == cpt_size(c, g, x, N), lambda x: [pot(x).ref])
    yield "rows are new", q(["k"], lambda x, k: Implies(inside(x, k), And(rows(x)[k].fresh(s0), rows(x)[k].entries.fresh(s0))), lambda x, k: [rows(x)[k].ref])
    yield "rows are distinct", q(["k", "l"], lambda x, k, l: Implies(And(inside(x, k), inside(x, l), k < l), rows(x)[k] != rows(x)[l]), lambda x, k, l: [(rows(x)[k].ref, rows(x)[l].ref)])
    yield "rows are about the node and its parents", q(["k", "y"], lambda x, k, y: Implies(And(inside(x, k), rows(x)[k].entries.has(y)), Or(y == x, And(P.has(x), has_item(P[x], y)))), lambda x, k, y: [rows(x)[k].entries.has(y)])
    yield "parent values in product order", q(["k", "j"], lambda x, k, j: Implies(And(inside(x, k), P.has(x), rng(j, P[x].len)), And(
        rows(x)[k].entries.has(P[x][j]), rows(x)[k].entries[P[x][j]] == N.at(g, P[x][j]).variable.values[DIG(dims(c, g, x, N), arity(g, x, N) + 1, k, j)])), lambda x, k, j: [(rows(x)[k].ref, P[x][j])])
    yield "own value is the last digit", q(["k"], lambda x, k: Implies(inside(x, k), And(
        rows(x)[k].entries.has(x), rows(x)[k].entries[x] == N.at(g, x).variable.values[DIG(dims(c, g, x, N), arity(g, x, N) + 1, k, arity(g, x, N))])), lambda x, k: [rows(x)[k].ref])
    yield "k-th row holds the k-th probability", q(["k"], lambda x, k: Implies(inside(x, k), rows(x)[k].value == N.at(g, x).probs[k]), lambda x, k: [rows(x)[k].ref])


def network(c, g):
    yield from wf(c, g, "Bbn")
    yield "nodes are BBN nodes", forall("k", lambda k: Implies(g.nodes.has(k), And(g.nodes[k].ref > 0, g.nodes[k].isa("BbnNode"))), pat=lambda k: [g.nodes.has(k)])
    yield "a probability for every row", forall("k", lambda k: Implies(g.nodes.has(k), as_bbn(g, k).probs.len >= cpt_size(c, g, k)), pat=lambda k: [g.nodes.has(k)])
    yield "no node is its own parent", forall("a", lambda a: Not(E(g, a, a)), pat=lambda a: [E(g, a, a)])
    yield "edges end in nodes", forall("a", "b", lambda a, b: Implies(E(g, a, b), And(g.nodes.has(a), g.nodes.has(b))), pat=lambda a, b: [E(g, a, b)])


@contract("C01")
class Init(Contract):
    fn = PI + "init"
    args = {"bbn": "Bbn!"}

    def requires(self, c):
        yield from network(c, c.o.bbn)
        g = c.o.bbn
        yield "nodes have metadata of their own", forall("k", lambda k: Implies(g.nodes.has(k), g.nodes[k].metadata.ref > 0), pat=lambda k: [g.nodes[k].metadata.ref])

    def modifies(self, c):
        g = c.o.bbn
        nodes = lambda r: exists("k", lambda k: And(g.nodes.has(k), r == g.nodes[k].ref))
        meta = lambda r: exists("k", lambda k: And(g.nodes.has(k), r == g.nodes[k].metadata.ref))
        return fld("BbnNode", "potential", nodes) + fld("Meta", "has:parent.clique", meta)

    def ensures(self, c):
        g = c.o.bbn
        yield from cpts(c, g, c.n.bbn, (["x"], lambda x: g.nodes.has(x), lambda x: x))
        yield "no clique is assigned any more", forall("k", lambda k: Implies(g.nodes.has(k), Not(c.n.bbn.nodes[k].metadata.__getattr__("has:parent.clique"))), pat=lambda k: [g.nodes[k].metadata.ref])

    def _inv(L):
        g, t = L.o.bbn, L.a.bbn
        yield from cpts(L, g, t, (["x"], lambda x: L.seen(x), lambda x: x))
        yield "no clique is assigned any more", forall("x", lambda x: Implies(L.seen(x), Not(t.nodes[x].metadata.__getattr__("has:parent.clique"))), pat=lambda x: [g.nodes[x].ref])

    loops = [_inv]
