"""C14: contracts on the import of libpgm networks."""
from contracts.common import *
from contracts.graph import E, wf
from contracts.graphs import fmt, has_item
from contracts.sampling import OFF, PLACE, POSN
from contracts.serial import has
from pyvc.core import JOIN, View, atom
from pyvc.types import parse

F = "pybbn.graph.factory:Factory."
NAME = z3.Function("name_of_order", I, I, I)      # the name that has an order id, in a table of names


class Source:
    """the network described: for a name x its parents, its states, its rows"""

    def __init__(self, c):
        s = c.s0
        self.bn = View(s, ("ref", "LibpgmBBN", False), c.o.bn.ref)
        self.V, self.D = self.bn.V, self.bn.Vdata
        self.c, self.s = c, s
        self.x, self.r = z3.Int("x!p"), z3.Int("r!p")
        self._dims = lam(c, s, I, lambda j: self.D[self.parents(self.x)[j]].vals.len, [self.x])
        g, ax = fmt("'{}'", [I])
        self.f, ax2 = fmt("[{}]", [I])
        for h, a in ((g, ax), (self.f, ax2)):
            c.eng.fmtax[h.name()] = a

        def part(i):
            p = self.parents(self.x)[i]
            return g(self.D[p].vals[DIG(self._dims, self.m(self.x), self.r, i)])

        self._parts = lam(c, s, I, part, [self.x, self.r])

    def parents(self, x):
        return View(self.s, parse("list[atom]"), self.D[x].parents.ref)

    def m(self, x):
        p = self.parents(x)
        return If(p.ref > 0, p.len, 0)

    def w(self, x):
        return self.D[x].vals.len

    def dims(self, x):
        return z3.substitute(self._dims, (self.x, x))

    def n(self, x):
        return PRODI(self.dims(x), self.m(x))

    def key(self, x, r):
        """the text under which row r of x is listed"""
        return self.f(JOIN(atom(", "), z3.substitute(self._parts, (self.x, x), (self.r, r)), self.m(x)))

    def only(self, x):
        return View(self.s, parse("list[real]"), self.D[x].cprob.ref)

    def rows(self, x):
        return View(self.s, parse("dict[atom,list[real]]"), self.D[x].cprob.ref)

    def row(self, x, r):
        return self.rows(x)[self.key(x, r)]

    def ord(self, x):
        return self.D[x].ord

    def name(self, k):
        return NAME(self.D.ref, k)

    def at(self, y, p):
        """position of p among the parents of y"""
        return PLACE(self.parents(y).arr, self.m(y), p)


def source(c):
    m = c.eng.__dict__.setdefault("libpgm_sources", {})
    k = (id(c.s0), c.o.bn.ref.get_id())
    if k not in m:
        m[k] = (c.s0, Source(c))
    return m[k][1]


from pyvc.core import SHAPE  # noqa: E402
from pyvc.interp import SHAPES  # noqa: E402


def node_of(t, n, x, lists=True):
    """BBN node n stands for the name x"""
    v = n.variable
    yield "order id", And(n.ref > 0, n.isa("BbnNode"), n.id == t.ord(x), v.ref > 0, v.id == t.ord(x))
    yield "name", v.name == x
    yield "states", And(v.values.ref > 0, v.values.len == t.w(x), forall("j", lambda j: Implies(rng(j, t.w(x)), v.values[j] == t.D[x].vals[j]), pat=lambda j: [v.values[j]]))
    yield "the probabilities without parents", And(n.probs.ref > 0, Implies(t.m(x) == 0, And(n.probs.len == t.only(x).len, forall("j", lambda j: Implies(rng(j, n.probs.len), n.probs[j] == t.only(x)[j]), pat=lambda j: [n.probs[j]]))))
    yield from row_by_row(t, n.probs, x, t.n(x), t.m(x) > 0)


def row_by_row(t, l, x, k, when):
    w = t.w(x)
    yield "as many as the rows hold", Implies(when, l.len == OFF(k, w))
    yield "rows lie in the list", Implies(when, forall("r", lambda r: Implies(rng(r, k), And(OFF(r, w) >= 0, OFF(r, w) + w <= OFF(k, w))), pat=lambda r: [OFF(r, w)]))
    yield "the row of every parent configuration", Implies(when, forall("r", "j", lambda r, j: Implies(And(rng(r, k), rng(j, w)), l[OFF(r, w) + j] == t.row(x, r)[j]), pat=lambda r, j: [t.row(x, r)[j]]))


NODE_FACTS = 7


@contract("C14")
class FromObject(Contract):
    fn = F + "from_libpgm_discrete_object"
    args = {"bn": "LibpgmBBN"}
    ret = "Bbn!"

    def requires(self, c):
        t = source(c)
        D, V = t.D, t.V
        yield "objects", And(V.ref > 0, D.ref > 0)
        yield "names", forall("i", lambda i: Implies(rng(i, V.len), D.has(V[i])), pat=lambda i: [V[i]])
        yield "every entry is a name", forall("x", lambda x: Implies(D.has(x), has_item(V, x)), pat=lambda x: [D.has(x)])
        yield "entries", forall("x", lambda x: Implies(D.has(x), And(D[x].ref > 0, has(D[x], "parents", "vals", "ord", "cprob"), D[x].vals.ref > 0, D[x].cprob.ref > 0)), pat=lambda x: [D.has(x), D[x].ref])
        yield "parents are entries, each once", forall("x", "j", lambda x, j: Implies(And(D.has(x), rng(j, t.m(x))), And(D.has(t.parents(x)[j]), t.at(x, t.parents(x)[j]) == j)), pat=lambda x, j: [t.parents(x)[j]])
        yield "order ids differ", forall("x", lambda x: Implies(D.has(x), t.name(t.ord(x)) == x), pat=lambda x: [t.ord(x)])
        yield "kind of probabilities", forall("x", lambda x: Implies(D.has(x), SHAPE(D[x].cprob.ref) == If(t.m(x) > 0, SHAPES["dict"], SHAPES["list"])), pat=lambda x: [D[x].cprob.ref])
        yield "a parent configuration", forall("x", lambda x: Implies(And(D.has(x), t.m(x) > 0), t.n(x) >= 1), pat=lambda x: [D[x].cprob.ref])
        yield "a row for every parent configuration", forall("x", "r", lambda x, r: Implies(And(D.has(x), t.m(x) > 0, rng(r, t.n(x))), And(t.rows(x).has(t.key(x, r)), t.row(x, r).ref > 0, t.row(x, r).len == t.w(x))), pat=lambda x, r: [t.key(x, r)])

    def ensures(self, c):
        t, b = source(c), c.res
        yield "new", b.fresh(c.s0)
        yield from wf(c, b, "Bbn")
        yield "a node for every name", forall("x", lambda x: Implies(t.D.has(x), b.nodes.has(t.ord(x))), pat=lambda x: [t.ord(x)])
        yield "no other nodes", forall("k", lambda k: Implies(b.nodes.has(k), And(t.D.has(t.name(k)), t.ord(t.name(k)) == k)), pat=lambda k: [b.nodes.has(k)])
        for q, nm in enumerate([a for a, _ in node_of(t, bbn_node(b, 0), z3.IntVal(0))]):
            yield nm, forall("x", lambda x, q=q: Implies(t.D.has(x), [f for _, f in node_of(t, bbn_node(b, t.ord(x)), x)][q]), pat=lambda x: [b.nodes[t.ord(x)].ref])
        yield "edges are from parents", forall("a", "c", lambda a, y: Implies(E(b, a, y), is_parent(t, a, y)), pat=lambda a, y: [E(b, a, y)])
        yield "an edge from every parent", forall("x", "j", lambda x, j: Implies(And(t.D.has(x), rng(j, t.m(x))), E(b, t.ord(t.parents(x)[j]), t.ord(x))), pat=lambda x, j: [t.parents(x)[j]])
        yield "parents in the order of the rows", in_order(t, b)

    # ---- nodes
    def _domains(L):
        t, l, x = source(L), L.v("domains", "list[list[atom]]"), L.v("name", "atom")
        ps = t.parents(x)
        yield "of this name", And(t.D.has(x), t.m(x) > 0, L.n == t.m(x))
        yield "one for every parent so far", l.len == L.k
        yield "new lists", And(l.ref >= L.s0.top, forall("i", lambda i: Implies(rng(i, L.k), And(l[i].ref >= L.s0.top, l[i].ref < L.s.top, l[i].ref != l.ref)), pat=lambda i: [l[i].ref]))
        yield "states of the parent", forall("i", lambda i: Implies(rng(i, L.k), And(l[i].len == t.D[ps[i]].vals.len, t.D[ps[i]].vals.ref > 0)), pat=lambda i: [l[i].ref])
        yield "each state", forall("i", "j", lambda i, j: Implies(And(rng(i, L.k), rng(j, l[i].len)), l[i][j] == t.D[ps[i]].vals[j]), pat=lambda i, j: [l[i][j]])

    def _products(L):
        t, l, x = source(L), L.v("products", "list[list[atom]]"), L.v("name", "atom")
        yield "of this name", And(t.D.has(x), t.m(x) > 0, L.n == t.n(x))
        yield "one for every configuration so far", l.len == L.k
        yield "new lists", And(l.ref >= L.s0.top, forall("i", lambda i: Implies(rng(i, L.k), And(l[i].ref >= L.s0.top, l[i].ref < L.s.top, l[i].ref != l.ref, l[i].len == t.m(x))), pat=lambda i: [l[i].ref]))
        yield "states of the configuration", forall("i", "j", lambda i, j: Implies(And(rng(i, L.k), rng(j, t.m(x))), l[i][j] == t.D[t.parents(x)[j]].vals[DIG(t.dims(x), t.m(x), i, j)]), pat=lambda i, j: [l[i][j]])

    def _rows(L):
        t, l, x = source(L), L.v("probs", "list[real]"), L.v("name", "atom")
        yield "of this name", And(t.D.has(x), t.m(x) > 0, L.n == t.n(x))
        yield "new", l.ref >= L.s0.top
        yield "keys", forall("r", lambda r: Implies(rng(r, L.n), L.item(r) == t.key(x, r)), pat=lambda r: [L.item(r)])
        yield from row_by_row(t, l, x, L.k, z3.BoolVal(True))

    def _names(L):
        t, d = source(L), L.v("nodes", "dict[atom,BbnNode]")
        yield "new", d.fresh(L.s0)
        yield "names so far", forall("i", lambda i: Implies(rng(i, L.k), d.has(t.V[i])), pat=lambda i: [t.V[i]])
        yield from named(t, L, d)

    # ---- edges
    def _entries(L):
        t, d, e = source(L), L.v("nodes", "dict[atom,BbnNode]"), L.v("edges", "list[Edge]")
        yield "new", And(d.fresh(L.s0), e.fresh(L.s0))
        yield "every name", forall("x", lambda x: Implies(t.D.has(x), d.has(x)), pat=lambda x: [t.D.has(x)])
        yield from named(t, L, d)
        yield from edge_list(t, L, d, e)
        yield "edges into names seen", forall("i", lambda i: Implies(rng(i, e.len), L.seen(t.name(e[i].j.id))), pat=lambda i: [e[i].ref])
        yield "every parent of names seen", forall("x", "j", lambda x, j: Implies(And(t.D.has(x), L.seen(x), rng(j, t.m(x))), edge_of(e, t.ord(t.parents(x)[j]), t.ord(x))), pat=lambda x, j: [t.parents(x)[j]])

    def _parents(L):
        t, d, e = source(L), L.v("nodes", "dict[atom,BbnNode]"), L.v("edges", "list[Edge]")
        o, x = L.ve("edges", "list[Edge]"), L.v("k", "atom")
        yield "new", And(d.fresh(L.s0), e.fresh(L.s0))
        yield "the parents of this name", And(t.D.has(x), L.n == t.m(x), forall("j", lambda j: Implies(rng(j, L.n), L.item(j) == d[t.parents(x)[j]]), pat=lambda j: [L.item(j).ref]))
        yield from edge_list(t, L, d, e)
        yield "one edge more for every parent", And(e.len == o.len + L.k, forall("i", lambda i: Implies(rng(i, o.len), e[i] == o[i]), pat=lambda i: [e[i].ref]))
        yield "from the parent", forall("j", lambda j: Implies(rng(j, L.k), And(KNOWN(o.len + j), e[o.len + j].i.id == t.ord(t.parents(x)[j]), e[o.len + j].j.id == t.ord(x))), pat=lambda j: [t.parents(x)[j]])
        yield "new ones are of this name", forall("i", lambda i: Implies(And(i >= o.len, i < e.len), And(e[i].j.id == t.ord(x), e[i].i.id == t.ord(t.parents(x)[i - o.len]))), pat=lambda i: [e[i].ref])

    # ---- the BBN
    def _rest(L):
        t, d, e, b = source(L), L.v("nodes", "dict[atom,BbnNode]"), L.v("edges", "list[Edge]"), L.v("bbn", "Bbn!")
        yield "new", And(b.fresh(L.s0), d.fresh(L.s0), e.fresh(L.s0), e.ref != b.nodes.ref, d.ref != b.nodes.ref)
        yield from wf(L, b, "Bbn")
        yield "every name", forall("x", lambda x: Implies(t.D.has(x), d.has(x)), pat=lambda x: [t.D.has(x)])
        yield from named(t, L, d)
        yield from edge_list(t, L, d, e)
        yield "every parent", forall("x", "j", lambda x, j: Implies(And(t.D.has(x), rng(j, t.m(x))), edge_of(e, t.ord(t.parents(x)[j]), t.ord(x))), pat=lambda x, j: [t.parents(x)[j]])
        yield "nodes of names", forall("k", lambda k: Implies(b.nodes.has(k), And(d.has(t.name(k)), b.nodes[k] == d[t.name(k)], t.ord(t.name(k)) == k)), pat=lambda k: [b.nodes.has(k), b.nodes[k].ref])

    def _add(L):
        t, b = source(L), L.v("bbn", "Bbn!")
        d = L.v("nodes", "dict[atom,BbnNode]")
        yield "!listed are nodes of names", forall("j", lambda j: Implies(rng(j, L.n), And(d.has(t.name(L.item(j).id)), L.item(j) == d[t.name(L.item(j).id)], L.item(j).id == t.ord(t.name(L.item(j).id)))), pat=lambda j: [L.item(j).ref])
        yield from FromObject._rest(L)
        yield "nodes so far", forall("i", lambda i: Implies(rng(i, L.k), b.nodes.has(L.item(i).id)), pat=lambda i: [L.item(i).ref])
        yield "no edges yet", And(forall("a", "b", lambda x, y: Not(E(b, x, y)), pat=lambda x, y: [E(b, x, y)]), forall("a", lambda a: Not(b.parents.has(a)), pat=lambda a: [b.parents.has(a)]))

    def _link(L):
        t, b, e = source(L), L.v("bbn", "Bbn!"), L.v("edges", "list[Edge]")
        yield from FromObject._rest(L)
        yield "all nodes", forall("x", lambda x: Implies(t.D.has(x), b.nodes.has(t.ord(x))), pat=lambda x: [t.ord(x)])
        yield "new lists of parents", forall("a", lambda a: Implies(b.parents.has(a), And(b.parents[a].ref >= L.s0.top, b.parents[a].ref < L.s.top, b.parents[a].ref != L.live)), pat=lambda a: [b.parents[a].ref])
        d = L.v("nodes", "dict[atom,BbnNode]")
        yield "state lists are no lists of parents", forall("x", "b", lambda x, c_: Implies(And(d.has(x), b.parents.has(c_)), d[x].variable.values.ref != b.parents[c_].ref), pat=lambda x, c_: [(d[x].ref, b.parents[c_].ref)])
        yield "edges so far", forall("i", lambda i: Implies(rng(i, L.k), E(b, e[i].i.id, e[i].j.id)), pat=lambda i: [e[i].ref])
        yield "no other edges", forall("a", "c", lambda a, y: Implies(E(b, a, y), edge_of(e, a, y, L.k)), pat=lambda a, y: [E(b, a, y)])
        yield "parents in the order of the rows", in_order(t, b)

    def _inv(L):
        def there(name, ty):
            try:
                L.v(name, ty)
                return True
            except Unsupported:
                return False
        if there("bbn", "Bbn!"):
            last = L.q.elem.ty[1] == "Edge" if hasattr(L.q.elem, "ty") else False
            return (FromObject._link if last else FromObject._add)(L)
        if there("edges", "list[Edge]"):
            return (FromObject._entries if type(L.q.elem).__name__ == "Tup" else FromObject._parents)(L)
        for n, f in (("pa_domains", FromObject._rows), ("products", FromObject._products), ("domains", FromObject._domains)):
            for fr in reversed(L.s.frames):
                if n in fr and not n.startswith("#"):
                    return f(L)
        return FromObject._names(L)

    loops = [_inv] * 9


from pyvc.core import Unsupported  # noqa: E402


def bbn_node(b, k):
    return View(b._s, ("ref", "BbnNode", True), b.nodes[k].ref)


def named(t, L, d):
    """every node in the table d stands for its name"""
    yield "names of entries", forall("x", lambda x: Implies(d.has(x), t.D.has(x)), pat=lambda x: [d.has(x)])
    yield "new nodes", forall("x", lambda x: Implies(d.has(x), And(*[And(r >= L.s0.top, r < L.s.top) for r in (d[x].ref, d[x].variable.ref, d[x].variable.values.ref, d[x].probs.ref)])), pat=lambda x: [d[x].ref])
    for q, nm in enumerate([a for a, _ in node_of(t, d[0], z3.IntVal(0))]):
        yield nm, forall("x", lambda x, q=q: Implies(d.has(x), [f for _, f in node_of(t, d[x], x)][q]), pat=lambda x: [d[x].ref])


def is_parent(t, a, y):
    """the name of a is listed among the parents of the name of y"""
    p, x = t.name(a), t.name(y)
    return And(t.D.has(x), t.D.has(p), t.ord(p) == a, t.ord(x) == y, rng(t.at(x, p), t.m(x)), t.parents(x)[t.at(x, p)] == p)


def edge_list(t, L, d, e):
    yield "new edges between nodes", forall("i", lambda i: Implies(rng(i, e.len), And(e[i].ref >= L.s0.top, e[i].ref < L.s.top, e[i].type == 2, e[i].i.isa("BbnNode"), e[i].j.isa("BbnNode"))), pat=lambda i: [e[i].ref])
    yield "of the table", forall("i", lambda i: Implies(rng(i, e.len), And(d.has(t.name(e[i].i.id)), e[i].i == d[t.name(e[i].i.id)], d.has(t.name(e[i].j.id)), e[i].j == d[t.name(e[i].j.id)])), pat=lambda i: [e[i].ref])
    yield "edges from parents", forall("i", lambda i: Implies(rng(i, e.len), is_parent(t, e[i].i.id, e[i].j.id)), pat=lambda i: [e[i].ref])
    yield "edges in the order of the parents", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < e.len, e[i].j.id == e[j].j.id), t.at(t.name(e[i].j.id), t.name(e[i].i.id)) < t.at(t.name(e[i].j.id), t.name(e[j].i.id))), pat=lambda i, j: [(e[i].ref, e[j].ref)])


def edge_of(e, a, b, k=None):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, e.len if k is None else k), KNOWN(i), e[i].i.id == a, e[i].j.id == b), patterns=[KNOWN(i), e[i].ref])


def in_order(t, b):
    P = b.parents
    return forall("c", "i", "j", lambda c_, i, j: Implies(And(P.has(c_), i >= 0, i < j, j < P[c_].len), t.at(t.name(c_), t.name(P[c_][i])) < t.at(t.name(c_), t.name(P[c_][j]))), pat=lambda c_, i, j: [(P[c_][i], P[c_][j])])
