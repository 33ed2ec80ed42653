"""C01: the neighbours along which messages pass (pybbn/pptc/evidencecollector.py, evidencedistributor.py)."""
from contracts.tree import *

PAIRS = "tuple[list[tuple[int,Node]],list[tuple[int,Node]]]"


def neighbouring(module):
    class Neighbours(Contract):
        fn = "pybbn.pptc.%s.__get_neighboring_cliques__" % module
        args = {"join_tree": "JoinTree!", "clique": "Clique"}
        ret = PAIRS

        def requires(self, c):
            yield from tree_ok(c, c.o.join_tree)

        def modifies(self, c):
            return touch(c.o.join_tree)

        def ensures(self, c):
            t, q = c.o.join_tree, c.o.clique.id
            yield from pairs(t, q, c.res[0], c.res[1], c.s0)
            yield "all of them", forall("s", "y", lambda s, y: Implies(And(N(t, q, s), N(t, s, y), y != q), listed_pair(c.res[0], c.res[1], s, y)), pat=lambda s, y: [(N(t, q, s), N(t, s, y))])

        def _outer(L):
            t, q = L.o.join_tree, L.o.clique.id
            a, b = L.v("sepsets", "list[tuple[int,Node]]"), L.v("cliques", "list[tuple[int,Node]]")
            yield from pairs(t, q, a, b, L.s0)
            yield "all so far", forall("s", "y", lambda s, y: Implies(And(L.seen(s), N(t, s, y), y != q), listed_pair(a, b, s, y)), pat=lambda s, y: [N(t, s, y)])

        def _inner(L):
            t, q, s = L.o.join_tree, L.o.clique.id, L.v("sep_set_id", "int")
            TY = "list[tuple[int,Node]]"
            a, b, x, y = L.v("sepsets", TY), L.v("cliques", TY), L.ve("sepsets", TY), L.ve("cliques", TY)
            yield from pairs(t, q, a, b, L.s0)
            yield "!a term to look at", KNOWN(a.len - 1)
            yield "entries stay", And(a.len >= x.len, forall("i", lambda i: Implies(rng(i, x.len), And(a[i][0] == x[i][0], b[i][0] == y[i][0], KNOWN(i))), pat=lambda i: [a[i][0]]))
            yield "and again", forall("i", lambda i: Implies(rng(i, x.len), And(a[i][0] == x[i][0], b[i][0] == y[i][0])), pat=lambda i: [x[i][0]])
            yield "all of this set so far", forall("y", lambda z: Implies(And(L.seen(z), z != q), listed_pair(a, b, s, z)), pat=lambda z: [N(t, s, z)])

        loops = [_outer, _inner]

    contract("C01")(Neighbours)


def pairs(t, q, a, b, s0):
    yield "new lists", And(a.fresh(s0), b.fresh(s0), a != b)
    yield "one clique for every separation set", a.len == b.len
    yield "neighbours through a separation set", forall("i", lambda i: Implies(rng(i, a.len), And(N(t, q, a[i][0]), N(t, a[i][0], b[i][0]), b[i][0] != q)), pat=lambda i: [a[i][0], b[i][0]])
    yield "the nodes themselves", forall("i", lambda i: Implies(rng(i, a.len), And(a[i][1] == t.nodes[a[i][0]], b[i][1] == t.nodes[b[i][0]])), pat=lambda i: [a[i][0], b[i][0]])


def listed_pair(a, b, s, y):
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, a.len), a[i][0] == s, b[i][0] == y, KNOWN(i)), patterns=[KNOWN(i)])


neighbouring("evidencecollector:EvidenceCollector")
neighbouring("evidencedistributor:EvidenceDistributor")
