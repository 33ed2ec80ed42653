"""C10, C09: join trees used again, with other CPTs (pybbn/graph/jointree.py, pybbn/pptc/inferencecontroller.py)."""
from contracts.exact import *

Cs = "C10"


def each_node(jt, f, pat=lambda n: n.ref):
    """f of every node of the tree"""
    return forall("k", "i", lambda k, i: Implies(bbn_at(jt, k, i), f(bbn(jt, k, i))), pat=lambda k, i: [pat(bbn(jt, k, i))])


def at(v, n):
    """node n in the state of v"""
    return V_(v, "BbnNode", n.ref)


def tree_ok(jt):
    yield from only_cliques(jt)
    yield from unique(jt)


@contract("C10")
class UpdateBbnCpts(Contract):
    fn = J + "JoinTree.update_bbn_cpts"
    recv = "JoinTree!"
    args = {"cpts": "dict[int,list[real]]"}

    def requires(self, c):
        yield from tree_ok(c.o.self_)

    def modifies(self, c):
        jt, d = c.o.self_, c.o.cpts
        named = lambda r: exists("k", "i", lambda k, i: And(bbn_at(jt, k, i), d.has(bbn(jt, k, i).id), r == bbn(jt, k, i).ref, KNOWN(k), KNOWN(i)))
        return fld("BbnNode", "probs", named) + fld("BbnNode", "potential", named)

    def _spec(jt, kt, d, done):
        yield "nodes named get their new CPT", each_node(jt, lambda n: Implies(done(n.id), And(at(kt, n).probs == d[n.id], at(kt, n).potential.ref == 0)))
        yield "other nodes keep theirs", each_node(jt, lambda n: Implies(Not(done(n.id)), And(at(kt, n).probs == n.probs, at(kt, n).potential == n.potential)))

    def ensures(self, c):
        yield from UpdateBbnCpts._spec(c.o.self_, c.n.self_, c.o.cpts, lambda i: c.o.cpts.has(i))

    def _inv(L):
        yield from UpdateBbnCpts._spec(L.o.self_, L.a.self_, L.o.cpts, lambda i: L.seen(i))

    loops = [_inv]


def lists_parents(jt, n, l):
    """l lists the parents of n, in the order recorded"""
    P = jt.parent_info
    return And(l.len == If(P.has(n.id), P[n.id].len, 0),
               forall("x", lambda x: Implies(And(P.has(n.id), rng(x, l.len)), And(l[x].id == P[n.id][x], in_tree(jt, l[x]))), pat=lambda x: [l[x].ref, P[n.id][x]]))


def parents_known(jt):
    P = jt.parent_info
    yield "parents recorded are nodes of the tree", forall("a", "x", lambda a, x: Implies(And(P.has(a), rng(x, P[a].len)), exists("k", "i", lambda k, i: And(
        bbn_at(jt, k, i), bbn(jt, k, i).id == P[a][x], KNOWN(k), KNOWN(i)))), pat=lambda a, x: [P[a][x]])


@contract("C10")
class GetBbnNodeAndParents(Contract):
    fn = J + "JoinTree.get_bbn_node_and_parents"
    recv = "JoinTree!"
    ret = "dict[BbnNode,list[BbnNode]]"

    def requires(self, c):
        yield from tree_ok(c.o.self_)
        yield from parents_known(c.o.self_)

    def ensures(self, c):
        jt, r = c.o.self_, c.res
        node = lambda a: V_(jt, "BbnNode", a)
        yield "a new dictionary", r.fresh(c.s0)
        yield "every node of the tree", each_node(jt, lambda n: r.has(n))
        yield "and nothing else", forall("n", lambda n: Implies(r.has(node(n)), in_tree(jt, node(n))), pat=lambda n: [r.has(node(n))])
        yield "with its parents", forall("n", lambda n: Implies(r.has(node(n)), lists_parents(jt, node(n), r[node(n)])), pat=lambda n: [r[node(n)].ref])

    def _inv(L):
        jt, d, m = L.o.self_, L.acc(), L.v("bbn_nodes", "dict[int,BbnNode]")
        node = lambda a: V_(jt, "BbnNode", a)
        yield "new", d.fresh(L.s0)
        yield "every node so far", forall("x", lambda x: Implies(L.seen(x), d.has(m[x])), pat=lambda x: [m[x].ref])
        yield "nodes of the tree", forall("n", lambda n: Implies(d.has(node(n)), And(n > 0, in_tree(jt, node(n)))), pat=lambda n: [d.has(node(n))])
        yield "new lists", forall("n", lambda n: Implies(d.has(node(n)), And(d[node(n)].ref >= L.s0.top, d[node(n)].ref < L.s.top)), pat=lambda n: [d[node(n)].ref])
        yield "with their parents", forall("n", lambda n: Implies(d.has(node(n)), lists_parents(jt, node(n), d[node(n)])), pat=lambda n: [d[node(n)].ref])

    loops = [_inv]


NODEOF = z3.Function("node_of", I, I, I)      # the node of a tree with an id


class TREE:
    """nodes and parents of a join tree, by id"""
    @staticmethod
    def at(t, x):
        return V_(t, "BbnNode", NODEOF(t.ref, x))

    @staticmethod
    def parents(t):
        return t.parent_info


METAOF = z3.Function("node_with_metadata", I, I, I)
PINDEX = z3.Function("parent_index", I, I, I, I)      # where a parent is listed


def tree_network(c, jt):
    """(functions of the id instead of pairwise distinctness)"""
    P = jt.parent_info
    yield from only_cliques(jt)
    yield from parents_known(jt)
    yield "nodes by id", each_node(jt, lambda n: And(n.ref > 0, n.isa("BbnNode"), NODEOF(jt.ref, n.id) == n.ref))
    yield "a probability for every row", each_node(jt, lambda n: n.probs.len >= cpt_size(c, jt, n.id, TREE), lambda n: n.probs.ref)
    yield "parents are listed once", forall("a", "x", lambda a, x: Implies(And(P.has(a), rng(x, P[a].len)), PINDEX(jt.ref, a, P[a][x]) == x), pat=lambda a, x: [P[a][x]])
    yield "no node is its own parent", forall("a", "x", lambda a, x: Implies(And(P.has(a), rng(x, P[a].len)), P[a][x] != a), pat=lambda a, x: [P[a][x]])
    yield "nodes have metadata of their own", each_node(jt, lambda n: And(n.metadata.ref > 0, METAOF(jt.ref, n.metadata.ref) == n.ref))


def tree_cpts(c, jt, kt, on=None):
    """the nodes of the tree (those chosen) hold their CPTs"""
    yield from cpts(c, jt, kt, (["k", "i"], lambda k, i: And(bbn_at(jt, k, i), on(bbn(jt, k, i).id) if on else True), lambda k, i: bbn(jt, k, i).id), N=TREE)


def tree_nodes(jt):
    return lambda r: exists("k", "i", lambda k, i: And(bbn_at(jt, k, i), r == bbn(jt, k, i).ref, KNOWN(k), KNOWN(i)))


@contract("C10")
class Reinit(Contract):
    fn = PI + "reinit"
    args = {"jt": "JoinTree!"}

    def requires(self, c):
        yield from tree_network(c, c.o.jt)

    def modifies(self, c):
        jt = c.o.jt
        return fld("BbnNode", "potential", tree_nodes(jt)) + fld("Meta", "parents", tree_meta(jt)) + fld("Meta", "has:parents", tree_meta(jt))

    def ensures(self, c):
        jt, kt = c.o.jt, c.n.jt
        yield from tree_cpts(c, jt, kt)
        rows = lambda k, i: at(kt, bbn(jt, k, i)).potential.entries
        yield "rows exist", forall("k", "i", "x", lambda k, i, x: Implies(And(bbn_at(jt, k, i), rng(x, rows(k, i).len)), rows(k, i)[x].ref < c.s.top), pat=lambda k, i, x: [rows(k, i)[x].ref])
        yield "parents are recorded", each_node(jt, lambda n: And(at(kt, n).metadata.__getattr__("has:parents"), recorded(jt, kt, n)))

    def _inv(L):
        jt, kt = L.o.jt, L.a.jt
        P = jt.parent_info
        n, l = (lambda j: V_(jt, "BbnNode", L.item(j)[0].ref)), (lambda j: L.item(j)[1])
        yield "parents by id", forall("j", "x", lambda j, x: Implies(And(rng(j, L.n), P.has(n(j).id), rng(x, P[n(j).id].len)), And(
            l(j)[x].ref == NODEOF(jt.ref, P[n(j).id][x]), l(j)[x].id == P[n(j).id][x])), pat=lambda j, x: [l(j)[x].ref, (l(j).ref, P[n(j).id][x])])
        yield from tree_cpts(L, jt, kt, lambda x: L.seen(NODEOF(jt.ref, x)))
        yield "parents are recorded", each_node(jt, lambda n: Implies(L.seen(n.ref), And(at(kt, n).metadata.__getattr__("has:parents"), recorded(jt, kt, n))))

    loops = [_inv]


def recorded(jt, kt, n):
    """the parents recorded for n, in order"""
    P = jt.parent_info
    l = V_(kt, "BbnNode", n.ref).metadata.__getattr__("parents")
    return And(l.len == If(P.has(n.id), P[n.id].len, 0), forall("x", lambda x: Implies(And(P.has(n.id), rng(x, l.len)), And(l[x].id == P[n.id][x], l[x].ref == NODEOF(jt.ref, P[n.id][x]))), pat=lambda x: [l[x].ref, P[n.id][x]]))


# ---------------------------------------------------------------- copies
CPY = z3.Function("copy_of", I, I, I)        # memo, object: its copy


def copied(m, a, b, s0):
    return And(b.ref == CPY(m.ref, a.ref), b.fresh(s0))


def same_list(a, b, s0):
    return And(b.fresh(s0), b.len == a.len, forall("z", lambda z: Implies(rng(z, a.len), b[z] == a[z]), pat=lambda z: [b[z]]))


def nodes_of(d, k):
    return V_(d, "Clique", d[k].ref).nodes


def copied_nodes(m, d, e, s0):
    """e is a deep copy of the dictionary of nodes d"""
    inner = lambda f: forall("k", "i", lambda k, i: Implies(And(d.has(k), d[k].isa("Clique"), rng(i, nodes_of(d, k).len)), f(nodes_of(d, k)[i], nodes_of(e, k)[i])),
                             pat=lambda k, i: [nodes_of(d, k)[i].ref, nodes_of(e, k)[i].ref])
    yield "same keys", And(e.fresh(s0), e.dom == d.dom)
    yield "copies of the nodes", forall("k", lambda k: Implies(d.has(k), And(copied(m, d[k], e[k], s0), TYP(e[k].ref) == TYP(d[k].ref), e[k].id == d[k].id)), pat=lambda k: [e[k].ref, d.has(k)])
    yield "as many inside", forall("k", lambda k: Implies(And(d.has(k), d[k].isa("Clique")), And(nodes_of(e, k).fresh(s0), nodes_of(e, k).len == nodes_of(d, k).len)), pat=lambda k: [e[k].ref])
    yield "copies of the BBN nodes", inner(lambda a, b: And(copied(m, a, b, s0), TYP(b.ref) == TYP(a.ref)))
    yield "same ids", inner(lambda a, b: b.id == a.id)
    yield "same probabilities", inner(lambda a, b: same_list(a.probs, b.probs, s0))
    yield "same states", inner(lambda a, b: And(b.variable.fresh(s0), same_list(a.variable.values, b.variable.values, s0)))
    yield "copied metadata", inner(lambda a, b: Implies(a.metadata.ref > 0, copied(m, a.metadata, b.metadata, s0)))


def copied_lists(d, e, s0):
    yield "same keys", And(e.fresh(s0), e.dom == d.dom)
    yield "same lists", forall("k", lambda k: Implies(d.has(k), same_list(d[k], e[k], s0)), pat=lambda k: [e[k].ref])


def deep(name, ty, spec):
    class Deep(Contract):
        fn = "ext:copy.deepcopy:%s" % name
        label = "copy.deepcopy of %s" % ty
        args = {"x": ty, "memo": "dict[int,int]"}
        ret = ty
        trusted = "library: copy.deepcopy copies everything reachable, each object once per memo"

        def ensures(self, c):
            yield from spec(c.o.memo, c.o.x, c.res, c.s0)
    contract("C10")(Deep)


def just_new(m, d, e, s0):
    yield "new, with the same keys", And(e.fresh(s0), e.dom == d.dom)


for _n, _t, _f in (("dict[int,Node]", "dict[int,Node]", copied_nodes),
                   ("dict[int,list[int]]", "dict[int,list[int]]", lambda m, d, e, s0: copied_lists(d, e, s0)),
                   ("dict[int,Edge]", "dict[atom,Edge]", just_new),
                   ("dict[int,set[int]]", "ddict[int,set[int]]", just_new),
                   ("dict[int,Potential]", "dict[int,Potential]", just_new),
                   ("dict[int,dict[int,Potential]]", "dict[int,dict[atom,Potential]]", just_new)):
    deep(_n, _t, _f)


@contract("C10")
class DeepCopy(Contract):
    fn = J + "JoinTree.__deepcopy__"
    recv = "JoinTree!"
    args = {"memodict": "dict[int,int]"}
    ret = "JoinTree!"

    def ensures(self, c):
        jt, kt, m, s0 = c.o.self_, c.res, c.o.memodict, c.s0
        yield "a new tree", And(kt.fresh(s0), kt.nodes.fresh(s0), kt.edges.fresh(s0), kt.edge_map.fresh(s0), kt.neighbors.fresh(s0), kt.potentials.fresh(s0), kt.evidences.fresh(s0), kt.parent_info.fresh(s0))
        yield "no listener", kt.listener.ref == 0
        yield from copied_nodes(m, jt.nodes, kt.nodes, s0)
        yield "parents: same keys", kt.parent_info.dom == jt.parent_info.dom
        yield "parents: same lists", [f for _, f in copied_lists(jt.parent_info, kt.parent_info, s0)][1]
        yield "the same tables", And(kt.potentials.dom == jt.potentials.dom, kt.evidences.dom == jt.evidences.dom)

    def assumes(self, c):
        jt, kt, m = c.o.self_, c.res, c.o.memodict
        x, y = z3.Ints("x!cp y!cp")
        yield "nodes of the copy by id (definition)", z3.ForAll([x], NODEOF(kt.ref, x) == CPY(m.ref, NODEOF(jt.ref, x)), patterns=[NODEOF(kt.ref, x)])
        yield "nodes of the copy by metadata (definition)", z3.ForAll([x], METAOF(kt.ref, CPY(m.ref, x)) == CPY(m.ref, METAOF(jt.ref, x)), patterns=[METAOF(kt.ref, CPY(m.ref, x))])
        yield "parents of the copy (definition)", z3.ForAll([x, y], PINDEX(kt.ref, x, y) == PINDEX(jt.ref, x, y), patterns=[PINDEX(kt.ref, x, y)])


# ---------------------------------------------------- calibrating it again
def no_evidence(jt):
    yield "nothing is held", forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), held(jt, i, v) == 1), pat=lambda i, v: [held(jt, i, v)])


def ready(c, s0, jt, kt):
    """kt is jt calibrated without evidence (jt: before that)"""
    yield "a controller listens", And(kt.listener.fresh(s0), kt.listener.isa("InferenceController"))
    yield "evidence tables of its own", kt.evidences.fresh(s0)
    yield from no_evidence(kt)
    yield from tables(kt)
    yield from complete(kt)
    yield "the tree is calibrated for no evidence", calibrated(kt)


@contract("C10", "C09")
class ApplyFromSerde(Contract):
    fn = IC + "apply_from_serde"
    args = {"join_tree": "JoinTree!"}
    ret = "JoinTree!"

    def requires(self, c):
        yield from tree_network(c, c.o.join_tree)

    def modifies(self, c):
        jt = c.o.join_tree
        return (fld("JoinTree", "listener", is_(jt)) + fld("JoinTree", "evidences", is_(jt)) + fld("BbnNode", "potential", tree_nodes(jt)) + fld("Meta", "parents", tree_meta(jt))
                + fld("Meta", "has:parents", tree_meta(jt)) + [("f:Meta.parent.clique", tree_meta(jt)), ("f:Meta.has:parent.clique", tree_meta(jt)), ("f:Clique.marked", tree_marks(jt))]
                + dct("int", "Potential", is_(jt.potentials)) + [(m, is_(jt)) for m in GM])

    def ensures(self, c):
        jt, kt = c.o.join_tree, c.n.join_tree
        yield "same tree", c.res == kt
        yield from ready(c, c.s0, jt, kt)
        yield from tree_cpts(c, jt, kt)
        yield "parents are recorded", each_node(jt, lambda n: And(at(kt, n).metadata.__getattr__("has:parents"), recorded(jt, kt, n)))


@contract("C10")
class Reapply(Contract):
    fn = IC + "reapply"
    args = {"join_tree": "JoinTree!", "cpts": "dict[int,list[real]]"}
    ret = "JoinTree!"

    def requires(self, c):
        jt, d = c.o.join_tree, c.o.cpts
        yield from [(n, f) for n, f in tree_network(c, jt) if "probability for" not in n]
        yield "a probability for every row", each_node(jt, lambda n: If(d.has(n.id), d[n.id].len, n.probs.len) >= cpt_size(c, jt, n.id, TREE), lambda n: n.probs.ref)

    # modifies nothing that existed before: the tree given keeps its CPTs, tables and evidence

    def ensures(self, c):
        jt, kt, d, s0 = c.o.join_tree, c.res, c.o.cpts, c.s0
        same = lambda f: forall("k", "i", lambda k, i: Implies(bbn_at(jt, k, i), f(bbn(jt, k, i), bbn(kt, k, i))), pat=lambda k, i: [bbn(jt, k, i).ref, bbn(kt, k, i).ref])
        yield "a tree of its own", And(kt.fresh(s0), kt.nodes.fresh(s0), kt.potentials.fresh(s0), kt.parent_info.fresh(s0))
        yield from ready(c, s0, jt, kt)
        yield "the same structure", And(kt.nodes.dom == jt.nodes.dom, kt.parent_info.dom == jt.parent_info.dom)
        yield "nodes of its own", same(lambda a, b: And(b.fresh(s0), b.id == a.id))
        yield "the new CPTs", same(lambda a, b: Implies(d.has(a.id), b.probs == d[a.id]))
        yield "the other nodes keep theirs", same(lambda a, b: Implies(Not(d.has(a.id)), same_list(a.probs, b.probs, s0)))
        yield from tree_cpts(c, kt, kt)
