"""C02, C03: evidence held by a join tree, and the recalibration it triggers."""
from contracts.common import *
from contracts.evidence import (NORMAL, all_keys, every, keys_are_states, normal_view, observed_at, states, states_ok, unit, unobserved)

J = "pybbn.graph.jointree:"
IC = "pybbn.pptc.inferencecontroller:InferenceController."
NONE_, UPDATE, RETRACTION = 1, 2, 3

# ghost state: for each join tree, the evidence its tables were initialised with,
# the evidence they are calibrated for, and whether no message was passed since initialisation
SNAP = z3.ArraySort(I, AR)
GM = {"g:init": z3.ArraySort(I, SNAP), "g:cal": z3.ArraySort(I, SNAP), "g:fresh": AB}


def ghost(jt, name):
    return z3.Select(jt._s.map("g:" + name, GM["g:" + name]), jt.ref)


def held(jt, i, v):
    """likelihood held for value v of node i"""
    return jt.evidences[i][v].entries[0].value


def keeps(jt, i, v):
    """there is an evidence table for value v of node i"""
    return And(jt.evidences.has(i), jt.evidences[i].has(v))


def tables(jt):
    """every evidence table is the single row {i: v} with a likelihood"""
    def one(i, v):
        p = jt.evidences[i][v]
        e = p.entries[0].entries
        return And(p.ref > 0, p.entries[0].ref > 0, p.entries.len == 1, e.has(i), e[i] == v)
    ev = jt.evidences
    yield "evidence maps are objects of their own", forall("i", lambda i: Implies(ev.has(i), And(ev[i].ref > 0, ev[i] != jt.potentials)), pat=lambda i: [ev.has(i), ev[i].ref])
    yield "evidence tables have one row, for their node and value", forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), one(i, v)), pat=lambda i, v: [jt.evidences[i].has(v)])
    yield "and for no other node", forall("i", "v", "k", lambda i, v, k: Implies(And(keeps(jt, i, v), jt.evidences[i][v].entries[0].entries.has(k)), k == i),
                                          pat=lambda i, v, k: [jt.evidences[i][v].entries[0].entries.has(k)])


def in_range(jt):
    yield "held likelihoods are in [0, 1]", forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), And(held(jt, i, v) >= 0, held(jt, i, v) <= 1)), pat=lambda i, v: [held(jt, i, v)])


def calibrated(jt):
    """the tables of jt are calibrated for the evidence held"""
    g = ghost(jt, "cal")
    return forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), g[i][v] == held(jt, i, v)), pat=lambda i, v: [held(jt, i, v)])


def for_node(jt, n):
    """node n of a network has one evidence table per state"""
    vs = n.variable.values
    m = jt.evidences[n.id]
    yield "the node has evidence tables", jt.evidences.has(n.id)
    yield "for every state", forall("x", lambda x: Implies(rng(x, vs.len), m.has(vs[x])), pat=lambda x: [vs[x]])
    yield "and for nothing else", keys_are_states(vs, m)


def same(jt, kt):
    """the evidence held is the same in two states"""
    return forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), held(kt, i, v) == held(jt, i, v)), pat=lambda i, v: [held(kt, i, v)])


def table_maps(jt):
    """modifies: clique and separation-set tables"""
    p = jt.potentials
    rows = lambda r: exists("c", "x", lambda c, x: And(p.has(c), rng(x, p[c].entries.len), r == p[c].entries[x].ref))
    return dct("int", "Potential", is_(p)) + fld("PotentialEntry", "value", rows)


def missing(jt):
    """some state of some node has no evidence table"""
    k, i, x = z3.Int(fresh_name("k")), z3.Int(fresh_name("i")), z3.Int(fresh_name("x"))
    n = bbn(jt, k, i)
    vs = n.variable.values
    return z3.Exists([k, i, x], And(bbn_at(jt, k, i), rng(x, vs.len), Not(keeps(jt, n.id, vs[x]))))


def complete(jt):
    yield "every state of every node has an evidence table", forall("k", "i", "x", lambda k, i, x: Implies(And(
        bbn_at(jt, k, i), rng(x, bbn(jt, k, i).variable.values.len)), keeps(jt, bbn(jt, k, i).id, bbn(jt, k, i).variable.values[x])), pat=lambda k, i, x: [bbn(jt, k, i).variable.values[x]])


def tree_meta(jt):
    return lambda r: exists("k", "i", lambda k, i: And(bbn_at(jt, k, i), r == bbn(jt, k, i).metadata.ref, KNOWN(k), KNOWN(i)))


def tree_marks(jt):
    return lambda r: exists("k", lambda k: And(jt.nodes.has(k), r == jt.nodes[k].ref, KNOWN(k)))


# --------------------------------------------------------- recalibration
@contract("C02")
class Initialize(Contract):
    fn = "pybbn.pptc.initializer:Initializer.initialize"
    args = {"join_tree": "JoinTree!"}
    ret = "JoinTree!"
    trusted = "sets every table to the product of its CPTs and the evidence held (see C01)"

    def requires(self, c):
        yield from tables(c.o.join_tree)

    def modifies(self, c):
        jt = c.o.join_tree
        ev = jt.evidences
        gaps = missing(jt)
        return (dct("int", "Potential", is_(jt.potentials)) + [("g:init", is_(jt)), ("g:fresh", is_(jt)), ("f:Meta.parent.clique", tree_meta(jt)), ("f:Meta.has:parent.clique", tree_meta(jt))]
                + dct("int", "dict[atom,Potential]", lambda r: And(r == ev.ref, gaps))
                + dct("atom", "Potential", lambda r: And(exists("i", lambda i: And(ev.has(i), r == ev[i].ref)), gaps)))

    def ensures(self, c):
        ot, jt = c.o.join_tree, c.n.join_tree
        yield "evidence tables stay", forall("i", "v", lambda i, v: Implies(keeps(ot, i, v), And(keeps(jt, i, v), jt.evidences[i][v] == ot.evidences[i][v])), pat=lambda i, v: [jt.evidences[i].has(v), ot.evidences[i].has(v)])
        yield "new ones hold nothing", forall("i", "v", lambda i, v: Implies(And(keeps(jt, i, v), Not(keeps(ot, i, v))), held(jt, i, v) == 1), pat=lambda i, v: [held(jt, i, v)])
        yield from tables(jt)
        yield from complete(jt)
        yield "clique tables have rows of their own", forall("c", "x", "i", "v", lambda k, x, i, v: Implies(And(jt.potentials.has(k), rng(x, jt.potentials[k].entries.len), keeps(jt, i, v)),
            jt.potentials[k].entries[x] != jt.evidences[i][v].entries[0]), pat=lambda k, x, i, v: [(jt.potentials[k].entries[x].ref, jt.evidences[i][v].entries[0].ref)])
        yield "same tree", c.res == jt
        yield "initialised", ghost(jt, "fresh")
        yield "with the evidence held", forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), ghost(jt, "init")[i][v] == held(jt, i, v)), pat=lambda i, v: [held(jt, i, v)])
        yield "tables are new", forall("c", lambda k: Implies(jt.potentials.has(k), And(jt.potentials[k].fresh(c.s0), jt.potentials[k].entries.fresh(c.s0))), pat=lambda k: [jt.potentials.has(k)])
        yield "rows are new", forall("c", "x", lambda k, x: Implies(And(jt.potentials.has(k), rng(x, jt.potentials[k].entries.len)), jt.potentials[k].entries[x].fresh(c.s0)), pat=lambda k, x: [jt.potentials[k].entries[x].ref])


@contract("C02")
class Propagate(Contract):
    fn = "pybbn.pptc.propagator:Propagator.propagate"
    args = {"join_tree": "JoinTree!"}
    ret = "JoinTree!"
    trusted = "two-phase message passing calibrates a freshly initialised tree (see C01)"

    def requires(self, c):
        yield "the tables were just initialised", ghost(c.o.join_tree, "fresh")

    def modifies(self, c):
        jt = c.o.join_tree
        return table_maps(jt) + [("g:cal", is_(jt)), ("g:fresh", is_(jt)), ("f:Clique.marked", tree_marks(jt))]

    def ensures(self, c):
        jt = c.n.join_tree
        yield "same tree", c.res == jt
        yield "calibrated for what it was initialised with", ghost(jt, "cal") == ghost(jt, "init")


def recal_maps(jt):
    anything = lambda r: z3.BoolVal(True)
    return dct("int", "Potential", is_(jt.potentials)) + [(m, is_(jt)) for m in GM] + [(m, anything) for m in ("f:Meta.parent.clique", "f:Meta.has:parent.clique", "f:Clique.marked")]


@contract("C02")
class EvidenceRetracted(Contract):
    fn = IC + "evidence_retracted"
    recv = "InferenceController"
    args = {"join_tree": "JoinTree!"}

    def requires(self, c):
        yield from tables(c.o.join_tree)
        yield from complete(c.o.join_tree)

    def modifies(self, c):
        return recal_maps(c.o.join_tree)

    def ensures(self, c):
        yield "the tree is calibrated for the evidence held", calibrated(c.n.join_tree)


def listens(jt):
    yield "the controller listens", jt.listener.ref != 0


@contract("C02")
class Notify(Contract):
    fn = J + "JoinTree.__notify_listener__"
    recv = "JoinTree!"
    args = {"change": "ChangeType"}

    def requires(self, c):
        yield from listens(c.o.self_)
        yield from tables(c.o.self_)
        yield from complete(c.o.self_)
        yield "no change, or a retraction", Or(c.o.change == NONE_, c.o.change == RETRACTION)

    def modifies(self, c):
        return recal_maps(c.o.self_)

    def ensures(self, c):
        jt = c.o.self_
        yield "recalibrated after a retraction", Implies(c.o.change == RETRACTION, calibrated(c.n.self_))
        yield "otherwise nothing happens", Implies(c.o.change == NONE_, ghost(c.n.self_, "cal") == ghost(jt, "cal"))


# ---------------------------------------------------------------- evidence
@contract("C02", "C03")
class GetEvidence(Contract):
    fn = J + "JoinTree.get_evidence"
    recv = "JoinTree!"
    args = {"node": "BbnNode", "value": "atom"}
    ret = "Potential"

    def requires(self, c):
        yield from tables(c.o.self_)
        jt = c.o.self_
        yield "evidence maps are separate", forall("a", "b", lambda a, b: Implies(And(jt.evidences.has(a), jt.evidences.has(b), a != b), jt.evidences[a] != jt.evidences[b]),
                                                   pat=lambda a, b: [(jt.evidences[a].ref, jt.evidences[b].ref)])

    def modifies(self, c):
        ev, i = c.o.self_.evidences, c.o.node.id
        return dct("int", "dict[atom,Potential]", is_(ev)) + dct("atom", "Potential", lambda r: And(ev.has(i), r == ev[i].ref))

    def ensures(self, c):
        jt, kt, i, v = c.o.self_, c.n.self_, c.o.node.id, c.o.value
        yield "the table of that value", And(keeps(kt, i, v), c.res == kt.evidences[i][v])
        yield "no evidence is held for a new table", Implies(Not(keeps(jt, i, v)), held(kt, i, v) == 1)
        yield "tables stay", forall("i", "v", lambda a, b: keeps(kt, a, b) == Or(keeps(jt, a, b), And(a == i, b == v)), pat=lambda a, b: [kt.evidences[a].has(b)])
        yield "the same tables", forall("i", "v", lambda a, b: Implies(keeps(jt, a, b), kt.evidences[a][b] == jt.evidences[a][b]), pat=lambda a, b: [kt.evidences[a][b].ref])
        yield from tables(kt)
        yield "evidence maps are separate", forall("a", "b", lambda a, b: Implies(And(kt.evidences.has(a), kt.evidences.has(b), a != b), kt.evidences[a] != kt.evidences[b]),
                                                   pat=lambda a, b: [(kt.evidences[a].ref, kt.evidences[b].ref)])


@contract("C02", "C03")
class GetUnobserved(Contract):
    fn = J + "JoinTree.get_unobserved_evidence"
    recv = "JoinTree!"
    args = {"node": "BbnNode"}
    ret = "Evidence"

    def ensures(self, c):
        e, n = c.res, c.o.node
        vs = n.variable.values
        yield "for that node", e.node == n
        yield "kind", e.type == 4
        yield "new", And(e.fresh(c.s0), e.values.fresh(c.s0))
        yield "one for every state", forall("x", lambda x: Implies(rng(x, vs.len), And(e.values.has(vs[x]), e.values[vs[x]] == 1)), pat=lambda x: [vs[x]])
        yield "and nothing else", keys_are_states(vs, e.values)

    def _inv(L):
        e, vs = L.v("evidence", "Evidence!"), L.o.node.variable.values
        yield "states so far", forall("x", lambda x: Implies(rng(x, L.k), And(e.values.has(vs[x]), e.values[vs[x]] == 1)), pat=lambda x: [vs[x]])
        yield "only states", keys_are_states(vs, e.values)

    loops = [_inv]


def evidence_ok(jt, e):
    """e can be entered into jt"""
    yield from states_ok(e.node.variable.values)
    yield from for_node(jt, e.node)


def listed(c, evs):
    """requirements on a list of evidence"""
    jt = c.o.self_
    for k in range(5):
        def nth(x, k=k):
            return [f for _, f in evidence_ok(jt, evs[x])][k]
        nm = [n for n, _ in evidence_ok(jt, evs[0])][k]
        yield "evidence %d: %s" % (k, nm), forall("e", lambda x: Implies(rng(x, evs.len), nth(x)), pat=lambda x: [evs[x].ref])
    yield "only states are mentioned", forall("e", lambda x: Implies(rng(x, evs.len), keys_are_states(evs[x].node.variable.values, evs[x].values)), pat=lambda x: [evs[x].ref])
    yield "every evidence has its own likelihoods", forall("e", "f", lambda x, y: Implies(And(x >= 0, x < y, y < evs.len), evs[x].values != evs[y].values), pat=lambda x, y: [(evs[x].ref, evs[y].ref)])


@contract("C02")
class GetChangeType(Contract):
    fn = J + "JoinTree.get_change_type"
    recv = "JoinTree!"
    args = {"evidences": "list[Evidence]"}
    ret = "ChangeType"

    def requires(self, c):
        jt, evs = c.o.self_, c.o.evidences
        yield from tables(jt)
        yield from in_range(jt)
        yield "every evidence covers exactly the states held", forall("e", "v", lambda x, v: Implies(rng(x, evs.len), And(
            jt.evidences.has(evs[x].node.id), evs[x].values.has(v) == jt.evidences[evs[x].node.id].has(v))), pat=lambda x, v: [evs[x].values.has(v), (evs[x].ref, jt.evidences[evs[x].node.id].has(v))])
        yield "every node has evidence tables", forall("e", lambda x: Implies(rng(x, evs.len), jt.evidences.has(evs[x].node.id)), pat=lambda x: [evs[x].ref])
        yield "likelihoods in [0, 1]", forall("e", lambda x: Implies(rng(x, evs.len), unit(evs[x].values)), pat=lambda x: [evs[x].ref])

    def ensures(self, c):
        jt, evs = c.o.self_, c.o.evidences
        yield "no change only if every likelihood equals the held one", Implies(c.res == NONE_, forall("e", "v", lambda x, v: Implies(
            And(rng(x, evs.len), evs[x].values.has(v)), evs[x].values[v] == held(jt, evs[x].node.id, v)), pat=lambda x, v: [evs[x].values[v]]))
        yield "otherwise a retraction", Or(c.res == NONE_, c.res == RETRACTION)

    def _inv(L):
        jt, evs, ch = L.o.self_, L.o.evidences, L.v("changes", "list[ChangeType]")
        yield "one change per evidence", ch.len == L.k
        yield "each is none or a retraction", forall("j", lambda j: Implies(rng(j, ch.len), Or(ch[j] == NONE_, ch[j] == RETRACTION)), pat=lambda j: [ch[j]])
        yield "no change only if every likelihood equals the held one", forall("j", "v", lambda j, v: Implies(And(rng(j, L.k), ch[j] == NONE_, evs[j].values.has(v)),
            evs[j].values[v] == held(jt, evs[j].node.id, v)), pat=lambda j, v: [evs[j].values[v]])

    loops = [_inv]


def rows_of(jt, evs):
    """rows of the evidence tables of the nodes listed"""
    ev = jt.evidences
    return lambda r: exists("e", "v", lambda x, v: And(rng(x, evs.len), ev.has(evs[x].node.id), ev[evs[x].node.id].has(v), r == ev[evs[x].node.id][v].entries[0].ref))


def likelihoods(evs):
    return lambda r: exists("e", lambda x: And(rng(x, evs.len), r == evs[x].values.ref))


def last_entered(jt, evs, x, v, n):
    """evidence x, or a later one on the same node, is held"""
    y = z3.Int(fresh_name("y"))
    return z3.Exists([y], And(y >= x, y < n, KNOWN(y), evs[y].node.id == evs[x].node.id, evs[y].values.has(v), held(jt, evs[x].node.id, v) == evs[y].values[v]), patterns=[KNOWN(y), evs[y].ref])


def enter(jt, kt, evs, old_evs):
    """evs were entered"""
    yield "the likelihoods entered are the normalised ones", forall("e", lambda x: Implies(rng(x, evs.len), normal_view(old_evs[x], old_evs[x].values, evs[x].values)), pat=lambda x: [evs[x].ref])
    yield "the last evidence listed for a node is held", forall("e", "v", lambda x, v: Implies(And(rng(x, evs.len), evs[x].values.has(v)), last_entered(kt, evs, x, v, evs.len)), pat=lambda x, v: [evs[x].values[v], (evs[x].ref, held(kt, evs[x].node.id, v))])
    yield "other nodes keep theirs", forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), Or(held(kt, i, v) == held(jt, i, v), exists("e", lambda x: And(
        rng(x, evs.len), KNOWN(x), evs[x].node.id == i, evs[x].values.has(v), held(kt, i, v) == evs[x].values[v])))), pat=lambda i, v: [held(kt, i, v)])


def consistent(c, jt):
    yield from tables(jt)
    yield from in_range(jt)
    yield from complete(jt)
    yield from listens(jt)
    yield "the tree is calibrated for the evidence held", calibrated(jt)


@contract("C02")
class UpdateEvidences(Contract):
    fn = J + "JoinTree.update_evidences"
    recv = "JoinTree!"
    args = {"evidences": "list[Evidence]"}
    ret = "JoinTree!"

    def requires(self, c):
        yield from consistent(c, c.o.self_)
        yield from listed(c, c.o.evidences)

    def modifies(self, c):
        jt, evs = c.o.self_, c.o.evidences
        return dct("atom", "real", likelihoods(evs)) + fld("PotentialEntry", "value", rows_of(jt, evs)) + recal_maps(jt)

    def ensures(self, c):
        jt, kt = c.o.self_, c.n.self_
        yield "same tree", c.res == kt
        yield from enter(jt, kt, c.n.evidences, c.o.evidences)
        yield from consistent(c, kt)

    def _validate(L):
        evs, olds = L.a.evidences, L.o.evidences
        done = lambda x: rng(x, L.k)
        yield "normalised so far", forall("e", lambda x: Implies(done(x), normal_view(olds[x], olds[x].values, evs[x].values)), pat=lambda x: [evs[x].ref])
        yield "states so far", forall("e", "i", lambda x, i: Implies(And(done(x), rng(i, evs[x].node.variable.values.len)), evs[x].values.has(evs[x].node.variable.values[i])), pat=lambda x, i: [evs[x].node.variable.values[i]])
        yield "only states", forall("e", lambda x: Implies(rng(x, evs.len), keys_are_states(evs[x].node.variable.values, evs[x].values)), pat=lambda x: [evs[x].ref])
        yield "in range so far", forall("e", lambda x: Implies(done(x), unit(evs[x].values)), pat=lambda x: [evs[x].ref])
        rest = lambda x: And(x >= L.k, x < evs.len)
        yield "the rest is untouched", forall("e", lambda x: Implies(rest(x), And(evs[x].values.dom == olds[x].values.dom, evs[x].values.arr == olds[x].values.arr)), pat=lambda x: [evs[x].ref])

    def _enter(L):
        jt, evs, et = L.a.self_, L.a.evidences, L.o.self_
        yield "the last evidence so far is held", forall("e", "v", lambda x, v: Implies(And(rng(x, L.k), evs[x].values.has(v)), last_entered(jt, evs, x, v, L.k)), pat=lambda x, v: [evs[x].values[v]])
        yield "others keep theirs", forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), Or(held(jt, i, v) == held(et, i, v), exists("e", lambda x: And(
            rng(x, L.k), KNOWN(x), evs[x].node.id == i, evs[x].values.has(v), held(jt, i, v) == evs[x].values[v])))), pat=lambda i, v: [held(jt, i, v)])

    def _states(L):
        jt, pt = L.a.self_, L.se(L.a.self_)
        e = L.v("evidence", "Evidence")
        yield "states so far are held", forall("v", lambda v: Implies(L.seen(v), held(jt, e.node.id, v) == e.values[v]), pat=lambda v: [e.values[v], held(jt, e.node.id, v)])
        yield "others keep theirs", forall("i", "v", lambda i, v: Implies(And(keeps(jt, i, v), Not(And(i == e.node.id, L.seen(v)))), held(jt, i, v) == held(pt, i, v)), pat=lambda i, v: [held(jt, i, v)])

    loops = [_validate, _enter, _states]


# ------------------------------------------------------------------ queries
def unique(jt):
    """nodes of the tree: one object per id"""
    n = jt.nodes
    yield "node ids are unique", forall("k", "i", "l", "j", lambda k, i, l, j: Implies(And(
        bbn_at(jt, k, i), bbn_at(jt, l, j), bbn(jt, k, i).id == bbn(jt, l, j).id), bbn(jt, k, i) == bbn(jt, l, j)),
        pat=lambda k, i, l, j: [(bbn(jt, k, i).ref, bbn(jt, l, j).ref)])


def clique(jt, k):
    """the clique listed under k"""
    return V_(jt, "Clique", jt.nodes[k].ref)


def V_(v, cls, ref):
    return View(v._s, ("ref", cls, False), ref)


def is_clique(jt, k):
    return And(jt.nodes.has(k), jt.nodes[k].isa("Clique"), Not(jt.nodes[k].isa("SepSet")))


def bbn(jt, k, i):
    return clique(jt, k).nodes[i]


def bbn_at(jt, k, i):
    return And(is_clique(jt, k), rng(i, clique(jt, k).nodes.len))


def in_tree(jt, n):
    """n is a node of a clique of jt"""
    k, i = z3.Int(fresh_name("k")), z3.Int(fresh_name("i"))
    return z3.Exists([k, i], And(bbn_at(jt, k, i), bbn(jt, k, i) == n, KNOWN(k), KNOWN(i)))


def only_cliques(jt):
    yield "the tree holds cliques and separation sets", forall("k", lambda k: Implies(jt.nodes.has(k), And(jt.nodes[k].ref > 0, jt.nodes[k].isa("Clique"))), pat=lambda k: [jt.nodes.has(k), jt.nodes[k].ref])


@contract("C02", "C04")
class GetCliques(Contract):
    fn = J + "JoinTree.get_cliques"
    recv = "JoinTree!"
    ret = "list[Clique]"

    def requires(self, c):
        yield from only_cliques(c.o.self_)

    def ensures(self, c):
        jt, r = c.o.self_, c.res
        yield "a new list", r.fresh(c.s0)
        yield "cliques of the tree", forall("i", lambda i: Implies(rng(i, r.len), And(r[i].isa("Clique"), Not(r[i].isa("SepSet")), exists("k", lambda k: And(
            is_clique(jt, k), KNOWN(k), jt.nodes[k].ref == r[i].ref)))), pat=lambda i: [r[i].ref])
        yield "all of them", forall("k", lambda k: Implies(is_clique(jt, k), exists("i", lambda i: And(rng(i, r.len), KNOWN(i), r[i].ref == jt.nodes[k].ref))), pat=lambda k: [jt.nodes[k].ref, jt.nodes.has(k)])


@contract("C02")
class GetBbnNodes(Contract):
    fn = J + "JoinTree.get_bbn_nodes"
    recv = "JoinTree!"
    ret = "list[BbnNode]"

    def requires(self, c):
        yield from only_cliques(c.o.self_)
        yield from unique(c.o.self_)

    def ensures(self, c):
        jt, r = c.o.self_, c.res
        yield "a new list", r.fresh(c.s0)
        yield "nodes of the tree", forall("i", lambda i: Implies(rng(i, r.len), in_tree(jt, r[i])), pat=lambda i: [r[i].ref])
        yield "all of them", forall("k", "j", lambda k, j: Implies(bbn_at(jt, k, j), exists("i", lambda i: And(rng(i, r.len), KNOWN(i), r[i] == bbn(jt, k, j)))), pat=lambda k, j: [bbn(jt, k, j).ref])
        yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), r[i].id != r[j].id), pat=lambda i, j: [(r[i].ref, r[j].ref)])


@contract("C02")
class GetBbnNode(Contract):
    fn = J + "JoinTree.get_bbn_node"
    recv = "JoinTree!"
    args = {"id": "int"}
    ret = "opt[BbnNode]"

    def requires(self, c):
        yield from only_cliques(c.o.self_)
        yield from unique(c.o.self_)

    def ensures(self, c):
        jt, r = c.o.self_, c.res
        yield "a node of the tree with that id", Implies(r.ref != 0, And(in_tree(jt, r), r.id == c.o.id))
        yield "none only if there is none", Implies(r.ref == 0, forall("k", "j", lambda k, j: Implies(bbn_at(jt, k, j), bbn(jt, k, j).id != c.o.id), pat=lambda k, j: [bbn(jt, k, j).ref]))


# -------------------------------------------------------------- withdrawing
def enterable(jt, nodes):
    for k in range(5):
        nm = [n for n, _ in evidence_ok_node(jt, nodes[0])][k]
        yield "nodes: %s" % nm, forall("e", lambda x, k=k: Implies(rng(x, nodes.len), [f for _, f in evidence_ok_node(jt, nodes[x])][k]), pat=lambda x: [nodes[x].ref])


def evidence_ok_node(jt, n):
    yield from states_ok(n.variable.values)
    yield from for_node(jt, n)


def withdrawn(jt, kt, nodes):
    yield "nothing is held for the nodes", forall("e", "v", lambda x, v: Implies(And(rng(x, nodes.len), keeps(kt, nodes[x].id, v)), held(kt, nodes[x].id, v) == 1),
                                                  pat=lambda x, v: [(nodes[x].ref, held(kt, nodes[x].id, v))])
    yield "other nodes keep theirs", forall("i", "v", lambda i, v: Implies(keeps(jt, i, v), Or(held(kt, i, v) == held(jt, i, v), exists("e", lambda x: And(
        rng(x, nodes.len), KNOWN(x), nodes[x].id == i)))), pat=lambda i, v: [held(kt, i, v)])


@contract("C02")
class Unobserve(Contract):
    fn = J + "JoinTree.unobserve"
    recv = "JoinTree!"
    args = {"nodes": "list[BbnNode]"}
    ret = "JoinTree!"

    def requires(self, c):
        yield from consistent(c, c.o.self_)
        yield from enterable(c.o.self_, c.o.nodes)

    def modifies(self, c):
        jt, ns = c.o.self_, c.o.nodes
        ev = jt.evidences
        return fld("PotentialEntry", "value", lambda r: exists("e", "v", lambda x, v: And(rng(x, ns.len), ev.has(ns[x].id), ev[ns[x].id].has(v), r == ev[ns[x].id][v].entries[0].ref))) + recal_maps(jt)

    def ensures(self, c):
        yield "same tree", c.res == c.n.self_
        yield from withdrawn(c.o.self_, c.n.self_, c.o.nodes)
        yield from consistent(c, c.n.self_)

    def _inv(L):
        ns, e = L.o.nodes, L.v("evidences", "list[Evidence]")
        yield "one evidence per node", e.len == L.k
        yield "for that node, withdrawn", forall("j", lambda j: Implies(rng(j, L.k), And(e[j].node == ns[j], e[j].type == 4)), pat=lambda j: [e[j].ref, ns[j].ref])
        yield "with likelihoods of its own", forall("j", "l", lambda j, l: Implies(And(j >= 0, j < l, l < L.k), e[j].values != e[l].values), pat=lambda j, l: [(e[j].ref, e[l].ref)])
        yield "new", forall("j", lambda j: Implies(rng(j, L.k), And(e[j].ref > 0, e[j].values.ref > 0, e[j].fresh(L.s0), e[j].values.fresh(L.s0), e[j].values.ref < L.s.top)), pat=lambda j: [e[j].ref])
        yield "over the states", forall("j", lambda j: Implies(rng(j, L.k), keys_are_states(ns[j].variable.values, e[j].values)), pat=lambda j: [e[j].ref])

    loops = [_inv]


@contract("C02")
class UnobserveAll(Contract):
    fn = J + "JoinTree.unobserve_all"
    recv = "JoinTree!"
    ret = "JoinTree!"

    def requires(self, c):
        jt = c.o.self_
        yield from consistent(c, jt)
        yield from only_cliques(jt)
        yield from unique(jt)
        for k in range(5):
            yield "nodes %d" % k, forall("k", "i", lambda a, b, k=k: Implies(bbn_at(jt, a, b), [f for _, f in evidence_ok_node(jt, bbn(jt, a, b))][k]), pat=lambda a, b: [bbn(jt, a, b).ref])
        yield "only nodes of the tree have evidence tables", forall("i", lambda i: Implies(jt.evidences.has(i), exists("k", "j", lambda k, j: And(bbn_at(jt, k, j), bbn(jt, k, j).id == i))), pat=lambda i: [jt.evidences.has(i)])

    def modifies(self, c):
        jt = c.o.self_
        ev = jt.evidences
        return fld("PotentialEntry", "value", lambda r: exists("i", "v", lambda i, v: And(keeps(jt, i, v), r == ev[i][v].entries[0].ref))) + recal_maps(jt)

    def ensures(self, c):
        jt, kt = c.o.self_, c.n.self_
        yield "same tree", c.res == kt
        yield "nothing is held", forall("i", "v", lambda i, v: Implies(keeps(kt, i, v), held(kt, i, v) == 1), pat=lambda i, v: [held(kt, i, v)])
        yield from consistent(c, kt)


def held_at(jt, i, v):
    """an observation of v is held for node i"""
    return And(keeps(jt, i, v), held(jt, i, v) == 1, forall("w", lambda w: Implies(And(keeps(jt, i, w), w != v), held(jt, i, w) == 0), pat=lambda w: [held(jt, i, w)]))


@contract("C02")
class SetObservation(Contract):
    fn = J + "JoinTree.set_observation"
    recv = "JoinTree!"
    args = {"evidence": "Evidence"}
    ret = "JoinTree!"

    def requires(self, c):
        jt, e = c.o.self_, c.o.evidence
        yield from consistent(c, jt)
        yield from evidence_ok(jt, e)
        yield "only states are mentioned", keys_are_states(e.node.variable.values, e.values)

    def modifies(self, c):
        jt, e = c.o.self_, c.o.evidence
        m = jt.evidences
        return dct("atom", "real", is_(e.values)) + recal_maps(jt) + fld("PotentialEntry", "value", lambda r: exists("v", lambda v: And(keeps(jt, e.node.id, v), r == m[e.node.id][v].entries[0].ref)))

    def ensures(self, c):
        jt, kt, e, d = c.o.self_, c.n.self_, c.o.evidence, c.n.evidence.values
        i = e.node.id
        again = exists("v", lambda v: And(held_at(jt, i, v), observed_at(d, v)))
        yield "same tree", c.res == kt
        yield "the likelihoods entered are the normalised ones", normal_view(e, e.values, d)
        yield "the same observation again is withdrawn", forall("u", "v", lambda u, v: Implies(And(held_at(jt, i, u), observed_at(d, u), keeps(kt, i, v)), held(kt, i, v) == 1),
                                                                pat=lambda u, v: [(jt.evidences[i].has(u), d.has(u), d[u], held(jt, i, u), held(kt, i, v))])
        yield "otherwise the evidence is held", forall("v", lambda v: Implies(And(Not(again), keeps(kt, i, v)), held(kt, i, v) == d[v]), pat=lambda v: [held(kt, i, v)])
        yield "other nodes keep theirs", forall("i", "v", lambda j, v: Implies(And(keeps(jt, j, v), j != i), held(kt, j, v) == held(jt, j, v)), pat=lambda j, v: [held(kt, j, v)])
        yield from consistent(c, kt)
