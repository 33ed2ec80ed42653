"""C01, C04: the whole compilation, as a composition of the contracts of its steps (pybbn/pptc/inferencecontroller.py)."""
from contracts.tree import *
from contracts import exact as XM, jointree as JM

ANY = lambda r: z3.BoolVal(True)


@contract("C04", "C01")
class Apply(Contract):
    fn = JM.IC + "apply"
    args = {"bbn": "Bbn!"}
    ret = "JoinTree!"

    def requires(self, c):
        g = c.o.bbn
        yield from XM.network(c, g)
        yield from bbn_nodes_ok(g)

    def modifies(self, c):
        g = c.o.bbn
        nodes = lambda r: exists("k", lambda k: And(g.nodes.has(k), r == g.nodes[k].ref))
        meta = lambda r: exists("k", lambda k: And(g.nodes.has(k), r == g.nodes[k].metadata.ref))
        return touch(g) + fld("BbnNode", "potential", nodes) + [m for f in ("parents", "has:parents", "parent.clique", "has:parent.clique") for m in fld("Meta", f, meta)] + [("mem:int", ANY)]

    def ensures(self, c):
        g, t = c.o.bbn, c.res
        r = jrel(c, t)
        yield "a new tree", t.fresh(c.s0)
        yield "no cycle", FOREST(r)
        yield "every node lies in a clique with its parents", forall("x", lambda x: Implies(And(g.nodes.has(x)), home(c, g, t, x)), pat=lambda x: [g.nodes.has(x)])
        # (which combination a row is about: see Init; it takes the solvers long to carry it through)
        yield from [(a, f) for a, f in XM.cpts(c, g, c.n.bbn, (["x"], lambda x: g.nodes.has(x), lambda x: x)) if "product order" not in a]
        yield from Transform._seps(c, t)
        q = lambda k: JM.V_(t, "Clique", t.nodes[k].ref)
        yield "no clique includes another", forall("k", "l", lambda k, l: Implies(And(JM.is_clique(t, k), JM.is_clique(t, l), k != l), Not(INCL(ids(q(k)), ids(q(l))))), pat=lambda k, l: [INCL(ids(q(k)), ids(q(l)))])
        yield "cliques with a common node are connected", forall("k", "l", "a", "b", lambda k, l, a, b: Implies(And(JM.is_clique(t, k), JM.is_clique(t, l), k != l, rng(a, q(k).nodes.len), rng(b, q(l).nodes.len),
            q(k).nodes[a].id == q(l).nodes[b].id), Or(REACH(r, k, l), REACH(r, l, k))), pat=lambda k, l, a, b: [(q(k).nodes[a].ref, q(l).nodes[b].ref)])
        yield "a controller listens", And(t.listener.fresh(c.s0), t.listener.isa("InferenceController"))
        yield "calibrated for no evidence", And(JM.calibrated(t), forall("i", "v", lambda i, v: Implies(JM.keeps(t, i, v), JM.held(t, i, v) == 1), pat=lambda i, v: [JM.held(t, i, v)]))
        yield "lists of parents", forall("k", lambda k: And(t.parent_info.has(k) == And(g.nodes.has(k), g.parents.has(k)), Implies(t.parent_info.has(k), t.parent_info[k] == g.parents[k])), pat=lambda k: [t.parent_info.has(k)])

    def _info(L):
        g, p = L.o.bbn, L.acc()
        yield "new", p.fresh(L.s0)
        yield "lists so far", forall("k", lambda k: Implies(p.has(k), And(KNOWN(k), g.nodes.has(k), g.parents.has(k), p[k] == g.parents[k])), pat=lambda k: [p.has(k)])
        yield "all so far", forall("j", lambda j: Implies(And(rng(j, L.k), g.parents.has(L.item(j).id)), p.has(L.item(j).id)), pat=lambda j: [L.item(j).ref])

    loops = [_info]


def home(c, g, t, x):
    k = z3.Int(fresh_name("k"))
    q = JM.V_(t, "Clique", t.nodes[k].ref)
    return z3.Exists([k], And(JM.is_clique(t, k), KNOWN(k), INCL(ids(q), FAMILY(c, g, x))), patterns=[KNOWN(k), t.nodes.has(k)])
