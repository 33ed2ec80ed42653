"""C16: ids by name and names by id (pybbn/graph/dag.py)."""
from contracts.serial import *


class Names(Contract):
    recv = "Dag"

    def requires(self, c):
        g = c.o.self_
        yield "nodes are BBN nodes", forall("k", lambda k: Implies(g.nodes.has(k), And(g.nodes[k].ref > 0, g.nodes[k].isa("BbnNode"), as_bbn(g, k).variable.ref > 0)), pat=lambda k: [g.nodes.has(k)])


name = lambda g, k: as_bbn(g, k).variable.name


@contract("C16")
class N2i(Names):
    fn = D + "Dag.get_n2i"
    ret = "dict[atom,int]"

    def ensures(self, c):
        g, m = c.o.self_, c.res
        yield "new", m.fresh(c.s0)
        yield from N2i._spec(g, m, lambda k: g.nodes.has(k))

    def _spec(g, m, seen):
        yield "every name", forall("k", lambda k: Implies(seen(k), m.has(name(g, k))), pat=lambda k: [g.nodes[k].ref])
        yield "of a node with that name", forall("x", lambda x: Implies(m.has(x), And(g.nodes.has(m[x]), seen(m[x]), name(g, m[x]) == x)), pat=lambda x: [m.has(x)])

    def _inv(L):
        yield "new", L.acc().fresh(L.s0)
        yield from N2i._spec(L.o.self_, L.acc(), L.seen)

    loops = [_inv]


@contract("C16")
class I2n(Names):
    fn = D + "Dag.get_i2n"
    ret = "dict[int,atom]"

    def ensures(self, c):
        g, m = c.o.self_, c.res
        yield "new", m.fresh(c.s0)
        yield from I2n._spec(g, m, lambda k: g.nodes.has(k))

    def _spec(g, m, seen):
        yield "every id, with its name", forall("k", lambda k: And(m.has(k) == seen(k), Implies(seen(k), m[k] == name(g, k))), pat=lambda k: [m.has(k)])

    def _inv(L):
        yield "new", L.acc().fresh(L.s0)
        yield from I2n._spec(L.o.self_, L.acc(), L.seen)

    loops = [_inv]
