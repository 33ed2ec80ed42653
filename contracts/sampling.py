"""C11: contracts on logic sampling."""
from contracts.common import *
from contracts.graph import E, wf
from contracts.graphs import REACH, REL, acyclic, erel, has_item

M = "pybbn.sampling.sampling:"

# the first element of a list none of whose predecessors is in the list
SRC = z3.Function("source", REL, AI, I, I)
CYC = z3.Function("on_a_cycle", REL, I)
SEEK = z3.Function("seek_source", REL, AI, I, B)
_r, _l = z3.Const("r", REL), z3.Const("l", AI)
_n, _j = z3.Ints("n j")
_m = SRC(_r, _l, _n)
axiom("acyclic: in every non-empty finite list some element has no predecessor in the list", ["seek_source"], z3.ForAll([_r, _l, _n], Or(
    _n <= 0, REACH(_r, CYC(_r), CYC(_r)), And(rng(_m, _n), KNOWN(_m), z3.ForAll([_j], Implies(rng(_j, _n), Not(_r[_l[_j]][_l[_m]])), patterns=[_l[_j]]))),
    patterns=[SEEK(_r, _l, _n)]), "Lean: acyclic_source")
axiom("seek_source: true of everything", ["seek_source"], z3.ForAll([_r, _l, _n], SEEK(_r, _l, _n), patterns=[SEEK(_r, _l, _n)]), "definition")


def before(l, x, k):
    """x is among the first k elements"""
    i = z3.Int(fresh_name("i"))
    return z3.Exists([i], And(rng(i, k), l[i] == x, KNOWN(i)), patterns=[KNOWN(i), l[i]])


def sorted_(b, l):
    """the list holds nodes, each once, and each after its parents"""
    yield "nodes", forall("i", lambda i: Implies(rng(i, l.len), b.nodes.has(l[i])), pat=lambda i: [l[i]])
    yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < l.len), l[i] != l[j]), pat=lambda i, j: [(l[i], l[j])])
    yield "parents before their children", forall("i", "a", lambda i, a: Implies(And(rng(i, l.len), E(b, a, l[i])), before(l, a, i)), pat=lambda i, a: [E(b, a, l[i])])


@contract("C11")
class Sort(Contract):
    fn = M + "LogicSampler.__topological_sort__"
    recv = "LogicSampler"
    ret = "list[int]"

    def requires(self, c):
        b = c.o.self_.bbn
        yield from wf(c, b, "Bbn")
        yield "no directed cycle", acyclic(erel(c, b))

    def ensures(self, c):
        b = c.o.self_.bbn
        yield "new", c.res.fresh(c.s0)
        yield from sorted_(b, c.res)
        yield "every node", forall("k", lambda k: Implies(b.nodes.has(k), has_item(c.res, k)), pat=lambda k: [b.nodes.has(k)])

    def _inv(L):
        b, done, rem = L.o.self_.bbn, L.v("nodes", "list[int]"), L.v("remaining", "list[SortableNode]")
        yield from sorted_(b, done)
        yield "new", And(done.fresh(L.s0), rem.fresh(L.s0))
        yield "what remains", forall("j", lambda j: Implies(rng(j, rem.len), And(rem[j].ref > 0, rem[j].ref < L.s.top, b.nodes.has(rem[j].node_id), rem[j].parent_ids.ref > 0)), pat=lambda j: [rem[j].ref])
        yield "with its parents", forall("j", "a", lambda j, a: Implies(rng(j, rem.len), rem[j].parent_ids.has(a) == E(b, a, rem[j].node_id)), pat=lambda j, a: [rem[j].parent_ids.has(a), E(b, a, rem[j].node_id)])
        yield "each once more", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < rem.len), rem[i].node_id != rem[j].node_id), pat=lambda i, j: [(rem[i].ref, rem[j].ref)])
        yield "not yet placed", forall("i", "j", lambda i, j: Implies(And(rng(i, done.len), rng(j, rem.len)), done[i] != rem[j].node_id), pat=lambda i, j: [(done[i], rem[j].ref)])
        j = z3.Int("j!t")
        yield "every node is placed or remains", forall("k", lambda k: Implies(b.nodes.has(k), Or(has_item(done, k), z3.Exists([j], And(
            rng(j, rem.len), rem[j].node_id == k, KNOWN(j)), patterns=[KNOWN(j), rem[j].ref]))), pat=lambda k: [b.nodes.has(k)])
        yield "a source is there", SEEK(erel(L, b), lam(L, L.s, I, lambda j: rem[j].node_id), rem.len)

    def _wrap(L):
        b, l = L.o.self_.bbn, L.v("", "list[SortableNode]")
        yield "new", l.fresh(L.s0)
        yield "one for every node so far", l.len == L.k
        yield "its node and its parents", forall("j", lambda j: Implies(rng(j, L.k), And(l[j].ref >= L.s0.top, l[j].ref < L.s.top, l[j].node_id == L.item(j).id, l[j].parent_ids.ref >= L.s0.top, l[j].parent_ids.ref < L.s.top)), pat=lambda j: [l[j].ref, L.item(j).ref])
        yield "exactly its parents", forall("j", "a", lambda j, a: Implies(rng(j, L.k), l[j].parent_ids.has(a) == E(b, a, l[j].node_id)), pat=lambda j, a: [l[j].parent_ids.has(a), E(b, a, l[j].node_id)])

    loops = [_wrap, _inv]


# -------------------------------------------------------------------- tables
from pyvc.core import JOIN, SHAPE, atom  # noqa: E402
from pyvc.expr import fmt  # noqa: E402
from pyvc.interp import SHAPES  # noqa: E402


def one_row(t):
    return View(t._s, ("list", ("real",)), t.probs.ref)


def rows(t):
    return View(t._s, ("dict", ("atom",), ("list", ("real",))), t.probs.ref)


def cdf(l, n):
    """cumulative probabilities of n states"""
    yield "one for every state", And(l.ref > 0, l.len == n, n >= 1)
    yield "the first is not negative", l[0] >= 0
    yield "the last is one", l[n - 1] == 1
    yield "ascending", forall("j", lambda j: Implies(And(j >= 0, j + 1 < n), l[j] <= l[j + 1]), pat=lambda j: [l[j]])


def row_key(c, t, f, over=()):
    """the key of the row for the parent values f(id)"""
    g, ax = fmt("{}={}", [I, I])
    c.eng.fmtax[g.name()] = ax
    p = t.parent_ids
    return JOIN(atom(","), lam(c, t._s, I, lambda i: g(p[i], f(p[i])), over), p.len)


def table(t):
    n = t.node.variable.values.len
    yield "objects", And(t.ref > 0, t.node.ref > 0, t.node.variable.ref > 0, t.node.variable.values.ref > 0, t.parents.ref > 0, t.parent_ids.ref > 0, t.probs.ref > 0)
    yield "ids of the parents", And(t.parent_ids.len == t.parents.len, forall("i", lambda i: Implies(rng(i, t.parents.len), And(t.parents[i].ref > 0, t.parent_ids[i] == t.parents[i].id)), pat=lambda i: [t.parent_ids[i], t.parents[i].ref]))
    yield "the kind of table", SHAPE(t.probs.ref) == If(t.parents.len == 0, SHAPES["list"], SHAPES["dict"])
    for nm, f in cdf(one_row(t), n):
        yield "a row without parents: " + nm, Implies(t.parents.len == 0, f)
    for q in range(4):
        nm = [a for a, _ in cdf(one_row(t), n)][q]
        yield "rows by the values of the parents: " + nm, Implies(t.parents.len > 0, forall("k", lambda k, q=q: Implies(rows(t).has(k), [f for _, f in cdf(rows(t)[k], n)][q]), pat=lambda k: [rows(t).has(k), rows(t)[k].ref]))


def image(l, vs, u, v):
    """v is the value at which the cumulative probabilities l first exceed u"""
    i = z3.Int(fresh_name("i"))
    return And(KNOWN(v), z3.Exists([i], And(rng(i, vs.len), KNOWN(i), vs[i] == v, l[i] > u, Or(i == 0, l[i - 1] <= u)), patterns=[KNOWN(i), vs[i]]))


@contract("C11")
class GetValue(Contract):
    fn = M + "Table.get_value"
    recv = "Table"
    args = {"prob": "real", "sample": "dict[int,atom]"}
    ret = "atom"

    def requires(self, c):
        t, s = c.o.self_, c.o.sample
        yield from table(t)
        yield "a number in [0, 1)", And(c.o.prob >= 0, c.o.prob < 1)
        yield "the parents have values", forall("i", lambda i: Implies(rng(i, t.parents.len), s.has(t.parent_ids[i])), pat=lambda i: [t.parent_ids[i]])
        yield "there is a row for them", Implies(t.parents.len > 0, And(s.ref > 0, rows(t).has(row_key(c, t, lambda a: s[a]))))

    def ensures(self, c):
        t, s = c.o.self_, c.o.sample
        vs = t.node.variable.values
        yield "the image of the number under the only row", Implies(t.parents.len == 0, image(one_row(t), vs, c.o.prob, c.res))
        yield "the image of the number under the row of the parent values", Implies(t.parents.len > 0, image(rows(t)[row_key(c, t, lambda a: s[a])], vs, c.o.prob, c.res))


# position of a number in a list that holds it
POSN = z3.Function("position", AI, I, I, I)
PLACE = z3.Function("place", AI, I, I, I)
LISTED = z3.Function("listed", I, B)       # whoever mentions it has to find the positions
_i, _x = z3.Ints("i x")
for _f, _nm in ((POSN, ["position", "listed"]), (PLACE, ["place"])):
    axiom(_nm[0] + ": definition", _nm, z3.ForAll([_l, _n, _x, _i], Implies(And(rng(_i, _n), _l[_i] == _x), And(
        rng(_f(_l, _n, _x), _n), _l[_f(_l, _n, _x)] == _x)), patterns=[z3.MultiPattern(_f(_l, _n, _x), _l[_i])]), "definition")
axiom("listed: true of everything", ["listed"], z3.ForAll([_x], LISTED(_x), patterns=[LISTED(_x)]), "definition")


# cutting l = q * s elements into pieces of s gives q pieces
PIECES = z3.Function("pieces", I, I, I, B)
_q, _s = z3.Ints("q s")
axiom("pieces: cutting q * s elements into pieces of s gives q pieces", ["pieces"], z3.ForAll([_q, _s, _x], Implies(And(_s >= 1, _q >= 1, _x == _q * _s), And(
    (_x - 0 + _s - 1) / _s == _q, _x >= 1)), patterns=[PIECES(_q, _s, _x)]), "Lean: pieces")
PIECE = z3.Function("piece", I, I, I, I, B)
axiom("piece: each of them lies among the elements", ["piece"], z3.ForAll([_q, _s, _x, _n], Implies(And(_s >= 1, _x == _q * _s, rng(_n, _q)), And(
    _n * _s >= 0, _n * _s + _s <= _x)), patterns=[PIECE(_q, _s, _x, _n)]), "Lean: piece")
axiom("piece: true of everything", ["piece"], z3.ForAll([_q, _s, _x, _n], PIECE(_q, _s, _x, _n), patterns=[PIECE(_q, _s, _x, _n)]), "definition")
axiom("pieces: true of everything", ["pieces"], z3.ForAll([_q, _s, _x], PIECES(_q, _s, _x), patterns=[PIECES(_q, _s, _x)]), "definition")


DD = z3.Function("ddig", AI, I, I, I, I)       # a position at which two combinations differ
JX, JY = z3.Const("x", AI), z3.Const("y", AI)
PART = z3.Function("part_to_compare", I, B)
axiom("part_to_compare: true of everything", ["part_to_compare"], z3.ForAll([_i], PART(_i), patterns=[PART(_i)]), "definition")
axiom("join: parts are free of the separator", ["join"], z3.ForAll([_s, JX, JY, _n, _i], Implies(And(JOIN(_s, JX, _n) == JOIN(_s, JY, _n), rng(_i, _n)), JX[_i] == JY[_i]),
      patterns=[z3.MultiPattern(JOIN(_s, JX, _n), JOIN(_s, JY, _n), JX[_i], JY[_i]), z3.MultiPattern(JOIN(_s, JX, _n), JOIN(_s, JY, _n), PART(_i))]), "assumed")
OFF = z3.Function("row_start", I, I, I)
axiom("row_start: definition", ["row_start"], z3.ForAll([_n, _s], OFF(_n, _s) == _n * _s, patterns=[OFF(_n, _s)]), "definition")


class Rows:
    """the table of a node: one row of probabilities for every assignment to the parents, in the order of the parents' ids given"""

    def __init__(self, c):
        s = c.s0
        v = lambda x: View(s, x._ty, x._t)
        self.c, self.s, self.node, self.parents, self.ids = c, s, v(c.o.node), v(c.o.parents), v(c.o.cpt_parent_ids)
        self.vs = self.node.variable.values
        self.w, self.m, self.probs = self.vs.len, self.parents.len, self.node.probs
        self.byid = lam(c, s, I, lambda i: self.parents[i].id)
        self.dims = lam(c, s, I, lambda j: self.values(j).len)
        self.n = PRODI(self.dims, self.m)
        k = z3.Int("k!r")
        self.k, self.rowk = k, self.row(k, [k])

    def par(self, j):
        return self.parents[POSN(self.byid, self.m, self.ids[j])]

    def values(self, j):
        return self.par(j).variable.values

    def row(self, r, over):
        return lam(self.c, self.s, R, lambda j: self.probs[OFF(r, self.w) + j], over)

    def keys(self, t):
        """the key of row k, as a function of k"""
        g, ax = fmt("{}={}", [I, I])
        self.c.eng.fmtax[g.name()] = ax
        k = z3.Int("k!r")

        def part(i):
            x = t.parent_ids[i]
            j = POSN(self.ids.arr, self.m, x)
            return g(x, self.values(j)[DIG(self.dims, self.m, k, j)])

        parts = lam(self.c, t._s, I, part, [k])
        return lambda r: JOIN(atom(","), z3.substitute(parts, (k, r)), self.m)

    def stands(self, r, s):
        """assignment s (an array from ids to values) is the one of row r"""
        return forall("j", lambda j: Implies(rng(j, self.m), s[self.ids[j]] == self.values(j)[DIG(self.dims, self.m, r, j)]), pat=lambda j: [s[self.ids[j]], self.ids[j]])


def Rows_(c):
    """one description per state"""
    m = c.eng.__dict__.setdefault("rows_of_tables", {})
    k = (id(c.s0), c.o.node.ref.get_id(), c.o.parents.ref.get_id(), c.o.cpt_parent_ids.ref.get_id())
    if k not in m:
        m[k] = (c.s0, Rows(c))
    return m[k][1]


@contract("C11")
class NewTable(Contract):
    fn = M + "Table.__init__"
    skips = ("SumR_big", "SumR_not1", "SumR_nz")
    recv = "Table!"
    args = {"node": "BbnNode", "parents": "list[BbnNode]", "cpt_parent_ids": "opt[list[int]]"}

    def requires(self, c):
        n, ps = c.o.node, c.o.parents
        yield "objects", And(n.variable.ref > 0, n.variable.values.ref > 0, n.probs.ref > 0, ps.ref > 0)
        t = Rows_(c)
        yield "parents", forall("i", lambda i: Implies(rng(i, t.m), And(ps[i].ref > 0, ps[i].variable.ref > 0, ps[i].variable.values.ref > 0, ps[i].variable.values.len >= 1)), pat=lambda i: [ps[i].ref])
        yield "each once", forall("i", lambda i: Implies(rng(i, t.m), POSN(t.byid, t.m, ps[i].id) == i), pat=lambda i: [ps[i].ref])
        yield "ids of the parents in the order of the rows", Implies(t.m > 0, And(t.ids.ref > 0, t.ids.len == t.m, forall("j", lambda j: Implies(rng(j, t.m), And(
            rng(POSN(t.byid, t.m, t.ids[j]), t.m), t.par(j).id == t.ids[j])), pat=lambda j: [t.ids[j]])))
        yield "ids are listed once", forall("j", lambda j: Implies(rng(j, t.m), POSN(t.ids.arr, t.m, t.ids[j]) == j), pat=lambda j: [t.ids[j]])
        yield "all of them", forall("i", lambda i: Implies(rng(i, t.m), And(rng(POSN(t.ids.arr, t.m, ps[i].id), t.m), t.ids[POSN(t.ids.arr, t.m, ps[i].id)] == ps[i].id)), pat=lambda i: [ps[i].ref])
        yield "different states", forall("i", "x", "y", lambda i, x, y: Implies(And(rng(i, t.m), x >= 0, x < y, y < ps[i].variable.values.len), ps[i].variable.values[x] != ps[i].variable.values[y]), pat=lambda i, x, y: [(ps[i].variable.values[x], ps[i].variable.values[y])])
        yield "a state", t.w >= 1
        yield "one row for every assignment", And(t.probs.len == If(t.m > 0, t.n, 1) * t.w, t.n >= 1)
        yield "the only row", Implies(t.m == 0, SUM(t.probs.arr, t.w) == 1)
        yield "no negative probability", forall("i", lambda i: Implies(rng(i, t.probs.len), t.probs[i] >= 0), pat=lambda i: [t.probs[i]])
        yield "the rows sum to one", z3.ForAll([t.k], Implies(rng(t.k, If(t.m > 0, t.n, 1)), SUM(t.rowk, t.w) == 1), patterns=[t.rowk])

    def modifies(self, c):
        return [m for f in ("node", "parents", "parent_ids", "probs") for m in fld("Table", f, is_(c.o.self_))]

    def ensures(self, c):
        t, b = Rows_(c), c.n.self_
        yield from table(b)
        yield "its node", b.node == t.node
        yield "its parents", And(b.parents.len == t.m, forall("i", lambda i: Implies(rng(i, t.m), has_item(b.parent_ids, t.parents[i].id)), pat=lambda i: [t.parents[i].ref]))
        yield "the only row", Implies(t.m == 0, forall("j", lambda j: Implies(rng(j, t.w), one_row(b)[j] == SUM(t.probs.arr, j + 1)), pat=lambda j: [one_row(b)[j]]))

        key = t.keys(b)
        for nm, f in (("there", lambda r: rows(b).has(key(r))), ("of one number for every state", lambda r: rows(b)[key(r)].len == t.w)):
            yield "the row of every assignment is " + nm, Implies(t.m > 0, forall("r", lambda r: Implies(rng(r, t.n), And(KNOWN(r), f(r))), pat=lambda r: [key(r)]))
        yield "the row of every assignment has the sums of its probabilities", Implies(t.m > 0, forall("r", "j", lambda r, j: Implies(And(rng(r, t.n), rng(j, t.w)), And(KNOWN(r), rows(b)[key(r)][j] == SUM(z3.substitute(t.rowk, (t.k, r)), j + 1))), pat=lambda r, j: [rows(b)[key(r)][j]]))

    def _cart(L):
        t, l = Rows_(L), L.acc()
        yield "new", l.fresh(L.s0)
        yield "one for every row so far", l.len == L.k
        yield "new assignments", forall("k", lambda k: Implies(rng(k, L.k), And(l[k].ref >= L.s0.top, l[k].ref < L.s.top)), pat=lambda k: [l[k].ref])
        yield "the values of the row", forall("k", "j", lambda k, j: Implies(And(rng(k, L.k), rng(j, t.m)), And(
            l[k].has(t.ids[j]), l[k][t.ids[j]] == t.values(j)[DIG(t.dims, t.m, k, j)])), pat=lambda k, j: [(l[k].ref, t.ids[j])])

    def _sums(L):
        t, l = Rows_(L), L.acc()
        yield "new", l.fresh(L.s0)
        yield "one for every row so far", l.len == L.k
        N = If(t.m > 0, t.n, 1)
        yield "!as many rows", And(PIECES(N, t.w, t.probs.len), L.n == N)
        yield "!they lie in the table", And(PIECE(N, t.w, t.probs.len, L.k), L.k <= N, Implies(L.k < N, And(OFF(L.k, t.w) >= 0, OFF(L.k, t.w) + t.w <= t.probs.len)))
        keys, ids = L.v("keys", "list[atom]"), L.a.self_.parent_ids
        yield "different keys", forall("k", "n", lambda k, n: Implies(And(k >= 0, k < n, n < t.n), And(PART(PLACE(ids.arr, t.m, t.ids[DD(t.dims, t.m, k, n)])), keys[k] != keys[n])), pat=lambda k, n: [(keys[k], keys[n])])
        yield "new rows", forall("k", lambda k: Implies(rng(k, L.k), And(l[k].ref >= L.s0.top, l[k].ref < L.s.top, l[k].len == t.w)), pat=lambda k: [l[k].ref])
        yield "ascending", forall("k", "j", lambda k, j: Implies(And(rng(k, L.k), j >= 0, j + 1 < t.w), l[k][j] <= l[k][j + 1]), pat=lambda k, j: [l[k][j]])
        k, r = t.k, t.rowk
        j = z3.Int("j!r")
        last = z3.substitute(r, (k, L.k - 1))
        yield "!the last row", Implies(L.k >= 1, And(OFF(L.k - 1, t.w) == (L.k - 1) * t.w, forall("j", lambda j: Implies(rng(j, t.w), l[L.k - 1][j] == SUM(last, j + 1)), pat=lambda j: [l[L.k - 1][j]])))
        yield "the first is not negative", forall("k", lambda k: Implies(rng(k, L.k), l[k][0] >= 0), pat=lambda k: [l[k].ref])
        yield "the sums of the first probabilities of the row", z3.ForAll([k, j], Implies(And(rng(k, L.k), rng(j, t.w)), l[k][j] == SUM(r, j + 1)), patterns=[l[k][j]])

    def _inv(L):
        a = L.acc()._ty[1]
        f = NewTable._cart if a[0] == "dict" else NewTable._sums
        return f(L)

    loops = [_inv] * 8
