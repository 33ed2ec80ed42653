"""C12: inference in multivariate Gaussians (pybbn/gaussian/inference.py).

A matrix is a value of matrix algebra (`val`); selecting rows and columns, transposing, multiplying, inverting and
subtracting are functions of such values, and entry(val, i, j) gives its entries.  What numpy does is assumed."""
from contracts.common import *
from pyvc.expr import MAT

G_ = "pybbn.gaussian.inference:GaussianInference."
ROWS = z3.Function("sel_rows", I, AI, I, I)      # value, positions, how many
COLS = z3.Function("sel_cols", I, AI, I, I)
TR, INV = z3.Function("transpose", I, I), z3.Function("inverse", I, I)
DOT = z3.Function("mat_dot", I, I, I, I)         # left, inner dimension, right
MV = z3.Function("mat_vec", I, I, AR, AR)        # matrix, inner dimension, vector
MSUB, MADD = z3.Function("mat_sub", I, I, I), z3.Function("mat_add", I, I, I)
POSDEF = z3.Function("pos_def", I, I, B)
INVERTIBLE = z3.Function("invertible", I, I, B)
_x, _y = z3.Const("x", AR), z3.Const("y", AR)
_u, _v, _w, _n, _m, _i, _j = z3.Ints("u v w n m i j")
_a, _b = z3.Const("a", AI), z3.Const("b", AI)
SYM = ["sel_rows", "sel_cols", "transpose", "mat_sub", "mat_dot"]

axiom("matrix: entries of selections, transposes and differences", SYM, And(
    z3.ForAll([_v, _a, _n, _i, _j], MAT(ROWS(_v, _a, _n), _i, _j) == MAT(_v, _a[_i], _j), patterns=[MAT(ROWS(_v, _a, _n), _i, _j)]),
    z3.ForAll([_v, _a, _n, _i, _j], MAT(COLS(_v, _a, _n), _i, _j) == MAT(_v, _i, _a[_j]), patterns=[MAT(COLS(_v, _a, _n), _i, _j)]),
    z3.ForAll([_v, _i, _j], MAT(TR(_v), _i, _j) == MAT(_v, _j, _i), patterns=[MAT(TR(_v), _i, _j)]),
    z3.ForAll([_v, _w, _i, _j], MAT(MADD(_v, _w), _i, _j) == MAT(_v, _i, _j) + MAT(_w, _i, _j), patterns=[MAT(MADD(_v, _w), _i, _j)]),
    z3.ForAll([_v, _w, _i, _j], MAT(MSUB(_v, _w), _i, _j) == MAT(_v, _i, _j) - MAT(_w, _i, _j), patterns=[MAT(MSUB(_v, _w), _i, _j)])), "definition")
DA = z3.Function("sel_diff", AI, AI, I, I)
_d = DA(_a, _b, _n)
for _f, _g in ((ROWS, "sel_rows"), (COLS, "sel_cols")):
    axiom("matrix: a selection depends on the positions only (%s)" % _g, [_g], z3.ForAll([_v, _a, _b, _n], Or(
        _f(_v, _a, _n) == _f(_v, _b, _n), And(_d >= 0, _d < _n, _a[_d] != _b[_d])), patterns=[z3.MultiPattern(_f(_v, _a, _n), _f(_v, _b, _n))]), "Lean: sel_ext")
DV = z3.Function("vec_diff", AR, AR, I, I)
_e = DV(_x, _y, _n)
axiom("matrix: a product with a vector depends on its entries only", ["mat_vec"], z3.ForAll([_v, _x, _y, _n], Or(
    MV(_v, _n, _x) == MV(_v, _n, _y), And(_e >= 0, _e < _n, _x[_e] != _y[_e])), patterns=[z3.MultiPattern(MV(_v, _n, _x), MV(_v, _n, _y))]), "Lean: sel_ext")
axiom("matrix: products with a vector associate", ["mat_vec"], z3.ForAll([_u, _n, _v, _m, _x], MV(DOT(_u, _n, _v), _m, _x) == MV(_u, _n, MV(_v, _m, _x)),
    patterns=[MV(DOT(_u, _n, _v), _m, _x)]), "Lean: mat_vec_assoc")
axiom("matrix: algebra", SYM, And(
    z3.ForAll([_v, _a, _n, _b, _m], ROWS(COLS(_v, _b, _m), _a, _n) == COLS(ROWS(_v, _a, _n), _b, _m), patterns=[ROWS(COLS(_v, _b, _m), _a, _n)]),
    z3.ForAll([_v, _a, _n], TR(ROWS(_v, _a, _n)) == COLS(TR(_v), _a, _n), patterns=[TR(ROWS(_v, _a, _n))]),
    z3.ForAll([_v, _a, _n], TR(COLS(_v, _a, _n)) == ROWS(TR(_v), _a, _n), patterns=[TR(COLS(_v, _a, _n))]),
    z3.ForAll([_u, _n, _v, _m, _w], DOT(DOT(_u, _n, _v), _m, _w) == DOT(_u, _n, DOT(_v, _m, _w)), patterns=[DOT(DOT(_u, _n, _v), _m, _w)])), "Lean: mat_assoc, mat_rows_cols, mat_tr_rows")
PB, PA, PC = z3.Function("pick_bad", AI, I, I, I), z3.Function("pick_1", AI, I, I), z3.Function("pick_2", AI, I, I)
_p, _q, _r = PB(_a, _m, _n), PA(_a, _m), PC(_a, _m)
axiom("matrix: a principal submatrix of a positive definite matrix is invertible", ["pos_def"], z3.ForAll([_v, _n, _a, _m], Or(
    INVERTIBLE(COLS(ROWS(_v, _a, _m), _a, _m), _m), Not(POSDEF(_v, _n)), And(_p >= 0, _p < _m, Or(_a[_p] < 0, _a[_p] >= _n)),
    And(_q >= 0, _q < _r, _r < _m, _a[_q] == _a[_r])),
    patterns=[z3.MultiPattern(POSDEF(_v, _n), COLS(ROWS(_v, _a, _m), _a, _m))]), "Lean: principal_invertible")


# ---------------------------------------------------------------- numpy
def mat(op, args, ret, why):
    def deco(cls):
        cls.fn = "ext:Mat." + op
        cls.args = dict({"m": "Mat"}, **args)
        cls.ret = ret
        cls.trusted = "numpy: " + why
        return contract("C12")(cls)
    return deco


def is_mat(r, c, rows, cols, val):
    yield "new", r.fresh(c.s0)
    yield "shape", And(r.rows == rows, r.cols == cols)
    yield "value", r.val == val


def in_range(l, n):
    return forall("k", lambda k: Implies(rng(k, l.len), rng(l[k], n)), pat=lambda k: [l[k]])


@mat("rows:list", {"a": "list[int]"}, "Mat!", "m[a] selects rows")
class SelRows(Contract):
    def requires(self, c):
        yield "positions", in_range(c.o.a, c.o.m.rows)

    def ensures(self, c):
        m, a = c.o.m, c.o.a
        yield from is_mat(c.res, c, a.len, m.cols, ROWS(m.val, a.arr, a.len))


@mat("columns:list", {"a": "list[int]"}, "Mat!", "m[:, a] selects columns")
class SelCols(Contract):
    def requires(self, c):
        yield "positions", in_range(c.o.a, c.o.m.cols)

    def ensures(self, c):
        m, a = c.o.m, c.o.a
        yield from is_mat(c.res, c, m.rows, a.len, COLS(m.val, a.arr, a.len))


@mat("T", {}, "Mat!", "m.T")
class Transpose(Contract):
    def ensures(self, c):
        m = c.o.m
        yield from is_mat(c.res, c, m.cols, m.rows, TR(m.val))


def pair(op, sym, why):
    @mat(op + ":matrix", {"w": "Mat"}, "Mat!", why)
    class Op(Contract):
        def requires(self, c):
            yield "one shape", And(c.o.m.rows == c.o.w.rows, c.o.m.cols == c.o.w.cols)

        def ensures(self, c):
            m, w = c.o.m, c.o.w
            yield from is_mat(c.res, c, m.rows, m.cols, sym(m.val, w.val))


pair("sub", MSUB, "subtraction")
pair("add", MADD, "addition")


@mat("dot:matrix", {"w": "Mat"}, "Mat!", "product of matrices")
class Dot(Contract):
    def requires(self, c):
        yield "as many columns as rows", c.o.m.cols == c.o.w.rows

    def ensures(self, c):
        m, w = c.o.m, c.o.w
        yield from is_mat(c.res, c, m.rows, w.cols, DOT(m.val, m.cols, w.val))


@mat("dot:list", {"w": "list[real]"}, "list[real]", "product of a matrix and a vector")
class DotVec(Contract):
    def requires(self, c):
        yield "as many columns as elements", c.o.m.cols == c.o.w.len

    def ensures(self, c):
        m, w = c.o.m, c.o.w
        yield "new", c.res.fresh(c.s0)
        yield "size", c.res.len == m.rows
        yield "entries", c.res.arr == MV(m.val, m.cols, w.arr)


@contract("C12")
class Inverse(Contract):
    fn = "ext:numpy.linalg.inv"
    args = {"m": "Mat"}
    ret = "Mat!"
    trusted = "numpy: inverse of an invertible matrix"

    def requires(self, c):
        yield "square and invertible", And(c.o.m.rows == c.o.m.cols, INVERTIBLE(c.o.m.val, c.o.m.rows))

    def ensures(self, c):
        m = c.o.m
        yield from is_mat(c.res, c, m.rows, m.rows, INV(m.val))


# ------------------------------------------------------------- inference
def names_ok(H, ix):
    yield "the index gives the position of every name", forall("i", lambda i: Implies(rng(i, H.len), And(ix.has(H[i]), ix[H[i]] == i)), pat=lambda i: [H[i]])
    yield "the index has no other names", forall("k", lambda k: Implies(ix.has(k), And(rng(ix[k], H.len), H[ix[k]] == k)), pat=lambda k: [ix.has(k)])


def gaussian(g):
    yield "objects", And(g.H.ref > 0, g.M.ref > 0, g.E.ref > 0, g.I.ref > 0, g.meta.ref > 0)
    yield "sizes", And(g.M.len == g.H.len, g.E.rows == g.H.len, g.E.cols == g.H.len)
    yield from names_ok(g.H, g.I)


@contract("C12")
class Init(Contract):
    fn = G_ + "__init__"
    recv = "GaussianInference!"
    args = {"H": "list[atom]", "M": "list[real]", "E": "Mat", "meta": "dict[atom,real]"}

    def requires(self, c):
        H = c.o.H
        yield "names differ", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < H.len), H[i] != H[j]), pat=lambda i, j: [(H[i], H[j])])

    def modifies(self, c):
        g = is_(c.o.self_)
        return [x for f in ("H", "M", "E", "I", "meta") for x in fld("GaussianInference", f, g)]

    def ensures(self, c):
        g = c.n.self_
        yield "what was given", And(g.H.ref == c.o.H.ref, g.M.ref == c.o.M.ref, g.E.ref == c.o.E.ref, g.meta.ref == c.o.meta.ref)
        yield "a new index", g.I.fresh(c.s0)
        yield from names_ok(g.H, g.I)


def observed(c, g, obs):
    n = obs.len
    yield "names of variables", forall("k", lambda k: Implies(rng(k, n), g.I.has(obs[k][0])), pat=lambda k: [obs[k][0]])
    yield "each once", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < n), obs[i][0] != obs[j][0]), pat=lambda i, j: [(obs[i][0], obs[j][0])])


@contract("C12")
class Infer(Contract):
    fn = G_ + "do_inferences"
    recv = "GaussianInference"
    args = {"observations": "list[tuple[atom,real]]"}
    ret = "GaussianInference!"
    nth = True

    def requires(self, c):
        g = c.o.self_
        yield from gaussian(g)
        yield "covariance: symmetric", TR(g.E.val) == g.E.val
        yield "covariance: positive definite", POSDEF(g.E.val, g.H.len)
        yield from observed(c, g, c.o.observations)

    def spec(self, c):
        g, obs, r = c.o.self_, c.o.observations, c.res
        Z = lam(c, c.s0, I, lambda k: g.I[obs[k][0]])
        Y = lam(c, c.s0, I, lambda j: g.I[r.H[j]])
        S, m, n = g.E.val, r.H.len, obs.len
        yz = COLS(ROWS(S, Y, m), Z, n)
        return S, Y, Z, m, n, yz, INV(COLS(ROWS(S, Z, n), Z, n)), lam(c, c.s0, R, lambda k: obs[k][1] - g.M[g.I[obs[k][0]]])

    def steps(self, c):
        g, obs, r = c.o.self_, c.o.observations, c.res
        S, Y, Z, m, n, yz, inv, dz = self.spec(c)
        yield "as many means", r.M.len == m
        yield "selected means", forall("j", lambda j: Implies(rng(j, m), c.v("m_Y")[j] == g.M[Y[j]]), pat=lambda j: [c.v("m_Y")[j]])
        yield "as many rows", And(c.v("S_YZ").rows == m, c.v("S_YZ").cols == n)
        yield "selected rows", c.v("S_YZ").val == yz
        yield "inverse", c.v("S_ZZ").val == inv

    def ensures(self, c):
        g, obs, r = c.o.self_, c.o.observations, c.res
        n = obs.len
        yield "a new object", r.fresh(c.s0)
        yield from gaussian(r)
        yield "variables that were not observed", forall("j", lambda j: Implies(rng(j, r.H.len), And(
            g.I.has(r.H[j]), forall("k", lambda k: Implies(rng(k, n), obs[k][0] != r.H[j]), pat=lambda k: [obs[k][0]]))), pat=lambda j: [r.H[j]])
        yield "in the order they had", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.H.len), g.I[r.H[i]] < g.I[r.H[j]]), pat=lambda i, j: [(r.H[i], r.H[j])])
        i = z3.Int(fresh_name("i"))
        yield "every variable is observed or left", forall("x", lambda x: Implies(rng(x, g.H.len), Or(r.I.has(g.H[x]), z3.Exists([i], And(
            rng(i, n), obs[i][0] == g.H[x], KNOWN(i)), patterns=[KNOWN(i), obs[i][0]]))), pat=lambda x: [g.H[x]])
        S, Y, Z, m, n, yz, inv, dz = self.spec(c)
        w = DOT(yz, n, inv)
        yield "the covariance is the Schur complement of the observed block", r.E.val == MSUB(COLS(ROWS(S, Y, m), Y, m), DOT(w, n, TR(yz)))
        yield "the means", forall("j", lambda j: Implies(rng(j, m), r.M[j] == g.M[Y[j]] - MV(w, n, dz)[j]), pat=lambda j: [r.M[j]])
        yield "values entered: no others", forall("k", lambda k: Implies(And(r.meta.has(k), Not(g.meta.has(k))), z3.Exists([i], And(rng(i, n), obs[i][0] == k, KNOWN(i)), patterns=[KNOWN(i), obs[i][0]])), pat=lambda k: [r.meta.has(k)])
        yield "values entered: those of the observations", forall("k", lambda k: Implies(rng(k, n), And(r.meta.has(obs[k][0]), r.meta[obs[k][0]] == obs[k][1])), pat=lambda k: [obs[k][0]])
        yield "values entered: the earlier ones stay", forall("k", lambda k: Implies(g.meta.has(k), And(r.meta.has(k), Or(r.meta[k] == g.meta[k], g.I.has(k)))), pat=lambda k: [g.meta.has(k)])


@contract("C12")
class InferOne(Contract):
    fn = G_ + "do_inference"
    recv = "GaussianInference"
    args = {"name": "atom", "observation": "real"}
    ret = "GaussianInference!"

    def requires(self, c):
        g = c.o.self_
        yield from gaussian(g)
        yield "covariance: symmetric", TR(g.E.val) == g.E.val
        yield "covariance: positive definite", POSDEF(g.E.val, g.H.len)
        yield "the name of a variable", g.I.has(c.o.name)

    def ensures(self, c):
        g, r, x = c.o.self_, c.res, c.o.name
        yield "a new object", r.fresh(c.s0)
        yield from gaussian(r)
        yield "one variable less", forall("j", lambda j: Implies(rng(j, r.H.len), And(g.I.has(r.H[j]), r.H[j] != x)), pat=lambda j: [r.H[j]])
        yield "the others stay", forall("i", lambda i: Implies(And(rng(i, g.H.len), g.H[i] != x), r.I.has(g.H[i])), pat=lambda i: [g.H[i]])
        yield "in the order they had", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.H.len), g.I[r.H[i]] < g.I[r.H[j]]), pat=lambda i, j: [(r.H[i], r.H[j])])
        yield "the value is entered", And(r.meta.has(x), r.meta[x] == c.o.observation)


@contract("C12")
class Params(Contract):
    fn = G_ + "P"
    recv = "GaussianInference"
    ret = "dict[atom,tuple[real,real]]"

    def requires(self, c):
        yield from gaussian(c.o.self_)

    def ensures(self, c):
        yield "a new map", c.res.fresh(c.s0)
        yield from params(c.o.self_, c.res)

    def _inv(L):
        g, r = L.o.self_, L.v("params", "dict[atom,tuple[real,real]]")
        yield "new", r.fresh(L.s0)
        yield from params(g, r, L.k)

    loops = [_inv]


def params(g, r, n=None):
    n = g.H.len if n is None else n
    left = lambda k: And(g.I.has(k), g.I[k] < n)
    yield "every variable", forall("i", lambda i: Implies(rng(i, n), And(r.has(g.H[i]), r[g.H[i]][0] == -g.M[i], r[g.H[i]][1] == MAT(g.E.val, i, i))), pat=lambda i: [g.H[i]])
    yield "every value entered", forall("k", lambda k: Implies(And(g.meta.has(k), Not(left(k))), And(r.has(k), r[k][0] == g.meta[k], r[k][1] == 0)), pat=lambda k: [g.meta.has(k)])
    yield "nothing else", forall("k", lambda k: Implies(r.has(k), Or(left(k), g.meta.has(k))), pat=lambda k: [r.has(k)])


@contract("C12")
class Marginals(Contract):
    fn = G_ + "marginals"
    recv = "GaussianInference"
    ret = "list[Marginal]"
    records = {("mean", "name", "var"): "Marginal"}

    def requires(self, c):
        yield from gaussian(c.o.self_)

    def ensures(self, c):
        g, r = c.o.self_, c.res
        yield "a new list", r.fresh(c.s0)
        yield "rows", forall("j", lambda j: Implies(rng(j, r.len), Or(
            And(g.I.has(r[j].name), r[j].mean == -g.M[g.I[r[j].name]], r[j].var == MAT(g.E.val, g.I[r[j].name], g.I[r[j].name])),
            And(Not(g.I.has(r[j].name)), g.meta.has(r[j].name), r[j].mean == g.meta[r[j].name], r[j].var == 0))), pat=lambda j: [r[j].ref])
        yield "no name twice", forall("i", "j", lambda i, j: Implies(And(i >= 0, i < j, j < r.len), r[i].name != r[j].name), pat=lambda i, j: [(r[i].ref, r[j].ref)])
        i = z3.Int(fresh_name("i"))
        yield "every variable and every value entered", forall("k", lambda k: Implies(Or(g.I.has(k), g.meta.has(k)), z3.Exists([i], And(
            rng(i, r.len), r[i].name == k, KNOWN(i)), patterns=[KNOWN(i), r[i].ref])), pat=lambda k: [g.I.has(k), g.meta.has(k)])

    def _inv(L):
        r = L.acc()
        yield "new", r.fresh(L.s0)
        yield "as many", r.len == L.k
        yield "rows", forall("j", lambda j: Implies(rng(j, L.k), And(r[j].ref > 0, r[j].fresh(L.s0), r[j].name == L.item(j)[0], r[j].mean == L.item(j)[1][0], r[j].var == L.item(j)[1][1])), pat=lambda j: [r[j].ref])
        g = L.o.self_
        yield "every key so far", forall("k", lambda k: Implies(And(Or(g.I.has(k), g.meta.has(k)), L.q.pos(k) < L.k), And(L.q.pos(k) >= 0, r[L.q.pos(k)].name == k)), pat=lambda k: [g.I.has(k), g.meta.has(k)])
        yield "a place for every key", forall("k", lambda k: Implies(Or(g.I.has(k), g.meta.has(k)), rng(L.q.pos(k), L.n)), pat=lambda k: [g.I.has(k), g.meta.has(k)])

    loops = [_inv]
