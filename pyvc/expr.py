"""Expressions, calls and the built-in operations of the verified subset."""
import ast
import re

import z3

from . import types as T
from .core import (NULLI, null, AB, FA, AI, AR, B, CARD, CNT, I, JOIN, KNOWN, PH, PHD, PHK, PROD, PRODI, R, STR, SUM, SUMI, TYP, And, Cls, EmptyLit, Fn,
                   If, Implies, Mod, Not, Or, Seq, State, Tup, Unsupported, V, View, atom, build, coerce, fresh_name, is_class,
                   leaves_of, owner, simp, sort, subst, tag, view)
from .interp import (ATOM, BOOL, FALSE, INT, NONE, REAL, TRUE, Ctx, Engine, Retry, _Appender, _NotAuto, bv, conj, dedupe, disj, fa_idx,
                     has_quant, has_unknown, isnum, iv, join_ty, join_val, neg, nonneg, occurs, widen)
from .source import decorators

DIG = z3.Function("digit", AI, I, I, I, I)        # lens, m, k, j
RANK = z3.Function("rank", AI, I, AI, I)
MAT = z3.Function("entry", I, I, I, R)            # matrix value, row, column
QUO, RMD = z3.Function("quotient", I, I, I), z3.Function("remainder", I, I, I)   # row and column of a position

BUILTINS = {"len", "sum", "range", "sorted", "list", "set", "dict", "enumerate", "zip", "isinstance", "map", "str", "int", "float",
            "min", "max", "any", "all", "tuple", "reversed", "abs", "defaultdict", "filter", "next", "type", "print", "bool", "iter", "frozenset"}

FMT = {}
HOLE = re.compile(r"(?<!\{)\{[^{}]*\}")


def fmt(template, sorts):
    """Injective rendering of a format string (trusted: parts are delimiter-free)."""
    k = (template, tuple(str(s) for s in sorts))
    if k not in FMT:
        n = "fmt%d" % len(FMT)
        f = z3.Function(n, *sorts, I)
        inv = [z3.Function("%s_inv%d" % (n, i), I, s) for i, s in enumerate(sorts)]
        xs = [z3.Const("x%d" % i, s) for i, s in enumerate(sorts)]
        ax = FA(xs, z3.And([g(f(*xs)) == x for g, x in zip(inv, xs)]), patterns=[f(*xs)])
        FMT[k] = (f, ax)
    return FMT[k]


class Exec(Engine):
    # ---------------------------------------------------------- expressions
    def evs(self, exprs, st):
        cur = [(st, [])]
        for e in exprs:
            cur = [(y, vs + [v]) for x, vs in cur for y, v in self.ev(e, x)]
        return cur

    def cond(self, e, st):
        """[(state, z3 Bool)] of a condition."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, neg(c)) for x, c in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            return self.boolop(e, st)
        return [(x, self.truth(x, v)) for x, v in self.ev(e, st)]

    def boolop(self, e, st):
        isand = isinstance(e.op, ast.And)
        outs = []
        for x, c in self.cond(e.values[0], st):
            outs.append((x, c))
        for nx in e.values[1:]:
            new = []
            for x, c in outs:
                c0 = z3.simplify(c) if not has_quant(c) else c
                if (z3.is_false(c0) and isand) or (z3.is_true(c0) and not isand):
                    new.append((x, c))
                    continue
                mark = len(x.pc)
                y = x.fork()
                y.branch(c if isand else neg(c))
                rs = self.cond(nx, y)
                if len(rs) == 1 and self.same_heap(x, rs[0][0]):
                    z, d = rs[0]
                    bs = []
                    for kd, f in z.pc[mark:]:
                        if kd == "b":
                            bs.append(f)
                        else:
                            x.fact(Implies(conj(bs), f))
                    x.wf.update(z.wf)
                    for k, m in z.h.items():
                        x.h.setdefault(k, m)
                    new.append((x, conj([c, d]) if isand else disj([c, d])))
                else:
                    # evaluation of the right operand has effects: fork
                    x2 = x.fork()
                    x2.branch(neg(c) if isand else c)
                    new.append((x2, FALSE if isand else TRUE))
                    new += rs
            outs = new
        return outs

    def truth(self, st, v):
        if isinstance(v, (Fn, Cls, Mod)):
            return TRUE
        if isinstance(v, EmptyLit):
            return FALSE
        if isinstance(v, Seq):
            if v.empty:
                return FALSE
            return z3.Exists(list(v.idx), v.range()) if not v.plain else v.bounds[0] > 0
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        k = v.ty[0]
        if k == "bool":
            return v.t
        if k in ("int", "real"):
            return v.t != 0
        if k == "none":
            return FALSE
        if k == "opt":
            if v.ty[1][0] in ("list", "set", "dict", "atom", "int", "enum"):
                raise Unsupported("truth of an optional container")
            return v.t != 0
        if k == "ref":
            return TRUE
        if k == "list":
            if has_unknown(v.ty):
                return FALSE
            return st.len(v.ty, v.t) > 0
        if k == "set":
            return CARD(st.mem(v.ty, v.t)) > 0
        if k in ("dict", "ddict"):
            return CARD(st.dom(v.ty, v.t)) > 0
        raise Unsupported("truth of %s" % (v.ty,))

    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(type(e).__name__)
        return m(e, st)

    def ev_Constant(self, e, st):
        c = e.value
        if c is None:
            return [(st, NONE)]
        if isinstance(c, bool):
            return [(st, bv(z3.BoolVal(c)))]
        if isinstance(c, int):
            return [(st, iv(c))]
        if isinstance(c, float):
            return [(st, V(REAL, z3.RealVal(repr(c))))]
        if isinstance(c, str):
            return [(st, V(ATOM, atom(c), c))]
        raise Unsupported("constant %r" % (c,))

    def ev_Name(self, e, st):
        return [(st, self.lookup(st, e.id))]

    def lookup(self, st, n):
        fr = st.frames[-1]
        if n in fr:
            return fr[n]
        f = fr
        while "#up" in f:
            f = st.frames[f["#up"]]
            if n in f:
                v = f[n]
                if isinstance(v, (EmptyLit,)):
                    v = f[n] = self.materialize(st, v)
                return v
        mod = fr.get("#mod")
        r = self.src.resolve(mod, n)
        if r is not None:
            if r[0] == "class":
                return Cls((r[1], r[2]))
            if r[0] == "def":
                return Fn(node=self.src.mods[r[1]].defs[r[2]], mod=r[1], name=r[2])
            if r[0] == "mod":
                return Mod(r[1])
            if r[0] == "ext":
                return Fn(builtin=r[1], name=r[1])
            if r[0] == "const" and isinstance(r[2], ast.Call) and ast.unparse(r[2].func).split(".")[-1] == "namedtuple":
                return self.namedtuple(r[1], n, r[2])
            if r[0] == "const":
                q = self.opts.get("consts", {}).get("%s:%s" % (r[1], n))
                if q is not None:
                    return q
                outs = self.ev(r[2], st)
                if len(outs) == 1:
                    return outs[0][1]
        if n in BUILTINS:
            return Fn(builtin=n, name=n)
        if n == "True" or n == "False":
            return bv(z3.BoolVal(n == "True"))
        raise Unsupported("name %s" % n)

    def namedtuple(self, mod, n, e):
        fields = ast.literal_eval(e.args[1]) if len(e.args) == 2 and not e.keywords else None
        if isinstance(fields, str):
            fields = fields.replace(",", " ").split()
        cls = [c for c, a in T.AT.items() if a == "%s:%s" % (mod, n)]
        if not fields or not cls or set(fields) != set(T.SCHEMA[cls[0]]):
            raise Unsupported("namedtuple %s" % n)
        return Fn(builtin="namedtuple", self_=(cls[0], list(fields)), name=n)

    def bi_namedtuple(self, st, args, kw, what, node):
        raise Unsupported("namedtuple")

    def ev_Tuple(self, e, st):
        return [(x, Tup(vs)) for x, vs in self.evs(e.elts, st)]

    def ev_List(self, e, st):
        if not e.elts:
            return [(st, EmptyLit(self.site(e)))]
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred list")
        out = []
        for x, vs in self.evs(e.elts, st):
            out.append((x, self.seq_of(x, vs)))
        return out

    def seq_of(self, st, vs):
        q = self.seq_of_(st, vs)
        q.items = vs
        return q

    def seq_of_(self, st, vs):
        if len(vs) == 1:
            i = z3.Int(fresh_name("i"))
            return Seq([i], [z3.IntVal(1)], TRUE, vs[0])
        t = vs[0].ty
        for v in vs[1:]:
            t = join_ty(t, v.ty)
            if t is None:
                raise Unsupported("mixed list literal")
        i = z3.Int(fresh_name("i"))
        x = vs[-1]
        for k in range(len(vs) - 2, -1, -1):
            x = join_val(i == k, vs[k], x)
            if x is None:
                raise Unsupported("mixed list literal")
        return Seq([i], [z3.IntVal(len(vs))], TRUE, x)

    def ev_Set(self, e, st):
        out = []
        for x, vs in self.evs(e.elts, st):
            t = widen(vs[0].ty)
            for v in vs[1:]:
                t = join_ty(t, v.ty)
            a = z3.K(I, FALSE)
            for v in vs:
                a = z3.Store(a, coerce(v, t), TRUE)
            out.append((x, self.new_set(x, ("set", t), a)))
        return out

    def new_set(self, st, ty, a):
        r = st.alloc("set", ty)
        st.set_mem(ty, r.t, a)
        return r

    def ev_Dict(self, e, st):
        if not e.keys:
            return [(st, self.new_dict(st, e))]
        if all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            rec = self.contract.records.get(tuple(sorted(k.value for k in e.keys)))
            if rec:
                out = []
                for x, vs in self.evs(e.values, st):
                    r = x.alloc("rec", ("ref", rec, True))
                    for f in T.SCHEMA[rec]:
                        if f.startswith("has:") and f[4:] not in [k.value for k in e.keys]:
                            x.fput(rec, f, r.t, bv(FALSE))
                    for k, v in zip(e.keys, vs):
                        x.fput(rec, k.value, r.t, self.adapt(x, v, T.field_type(rec, k.value)))
                        x.fput(rec, "has:" + k.value, r.t, bv(TRUE))
                    out.append((x, r))
                return out
        if all(k is None for k in e.keys):
            out = []
            for x, vs in self.evs(e.values, st):
                vs = [self.deref(x, v, "dictionary display") for v in vs]
                vs = [v for v in vs if not has_unknown(v.ty)] or vs[:1]
                t = vs[0].ty
                if any(v.ty[0] != "dict" or T.key(v.ty) != T.key(t) for v in vs) or has_unknown(t) or len(T.flatten(t[2])) != 1:
                    raise Unsupported("dictionary display")
                dm, av = x.dom(t, vs[0].t), None
                doms = [x.dom(t, v.t) for v in vs]
                dom = self.lam(x, B, lambda k: disj([z3.Select(d, k) for d in doms]))
                def val(k):
                    r = x.dval(t, vs[0].t, k).t
                    for v, d in list(zip(vs, doms))[1:]:
                        r = If(z3.Select(d, k), x.dval(t, v.t, k).t, r)
                    return r
                arr = self.lam(x, sort(t[2]), val)
                r = self.alloc_dict(x, t)
                x.set_dom(t, r.t, dom)
                x.put("val:%s:%s" % (T.key(t[1]), T.key(t[2])), z3.ArraySort(I, z3.ArraySort(I, sort(t[2]))), r.t, arr)
                out.append((x, r))
            return out
        raise Unsupported("dictionary display")

    def new_dict(self, st, e):
        key = self.site(e)
        t = self.littypes.get(key)
        if t is None:
            t = ("dict", ("?", key), ("?", key))
        if t[0] == "ref":
            r = st.alloc("rec", t)
            for f, ft in T.SCHEMA[t[1]].items():
                if f.startswith("has:"):
                    st.fput(t[1], f, r.t, bv(FALSE))
            return V(t, r.t)
        return self.alloc_dict(st, t)

    def alloc_dict(self, st, t):
        r = st.alloc("dict", t)
        st.set_dom(t, r.t, z3.K(I, FALSE))
        if t[0] == "ddict":
            # the sets behind the keys of a new defaultdict are empty
            x = z3.Int(fresh_name("x"))
            k = z3.Int(fresh_name("k"))
            mem = st.map("mem:%s" % T.key(t[2][1]), z3.ArraySort(I, AB))
            el = z3.Select(z3.Select(mem, PH(r.t, k)), x)
            st.fact(FA([k, x], Not(el), patterns=[el]))
        return r

    def ev_JoinedStr(self, e, st):
        tmpl = ""
        exprs = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                tmpl += p.value.replace("{", "{{")
            else:
                tmpl += "{%s}" % (ast.unparse(p.format_spec) if p.format_spec else "")
                exprs.append(p.value)
        return [(x, self.format(x, tmpl, vs)) for x, vs in self.evs(exprs, st)]

    def format(self, st, tmpl, vs):
        ts = []
        for v in vs:
            if not isinstance(v, V) or T.is_heap(v.ty):
                raise Unsupported("formatting of %s" % (v.ty,))
            ts.append(v.t)
        # literal parts belong to the template, so "{}{}".format("a", x) is "a{}".format(x)
        parts = HOLE.split(tmpl)
        holes = HOLE.findall(tmpl)
        if len(holes) == len(vs) and any(v.lit is not None and h == "{}" for v, h in zip(vs, holes)):
            out, rest = parts[0], []
            for v, h, p in zip(vs, holes, parts[1:]):
                if v.lit is not None and h == "{}":
                    out += v.lit.replace("{", "{{") + p
                else:
                    out += h + p
                    rest.append(v)
            return self.format(st, out, rest)
        if not ts:
            return V(ATOM, atom(tmpl), tmpl)
        if tmpl == "{}" and ts[0].sort() == I:
            return V(ATOM, ts[0] if vs[0].ty[0] == "atom" else STR(ts[0]))
        f, ax = fmt(tmpl, [t.sort() for t in ts])
        self.fmtax[f.name()] = ax
        return V(ATOM, f(*ts))

    fmtax = {}

    def ev_IfExp(self, e, st):
        out = []
        for x, c in self.cond(e.test, st):
            mark = len(x.pc)
            res = []
            for y, val in self.split(x, c):
                res += self.ev(e.body if val else e.orelse, y)
            out += self.merge(x, mark, res)
        return out

    def ev_BoolOp(self, e, st):
        # value semantics only matter for booleans here
        return [(x, bv(c)) for x, c in self.boolop(e, st)]

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(x, bv(neg(c))) for x, c in self.cond(e.operand, st)]
        out = []
        for x, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.USub) and isinstance(v, V) and v.ty[0] in ("int", "real"):
                out.append((x, V(v.ty, z3.simplify(-v.t))))
            else:
                raise Unsupported("unary operator")
        return out

    def ev_BinOp(self, e, st):
        out = []
        for x, (a, b) in self.evs([e.left, e.right], st):
            out.append((x, self.binop(x, e, a, b)))
        return out

    def binop(self, st, e, a, b):
        op = type(e.op).__name__
        what = ast.unparse(e)
        if isinstance(a, V) and isinstance(b, V) and isnum(a.ty) and isnum(b.ty) and "atom" not in (a.ty[0], b.ty[0]):
            ty = REAL if "real" in (a.ty[0], b.ty[0]) or op == "Div" else INT
            x, y = coerce(a, ty), coerce(b, ty)
            if op == "Add":
                return V(ty, x + y)
            if op == "Sub":
                return V(ty, x - y)
            if op == "Mult":
                return V(ty, x * y)
            if op == "Div":
                self.need(st, "divisor is not zero: " + what, y != 0)
                return V(ty, x / y)
            if op in ("FloorDiv", "Mod") and ty == INT:
                self.need(st, "divisor is positive: " + what, y > 0)
                return V(ty, x / y if op == "FloorDiv" else x % y)
        if isinstance(a, V) and isinstance(b, V) and a.ty[0] == b.ty[0] == "atom" and op == "Add":
            return self.format(st, "{}{}", [a, b])
        if self.islist(a) and self.islist(b) and (getattr(a, "np", False) or getattr(b, "np", False)):
            return self.elementwise(st, op, a, b, what)
        if self.ismat(a) and self.ismat(b) and op in ("Sub", "Add", "MatMult"):
            return self.mat(st, {"Sub": "sub", "Add": "add", "MatMult": "dot"}[op], a, [b], what)
        if self.ismat(a) and self.islist(b) and op == "MatMult":
            return self.mat(st, "dot", a, [b], what)
        if op == "Add" and self.islist(a) and self.islist(b):
            return self.concat(st, a, b)
        if isinstance(a, V) and isinstance(b, V) and a.ty[0] == "set" and b.ty[0] == "set":
            p, q = st.mem(a.ty, a.t), st.mem(b.ty, b.t)
            f = {"BitAnd": lambda u, v: z3.And(u, v), "BitOr": lambda u, v: z3.Or(u, v), "Sub": lambda u, v: z3.And(u, Not(v))}.get(op)
            if f:
                return self.new_set(st, a.ty, self.lam(st, B, lambda i: f(z3.Select(p, i), z3.Select(q, i))))
        raise Unsupported("operator %s on %s, %s" % (op, getattr(a, "ty", a), getattr(b, "ty", b)))

    # ------------------------------------------------------------ matrices
    def elementwise(self, st, op, a, b, what):
        """Arithmetic of one-dimensional arrays of one length."""
        p, q = self.plain(st, a), self.plain(st, b)
        f = {"Add": lambda u, v: u + v, "Sub": lambda u, v: u - v, "Mult": lambda u, v: u * v}.get(op)
        if f is None or p.empty or q.empty or not (isinstance(p.elem, V) and isinstance(q.elem, V) and isnum(p.elem.ty) and isnum(q.elem.ty)):
            raise Unsupported("operator %s on arrays" % op)
        self.need(st, "arrays of one length: " + what, p.bounds[0] == q.bounds[0])
        i = z3.Int(fresh_name("i"))
        r = Seq([i], [p.bounds[0]], TRUE, V(REAL, f(coerce(p.at(i), REAL), coerce(q.at(i), REAL))))
        r.np = True
        return r

    def ismat(self, v):
        return isinstance(v, V) and v.ty[0] == "ref" and v.ty[1] == "Mat"

    def mat(self, st, op, m, args, what):
        """An operation of the library on a matrix: its contract, by the kind of the argument."""
        if st.binders:
            raise _Allocates()
        args = [self.materialize(st, x) if isinstance(x, (Seq, EmptyLit)) else x for x in args]
        q = "ext:Mat." + op
        if args:
            q += ":matrix" if self.ismat(args[0]) else ":list"
        c = self.find_contract(q, None)
        if c is None:
            raise Unsupported("matrix operation %s" % what)
        (y, r), = self.call_contract(st, c, [m] + args, {}, what)
        if isinstance(r, V) and r.ty[0] == "list":
            r.np = True
        return r

    def islist(self, v):
        return isinstance(v, (Seq, EmptyLit)) or isinstance(v, V) and v.ty[0] == "list"

    def concat(self, st, a, b):
        if isinstance(a, EmptyLit):
            return b
        if isinstance(b, EmptyLit):
            return a
        p, q = self.plain(st, a), self.plain(st, b)
        i = z3.Int(fresh_name("i"))
        n, m = p.bounds[0], q.bounds[0]
        x = join_val(i < n, p.at(i), q.at(i - n))
        if x is None:
            raise Unsupported("concatenation of different types")
        return Seq([i], [n + m], TRUE, x)

    def plain(self, st, v):
        q = self.seq(st, v)
        if not q.plain and not q.empty:
            q = self.seq(st, self.materialize(st, q))
        return q

    def ev_Compare(self, e, st):
        out = []
        for x, vs in self.evs([e.left] + e.comparators, st):
            cs = []
            for op, a, b in zip(e.ops, vs, vs[1:]):
                cs.append(self.compare(x, op, a, b, ast.unparse(e)))
            out.append((x, bv(conj(cs))))
        return out

    def compare(self, st, op, a, b, what):
        k = type(op).__name__
        if k in ("In", "NotIn"):
            f = self.contains(st, b, a, what)
            return f if k == "In" else neg(f)
        if k in ("Eq", "Is"):
            return self.equal(st, a, b)
        if k in ("NotEq", "IsNot"):
            return neg(self.equal(st, a, b))
        if isinstance(a, V) and isinstance(b, V):
            if isnum(a.ty) and isnum(b.ty):
                x, y = a.t, b.t
                if x.sort() != y.sort():
                    x, y = coerce(a, REAL), coerce(b, REAL)
                return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[k]
        raise Unsupported("comparison %s" % k)

    def equal(self, st, a, b):
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            return conj([self.equal(st, x, y) for x, y in zip(a.items, b.items)])
        if self.islist(a) and self.islist(b):
            if isinstance(a, EmptyLit):
                a, b = b, a
            if isinstance(b, EmptyLit):
                return neg(self.truth(st, a)) if not isinstance(a, EmptyLit) else TRUE
            p, q = self.plain(st, a), self.plain(st, b)
            if p.empty or q.empty:
                return neg(self.truth(st, b if p.empty else a))
            i = z3.Int(fresh_name("i"))
            return z3.And(p.bounds[0] == q.bounds[0],
                          FA([i], Implies(z3.And(i >= 0, i < p.bounds[0]), self.equal(st, p.at(i), q.at(i)))))
        for u, v in ((a, b), (b, a)):
            if isinstance(u, V) and u.ty[0] == "none" and isinstance(v, (EmptyLit, Seq, Tup)):
                return FALSE
        if isinstance(a, V) and isinstance(b, V):
            x, y = a.t, b.t
            if "none" in (a.ty[0], b.ty[0]) and a.ty[0] != b.ty[0]:
                o = b if a.ty[0] == "none" else a
                if o.ty[0] in ("int", "atom", "real", "bool", "enum"):
                    return FALSE
                return o.t == null(o.ty)
            if a.ty[0] in ("set", "dict") and b.ty[0] == a.ty[0]:
                if a.ty[0] == "set":
                    return st.mem(a.ty, x) == st.mem(b.ty, y)
                raise Unsupported("comparison of dictionaries")
            if a.ty[0] == "bool" and b.ty[0] != "bool" or b.ty[0] == "bool" and a.ty[0] != "bool":
                x, y = coerce(a, INT), coerce(b, INT)
            if x.sort() != y.sort():
                x, y = coerce(a, REAL), coerce(b, REAL)
            return x == y
        raise Unsupported("equality of %s, %s" % (getattr(a, "ty", a), getattr(b, "ty", b)))

    def contains(self, st, c, v, what=""):
        if isinstance(c, EmptyLit):
            return FALSE
        if isinstance(c, Tup):
            return disj([self.equal(st, x, v) for x in c.items])
        if isinstance(c, Seq):
            if c.empty:
                return FALSE
            return z3.Exists(list(c.idx), z3.And(c.range(), self.equal(st, c.elem, v)))
        c = self.deref(st, c, what)
        if isinstance(v, Tup):
            raise Unsupported("membership of a tuple")
        if has_unknown(c.ty):
            return FALSE
        if c.ty[0] == "ref" and c.ty[1] in T.RECORDS:
            k = self.lit(v)
            if T.field_type(c.ty[1], k) is None:
                return FALSE
            return st.fget(c.ty[1], "has:" + k, c.t).t
        if c.ty[0] == "list":
            j = z3.Int(fresh_name("j"))
            return z3.Exists([j], z3.And(j >= 0, j < st.len(c.ty, c.t), self.equal(st, st.elt(c.ty, c.t, j), v)))
        if c.ty[0] == "set":
            return z3.Select(st.mem(c.ty, c.t), coerce(v, c.ty[1]))
        if c.ty[0] in ("dict", "ddict"):
            return z3.Select(st.dom(c.ty, c.t), coerce(v, c.ty[1]))
        raise Unsupported("membership in %s" % (c.ty,))

    # ------------------------------------------------------- attribute access
    def ev_Attribute(self, e, st):
        out = []
        for x, o in self.ev(e.value, st):
            out += self.getattr(x, o, e.attr, ast.unparse(e))
        return out

    def cls_at(self, c):
        """(module, class) of a schema class in the source."""
        if c in T.AT:
            a = T.AT[c]
            if a == "ext":
                return None
            m, _, n = a.partition(":")
            return m, n
        for m in self.src.mods.values():
            if c in m.classes:
                return m.name, c
        return None

    def schema_of(self, mod, cls):
        for c in T.BASES:
            if self.cls_at(c) == (mod, cls):
                return c
        return None

    def getattr(self, st, o, attr, what):
        if isinstance(o, Mod):
            return [(st, Fn(builtin="%s.%s" % (o.name, attr), name=attr))]
        if isinstance(o, Fn) and o.builtin:
            return [(st, Fn(builtin="%s.%s" % (o.builtin, attr), name=attr))]
        if isinstance(o, Cls):
            mod, c = o.name
            if c in T.ENUMS:
                names = self.enum_members(mod, c)
                if attr in names:
                    return [(st, V(("enum", c), z3.IntVal(names.index(attr) + 1)))]
            f = self.src.find_method(mod, c, attr)
            if f is None:
                raise Unsupported("%s.%s" % (c, attr))
            static = "staticmethod" in decorators(f[2])
            return [(st, Fn(node=f[2], mod=f[0], cls=(f[0], f[1]), name=attr, recv=None if static else "unbound"))]
        if isinstance(o, (Seq, EmptyLit, Tup, _Appender)):
            return [(st, Fn(builtin="." + attr, self_=o, name=attr))]
        if isinstance(o, Fn):
            raise Unsupported("attribute of a function")
        o = self.deref(st, o, what)
        if self.ismat(o) and attr == "shape":
            return [(st, Tup([st.fget("Mat", "rows", o.t), st.fget("Mat", "cols", o.t)]))]
        if self.ismat(o) and attr == "T":
            return [(st, self.mat(st, "T", o, [], what))]
        if self.ismat(o) and attr == "dot":
            return [(st, Fn(builtin="#mat.dot", self_=o, name=attr))]
        if o.ty[0] == "ref" and o.ty[1] not in T.RECORDS:
            o = self.narrow(st, o, attr, what)
            ft = T.field_type(o.ty[1], attr)
            if ft is not None:
                v = st.fget(o.ty[1], attr, o.t)
                self.typed(st, v)
                return [(st, v)]
            return self.method(st, o, attr, what)
        return [(st, Fn(builtin="." + attr, self_=o, name=attr))]

    def narrow(self, st, o, attr, what):
        """A field that only a subclass has: the object must be of that class."""
        c = o.ty[1]
        if T.field_type(c, attr) is None:
            cs = [s for s in T.subclasses(c) if attr in T.SCHEMA[s]]
            if len(cs) == 1:
                f = is_class(o.t, cs[0])
                self.need(st, "value is a %s: %s" % (cs[0], what), f)
                return V(("ref", cs[0], False), o.t)
        return o

    def typed(self, st, v):
        if not isinstance(v, (V, Tup)) or any(isinstance(x, (Seq, EmptyLit)) for x in leaves_of(v)):
            return
        if not any(occurs_any(st.binders, lv.t) for lv in leaves_of(v) if isinstance(lv, V)):
            st.typed(v)

    def enum_members(self, mod, c):
        out = []
        for n in self.src.mods[mod].classes[c].body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                out.append(n.targets[0].id)
        return out

    def method(self, st, o, attr, what):
        """Bound method; several when subclasses override it."""
        c = o.ty[1]
        exact = len(o.ty) > 2 and o.ty[2]
        subs = [c] if exact else T.subclasses(c)
        groups = {}
        without = []
        for s in subs:
            at = self.cls_at(s)
            if at is None:
                groups.setdefault(("ext", s, attr), []).append(s)
                continue
            f = self.src.find_method(at[0], at[1], attr)
            if f is None:
                without.append(s)
                continue
            groups.setdefault((f[0], f[1], attr), []).append(s)
        if not groups:
            raise Unsupported("no method %s on %s" % (attr, c))
        if without:
            cs = [x for g in groups.values() for x in g]
            self.need(st, "value has %s: %s" % (attr, what), disj([TYP(o.t) == tag(x) for x in cs]))
            o = V(self.lub(cs), o.t)
        if len(groups) > 1:
            # contracts on the static class cover overriding only if dispatch is split
            out = []
            for g, cs in groups.items():
                y = st.fork()
                cond = disj([TYP(o.t) == tag(x) for x in cs])
                y.branch(cond)
                oo = V(("ref", cs[0], True), o.t) if len(cs) == 1 else V(self.lub(cs), o.t)
                out += self.bind_method(y, oo, g, what)
            return out
        (g, cs), = groups.items()
        return self.bind_method(st, o, g, what)

    def lub(self, cs):
        c = cs[0]
        while not all(T.is_sub(x, c) for x in cs):
            c = T.BASES[c]
        return ("ref", c, False)

    def bind_method(self, st, o, g, what):
        if g[0] == "ext":
            c = self.find_contract("ext:%s.%s" % (g[1], g[2]), None)
            if c is not None and c.view:
                return [(x, ViewOf(r.ty, r.t)) for x, r in self.call_contract(st, c, [o], {}, what)]
            return [(st, Fn(builtin="ext:%s.%s" % (g[1], g[2]), self_=o, name=g[2]))]
        node = self.src.function("%s:%s.%s" % g)[2]
        if "staticmethod" in decorators(node):
            return [(st, Fn(node=node, mod=g[0], cls=(g[0], g[1]), name=g[2]))]
        fn = Fn(node=node, mod=g[0], cls=(g[0], g[1]), name=g[2], self_=o)
        if "property" in decorators(node):
            return self.call(st, fn, [], {}, what)
        return [(st, fn)]

    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            return self.slice(e, st)
        if isinstance(e.slice, ast.Tuple) and len(e.slice.elts) == 2 and any(isinstance(k, ast.Slice) for k in e.slice.elts):
            a, b = e.slice.elts
            whole = [isinstance(k, ast.Slice) and k.lower is None and k.upper is None and k.step is None for k in (a, b)]
            if sum(whole) != 1:
                raise Unsupported("subscript with two indices")
            out = []
            for x, (o, i) in self.evs([e.value, b if whole[0] else a], st):
                if not self.ismat(o) or not self.islist(i):
                    raise Unsupported("subscript with two indices")
                out.append((x, self.mat(x, "columns" if whole[0] else "rows", o, [i], ast.unparse(e))))
            return out
        out = []
        for x, (o, i) in self.evs([e.value, e.slice], st):
            out.append((x, self.item(x, o, i, ast.unparse(e))))
        return out

    def item(self, st, o, i, what):
        if self.ismat(o):
            if self.islist(i):
                return self.mat(st, "rows", o, [i], what)
            if isinstance(i, V) and i.ty[0] == "int":
                n, m = st.fget("Mat", "rows", o.t).t, st.fget("Mat", "cols", o.t).t
                k = self.index(i.t, n)
                self.need(st, "index in range: " + what, z3.And(k >= 0, k < n))
                j = z3.Int(fresh_name("j"))
                r = Seq([j], [m], TRUE, V(REAL, MAT(st.fget("Mat", "val", o.t).t, k, j)))
                r.np = True
                return r
            raise Unsupported("index of a matrix")
        if isinstance(o, Tup):
            k = z3.simplify(i.t)
            if z3.is_int_value(k):
                return o.items[k.as_long()]
            raise Unsupported("tuple index")
        if isinstance(o, EmptyLit):
            self.obligate(st, "index in range: " + what, FALSE)
            raise Unsupported("index of an empty list")
        if isinstance(o, Seq):
            if not o.plain:
                o = self.materialize(st, o)
            else:
                k = self.index(coerce(i, INT), o.bounds[0])
                self.need(st, "index in range: " + what, z3.And(k >= 0, k < o.bounds[0]))
                return o.at(k)
        o = self.choose(st, o, ("list",) if isinstance(i, V) and i.ty[0] == "int" else ("dict",), what)
        o = self.deref(st, o, what)
        if has_unknown(o.ty):
            raise Unsupported("item of an untyped literal")
        if o.ty[0] == "ref" and o.ty[1] in T.RECORDS:
            k = self.lit(i)
            ft = T.field_type(o.ty[1], k)
            if ft is None:
                raise Unsupported("record %s has no key %s" % (o.ty[1], k))
            self.need(st, "key present: " + what, st.fget(o.ty[1], "has:" + k, o.t).t)
            v = st.fget(o.ty[1], k, o.t)
            self.typed(st, v)
            return v
        if o.ty[0] == "list":
            n = st.len(o.ty, o.t)
            k = self.index(coerce(i, INT), n)
            self.need(st, "index in range: " + what, z3.And(k >= 0, k < n))
            v = st.elt(o.ty, o.t, k)
            self.typed(st, v)
            return v
        if o.ty[0] == "dict":
            k = coerce(self.adapt(st, i, o.ty[1]), o.ty[1])
            self.need(st, "key present: " + what, z3.Select(st.dom(o.ty, o.t), k))
            v = st.dval(o.ty, o.t, k)
            self.typed(st, v)
            return v
        if o.ty[0] == "ddict":
            k = coerce(self.adapt(st, i, o.ty[1]), o.ty[1])
            d = st.dom(o.ty, o.t)
            if st.binders and occurs_any(st.binders, k):
                # reading an absent key would insert it
                self.need(st, "key present: " + what, z3.Select(d, k))
            else:
                known = any(kd in "bf" and f.eq(z3.Select(d, k)) for kd, f in st.pc)
                if not known:
                    st.set_dom(o.ty, o.t, z3.Store(d, k, TRUE))
            return V(o.ty[2], PH(o.t, k))
        raise Unsupported("item of %s" % (o.ty,))

    def index(self, i, n):
        k = z3.simplify(i)
        if z3.is_int_value(k) and k.as_long() < 0:
            return z3.simplify(n + k)
        return i

    def slice(self, e, st):
        out = []
        lo, hi = e.slice.lower, e.slice.upper
        if e.slice.step is not None:
            raise Unsupported("slice step")
        for x, vs in self.evs([e.value] + [y for y in (lo, hi) if y is not None], st):
            o = self.choose(x, vs[0], ("list",), ast.unparse(e))
            if isinstance(o, EmptyLit):
                out.append((x, o))
                continue
            q = self.plain(x, o)
            if q.empty:
                out.append((x, q))
                continue
            n = q.bounds[0]
            r = vs[1:]
            a = coerce(r.pop(0), INT) if lo is not None else z3.IntVal(0)
            b = coerce(r.pop(0), INT) if hi is not None else n

            def clip(t):
                s = z3.simplify(t)
                if z3.is_int_value(s) and s.as_long() == 0:
                    return t
                if z3.is_int_value(s) and s.as_long() < 0:
                    t = n + t
                if self.entailed(x, z3.And(t >= 0, t <= n)):
                    return t
                return If(t < 0, z3.IntVal(0), If(t > n, n, t))

            if lo is None and hi is None:
                out.append((x, Seq(q.idx, q.bounds, q.guard, q.elem)))
                continue
            a, b = clip(a), (n if hi is None else clip(b))
            i = z3.Int(fresh_name("i"))
            n = z3.simplify(b - a if self.entailed(x, b >= a) else If(b > a, b - a, 0))
            z = Seq([i], [n], TRUE, q.at(i + a))
            z.shift = (q, a)
            out.append((x, z))
        return out

    def ev_Lambda(self, e, st):
        return [(st, Fn(node=e, env=len(st.frames) - 1, mod=st.env["#mod"], cls=st.env.get("#cls"), name="<lambda>"))]

    def ev_Starred(self, e, st):
        raise Unsupported("starred expression")

    # -------------------------------------------------------- comprehensions
    def comp(self, gens, st, fin):
        """Evaluate generators in binder mode.  fin(state) -> [(state, value)].
        Returns (state, idx, bounds, guard, value) with facts generalised."""
        names = {n.id for g in gens for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        # nested names bound inside the first iterable are evaluated outside
        first = self.ev(gens[0].iter, st)
        out = []
        for x, it in first:
            saved = {n: x.env[n] for n in names if n in x.env}
            mark = len(x.pc)
            nb = list(x.binders)
            h0, top0 = dict(x.h), x.top
            idx, bounds = [], []
            conds = []
            work = x
            value = None

            def go(st_, gi, it_):
                q = self.seq(st_, it_, "comprehension")
                if q.empty:
                    return None
                ren = [z3.Int(fresh_name("c")) for _ in q.idx]
                pairs = list(zip(q.idx, ren))
                idx.extend(ren)
                bounds.extend([z3.substitute(b, *pairs) for b in q.bounds])
                rng = q.range(ren)
                st_.binders = st_.binders + ren
                st_.pc.append(("b", rng))
                conds.append(z3.substitute(q.guard, *pairs))
                ys = self.assign(gens[gi].target, q.at(*ren), st_)
                if len(ys) != 1:
                    raise Unsupported("comprehension target")
                y = ys[0]
                for c in gens[gi].ifs:
                    m = len(y.pc)
                    rs = self.cond(c, y)
                    rs = self.merge(y, m, [(z, bv(f)) for z, f in rs])
                    if len(rs) != 1:
                        raise Unsupported("comprehension condition with effects")
                    y, f = rs[0][0], rs[0][1].t
                    y.branch(f)
                    conds.append(f)
                if gi + 1 < len(gens):
                    m = len(y.pc)
                    rs = self.ev(gens[gi + 1].iter, y)
                    rs = self.merge(y, m, rs)
                    if len(rs) != 1:
                        raise Unsupported("comprehension iterable with effects")
                    return go(rs[0][0], gi + 1, rs[0][1])
                m = len(y.pc)
                rs = fin(y)
                rs = self.merge(y, m, rs)
                if len(rs) != 1:
                    raise Unsupported("comprehension element with effects")
                return rs[0]

            r = go(work, 0, it)
            if r is None:
                x.binders = nb
                out.append((x, [], [], TRUE, None))
                continue
            y, value = r
            if not y.top.eq(top0):
                raise _Allocates()
            for k, m in y.h.items():
                if k in h0 and not m.eq(h0[k]) or k not in h0 and z3.is_store(m):
                    raise Unsupported("comprehension with effects")
            facts = []
            bs = []
            for kd, f in y.pc[mark:]:
                if kd == "b":
                    bs.append(f)
                else:
                    facts.append((conj(bs), f))
            y.pc = y.pc[:mark]
            for b, f in facts:
                used = [i for i in idx if occurs(i, f) or occurs(i, b)]
                if any(occurs(i, f) for i in idx):
                    y.pc.append(("f", fa_idx(used, Implies(b, f)) if used else Implies(b, f)))
                elif not used:
                    y.pc.append(("f", Implies(b, f)))
                else:
                    y.pc.append(("f", fa_idx(used, Implies(b, f))))
            y.binders = nb
            for n in names:
                if n in saved:
                    y.env[n] = saved[n]
                else:
                    y.env.pop(n, None)
            out.append((y, idx, bounds, conj(conds), value))
        return out

    def ev_ListComp(self, e, st):
        try:
            snap = st.fork()
            nobs, lo = len(self.obs), self.loop_no
            out = []
            for y, idx, bounds, g, v in self.comp(e.generators, st, lambda z: self.ev(e.elt, z)):
                if not idx:
                    out.append((y, Seq([], [], TRUE, None, ("?", None), empty=True)))
                else:
                    out.append((y, Seq(idx, bounds, g, v)))
            return out
        except _Allocates:
            self.obs = self.obs[:nobs]
            self.loop_no = lo
            return self.comp_as_loop(e, snap)

    ev_GeneratorExp = ev_ListComp

    def comp_as_loop(self, e, st):
        """[f(x) for ...] whose element allocates: the equivalent loop."""
        if st.binders:
            raise _Allocates()      # the comprehension around it becomes a loop first
        name = "#comp%d_%d" % (e.lineno, e.col_offset)
        tgt = ast.Name(id=name, ctx=ast.Load())
        body = [ast.Expr(ast.Call(func=ast.Attribute(value=tgt, attr="append", ctx=ast.Load()), args=[e.elt], keywords=[]))]
        names = {n.id for g in e.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        saved = {n: st.env[n] for n in names if n in st.env}
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for b in body:
            ast.copy_location(b, e)
            ast.fix_missing_locations(b)
        st.env[name] = EmptyLit(self.site(e))
        out = []
        for y, kind, v in self.block(body, st):
            if kind != "next":
                raise Unsupported(kind)
            r = y.env.pop(name)
            for n in names:
                y.env.pop(n, None)
            y.env.update(saved)
            out.append((y, r))
        return out

    def ev_SetComp(self, e, st):
        out = []
        for y, idx, bounds, g, v in self.comp(e.generators, st, lambda z: self.ev(e.elt, z)):
            out.append((y, self.to_set(y, Seq(idx, bounds, g, v) if idx else None)))
        return out

    def ev_DictComp(self, e, st):
        def fin(z):
            return [(w, Tup(vs)) for w, vs in self.evs([e.key, e.value], z)]

        snap = st.fork()
        nobs, lo = len(self.obs), self.loop_no
        try:
            out = []
            for y, idx, bounds, g, v in self.comp(e.generators, st, fin):
                if not idx:
                    raise Unsupported("empty dictionary comprehension")
                out.append((y, self.to_dict(y, Seq(idx, bounds, g, v))))
            return out
        except _Allocates:
            self.obs = self.obs[:nobs]
            self.loop_no = lo
            name = "#comp%d_%d" % (e.lineno, e.col_offset)
            body = [ast.Assign(targets=[ast.Subscript(value=ast.Name(id=name, ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)]
            names = {n.id for gg in e.generators for n in ast.walk(gg.target) if isinstance(n, ast.Name)}
            saved = {n: snap.env[n] for n in names if n in snap.env}
            for gg in reversed(e.generators):
                for c in reversed(gg.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=gg.target, iter=gg.iter, body=body, orelse=[])]
            for b in body:
                ast.copy_location(b, e)
                ast.fix_missing_locations(b)
            snap.env[name] = self.new_dict(snap, e)
            out = []
            for y, kind, v in self.block(body, snap):
                r = y.env.pop(name)
                for n in names:
                    y.env.pop(n, None)
                y.env.update(saved)
                out.append((y, r))
            return out

    def to_set(self, st, q, ty=None):
        if q is None or q.empty:
            return self.new_set(st, ("set", ("int",)), z3.K(I, FALSE))
        ety = widen(q.ety)
        if ety[0] == "tuple":
            raise Unsupported("set of tuples")
        a = st.fresh("setof", AB)
        bs = st.binders
        src = [z3.Function(fresh_name("src"), *[b.sort() for b in bs], I, I) for _ in q.idx]
        x = z3.Int(fresh_name("x"))
        at = [f(*bs, x) for f in src]
        el = coerce(q.elem, ety)
        st.fact(FA([x], Implies(z3.Select(a, x), z3.And(q.range(at), z3.substitute(el, *zip(q.idx, at)) == x)), patterns=[z3.Select(a, x)]))
        js = [z3.Int(fresh_name("j")) for _ in q.idx]
        t = z3.substitute(el, *zip(q.idx, js))
        # every element is a member
        pats = trig(t, js)
        st.fact(FA(js, Implies(q.range(js), z3.Select(a, t)), **({"patterns": [pats]} if pats is not None else {})))
        return self.new_set(st, ("set", ety), a)

    def to_dict(self, st, q):
        """Dictionary of key/value pairs; the last pair of a key wins."""
        kt, vt = (widen(x.ty) for x in q.elem.items)
        want = T.parse(self.contract.ret) if self.contract.ret else ("none",)
        if want[0] == "dict" and vt[0] == "tuple" == want[2][0] and len(vt) == len(want[2]) and all(a == b or (a, b) == (INT, REAL) for a, b in zip(vt[1:], want[2][1:])):
            vt = want[2]        # a map of numbers that is returned as one of reals
        ty = ("dict", kt, vt)
        for x in q.elem.items:
            if isinstance(x, (Seq, EmptyLit)):
                raise _Allocates()
        bs = st.binders
        dom = st.fresh("domof", AB)
        src = [z3.Function(fresh_name("src"), *[b.sort() for b in bs], I, I) for _ in q.idx]
        x = z3.Int(fresh_name("x"))
        at = [f(*bs, x) for f in src]
        key = coerce(q.elem.items[0], kt)
        vals = []
        eqs = []
        for lv, (_, t) in zip(leaves_of(q.elem.items[1]), T.flatten(vt)):
            a = st.fresh("valof", z3.ArraySort(I, sort(t)))
            vals.append(a)
            eqs.append(z3.Select(a, x) == z3.substitute(coerce(lv, t), *zip(q.idx, at)))
        st.fact(FA([x], Implies(z3.Select(dom, x), z3.And([q.range(at), z3.substitute(key, *zip(q.idx, at)) == x] + eqs)),
                          patterns=[z3.Select(dom, x)] + [z3.Select(a, x) for a in vals]))
        js = [z3.Int(fresh_name("j")) for _ in q.idx]
        kk = z3.substitute(key, *zip(q.idx, js))
        goal = [z3.Select(dom, kk)]
        if len(js) == 1:
            goal.append(src[0](*bs, kk) >= js[0])
        pats = trig(kk, js)
        st.fact(FA(js, Implies(q.range(js), z3.And(goal)), **({"patterns": [pats] + ([KNOWN(js[0])] if len(js) == 1 else [])} if pats is not None else {})))
        r = st.alloc("dict", ty)
        st.set_dom(ty, r.t, dom)
        for (p, t), a in zip(T.flatten(vt), vals):
            st.put("val:%s:%s%s" % (T.key(kt), T.key(vt), p), z3.ArraySort(I, z3.ArraySort(I, sort(t))), r.t, a)
        return r

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e, st):
        out = []
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("append",) and isinstance(e.func.value, ast.Name):
            r = self.append_name(e, st)
            if r is not None:
                return r
        if isinstance(e.func, ast.Attribute) and e.func.attr in ("extend", "sort", "remove", "insert") and isinstance(e.func.value, ast.Name) \
                and isinstance(st.env.get(e.func.value.id), Seq):
            v = st.env[e.func.value.id]
            self.rebind(st, v, self.materialize(st, v))
        for x, f in self.ev(e.func, st):
            if any(isinstance(a, ast.Starred) for a in e.args):
                out += self.star_call(e, x, f)
                continue
            kws = [k for k in e.keywords]
            if any(k.arg is None for k in kws):
                raise Unsupported("**kwargs")
            for y, vs in self.evs(list(e.args) + [k.value for k in kws], x):
                args, kw = vs[:len(e.args)], {k.arg: v for k, v in zip(kws, vs[len(e.args):])}
                try:
                    out += self.call(y, f, args, kw, ast.unparse(e)[:80], e)
                except _BadCall as b:
                    # a TypeError at run time: the call must not be reached
                    self.obligate(y, "%s in `%s`" % (b, ast.unparse(e)[:80]), FALSE)
        return out

    def append_name(self, e, st):
        """x.append(v) on a local that still is a lazy sequence."""
        n = e.func.value.id
        v = st.env.get(n)
        if isinstance(v, _Appender):
            out = []
            for x, (a,) in self.evs(e.args, st):
                if isinstance(a, (Seq, EmptyLit)):
                    raise _NotAuto()
                x.env[n] = _Appender(n, x.env[n].items + [a])
                out.append((x, NONE))
            return out
        if isinstance(v, (Seq, EmptyLit)):
            out = []
            if self.names_of(st, v) > 1:
                raise Unsupported("list with several names")
            for x, (a,) in self.evs(e.args, st):
                if isinstance(v, Seq) and v.plain and not v.empty or isinstance(v, EmptyLit) or isinstance(v, Seq) and v.empty:
                    # stay lazy: [..., a]
                    one = self.seq_of(x, [a])
                    if isinstance(v, Seq) and not v.empty:
                        try:
                            x.env[n] = self.concat(x, v, one)
                            out.append((x, NONE))
                            continue
                        except Unsupported:
                            pass
                    elif not self.in_loop(x):
                        x.env[n] = one
                        out.append((x, NONE))
                        continue
                x.env[n] = self.materialize(x, v)
                out += self.call_builtin(x, Fn(builtin=".append", self_=x.env[n], name="append"), [a], {}, ast.unparse(e), e)
            return out
        return None

    def in_loop(self, st):
        return False

    def star_call(self, e, st, f):
        if not (len(e.args) == 1 and not e.keywords and isinstance(f, Fn) and f.builtin):
            raise Unsupported("starred call")
        out = []
        for x, v in self.ev(e.args[0].value, st):
            b = f.builtin
            if b in ("itertools.product",):
                out.append((x, self.product(x, v)))
            elif b in ("itertools.chain",):
                out.append((x, self.chain(x, v)))
            else:
                raise Unsupported("starred call of %s" % b)
        return out

    def product(self, st, lists):
        """itertools.product(*lists): mixed-radix digits (trusted contract)."""
        self.trusted.add("itertools.product")
        q = self.plain(st, lists)
        if q.empty:
            raise Unsupported("product of no lists")
        m = q.bounds[0]
        inner = lambda j: self.plain(st, q.at(j))
        lens = self.lam(st, I, lambda j: inner(j).bounds[0])
        n = PRODI(lens, m)
        k, j = z3.Int(fresh_name("k")), z3.Int(fresh_name("j"))
        s = inner(j)
        row = Seq([j], [m], TRUE, s.at(DIG(lens, m, k, j)))
        out = Seq([k], [n], TRUE, row)
        out.lens = lens
        return out

    def chain(self, st, v):
        q = self.seq(st, v)
        if q.empty:
            return q
        inner = q.elem
        p = self.seq(st, inner)
        if p.empty:
            return p
        ren = [z3.Int(fresh_name("c")) for _ in p.idx]
        pairs = list(zip(p.idx, ren))
        return Seq(list(q.idx) + ren, list(q.bounds) + [z3.substitute(b, *pairs) for b in p.bounds],
                   conj([q.guard, z3.substitute(p.guard, *pairs)]), subst(p.elem, pairs))

    def call(self, st, f, args, kw, what, node=None):
        if isinstance(f, Cls):
            return self.construct(st, f, args, kw, what)
        if isinstance(f, ViewOf) and not args and not kw:
            return [(st, V(f.ty, f.t))]
        if not isinstance(f, Fn):
            raise Unsupported("call of %s" % (f,))
        if f.builtin == "namedtuple" and isinstance(f.self_, tuple):
            cls, fields = f.self_
            vals = dict(zip(fields, args), **kw)
            if len(args) > len(fields) or set(vals) != set(fields):
                raise Unsupported("call of %s" % what)
            o = st.alloc("obj", ("ref", cls, True))
            for k in fields:
                st.fput(cls, k, o.t, self.adapt(st, vals[k], T.field_type(cls, k)))
            return [(st, o)]
        if f.builtin == "#mat.dot":
            if len(args) != 1 or kw or not (self.ismat(args[0]) or self.islist(args[0])):
                raise Unsupported("call of dot")
            return [(st, self.mat(st, "dot", f.self_, args, what))]
        if f.builtin:
            q = f.builtin
            if q in ("copy.deepcopy", "ext:copy.deepcopy") and args and isinstance(args[0], V):
                return self.deepcopy(st, args, kw, what)
            c = self.find_contract("ext:" + q if not q.startswith("ext:") else q, None)
            if c is not None:
                a = ([f.self_] if f.self_ is not None else []) + args
                return self.call_contract(st, c, a, kw, what)
            return self.call_builtin(st, f, args, kw, what, node)
        if f.self_ is not None:
            args = [f.self_] + args
        qual = None
        if f.cls and isinstance(f.node, ast.FunctionDef) and f.env is None:
            qual = "%s:%s.%s" % (f.cls[0], f.cls[1], f.name)
        elif f.mod and isinstance(f.node, ast.FunctionDef) and f.env is None:
            qual = "%s:%s" % (f.mod, f.name)
        if qual:
            recv = args[0] if args and f.cls and "staticmethod" not in decorators(f.node) else None
            c = self.find_contract(qual, recv)
            if c is not None:
                return self.call_contract(st, c, args, kw, what)
        return self.inline(st, f, args, kw, what, qual)

    def deepcopy(self, st, args, kw, what):
        """copy.deepcopy: the class's own method, or the contract for that type."""
        v = args[0]
        if kw or len(args) > 2:
            raise Unsupported("call of %s" % what)
        if len(args) == 1:
            args = [v, st.alloc("obj", T.parse("dict[int,int]"))]
        if v.ty[0] == "ref":
            at = self.cls_at(v.ty[1])
            if at is not None and self.src.find_method(at[0], at[1], "__deepcopy__") is not None:
                return [r for x, f in self.method(st, v, "__deepcopy__", what) for r in self.call(x, f, [args[1]], {}, what)]
        c = self.find_contract("ext:copy.deepcopy:%s" % T.key(v.ty), None)
        if c is None:
            raise Unsupported("copy.deepcopy of %s" % T.key(v.ty))
        return self.call_contract(st, c, args, {}, what)

    def find_contract(self, qual, recv):
        cs = [x for x in self.by_qual.get(qual) or () if not x[1].inline]
        if not cs:
            return None
        if recv is None:
            return cs[0][1]
        if not isinstance(recv, V):
            return None
        rt = recv.ty[1] if recv.ty[0] == "opt" else recv.ty
        best = None
        for r, c in cs:
            if r is None:
                best = best or c
                continue
            t = T.parse(r)
            ex = len(t) > 2 and t[2]
            if ex:
                if rt[0] == "ref" and rt[1] == t[1] and len(rt) > 2 and rt[2]:
                    return c
                if rt[0] == "ref" and rt[1] == t[1] and T.subclasses(t[1]) == [t[1]]:
                    return c
            elif rt[0] == "ref" and T.is_sub(rt[1], t[1]):
                best = c
        return best

    def params(self, node, args, kw, st, fmod):
        a = node.args
        names = [x.arg for x in a.args]
        if a.vararg or a.kwarg or a.kwonlyargs:
            raise Unsupported("variadic function")
        vals = dict(zip(names, args))
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for k, v in kw.items():
            if k not in names or k in vals:
                raise Unsupported("keyword %s" % k)
            vals[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n in names:
            if n not in vals:
                if n not in defs:
                    raise _BadCall("argument %s is given" % n)
                r = self.ev(defs[n], st)
                vals[n] = r[0][1]
        return names, vals

    def inline(self, st, f, args, kw, what, qual):
        if len(self.stack) > 14:
            raise Unsupported("call depth at %s" % what)
        key = qual or id(f.node)
        if any(x[0] == key for x in self.stack):
            raise Unsupported("recursion without a contract: %s" % what)
        names, vals = self.params(f.node, args, kw, st, f.mod)
        fr = {"#mod": f.mod, "#cls": f.cls}
        if f.env is not None:
            fr["#up"] = f.env
        fr.update(vals)
        if qual:
            self.inlined.add(qual)
        depth = len(st.frames)
        mark = len(st.pc)
        st.frames = st.frames + [fr]
        self.stack.append((key, None))
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [(x, "return", v) for x, v in self.ev(f.node.body, st)]
            else:
                outs = self.block(f.node.body, st)
        finally:
            self.stack.pop()
        res = []
        for x, kind, v in outs:
            if kind == "next":
                v = NONE
            elif kind != "return":
                raise Unsupported(kind)
            x.frames = x.frames[:depth]
            res.append((x, v))
        return self.merge(st, mark, res)

    def construct(self, st, f, args, kw, what):
        mod, cls = f.name
        c = self.schema_of(mod, cls)
        if c is None:
            raise Unsupported("class %s is not in the schema" % cls)
        q = self.find_contract("%s:%s.__init__" % (mod, cls), None)
        o = st.alloc("obj", ("ref", c, True))
        init = self.src.find_method(mod, cls, "__init__")
        if init is None:
            return [(st, o)]
        fn = Fn(node=init[2], mod=init[0], cls=(init[0], init[1]), name="__init__", self_=o)
        return [(x, o) for x, _ in self.call(st, fn, args, kw, what)]

    # --- calls through contracts
    def call_contract(self, st, c, args, kw, what):
        self.used.add(c.label)
        if c.trusted:
            self.trusted.add(c.label + ": " + (c.trusted if isinstance(c.trusted, str) else "assumed contract"))
        declared = list(c.args.items())
        if c.recv:
            declared = [("self", c.recv)] + declared
        r = self.src.function(c.fn) if not c.fn.startswith("ext:") else None
        vals = {}
        if r is not None:
            names, pv = self.params(r[2], args, kw, st, r[0])
            if len(names) != len(declared):
                raise Unsupported("parameters of %s changed" % c.fn)
            for n, (dn, ty) in zip(names, declared):
                vals[dn] = pv[n]
        else:
            if kw or len(args) != len(declared):
                raise Unsupported("call of %s" % c.fn)
            for (dn, ty), v in zip(declared, args):
                vals[dn] = v
        for dn, ty in declared:
            t = T.parse(ty)
            vals[dn] = self.adapt(st, vals[dn], t)
        pre = st.fork()
        ctx = Ctx(self, vals, pre, None, None)
        short = c.label
        for nm, f in c.requires(ctx) or ():
            self.obligate(st, "precondition of %s at `%s`: %s" % (short, what, nm), f, "requires")
        mods = list(c.modifies(ctx) or ())
        if st.binders and (mods or not c.pure):
            raise _Allocates()
        if mods:
            byname = {}
            for m, p in mods:
                byname.setdefault(m, []).append(p)
            for m, ps in byname.items():
                if m not in self.map_sorts:
                    self.map_sorts[m] = self.sort_of_map(m)
                M0 = pre.map(m, self.map_sorts[m])
                st.map(m, self.map_sorts[m])
                if st.log is not None:
                    st.log.append((m, None, "call"))
                M1 = st.havoc(m)
                rr = z3.Int(fresh_name("r"))
                ok = disj([p(rr) for p in ps])
                st.fact(FA([rr], Implies(z3.And(owner(rr) < pre.top, neg(ok)), z3.Select(M1, rr) == z3.Select(M0, rr)),
                                  patterns=[z3.Select(M1, rr)]))
        if not c.pure:
            t = self.new_top(st.fresh("top", I))
            st.fact(t >= pre.top)
            st.top = t
            for m, _ in mods:
                n = st.h[m].decl().name()
                st.wf[n] = (m, t)
                self.base[n] = (m, t)
            st.allocated(pre.top)
            self.ddict_facts(st, {m for m, _ in mods} if mods else set())
        ret = T.parse(c.ret) if c.ret else ("none",)
        if ret == ("none",):
            res = NONE
        elif c.result_term is not None:
            res = c.result_term(Ctx(self, vals, pre, st, None))
            self.typed(st, res)
        else:
            res = st.fresh_val("res", ret)
        post = Ctx(self, vals, pre, st, res)
        for nm, f in c.ensures(post) or ():
            st.fact(f)
        for nm, f in c.assumes(post) or ():
            st.fact(f)
            self.background.add("assumed of %s by its callers: %s" % (c.label, nm))
        return [(st, res)]

    def sort_of_map(self, m):
        k, _, rest = m.partition(":")
        if k == "len":
            return AI
        if k in ("mem", "dom"):
            return z3.ArraySort(I, AB)
        if k == "f":
            cls, _, attr = rest.partition(".")
            a, _, path = attr.partition(".") if attr not in T.SCHEMA[cls] else (attr, "", "")
            t = T.SCHEMA[cls][a]
            if path:
                for p, tt in T.flatten(t):
                    if p == "." + path:
                        t = tt
            return z3.ArraySort(I, sort(t))
        if k == "elt":
            return z3.ArraySort(I, AR if rest == "real" else AB if rest == "bool" else AI)
        if k == "val":
            v = rest.rsplit(":", 1)[1]
            return z3.ArraySort(I, AR if v == "real" else AB if v == "bool" else AI)
        if k == "g":
            from contracts.jointree import GM

            return GM[m]
        raise Unsupported("map %s" % m)

    # ------------------------------------------------------------- builtins
    def call_builtin(self, st, f, args, kw, what, node=None):
        name = f.builtin.replace("ext:", "")
        if name.startswith("."):
            return self.container_method(st, f.self_, name[1:], args, kw, what, node)
        m = getattr(self, "bi_" + name.replace(".", "_"), None)
        if m is None:
            if name in ("str.join",):
                return self.container_method(st, args[0], "join", args[1:], kw, what, node)
            raise Unsupported("call of %s" % name)
        r = m(st, args, kw, what, node)
        return r if isinstance(r, list) else [(st, r)]

    def bi_len(self, st, args, kw, what, node):
        v = args[0]
        if isinstance(v, EmptyLit):
            return iv(0)
        if isinstance(v, Tup):
            return iv(len(v.items))
        if isinstance(v, Seq):
            if v.empty:
                return iv(0)
            if v.plain:
                b = v.bounds[0]
                return V(INT, b if nonneg(b) else If(b >= 0, b, 0))
            if len(v.idx) == 1:
                g = self.lam(st, B, lambda i: z3.substitute(v.guard, (v.idx[0], i)))
                return V(INT, CNT(g, v.bounds[0]))
            v = self.materialize(st, v)
        v = self.deref(st, v, what)
        if has_unknown(v.ty):
            return iv(0)
        if v.ty[0] == "list":
            return V(INT, st.len(v.ty, v.t))
        if v.ty[0] == "set":
            n = CARD(st.mem(v.ty, v.t))
            st.fact(n >= 0)
            return V(INT, n)
        if v.ty[0] in ("dict", "ddict"):
            n = CARD(st.dom(v.ty, v.t))
            st.fact(n >= 0)
            return V(INT, n)
        raise Unsupported("len of %s" % (v.ty,))

    def bi_sum(self, st, args, kw, what, node):
        q = self.seq(st, args[0])
        if q.empty:
            return iv(0)
        return self.total(st, q, q.elem)

    def bi_range(self, st, args, kw, what, node):
        i = z3.Int(fresh_name("i"))
        ts = [coerce(a, INT) for a in args]
        if len(ts) == 1:
            return Seq([i], [ts[0]], TRUE, V(INT, i))
        if len(ts) == 2:
            return Seq([i], [z3.simplify(ts[1] - ts[0])], TRUE, V(INT, z3.simplify(ts[0] + i)))
        if len(ts) == 3:
            # range(a, b, s) with s > 0
            self.need(st, "range step is positive", ts[2] > 0)
            n = If(ts[1] > ts[0], (ts[1] - ts[0] + ts[2] - 1) / ts[2], 0)
            return Seq([i], [n], TRUE, V(INT, ts[0] + i * ts[2]))
        raise Unsupported("range")

    def bi_enumerate(self, st, args, kw, what, node):
        q = self.plain(st, args[0])
        if q.empty:
            return q
        return self.like(q, Tup([V(INT, q.idx[0]), q.elem]))

    def like(self, q, elem):
        r = Seq(q.idx, q.bounds, q.guard, elem)
        for a in ("pos", "dom"):
            if hasattr(q, a):
                setattr(r, a, getattr(q, a))
        return r

    def bi_zip(self, st, args, kw, what, node):
        qs = [self.plain(st, a) for a in args]
        if any(q.empty for q in qs):
            return Seq([], [], TRUE, None, ("?", None), empty=True)
        i = z3.Int(fresh_name("i"))
        n = qs[0].bounds[0]
        for q in qs[1:]:
            if not q.bounds[0].eq(n):
                n = If(q.bounds[0] < n, q.bounds[0], n)
        return Seq([i], [n], TRUE, Tup([q.at(i) for q in qs]))

    def bi_list(self, st, args, kw, what, node):
        if not args:
            return EmptyLit(self.site(node))
        v = args[0]
        if isinstance(v, EmptyLit):
            return EmptyLit(v.key)
        return self.seq(st, v)

    def bi_numpy_array(self, st, args, kw, what, node):
        if kw or len(args) != 1:
            raise Unsupported("call of numpy.array")
        r = self.materialize(st, self.seq(st, args[0]))
        if isinstance(r, V) and r.ty[0] == "list" and r.ty[1][0] != "list":
            r = V(r.ty, r.t)
            r.np = True
        return r

    def m_list_flatten(self, st, o, args, kw, what):
        """A rectangular array of rows, row by row."""
        if o.ty[1][0] != "list":
            raise Unsupported("flatten of %s" % (o.ty,))
        rows, e = st.len(o.ty, o.t), o.ty[1]
        n = st.len(e, st.elt(o.ty, o.t, z3.IntVal(0)).t)
        n = If(rows > 0, n, 0)
        i = z3.Int(fresh_name("i"))
        r = st.elt(o.ty, o.t, i)
        self.need(st, "rows of one length: " + what, FA([i], Implies(z3.And(i >= 0, i < rows), st.len(e, r.t) == n), patterns=[r.t]))
        total = rows * n if not z3.is_int_value(z3.simplify(rows)) else z3.simplify(rows * n)
        k = z3.Int(fresh_name("k"))
        a, b = QUO(k, n), RMD(k, n)
        f = Implies(z3.And(k >= 0, k < total), z3.And(a >= 0, a < rows, b >= 0, b < n))
        st.fact(FA([k], f, patterns=[a, b]))
        st.fact(FA([k], Implies(z3.And(k >= 0, k < n), z3.And(a == 0, b == k)), patterns=[a, b]))
        st.fact(total >= 0)
        return Seq([k], [total], TRUE, st.elt(e, st.elt(o.ty, o.t, a).t, b))

    def m_list_cumsum(self, st, o, args, kw, what):
        """Sums of the first elements."""
        if args or kw:
            raise Unsupported("call of cumsum")
        if o.ty[1][0] == "list":
            o = self.materialize(st, self.m_list_flatten(st, o, args, kw, what))
        n, a = st.len(o.ty, o.t), st.elems(o.ty, o.t)[0][1]
        i = z3.Int(fresh_name("i"))
        r = self.materialize(st, Seq([i], [n], TRUE, V(("real",), SUM(a, i + 1))))
        # by definition of the sum: each adds its element
        c, j = st.elems(r.ty, r.t)[0][1], z3.Int(fresh_name("j"))
        st.fact(FA([i, j], Implies(z3.And(i >= 0, j == i + 1, j < n), c[j] == c[i] + a[j]), patterns=[(c[i], c[j])]))
        return r

    def bi_bisect_bisect(self, st, args, kw, what, node):
        """The number of elements of a sorted list that are at most x."""
        if kw or len(args) != 2:
            raise Unsupported("call of bisect")
        self.trusted.add("bisect.bisect: insertion point after equal elements")
        l = self.choose(st, args[0], ("list",), what)
        l = self.materialize(st, self.seq(st, l)) if isinstance(l, Seq) else l
        n, a = st.len(l.ty, l.t), st.elems(l.ty, l.t)[0][1]
        x = coerce(args[1], l.ty[1])
        j = z3.Int(fresh_name("j"))
        self.need(st, "sorted: " + what, FA([j], Implies(z3.And(j >= 0, j + 1 < n), a[j] <= a[j + 1]), patterns=[a[j]]))
        k = st.fresh("ins", I)
        st.fact(z3.And(k >= 0, k <= n))
        st.fact(FA([j], Implies(z3.And(j >= 0, j < k), a[j] <= x), patterns=[a[j]]))
        st.fact(FA([j], Implies(z3.And(j >= k, j < n), a[j] > x), patterns=[a[j]]))
        return V(INT, k)

    bi_tuple = bi_list
    bi_iter = bi_list

    def bi_reversed(self, st, args, kw, what, node):
        q = self.plain(st, args[0])
        i = z3.Int(fresh_name("i"))
        return Seq([i], q.bounds, TRUE, q.at(q.bounds[0] - 1 - i)) if not q.empty else q

    def bi_set(self, st, args, kw, what, node):
        if not args or isinstance(args[0], EmptyLit):
            key = self.site(node)
            t = self.littypes.get(key, ("set", ("?", key)))
            if has_unknown(t):
                return V(t, st.alloc("set", t).t)
            return self.new_set(st, t, z3.K(I, FALSE))
        v = args[0]
        if isinstance(v, V) and v.ty[0] == "set":
            return self.new_set(st, v.ty, st.mem(v.ty, v.t))
        q = self.seq(st, v)
        if q.empty:
            return self.bi_set(st, [], kw, what, node)
        return self.to_set(st, q)

    def bi_dict(self, st, args, kw, what, node):
        if not args:
            return self.new_dict(st, node)
        v = args[0]
        if isinstance(v, V) and v.ty[0] == "dict":
            r = st.alloc("dict", v.ty)
            st.set_dom(v.ty, r.t, st.dom(v.ty, v.t))
            for (p, t), (_, a) in zip(T.flatten(v.ty[2]), st.dvals(v.ty, v.t)):
                st.put("val:%s:%s%s" % (T.key(v.ty[1]), T.key(v.ty[2]), p), z3.ArraySort(I, z3.ArraySort(I, sort(t))), r.t, a)
            return r
        raise Unsupported("dict(...)")

    def bi_defaultdict(self, st, args, kw, what, node):
        key = self.site(node)
        t = self.littypes.get(key)
        if t is None:
            t = ("ddict", ("?", key), ("?", key))
            return V(t, st.alloc("dict", t).t)
        return self.alloc_dict(st, t)

    bi_collections_defaultdict = bi_defaultdict

    def bi_isinstance(self, st, args, kw, what, node):
        v, c = args
        v = self.deref(st, v, what) if isinstance(v, V) and v.ty[0] != "opt" else v
        if not isinstance(c, Cls):
            raise Unsupported("isinstance")
        s = self.schema_of(*c.name)
        if s is None or not isinstance(v, V):
            raise Unsupported("isinstance of %s" % (c.name,))
        if v.ty[0] == "opt":
            return bv(z3.And(v.t != 0, is_class(v.t, s)))
        if v.ty[0] != "ref":
            return bv(FALSE)
        if len(v.ty) > 2 and v.ty[2]:
            return bv(z3.BoolVal(T.is_sub(v.ty[1], s)))
        if T.is_sub(v.ty[1], s):
            return bv(TRUE)
        return bv(is_class(v.t, s))

    def bi_str(self, st, args, kw, what, node):
        v = args[0]
        if isinstance(v, V) and v.ty[0] == "atom":
            return v
        return self.format(st, "{}", [v])

    def bi_int(self, st, args, kw, what, node):
        v = args[0]
        if isinstance(v, V) and v.ty[0] == "int":
            return v
        raise Unsupported("int()")

    def bi_float(self, st, args, kw, what, node):
        v = args[0]
        if isinstance(v, V) and v.ty[0] in ("int", "real"):
            return V(REAL, coerce(v, REAL))
        raise Unsupported("float()")

    def bi_abs(self, st, args, kw, what, node):
        v = args[0]
        return V(v.ty, If(v.t >= 0, v.t, -v.t))

    def minmax(self, st, args, gt):
        if len(args) < 2:
            raise Unsupported("min/max of a sequence")
        r = args[0]
        for a in args[1:]:
            ty = join_ty(r.ty, a.ty)
            x, y = coerce(r, ty), coerce(a, ty)
            r = V(ty, If(y > x if gt else y < x, y, x))
        return r

    def bi_min(self, st, args, kw, what, node):
        return self.minmax(st, args, False)

    def bi_max(self, st, args, kw, what, node):
        return self.minmax(st, args, True)

    def bi_any(self, st, args, kw, what, node):
        q = self.seq(st, args[0])
        if q.empty:
            return bv(FALSE)
        return bv(z3.Exists(list(q.idx), z3.And(q.range(), self.truth(st, q.elem))))

    def bi_all(self, st, args, kw, what, node):
        q = self.seq(st, args[0])
        if q.empty:
            return bv(TRUE)
        return bv(FA(list(q.idx), Implies(q.range(), self.truth(st, q.elem))))

    def mapped(self, st, fn, q, want=1):
        """fn applied to the element of q in binder mode: the resulting value."""
        mark = len(st.pc)
        nb = list(st.binders)
        top0, h0 = st.top, dict(st.h)
        st.binders = nb + list(q.idx)
        st.pc.append(("b", q.range()))
        rs = self.call(st, fn, [q.elem], {}, "key function")
        rs = self.merge(st, mark + 1, rs)
        if len(rs) != 1:
            raise Unsupported("function argument with effects")
        y, v = rs[0]
        if y is not st:
            raise Unsupported("function argument with effects")
        if not y.top.eq(top0):
            raise Unsupported("allocating function argument")
        facts, bs = [], []
        for kd, f in y.pc[mark:]:
            if kd == "b":
                bs.append(f)
            else:
                facts.append(Implies(conj(bs), f))
        y.pc = y.pc[:mark] + [("f", FA(list(q.idx), f)) for f in dedupe(facts)]
        y.binders = nb
        return v

    def bi_map(self, st, args, kw, what, node):
        q = self.seq(st, args[1])
        if q.empty:
            return q
        return Seq(q.idx, q.bounds, q.guard, self.mapped(st, args[0], q))

    def bi_filter(self, st, args, kw, what, node):
        q = self.seq(st, args[1])
        if q.empty:
            return q
        c = self.truth(st, self.mapped(st, args[0], q))
        return Seq(q.idx, q.bounds, conj([q.guard, c]), q.elem)

    def bi_sorted(self, st, args, kw, what, node):
        self.trusted.add("sorted: stable ordered permutation")
        v = args[0]
        if isinstance(v, EmptyLit):
            return EmptyLit(self.site(node))
        q = self.plain(st, v)
        if q.empty:
            return q
        key = kw.get("key")
        rev = "reverse" in kw and z3.is_true(z3.simplify(kw["reverse"].t))
        ks = self.mapped(st, key, q) if key is not None else q.elem
        parts = leaves_of(ks)
        n = q.bounds[0]
        bs = st.binders
        perm = z3.Function(fresh_name("perm"), *[b.sort() for b in bs], I, I)
        inv = z3.Function(fresh_name("perminv"), *[b.sort() for b in bs], I, I)
        P, Q = (lambda i: perm(*bs, i)), (lambda i: inv(*bs, i))
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        st.fact(FA([i], Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Q(P(i)) == i)), patterns=[P(i)]))
        st.fact(FA([i], Implies(z3.And(i >= 0, i < n), z3.And(Q(i) >= 0, Q(i) < n, P(Q(i)) == i)), patterns=[Q(i)] + self.elem_pats(q, [i])))

        def le(a, b):
            # lexicographic order of the key parts; equal keys keep their order
            r = a < b
            for p in reversed(parts):
                x, y = z3.substitute(p.t, (q.idx[0], a)), z3.substitute(p.t, (q.idx[0], b))
                if rev:
                    r = z3.Or(x > y, z3.And(x == y, r))
                else:
                    r = z3.Or(x < y, z3.And(x == y, r))
            return r

        st.fact(FA([i, j], Implies(z3.And(i >= 0, i < j, j < n), le(P(i), P(j))), patterns=[(P(i), P(j))]))
        k = z3.Int(fresh_name("i"))
        return Seq([k], [n], TRUE, q.at(P(k)))

    def bi_functools_reduce(self, st, args, kw, what, node):
        f = args[0]
        mul = isinstance(f, Fn) and (f.builtin == "operator.mul" or isinstance(f.node, ast.Lambda)
                                     and isinstance(f.node.body, ast.BinOp) and isinstance(f.node.body.op, ast.Mult)
                                     and {ast.unparse(f.node.body.left), ast.unparse(f.node.body.right)} == {a.arg for a in f.node.args.args})
        if not mul:
            raise Unsupported("reduce with another function than a product")
        q = self.seq(st, args[1])
        if q.empty:
            if len(args) > 2:
                return args[2]
            raise Unsupported("reduce of an empty sequence")
        if len(q.idx) != 1 or not q.plain:
            q = self.plain(st, q)
        if len(args) < 3:
            self.need(st, "reduce of a non-empty sequence", q.bounds[0] > 0)
        real = q.elem.ty[0] == "real"
        a = self.lam(st, R if real else I, lambda i: z3.substitute(q.elem.t, (q.idx[0], i)))
        p = (PROD if real else PRODI)(a, q.bounds[0])
        return V(REAL if real else INT, p)

    def bi_itertools_combinations(self, st, args, kw, what, node):
        self.trusted.add("itertools.combinations")
        if not z3.is_int_value(z3.simplify(args[1].t)) or z3.simplify(args[1].t).as_long() != 2:
            raise Unsupported("combinations")
        q = self.plain(st, args[0])
        i, j = z3.Int(fresh_name("i")), z3.Int(fresh_name("j"))
        n = q.bounds[0]
        return Seq([i, j], [n, n], i < j, Tup([q.at(i), q.at(j)]))

    def bi_next(self, st, args, kw, what, node):
        q = self.seq(st, args[0])
        if q.empty or len(q.idx) != 1:
            raise Unsupported("next")
        k = st.fresh("first", I)
        j = z3.Int(fresh_name("j"))
        self.need(st, "an element exists: " + what, z3.Exists([j], q.range([j])))
        st.fact(q.range([k]))
        st.fact(FA([j], Implies(z3.And(j >= 0, j < k), Not(q.range([j])))))
        return q.at(k)

    def bi_print(self, st, args, kw, what, node):
        return NONE

    # ----------------------------------------------------- container methods
    def container_method(self, st, o, m, args, kw, what, node):
        if isinstance(o, _Appender):
            raise _NotAuto()
        if isinstance(o, (Seq, EmptyLit)) and m in ("append", "extend", "sort", "remove", "pop", "insert"):
            raise Unsupported("mutation of a temporary list")
        if isinstance(o, (Seq, EmptyLit)):
            o = self.materialize(st, o)
        if isinstance(o, V) and o.ty[0] == "atom":
            if m == "join":
                return [(st, self.join(st, o, args[0]))]
            if m == "format":
                return [(st, self.format(st, "{}" * len(args) if o.lit is None else o.lit, args))]
            raise Unsupported("str.%s" % m)
        o = self.deref(st, o, what)
        f = getattr(self, "m_%s_%s" % ({"ddict": "dict"}.get(o.ty[0], "rec" if o.ty[0] == "ref" else o.ty[0]), m), None)
        if f is None:
            raise Unsupported("%s.%s" % (o.ty[0], m))
        r = f(st, o, args, kw, what)
        return r if isinstance(r, list) else [(st, r)]

    def join(self, st, sep, v):
        q = self.plain(st, v)
        if q.empty:
            return V(ATOM, atom(""), "")
        a = self.lam(st, I, lambda i: z3.substitute(q.elem.t, (q.idx[0], i)))
        return V(ATOM, JOIN(sep.t, a, q.bounds[0]))

    def m_list_append(self, st, o, args, kw, what):
        v = args[0]
        o = self.known(st, o, lambda: ("list", widen(v.ty)))
        v = self.adapt(st, v, o.ty[1])
        n = st.len(o.ty, o.t)
        arrs = [z3.Store(a, n, coerce(x, t)) for (t, a), x in zip(st.elems(o.ty, o.t), leaves_of(v))]
        st.set_list(o.ty, o.t, simp(n + 1), arrs)
        return NONE

    def m_list_extend(self, st, o, args, kw, what):
        q = self.plain(st, args[0])
        if q.empty:
            return NONE
        o = self.known(st, o, lambda: ("list", widen(q.ety)))
        n, m = st.len(o.ty, o.t), q.bounds[0]
        e = self.adapt_elem(st, q, o.ty[1])
        arrs = []
        for (t, a), lv in zip(st.elems(o.ty, o.t), leaves_of(e)):
            arrs.append(self.lam(st, sort(t), lambda i, a=a, lv=lv, t=t: If(i < n, z3.Select(a, i), z3.substitute(coerce(lv, t), (q.idx[0], i - n)))))
        st.set_list(o.ty, o.t, n + m, arrs)
        return NONE

    def m_list_sort(self, st, o, args, kw, what):
        q = self.bi_sorted(st, [o], kw, what, None)
        r = self.materialize(st, q)
        st.set_list(o.ty, o.t, st.len(r.ty, r.t), [a for _, a in st.elems(r.ty, r.t)])
        return NONE

    def m_list_remove(self, st, o, args, kw, what):
        """Removes the first occurrence."""
        v = self.adapt(st, args[0], o.ty[1])
        n = st.len(o.ty, o.t)
        p = st.fresh("rm", I)
        j = z3.Int(fresh_name("j"))
        self.need(st, "element present: " + what, z3.Exists([j], z3.And(j >= 0, j < n, self.equal(st, st.elt(o.ty, o.t, j), v))))
        st.fact(z3.And(p >= 0, p < n, self.equal(st, st.elt(o.ty, o.t, p), v)))
        st.fact(FA([j], Implies(z3.And(j >= 0, j < p), Not(self.equal(st, st.elt(o.ty, o.t, j), v)))))
        arrs = []
        for t, a in st.elems(o.ty, o.t):
            b = self.lam(st, sort(t), lambda i, a=a: If(i < p, z3.Select(a, i), z3.Select(a, i + 1)))
            # later elements move up by one
            st.fact(FA([j], Implies(z3.And(j > p, j < n), z3.Select(b, j - 1) == z3.Select(a, j)), patterns=[z3.Select(a, j)]))
            arrs.append(b)
        st.set_list(o.ty, o.t, n - 1, arrs)
        return NONE

    def m_set_add(self, st, o, args, kw, what):
        o = self.known(st, o, lambda: ("set", widen(args[0].ty)))
        k = coerce(self.adapt(st, args[0], o.ty[1]), o.ty[1])
        st.set_mem(o.ty, o.t, z3.Store(st.mem(o.ty, o.t), k, TRUE))
        return NONE

    def m_set_remove(self, st, o, args, kw, what):
        k = coerce(self.adapt(st, args[0], o.ty[1]), o.ty[1])
        self.need(st, "element present: " + what, z3.Select(st.mem(o.ty, o.t), k))
        st.set_mem(o.ty, o.t, z3.Store(st.mem(o.ty, o.t), k, FALSE))
        return NONE

    def m_set_discard(self, st, o, args, kw, what):
        k = coerce(self.adapt(st, args[0], o.ty[1]), o.ty[1])
        st.set_mem(o.ty, o.t, z3.Store(st.mem(o.ty, o.t), k, FALSE))
        return NONE

    def as_pred(self, st, v):
        """Membership predicate of any iterable."""
        if isinstance(v, V) and v.ty[0] == "set" and not has_unknown(v.ty):
            a = st.mem(v.ty, v.t)
            return lambda x: z3.Select(a, x)
        q = self.seq(st, v)
        if q.empty:
            return lambda x: FALSE
        el = coerce(q.elem, widen(q.elem.ty))
        return lambda x: z3.Exists(list(q.idx), z3.And(q.range(), el == x))

    def m_set_issuperset(self, st, o, args, kw, what):
        p = self.as_pred(st, args[0])
        a = st.mem(o.ty, o.t)
        x = z3.Int(fresh_name("x"))
        return bv(FA([x], Implies(p(x), z3.Select(a, x))))

    def m_set_issubset(self, st, o, args, kw, what):
        p = self.as_pred(st, args[0])
        a = st.mem(o.ty, o.t)
        x = z3.Int(fresh_name("x"))
        return bv(FA([x], Implies(z3.Select(a, x), p(x))))

    def m_dict_items(self, st, o, args, kw, what):
        if has_unknown(o.ty):
            return Seq([], [], TRUE, None, ("?", None), empty=True)
        q = self.seq(st, o)
        k = q.elem
        return self.like(q, Tup([k, st.dval(o.ty, o.t, k.t)]))

    def m_dict_keys(self, st, o, args, kw, what):
        return self.seq(st, o)

    def m_dict_values(self, st, o, args, kw, what):
        if has_unknown(o.ty):
            return Seq([], [], TRUE, None, ("?", None), empty=True)
        q = self.seq(st, o)
        return self.like(q, st.dval(o.ty, o.t, q.elem.t))

    def m_dict_get(self, st, o, args, kw, what):
        if o.ty[0] != "dict":
            raise Unsupported("defaultdict.get")
        k = coerce(self.adapt(st, args[0], o.ty[1]), o.ty[1])
        v = st.dval(o.ty, o.t, k)
        d = args[1] if len(args) > 1 else NONE
        if not occurs_any(st.binders, k):
            for f in st.typed_facts(v):
                st.fact(Implies(z3.Select(st.dom(o.ty, o.t), k), f))
        r = join_val(z3.Select(st.dom(o.ty, o.t), k), v, d)
        if r is None:
            raise Unsupported("dict.get default")
        return r

    def m_dict_pop(self, st, o, args, kw, what):
        k = coerce(self.adapt(st, args[0], o.ty[1]), o.ty[1])
        d = st.dom(o.ty, o.t)
        if len(args) < 2:
            self.need(st, "key present: " + what, z3.Select(d, k))
        v = None if o.ty[0] == "ddict" else st.dval(o.ty, o.t, k)
        st.set_dom(o.ty, o.t, z3.Store(d, k, FALSE))
        if o.ty[0] == "ddict":
            st.set_mem(o.ty[2], PH(o.t, k), z3.K(I, FALSE))
            return NONE
        if len(args) < 2:
            return v
        r = join_val(z3.Select(d, k), v, args[1])
        return r if r is not None else NONE

    def m_rec_pop(self, st, o, args, kw, what):
        k = self.lit(args[0])
        if T.field_type(o.ty[1], k) is None:
            raise Unsupported("record key %s" % k)
        if len(args) < 2:
            self.need(st, "key present: " + what, st.fget(o.ty[1], "has:" + k, o.t).t)
        st.fput(o.ty[1], "has:" + k, o.t, bv(FALSE))
        return NONE


class ViewOf(V):
    """A collection that may also be called, with no arguments, for itself (networkx views)."""
    __slots__ = ()


class _BadCall(Unsupported):
    """A call with a missing argument."""


class _Allocates(Unsupported):
    def __init__(self, *a):
        super().__init__(*a)
        import os, traceback
        if os.environ.get("PYVC_TRACE"):
            traceback.print_stack(limit=8)

    """The element of a comprehension allocates."""


def occurs_any(xs, t):
    return any(occurs(x, t) for x in xs)


def trig(t, js):
    """A trigger for forall js: t mentions all indices, or None."""
    if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_SELECT) and all(occurs(j, t) for j in js):
        return t
    return None
