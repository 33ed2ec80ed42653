"""Symbolic execution of the real functions; generates the proof obligations."""
import ast

import z3

from . import types as T
NTH = z3.Function("nth_true", z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.IntSort(), z3.IntSort(), z3.IntSort())   # position of the j-th true of g[0..n)
from .core import (NULLI, SHAPE, null, AB, FA, AI, AR, B, CARD, CNT, I, JOIN, PH, PHD, PHK, PROD, PRODI, R, STR, SUM, SUMI, TYP, And, Cls, EmptyLit, Fn,
                   If, Implies, Mod, Not, Or, Refs, Seq, State, Tup, Unsupported, V, View, atom, build, coerce, fresh_name, is_class,
                   leaves_of, owner, reset, simp, sort, subst, tag, view)
from .source import Source, decorators

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
NONE = V(("none",), z3.IntVal(0))
INT, REAL, BOOL, ATOM = ("int",), ("real",), ("bool",), ("atom",)


class Retry(Exception):
    """The type of an empty literal became known; run the function again."""


class Dead(Exception):
    """The current path cannot continue."""


def iv(n):
    return V(INT, z3.IntVal(n))


def bv(b):
    return V(BOOL, b)


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return TRUE
    return xs[0] if len(xs) == 1 else z3.And(xs)


def disj(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return FALSE
    return xs[0] if len(xs) == 1 else z3.Or(xs)


def neg(x):
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


def isnum(ty):
    return ty[0] in ("int", "real", "bool", "atom")


def scalar(v):
    return isinstance(v, V)


def join_ty(a, b):
    if a == b:
        return a
    if a[0] == "none" and b[0] != "none":
        return join_ty(b, a)
    if b[0] == "none":
        if a[0] == "opt":
            return a
        if T.is_heap(a):
            return ("opt", a)
        return None
    if a[0] == "opt" or b[0] == "opt":
        x = a[1] if a[0] == "opt" else a
        y = b[1] if b[0] == "opt" else b
        j = join_ty(x, y)
        return j and ("opt", j)
    if isnum(a) and isnum(b):
        for k in ("real", "int", "atom", "bool"):
            if k in (a[0], b[0]):
                return (k,)
    if a[0] == "ref" and b[0] == "ref":
        if T.is_sub(a[1], b[1]):
            return ("ref", b[1], False)
        if T.is_sub(b[1], a[1]):
            return ("ref", a[1], False)
        c = a[1]
        while c and not T.is_sub(b[1], c):
            c = T.BASES.get(c)
        return ("ref", c, False) if c else None
    if a[0] == b[0] and len(a) == len(b) and a[0] in ("list", "set", "dict", "ddict") and T.key(a) == T.key(b):
        return a
    if a[0] == b[0] == "enum" and a == b:
        return a
    return None


def join_val(cond, a, b):
    """value of `a if cond else b`; None when they cannot be merged."""
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        xs = [join_val(cond, x, y) for x, y in zip(a.items, b.items)]
        return None if any(x is None for x in xs) else Tup(xs)
    if isinstance(a, V) and isinstance(b, V):
        ty = join_ty(a.ty, b.ty)
        if ty is None:
            return None
        if a.t.eq(b.t):
            return V(ty, a.t)
        try:
            return V(ty, z3.If(cond, coerce(V(ty, a.t), ty), coerce(V(ty, b.t), ty)))
        except Unsupported:
            return None
    if isinstance(a, Seq) and isinstance(b, EmptyLit) and a.plain:
        return Seq(a.idx, [z3.If(cond, a.bounds[0], 0)], TRUE, a.elem)
    if isinstance(b, Seq) and isinstance(a, EmptyLit) and b.plain:
        return Seq(b.idx, [z3.If(cond, 0, b.bounds[0])], TRUE, b.elem)
    if isinstance(a, Seq) and isinstance(b, EmptyLit) and not a.empty:
        return Seq(a.idx, a.bounds, conj([a.guard, cond]), a.elem)
    if isinstance(b, Seq) and isinstance(a, EmptyLit) and not b.empty:
        return Seq(b.idx, b.bounds, conj([b.guard, neg(cond)]), b.elem)
    if a is b:
        return a
    return None


class Ob:
    """A proof obligation."""

    def __init__(self, fn, name, hyps, goal, wf, kind, prio=0):
        self.fn, self.name, self.hyps, self.goal, self.wf, self.kind = fn, name, hyps, goal, wf, kind


class Engine(Refs):
    def __init__(self, src, contracts, opts=None):
        self.src = src
        self.contracts = contracts           # (qual, recv or None) -> contract
        self.by_qual = {}
        for (q, r), c in contracts.items():
            self.by_qual.setdefault(q, []).append((r, c))
        self.littypes = {}
        self.trusted = set()
        self.background = set()
        self.inlined = set()
        self.opts = opts or {}
        self.start()

    def start(self):
        self.obs = []
        self.map_sorts = {}
        self.base = {}
        self.quiet = 0
        self.refs_start()
        self.top0 = self.new_top(z3.Int("top0"))
        self.stack = []
        self.loop_no = 0
        self.lams = {}
        self.names = {}
        self.cover = []
        self.used = set()

    # ------------------------------------------------------------ utilities
    def obligate(self, st, name, goal, kind="safety"):
        goal = z3.simplify(goal) if not z3.is_quantifier(goal) else goal
        if z3.is_true(goal):
            return
        if self.quiet == 0:
            self.obs.append(Ob(self.cur, "%s: %s" % (self.cur, name), st.formulas(), goal, dict(st.wf), kind))

    def claims(self, st, prefix, items, kind):
        """Obligations; those marked ! may be used by the ones that follow."""
        for nm, f in items:
            self.obligate(st, prefix + nm.lstrip("!"), f, kind)
            if nm[0] == "!":
                st.fact(f)

    def entailed(self, st, f):
        """f follows from the quantifier-free path facts (a cheap check, used only to simplify terms)."""
        s = z3.Solver()
        s.set("rlimit", 300000)
        for g in st.formulas():
            if not has_quant(g):
                s.add(g)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def need(self, st, name, goal):
        """A run-time error is excluded: obligation, then assumption."""
        self.obligate(st, name, goal)
        st.fact(goal)

    def lam(self, st, srt, f):
        """array a with a[i] = f(i); equal bodies share the array."""
        i = z3.Int("i!lam%d" % self.lamdepth)
        self.lamdepth += 1
        try:
            body = f(i)
        finally:
            self.lamdepth -= 1
        if body.sort() == I and srt == R:
            body = z3.ToReal(body)
        if z3.is_select(body) and body.arg(1).eq(i) and not occurs(i, body.arg(0)):
            return body.arg(0)
        bs = [b for b in st.binders if occurs(b, body)]
        # canonical names for the binders
        can = [z3.Const("b!lam%d" % n, b.sort()) for n, b in enumerate(bs)]
        cb = z3.substitute(body, *zip(bs, can)) if bs else body
        k = (cb.sexpr(), str(srt))
        if k not in self.lams:
            n = fresh_name("lam")
            if bs:
                a = z3.Function(n, *[b.sort() for b in bs], z3.ArraySort(I, srt))
            else:
                a = z3.Const(n, z3.ArraySort(I, srt))
            app = a(*can) if bs else a
            ax = FA(can + [i], z3.Select(app, i) == cb, patterns=[z3.Select(app, i)] + index_terms(cb, i, can)[:3])
            self.lams[k] = (a, ax, bool(bs))
        a, ax, par = self.lams[k]
        self.lamax[(a.name() if par else a.decl().name())] = ax
        return a(*bs) if par else a

    lamax = {}
    lamdepth = 0

    # merge outcomes that left the heap alone
    def merge(self, st0, mark, outs):
        if getattr(self.contract, "paths", False) and not st0.binders:
            return outs
        """outs: [(state, value)] forked from st0 (whose pc had length mark)."""
        if len(outs) <= 1:
            return outs
        groups = []
        for st, v in outs:
            for g in groups:
                if self.same_heap(g[0][0], st):
                    g.append((st, v))
                    break
            else:
                groups.append([(st, v)])
        res = []
        for g in groups:
            res += self.merge_group(mark, g)
        return res

    def same_heap(self, a, b):
        if not a.top.eq(b.top) or len(a.frames) != len(b.frames):
            return False
        for k in set(a.h) | set(b.h):
            x, y = a.map(k, self.map_sorts[k]), b.map(k, self.map_sorts[k])
            if not x.eq(y):
                return False
        return True

    def merge_group(self, mark, g):
        if len(g) == 1:
            return g
        # the branch conditions must be pairwise exclusive: they are, being forks
        st, v = g[-1]
        base = st.fork()
        base.pc = base.pc[:mark]
        conds = []
        facts = []
        for s, _ in g:
            bs = []
            for kind, f in s.pc[mark:]:
                if kind == "b":
                    bs.append(f)
                else:
                    facts.append(Implies(conj(bs), f) if bs else f)
            conds.append(conj(bs))
        val = g[-1][1]
        for (s, x), c in list(zip(g, conds))[:-1][::-1]:
            val = join_val(c, x, val) if not (val is None and x is None) else None
            if val is None and not (x is None):
                return g
        # local variables that differ
        envs = [s.frames for s, _ in g]
        frames = []
        for lvl in range(len(envs[0])):
            d = {}
            for k in envs[0][lvl]:
                if not all(k in e[lvl] for e in envs):
                    continue
                x = envs[-1][lvl][k]
                for e, c in list(zip(envs, conds))[:-1][::-1]:
                    y = e[lvl][k]
                    if y is x:
                        continue
                    x = join_val(c, y, x)
                    if x is None:
                        return g
                d[k] = self.named(base, x)
            frames.append(d)
        seen = set()
        for f in facts:
            i = f.get_id()
            if i not in seen:
                seen.add(i)
                base.pc.append(("f", f))
        d = disj(conds)
        base.pc.append(("b" if not all(z3.is_true(c) for c in conds) else "f", simp_or(conds, d)))
        base.frames = frames
        for s, _ in g:
            for k, w in s.wf.items():
                base.wf.setdefault(k, w)
        for s, _ in g:
            for k, m in s.h.items():
                base.h.setdefault(k, m)
        val = self.named(base, val)
        return [(base, val)]

    def named(self, st, v):
        """Conditional references get a name, so that triggers can mention them."""
        if isinstance(v, Tup):
            return Tup([self.named(st, x) for x in v.items])
        if isinstance(v, V) and T.is_heap(v.ty) and z3.is_app_of(v.t, z3.Z3_OP_ITE):
            k = v.t.get_id()
            if k not in self.names:
                t = st.fresh("m", I)
                self.names[k] = (v.t, t)
                bs = []
                todo = [v.t]
                while todo:
                    x = todo.pop()
                    if z3.is_app_of(x, z3.Z3_OP_ITE):
                        todo += [x.arg(1), x.arg(2)]
                    else:
                        bs.append(self.bound(x))
                if all(b is not None for b in bs):
                    self.bnd[t.get_id()] = (t, max(bs))
            t = self.names[k][1]
            st.fact(t == v.t)
            return V(v.ty, t)
        return v

    # ----------------------------------------------------------- statements
    def block(self, stmts, st):
        """[(state, kind, value)]"""
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in cur:
                for y, kind, v in self.stmt(s, x):
                    if kind == "next":
                        nxt.append(y)
                    else:
                        done.append((y, kind, v))
            cur = nxt
            if len(cur) + len(done) > 200:
                raise Unsupported("too many paths")
            if not cur:
                break
        return done + [(x, "next", None) for x in cur]

    def stmt(self, s, st):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return [(st, "next", None)]
            return [(x, "next", None) for x, _ in self.ev(s.value, st)]
        if isinstance(s, ast.Pass):
            return [(st, "next", None)]
        if isinstance(s, ast.Return):
            if s.value is None:
                return [(st, "return", NONE)]
            return [(x, "return", v) for x, v in self.ev(s.value, st)]
        if isinstance(s, ast.Break):
            return [(st, "break", None)]
        if isinstance(s, ast.Continue):
            return [(st, "continue", None)]
        if isinstance(s, ast.Assign):
            out = []
            for x, v in self.ev(s.value, st):
                if isinstance(s.value, ast.Name) and isinstance(v, Seq):
                    v = self.materialize(x, v)
                    x.env[s.value.id] = v
                ys = [x]
                for t in s.targets:
                    ys = [z for y in ys for z in self.assign(t, v, y)]
                out += [(y, "next", None) for y in ys]
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [(st, "next", None)]
            return [(y, "next", None) for x, v in self.ev(s.value, st) for y in self.assign(s.target, v, x)]
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(as_load(s.target), s.target)
            e = ast.BinOp(left=load, op=s.op, right=s.value)
            ast.copy_location(e, s)
            ast.fix_missing_locations(e)
            return [(y, "next", None) for x, v in self.ev(e, st) for y in self.assign(s.target, v, x)]
        if isinstance(s, ast.If):
            out = []
            mark = len(st.pc)
            for x, c in self.cond(s.test, st):
                for y, val in self.split(x, c):
                    out += self.block(s.body if val else s.orelse, y)
            return self.merge_next(st, mark, out)
        if isinstance(s, ast.For):
            return self.for_loop(s, st)
        if isinstance(s, ast.While):
            return self.while_loop(s, st)
        if isinstance(s, (ast.FunctionDef,)):
            st.env[s.name] = Fn(node=s, env=len(st.frames) - 1, mod=self.curmod(st), cls=st.env.get("#cls"), name=s.name)
            return [(st, "next", None)]
        if isinstance(s, ast.Assert):
            out = []
            for x, c in self.cond(s.test, st):
                self.need(x, "assert " + ast.unparse(s.test), c)
                out.append((x, "next", None))
            return out
        if isinstance(s, ast.Raise):
            self.obligate(st, "raise not reached: " + ast.unparse(s)[:60], FALSE)
            return []
        if isinstance(s, ast.Try):
            # run-time errors in the body are proof obligations, so no handler is reached
            if s.finalbody:
                raise Unsupported("finally")
            return self.block(s.body + s.orelse, st)
        if isinstance(s, ast.Delete):
            raise Unsupported("del")
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            raise Unsupported(type(s).__name__)
        raise Unsupported(type(s).__name__)

    def merge_next(self, st, mark, outs):
        nx = [(x, V(INT, z3.IntVal(0))) for x, k, _ in outs if k == "next"]
        rest = [o for o in outs if o[1] != "next"]
        if len(nx) > 1 and all(len(x.pc) >= mark for x, _ in nx):
            # merge only when cheap: same heap
            nx = self.merge(st, mark, nx)
        rt = [(x, v) for x, k, v in rest if k == "return"]
        if len(rt) > 1:
            rest = [o for o in rest if o[1] != "return"] + [(x, "return", v) for x, v in self.merge(st, mark, rt)]
        return rest + [(x, "next", None) for x, _ in nx]

    def split(self, st, c):
        """Fork on a condition."""
        c = z3.simplify(c) if not has_quant(c) else c
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        for k, f in st.pc:
            if f.eq(c):
                return [(st, True)]
            if f.eq(neg(c)):
                return [(st, False)]
        a, b = st, st.fork()
        a.branch(c)
        b.branch(neg(c))
        return [(a, True), (b, False)]

    # ---------------------------------------------------------- assignment
    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(st, v, len(t.elts))
            ys = [st]
            for e, x in zip(t.elts, items):
                ys = [z for y in ys for z in self.assign(e, x, y)]
            return ys
        if isinstance(t, ast.Attribute):
            out = []
            for x, o in self.ev(t.value, st):
                o = self.deref(x, o, ast.unparse(t))
                if not (isinstance(o, V) and o.ty[0] == "ref"):
                    raise Unsupported("attribute store on %s" % (o.ty,))
                if o.ty[1] not in T.RECORDS:
                    o = self.narrow(x, o, t.attr, ast.unparse(t))
                fty = T.field_type(o.ty[1], t.attr)
                if fty is None:
                    raise Unsupported("field %s.%s not in the schema" % (o.ty[1], t.attr))
                x.fput(o.ty[1], t.attr, o.t, self.adapt(x, v, fty))
                out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, o in self.ev(t.value, st):
                for y, i in self.ev(t.slice, x):
                    self.store_item(y, self.deref(y, o, ast.unparse(t)), i, v, ast.unparse(t))
                    out.append(y)
            return out
        raise Unsupported("assignment target")

    def unpack(self, st, v, n):
        if isinstance(v, Tup):
            if len(v.items) != n:
                raise Unsupported("unpack size")
            return v.items
        if isinstance(v, Seq) and v.plain:
            self.need(st, "unpack of %d" % n, v.bounds[0] == n)
            if getattr(v, "shift", None):
                return [v.shift[0].at(z3.simplify(v.shift[1] + i)) for i in range(n)]
            return [v.at(z3.IntVal(i)) for i in range(n)]
        if isinstance(v, Seq):
            v = self.materialize(st, v)
        if isinstance(v, V) and v.ty[0] == "list":
            self.need(st, "unpack of %d" % n, st.len(v.ty, v.t) == n)
            return [st.elt(v.ty, v.t, z3.IntVal(i)) for i in range(n)]
        raise Unsupported("unpack of %s" % (v.ty,))

    def store_item(self, st, o, i, v, what):
        if o.ty[0] == "ref" and o.ty[1] in T.RECORDS:
            k = self.lit(i)
            st.fput(o.ty[1], k, o.t, self.adapt(st, v, T.field_type(o.ty[1], k)))
            st.fput(o.ty[1], "has:" + k, o.t, bv(TRUE))
            return
        o = self.known(st, o, lambda: ("dict", self.vty(i), self.vty(v)))
        if o.ty[0] == "list":
            n = st.len(o.ty, o.t)
            j = coerce(i, INT)
            self.need(st, "index in range: " + what, z3.And(j >= 0, j < n))
            v = self.adapt(st, v, o.ty[1])
            arrs = [z3.Store(a, j, coerce(x, t)) for (t, a), x in zip(st.elems(o.ty, o.t), leaves_of(v))]
            st.set_list(o.ty, o.t, n, arrs)
            return
        if o.ty[0] == "dict":
            kt = coerce(self.adapt(st, i, o.ty[1]), o.ty[1])
            v = self.adapt(st, v, o.ty[2])
            st.set_dom(o.ty, o.t, z3.Store(st.dom(o.ty, o.t), kt, TRUE))
            st.set_dval(o.ty, o.t, kt, v)
            return
        raise Unsupported("item store on %s" % (o.ty,))

    def vty(self, v):
        if isinstance(v, (Seq, EmptyLit)):
            return v.ty
        return v.ty

    def lit(self, v):
        """The Python string of a literal atom."""
        s = getattr(v, "lit", None)
        if s is None:
            raise Unsupported("record key is not a literal")
        return s

    def known(self, st, o, ty):
        """Resolve an untyped empty literal at its first typed use."""
        if isinstance(o, V) and any(x[0] == "?" for x in o.ty[1:] if isinstance(x, tuple)):
            k = [x[1] for x in o.ty[1:] if isinstance(x, tuple) and x[0] == "?"][0]
            t = ty() if callable(ty) else ty
            if has_unknown(t):
                raise Unsupported("type of an empty literal")
            if o.ty[0] == "list" and t[0] == "dict":
                raise Unsupported("list literal used as a dictionary")
            if k is not None:
                self.littypes[k] = widen(t)
                raise Retry()
        return o

    # adapt a value to a declared type (materialises sequences, checks classes)
    def choose(self, st, v, kinds, what):
        """The value of an alternative type, used as one of its types."""
        if isinstance(v, V) and v.ty[0] == "alt":
            for t in v.ty[1:]:
                if t[0] in kinds:
                    self.need(st, "it is a %s: " % t[0] + what, SHAPE(v.t) == SHAPES[t[0]])
                    return V(t, v.t)
            raise Unsupported("%s used as one of %s" % (v.ty, kinds))
        return v

    def adapt(self, st, v, ty):
        if ty[0] == "alt":
            for t in ty[1:]:
                if isinstance(v, (Seq, EmptyLit)) and t[0] == "list" or isinstance(v, V) and T.compatible(v.ty, t):
                    r = self.adapt(st, v, t)
                    st.fact(SHAPE(r.t) == SHAPES[t[0]])
                    return V(ty, r.t)
            raise Unsupported("%s used as %s" % (v.ty, ty))
        if isinstance(v, EmptyLit):
            if ty[0] == "opt":
                ty = ty[1]
            if ty[0] != "list":
                raise Unsupported("list literal used as %s" % (ty,))
            r = self.new_list(st, ty, z3.IntVal(0), None)
            self.rebind(st, v, r)
            return r
        if isinstance(v, Seq):
            t = ty[1] if ty[0] == "opt" else ty
            if t[0] in ("list", "any"):
                r = self.materialize(st, v, t[1] if t[0] == "list" else None)
                self.rebind(st, v, r)
                return r
            raise Unsupported("sequence used as %s" % (ty,))
        if isinstance(v, Tup):
            if ty[0] == "tuple" and len(ty) - 1 == len(v.items):
                return Tup([self.adapt(st, x, t) for x, t in zip(v.items, ty[1:])])
            if ty[0] == "list":
                return self.list_of(st, [self.adapt(st, x, ty[1]) for x in v.items], ty[1])
            raise Unsupported("tuple used as %s" % (ty,))
        if isinstance(v, (Fn, Cls, Mod)):
            raise Unsupported("function used as %s" % (ty,))
        if has_unknown(v.ty):
            self.known(st, v, ty[1] if ty[0] == "opt" else ty)
        if v.ty == ty:
            return v
        if v.ty[0] == "none":
            if ty[0] in ("opt", "none"):
                return V(ty, null(ty))
            raise Unsupported("None used as %s" % (ty,))
        if not T.compatible(v.ty, ty):
            if v.ty[0] == ty[0] == "list" and v.ty[1][0] == ty[1][0] == "ref" and T.is_sub(ty[1][1], v.ty[1][1]) and (self.quiet or self.entailed(st, v.t >= self.top0)):
                # a list made here whose elements all have the narrower class
                i = z3.Int(fresh_name("i"))
                e = st.elt(v.ty, v.t, i).t
                self.need(st, "elements are %s" % ty[1][1], FA([i], Implies(z3.And(i >= 0, i < st.len(v.ty, v.t)), z3.And(e != 0, is_class(e, ty[1][1]))), patterns=[e]))
                return V(ty, v.t)
            raise Unsupported("%s used as %s" % (v.ty, ty))
        if v.ty[0] == "opt" and ty[0] != "opt":
            self.need(st, "value is not None", v.t != null(v.ty))
        if ty[0] == "opt" and v.ty[0] != "opt" and null(ty).eq(NULLI):
            if any(b.eq(v.t) or occurs(b, v.t) for b in st.binders):
                raise Unsupported("optional number")
            st.fact(v.t != NULLI)
        a = v.ty[1] if v.ty[0] == "opt" else v.ty
        b = ty[1] if ty[0] == "opt" else ty
        if a[0] == b[0] == "ref" and not T.is_sub(a[1], b[1]):
            f = is_class(v.t, b[1])
            self.need(st, "value is a %s" % b[1], Implies(v.t != 0, f) if ty[0] == "opt" else f)
        if a[0] == b[0] == "ref" and len(b) > 2 and b[2] and not (len(a) > 2 and a[2] and a[1] == b[1]):
            self.need(st, "value is exactly a %s" % b[1], TYP(v.t) == tag(b[1]))
        if b[0] == "real" and a[0] != "real":
            return V(b, coerce(v, b))
        return V(ty, v.t)

    def rebind(self, st, old, new):
        """The lazy list became an object: whoever names it names that object."""
        for k, fr in enumerate(st.frames):
            if any(holds(x, old) for x in fr.values()):
                st.frames[k] = {n: swap(x, old, new) for n, x in fr.items()}

    def names_of(self, st, v):
        return sum(holds(x, v) for fr in st.frames for x in fr.values())

    def deref(self, st, v, what):
        if isinstance(v, V) and v.ty[0] == "opt":
            self.need(st, "not None: " + what, v.t != 0)
            return V(v.ty[1], v.t)
        if isinstance(v, V) and v.ty[0] == "none":
            self.obligate(st, "not None: " + what, FALSE)
            raise Unsupported("None dereferenced: " + what)
        return v

    # -------------------------------------------------------------- lists
    def new_list(self, st, ty, n, arrays):
        r = st.alloc("list", ty)
        if arrays is None:
            arrays = [z3.K(I, zero(sort(t))) for _, t in T.flatten(ty[1])]
        st.set_list(ty, r.t, n, arrays)
        return r

    def list_of(self, st, items, ety):
        arrs = []
        for k, (_, t) in enumerate(T.flatten(ety)):
            a = st.fresh("lit", z3.ArraySort(I, sort(t)))
            for i, x in enumerate(items):
                st.fact(a[i] == coerce(leaves_of(x)[k], t))
            arrs.append(a)
        return self.new_list(st, ("list", ety), z3.IntVal(len(items)), arrs)

    def materialize(self, st, q, ety=None):
        if isinstance(q, V):
            return q
        if isinstance(q, EmptyLit):
            t = self.littypes.get(q.key)
            if ety is not None:
                t = ("list", ety)
            if t is None:
                t = ("list", ("?", q.key))
            return self.new_list(st, t, z3.IntVal(0), None)
        ety = ety or widen(q.ety)
        if has_unknown(ety):
            raise Unsupported("sequence of unknown type")
        ty = ("list", ety)
        if q.empty:
            return self.new_list(st, ty, z3.IntVal(0), None)
        if getattr(q, "items", None) and not any(isinstance(x, (Tup, Seq, EmptyLit)) for x in q.items):
            return self.list_of(st, [self.adapt(st, x, ety) for x in q.items], ety)
        if q.plain:
            leaves = leaves_of(self.adapt_elem(st, q, ety))
            arrs = []
            for k, (_, t) in enumerate(T.flatten(ety)):
                arrs.append(self.lam(st, sort(t), lambda i, k=k, t=t: z3.substitute(coerce(leaves[k], t), (q.idx[0], i))))
            n = q.bounds[0]
            return self.new_list(st, ty, If(n >= 0, n, 0) if not nonneg(n) else n, arrs)
        n, arrs, _, _ = self.filtered(st, q, ety)
        return self.new_list(st, ty, n, arrs)

    def adapt_elem(self, st, q, ety):
        e = q.elem
        if e.ty == ety:
            return e
        if isinstance(e, (Seq, EmptyLit)) or isinstance(e, Tup) and any(isinstance(x, (Seq, EmptyLit)) for x in e.items):
            raise Unsupported("nested lazy sequence")
        for x, (_, t) in zip(leaves_of(e), T.flatten(ety)):
            a = x.ty[1] if x.ty[0] == "opt" else x.ty
            b = t[1] if t[0] == "opt" else t
            if a[0] == b[0] == "ref" and not T.is_sub(a[1], b[1]) or x.ty[0] == "opt" and t[0] == "ref":
                i = [z3.Int(fresh_name("i")) for _ in q.idx]
                y = z3.substitute(x.t, *zip(q.idx, i))
                f = is_class(y, b[1]) if t[0] != "opt" else z3.Or(y == 0, is_class(y, b[1]))
                self.need(st, "elements are %s" % b[1], FA(i, Implies(q.range(i), z3.And(f, y != 0) if t[0] != "opt" else f), patterns=[y]))
            elif a[0] == b[0] == "ref" and len(b) > 2 and b[2] and not (len(a) > 2 and a[2] and a[1] == b[1]):
                raise Unsupported("elements of exactly %s" % b[1])
            elif a[0] != b[0] and not T.compatible(x.ty, t):
                raise Unsupported("%s used as %s" % (x.ty, t))
        return Tup([V(t, coerce(x, t)) for x, (_, t) in zip(leaves_of(e), T.flatten(ety))]) if isinstance(e, Tup) else V(ety, coerce(e, ety))

    def filtered(self, st, q, ety):
        """Elements of a guarded sequence as a fresh array with provenance functions."""
        d = len(q.idx)
        bs = st.binders
        bsorts = [b.sort() for b in bs]

        def fn(name, *sorts):
            f = z3.Function(fresh_name(name), *bsorts, *sorts)
            return lambda *a: f(*bs, *a)

        src = [fn("src", I, I) for _ in range(d)]
        pos = fn("pos", *([I] * d), I)
        if d == 1:
            g = self.lam(st, B, lambda i: z3.substitute(q.guard, (q.idx[0], i)))
            n = CNT(g, q.bounds[0])
        else:
            n = st.fresh("n", I)
        st.fact(n >= 0)
        e = self.adapt_elem(st, q, ety)
        j = z3.Int(fresh_name("j"))
        j2 = z3.Int(fresh_name("j"))
        at = [f(j) for f in src]
        arrs = []
        eqs = []
        for lv, (_, t) in zip(leaves_of(e), T.flatten(ety)):
            a = st.fresh("arr", z3.ArraySort(I, sort(t)))
            arrs.append(a)
            eqs.append(z3.Select(a, j) == z3.substitute(coerce(lv, t), *zip(q.idx, at)))
        inr = z3.And(j >= 0, j < n)
        pats = [src[0](j)] + [z3.Select(a, j) for a in arrs]
        st.fact(FA([j], Implies(inr, conj([q.range(at), pos(*at) == j] + eqs)), patterns=pats))
        xs = [z3.Int(fresh_name("x")) for _ in range(d)]
        p = pos(*xs)
        st.fact(FA(xs, Implies(q.range(xs), z3.And(p >= 0, p < n, *[f(p) == x for f, x in zip(src, xs)])), patterns=[p] + self.elem_pats(q, xs)))
        if d == 1 and not bs and self.contract.nth:
            st.fact(FA([j], src[0](j) == NTH(g, q.bounds[0], j), patterns=[src[0](j)]))
        if d == 1:
            st.fact(FA([j, j2], Implies(z3.And(j >= 0, j < j2, j2 < n), src[0](j) < src[0](j2)), patterns=[(src[0](j), src[0](j2))]))
        elif d == 2:
            st.fact(FA([j, j2], Implies(z3.And(j >= 0, j < j2, j2 < n), z3.Or(src[0](j) < src[0](j2), z3.And(src[0](j) == src[0](j2), src[1](j) < src[1](j2)))),
                       patterns=[(src[0](j), src[0](j2))]))
        return n, arrs, src, pos

    def elem_pats(self, q, xs):
        """Terms of the element that mention every index: triggers for provenance."""
        if len(xs) != 1:
            K = z3.Function("known", I, B)
            out = [tuple(K(x) for x in xs)]
            per = []
            for i, x in zip(q.idx, xs):
                ts = [t for lv in leaves_of(q.elem) if isinstance(lv, V) for t in index_terms(lv.t, i) if not has_quant(t)]
                ts = [t for t in ts if not any(o is not i and in_term(t, o) for o in q.idx)]
                per.append([z3.substitute(t, (i, x)) for t in ts[:1]])
            if all(per):
                out.append(tuple(p[0] for p in per))
            return out
        out = []
        for lv in leaves_of(q.elem):
            if isinstance(lv, V):
                out += index_terms(z3.substitute(lv.t, (q.idx[0], xs[0])), xs[0])
        out += [t for t in index_terms(z3.substitute(q.guard, (q.idx[0], xs[0])), xs[0]) if not any(t.eq(o) for o in out)]
        return [t for t in out if not has_quant(t)][:5]

    def aslist(self, st, v):
        return self.materialize(st, v) if isinstance(v, (Seq, EmptyLit)) else v

    # a value as a sequence
    def seq(self, st, v, what="iteration"):
        if isinstance(v, Seq):
            return v
        if isinstance(v, EmptyLit):
            return Seq([], [], TRUE, None, ("?", v.key), empty=True)
        if isinstance(v, Tup):
            if not v.items:
                return Seq([], [], TRUE, None, ("int",), empty=True)
            i = z3.Int(fresh_name("i"))
            x = v.items[-1]
            for k in range(len(v.items) - 2, -1, -1):
                x = join_val(i == k, v.items[k], x)
                if x is None:
                    raise Unsupported("iteration over a mixed tuple")
            return Seq([i], [z3.IntVal(len(v.items))], TRUE, x)
        v = self.deref(st, v, what)
        if has_unknown(v.ty):
            return Seq([], [], TRUE, None, ("?", None), empty=True)
        if v.ty[0] == "list":
            i = z3.Int(fresh_name("i"))
            q = Seq([i], [st.len(v.ty, v.t)], TRUE, st.elt(v.ty, v.t, i))
            return q
        if v.ty[0] == "set":
            return self.enum_dom(st, st.mem(v.ty, v.t), lambda k: V(v.ty[1], k))
        if v.ty[0] in ("dict", "ddict"):
            return self.enum_dom(st, st.dom(v.ty, v.t), lambda k: V(v.ty[1], k))
        raise Unsupported("iteration over %s" % (v.ty,))

    def enum_dom(self, st, dom, elem):
        """The members of a finite set in an arbitrary order without repetition."""
        bs = st.binders
        ko = [b for b in bs]
        en = z3.Function(fresh_name("en"), *[b.sort() for b in ko], I, I)
        po = z3.Function(fresh_name("enpos"), *[b.sort() for b in ko], I, I)
        n = CARD(dom)
        j, k = z3.Int(fresh_name("j")), z3.Int(fresh_name("k"))
        e = en(*ko, j)
        st.fact(n >= 0)
        st.fact(FA([j], Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(dom, e), po(*ko, e) == j)), patterns=[e]))
        p = po(*ko, k)
        st.fact(FA([k], Implies(z3.Select(dom, k), z3.And(p >= 0, p < n, en(*ko, p) == k)), patterns=[z3.Select(dom, k), p] if not z3.is_store(dom) else [p]))
        i = z3.Int(fresh_name("i"))
        q = Seq([i], [n], TRUE, elem(en(*ko, i)))
        q.pos = lambda key: po(*ko, key)
        q.dom = dom
        return q

    # --------------------------------------------------------------- loops
    def assigned(self, body):
        names = set()

        class W(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, ast.Store):
                    names.add(n.id)

            def visit_FunctionDef(s, n):
                names.add(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass

            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        for s in body:
            W().visit(s)
        return names

    def for_loop(self, s, st):
        out = []
        for x, it in self.ev(s.iter, st):
            live = it if isinstance(it, V) and it.ty[0] in ("list", "set", "dict", "ddict") else None
            q = self.seq(x, it, ast.unparse(s.iter))
            if q.empty:
                out += self.block(s.orelse, x) if s.orelse else [(x, "next", None)]
                continue
            n = z3.simplify(q.bounds[0])
            if q.plain and z3.is_int_value(n) and n.as_long() <= 4:
                # fully unrolled: the number of iterations is a constant
                out += self.unroll(s, x, q, n.as_long())
                continue
            r = self.auto_loop(s, x, q)
            if r is None:
                r = self.inv_loop(s, x, q, live)
            out += r
        return out

    def unroll(self, s, st, q, n):
        cur = [st]
        done = []
        for i in range(n):
            nxt = []
            for x in cur:
                for y in self.assign(s.target, q.at(z3.IntVal(i)), x):
                    for z, kind, v in self.block(s.body, y):
                        if kind in ("next", "continue"):
                            nxt.append(z)
                        elif kind == "break":
                            done.append((z, "next", None))
                        else:
                            done.append((z, kind, v))
            cur = nxt
        for x in cur:
            done += self.block(s.orelse, x) if s.orelse else [(x, "next", None)]
        return done

    # loops whose effect is a search, a sum or a filtered list: no invariant needed
    def auto_loop(self, s, st, q):
        acc = self.accumulators(s, st)
        if acc is None:
            return None
        probe = st.fork()
        mark = len(probe.pc)
        nb = len(probe.binders)
        probe.binders = probe.binders + list(q.idx)
        probe.pc.append(("b", q.range()))
        h0 = dict(probe.h)
        top0 = probe.top
        syms = {}
        appended = {}
        for name, (kind, v) in acc.items():
            if kind == "list":
                probe.env[name] = _Appender(name)
            else:
                ty = REAL if kind == "real" else INT
                syms[name] = z3.Const(fresh_name("acc_" + name), sort(ty))
                probe.env[name] = V(ty, syms[name])
        nobs = len(self.obs)
        lo = self.loop_no
        probe.appends = {}
        try:
            outs = []
            for y in self.assign(s.target, q.elem, probe):
                outs += self.block(s.body, y)
        except (_NotAuto, Unsupported) as e:
            if isinstance(e, Unsupported) and self.opts.get("debug"):
                print("  not automatic:", ast.unparse(s.iter), e)
            self.obs = self.obs[:nobs]
            self.loop_no = lo
            return None
        local = self.assigned(s.body) | self.assigned([s.target] if False else [])
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        carried = [n for n in local if n in st.env and n not in acc and n not in tnames]

        def give_up():
            self.obs = self.obs[:nobs]
            self.loop_no = lo
            return None

        for y, kind, v in outs:
            if not y.top.eq(top0):
                return give_up()
            for k, m in y.h.items():
                if k in h0 and not m.eq(h0[k]) or k not in h0 and z3.is_store(m):
                    return give_up()
            if kind in ("next", "continue"):
                for n in carried:
                    if y.env.get(n) is not st.env[n]:
                        return give_up()
        if any(kind in ("return", "break") for _, kind, _ in outs) and len(q.idx) != 1:
            return give_up()
        # per path: condition, facts, increments
        nexts, exits = [], []
        facts = []
        for y, kind, v in outs:
            bs = []
            fs = []
            for kd, f in y.pc[mark + 1:]:
                if kd == "b":
                    bs.append(f)
                else:
                    fs.append(Implies(conj(bs), f) if bs else f)
            c = conj(bs)
            if kind in ("next", "continue"):
                nexts.append((c, y))
            else:
                exits.append((c, y, kind, v))
            facts += fs
        # increments
        deltas = {}
        for name, (kind, v) in acc.items():
            if kind == "list":
                continue
            ds = []
            for c, y in nexts:
                d = difference(y.env[name].t, syms[name]) if isinstance(y.env[name], V) else None
                if d is None or occurs(syms[name], d):
                    return give_up()
                ds.append((c, d))
            if any(occurs(syms[name], c) for c, _ in nexts) or any(occurs(syms[name], f) for f in facts):
                return give_up()
            deltas[name] = ds
            if exits:
                return give_up()
        for c, y, kind, v in exits:
            if any(occurs(z, c) for z in syms.values()):
                return give_up()
        if exits and any(k == "list" for k, _ in acc.values()):
            return give_up()
        if not exits and not acc and local - tnames == set() and not carried:
            pass
        rng = q.range()
        res = []
        # normal exit
        end = st.fork()
        for f in dedupe(facts):
            end.fact(fa_idx(q.idx, Implies(rng, f)))
        for y, kind, v in outs:
            for k, w in y.wf.items():
                end.wf.setdefault(k, w)
            for k, m in y.h.items():
                end.h.setdefault(k, m)
        if exits:
            cont = disj([c for c, _ in nexts])
            end2 = end.fork()
            end2.fact(fa_idx(q.idx, Implies(rng, cont)))
            if z3.is_false(cont):
                end2.fact(z3.Not(z3.And(q.bounds[0] > 0)))
            res += self.block(s.orelse, end2) if s.orelse else [(end2, "next", None)]
            i = q.idx[0]
            k = st.fresh("k", I)
            for c, y, kind, v in exits:
                z = end.fork()
                # the exit itself: everything of the exiting iteration, at index k
                sub = [(i, k)]
                z.branch(z3.substitute(z3.And(rng, c), *sub))
                j = z3.Int(fresh_name("j"))
                z.fact(fa_idx([j], Implies(z3.And(z3.substitute(rng, (i, j)), j < k), z3.substitute(cont, (i, j)))))
                for nme in y.env:
                    if nme not in acc and y.env[nme] is not st.env.get(nme):
                        z.env[nme] = self.sub_val(y.env[nme], sub)
                val = None if v is None else self.sub_val(v, sub)
                res.append((z, "next" if kind == "break" else kind, val))
            return res
        for name, (kind, v) in acc.items():
            if kind == "list":
                self.lits_done = True
                parts = []
                for c, y in nexts:
                    for item in y.env[name].items:
                        parts.append((c, item))
                if any(len(y.env[name].items) > 1 for _, y in nexts):
                    return give_up()
                if not parts:
                    continue
                val = parts[-1][1]
                for c, x in parts[:-1][::-1]:
                    val = join_val(c, x, val)
                    if val is None:
                        return give_up()
                g = disj([c for c, _ in parts])
                if len(parts) == len(nexts):
                    g = TRUE
                end.env[name] = Seq(q.idx, q.bounds, conj([q.guard, g]), val)
            else:
                ds = deltas[name]
                if len(q.idx) == 1 and all(zero_one(x) is not None for _, x in ds):
                    # counting
                    g = conj([q.guard, disj([conj([c, zero_one(x)]) for c, x in ds if not z3.is_false(zero_one(x))])])
                    a = self.lam(end, B, lambda i: z3.substitute(g, (q.idx[0], i)))
                    end.env[name] = V(v.ty, coerce(v, v.ty) + coerce(V(INT, CNT(a, q.bounds[0])), v.ty))
                    continue
                d = ds[-1][1]
                for c, x in ds[:-1][::-1]:
                    d = If(c, x, d)
                real = kind == "real" or d.sort() == R
                if d.sort() == B:
                    raise Unsupported("bool accumulator")
                tot = self.total(end, q, V(REAL if real else INT, d))
                end.env[name] = V(tot.ty, coerce(v, tot.ty) + tot.t)
        # other locals of the body are not visible afterwards
        for n in (local | tnames) - set(acc):
            if n in end.env and n not in st.env:
                del end.env[n]
        for n in local | tnames:
            if n not in acc and n not in carried:
                end.env.pop(n, None)
        return self.block(s.orelse, end) if s.orelse else [(end, "next", None)]

    def sub_val(self, v, sub):
        if isinstance(v, (V, Tup, Seq)):
            return subst(v, sub)
        return v

    def accumulators(self, s, st):
        """Locals the loop only adds to; None when the loop needs an invariant."""
        acc = {}
        local = self.assigned(s.body)
        for n in local:
            if n in st.env and isinstance(st.env[n], V) and isnum(st.env[n].ty) and st.env[n].ty[0] in ("int", "real"):
                ok = False
                for x in ast.walk(ast.Module(s.body, [])):
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n:
                        ok = True
                    if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in x.targets) \
                            and any(isinstance(y, ast.Name) and y.id == n for y in ast.walk(x.value)):
                        ok = True
                if ok:
                    acc[n] = (self.acctype(s, st, n), st.env[n])
        for x in ast.walk(ast.Module(s.body, [])):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append" \
                    and isinstance(x.func.value, ast.Name) and isinstance(st.env.get(x.func.value.id), EmptyLit):
                acc[x.func.value.id] = ("list", st.env[x.func.value.id])
        return acc

    def acctype(self, s, st, n):
        if st.env[n].ty[0] == "real":
            return "real"
        # probe once to see whether reals are added
        k = ("acc", self.site(s), n)
        return self.littypes.get(k, "int") if not isinstance(self.littypes.get(k), tuple) else "real"

    def total(self, st, q, v):
        """Sum of v over the sequence's indices and guard."""
        real = v.ty[0] == "real"
        t = coerce(v, REAL if real else INT)
        z = z3.RealVal(0) if real else z3.IntVal(0)
        body = If(q.guard, t, z) if not z3.is_true(q.guard) else t
        f = SUM if real else SUMI
        saved = st.binders
        for d in range(len(q.idx) - 1, -1, -1):
            st.binders = saved + list(q.idx[:d])
            a = self.lam(st, R if real else I, lambda i, d=d, body=body: z3.substitute(body, (q.idx[d], i)))
            body = f(a, q.bounds[d])
        st.binders = saved
        return V(REAL if real else INT, body)

    # --- loops with invariants
    def next_invariant(self):
        c = self.contract
        i = self.loop_no
        self.loop_no += 1
        if i >= len(c.loops):
            raise Unsupported("loop %d of %s has no invariant" % (i + 1, self.cur))
        return c.loops[i]

    def dry(self, s, st, q, tgt):
        """Maps and locals the body may change (computed on a havocked state)."""
        names = self.assigned(s.body) | ({n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if tgt else set())
        touched = set()
        logs = None
        self.quiet += 1
        try:
            for _ in range(4):
                d = st.fork()
                lo = self.loop_no
                d.top = self.new_top(z3.Int(fresh_name("dtop")))
                itop = d.top
                for m in touched:
                    d.havoc(m)
                self.havoc_locals(d, names, st)
                d.log = log = []
                h0 = dict(d.h)
                if tgt:
                    d.binders = list(d.binders)
                    kk = [z3.Int(fresh_name("dk")) for _ in q.idx]
                    starts = self.assign(s.target, q.at(*kk), d)
                    outs = []
                    for y in starts:
                        outs += self.block(s.body, y)
                else:
                    outs = []
                    for y, c in self.cond(s.test, d):
                        for z, b in self.split(y, c):
                            if b:
                                outs += self.block(s.body, z)
                            else:
                                outs.append((z, "exit", None))
                self.loop_no = lo
                new = set(touched)
                for y, _, _ in outs:
                    for k, m in y.h.items():
                        if k in h0:
                            if not m.eq(h0[k]):
                                new.add(k)
                        elif not m.eq(z3.Const("%s@0" % k, self.map_sorts[k])):
                            new.add(k)
                new |= {x[0] for x in log}
                logs = (log, itop)
                # locals whose type changes over an iteration
                for y, kind, _ in outs:
                    for n in names:
                        if n in st.env and isinstance(st.env[n], V) and isinstance(y.env.get(n), V):
                            j = join_ty(st.env[n].ty, y.env[n].ty)
                            if j is not None and j != st.env[n].ty:
                                st.env[n] = V(j, coerce(V(j, st.env[n].t), j))
                                new.add("#again")
                if new - {"#again"} == touched and "#again" not in new:
                    break
                touched = new - {"#again"}
        finally:
            self.quiet -= 1
        return touched, names, logs

    def havoc_locals(self, d, names, st):
        for n in names:
            if n not in st.env:
                d.env.pop(n, None)
                continue
            v = st.env[n]
            if isinstance(v, EmptyLit) or isinstance(v, Seq):
                raise Unsupported("lazy local %s in a loop" % n)
            if isinstance(v, (V, Tup)):
                d.env[n] = d.fresh_val(n, widen(v.ty))

    def settle(self, s, st):
        """Lazy lists that the loop appends to or reassigns go to the heap first."""
        names = self.assigned(s.body)
        for x in ast.walk(ast.Module(s.body, [])):
            if isinstance(x, ast.Name):
                names.add(x.id)
        for fr in st.frames:
            for n in names:
                if isinstance(fr.get(n), (EmptyLit, Seq)):
                    fr[n] = self.materialize(st, fr[n])

    def auto_frame(self, name, log, itop, st):
        """The set of references a dry run wrote in map `name`: a predicate, or None."""
        refs = []
        for x in log:
            if x[0] != name:
                continue
            if len(x) > 2:
                return None
            r = x[1]
            lv = self.level(r)
            if is_fresh_in(r, itop) or lv is not None and lv[0] >= self.level(itop)[0]:
                continue
            if any(z3.is_const(t) and t.decl().name().startswith(("dk!", "dtop!")) or "!" in t.decl().name()
                   and not self.older(t, st) for t in consts(r)):
                return None
            refs.append(r)
        return refs

    def older(self, t, st):
        n = t.decl().name()
        return n in self.before

    def known_symbols(self, st):
        """Names of the symbols that exist when a loop starts."""
        out = set()
        fs = st.formulas() + list(st.h.values()) + [st.top]
        for fr in st.frames:
            for v in fr.values():
                if isinstance(v, (V, Tup)):
                    fs += [x.t for x in leaves_of(v) if isinstance(x, V)]
        for f in fs:
            for t in consts(f):
                out.add(t.decl().name())
        return out

    def inv_loop(self, s, st, q, live):
        if len(q.idx) != 1:
            v = self.materialize(st, q)
            q = self.seq(st, v)
        self.settle(s, st)
        inv = self.next_invariant()
        my = self.loop_no
        before = self.before = self.known_symbols(st)
        touched, names, (log, itop) = self.dry(s, st, q, True)
        self.before = before
        entry = st.fork()
        n = q.bounds[0]
        L = LoopCtx(self, entry, s, q)
        L.live = live
        name = "loop %d" % my
        # establish
        c0 = L.at(st, z3.IntVal(0))
        self.claims(st, "%s invariant holds initially: " % name, inv(c0), "invariant")
        # arbitrary iteration
        outer = list(self.lives)
        for o, lv, nm in outer:
            self.check_live(st, o, lv, nm)
        hv = self.loop_state(st, entry, touched, names, log, itop)
        for o, lv, nm in outer:
            for _, f in self.same_live(hv, o, lv):
                hv.fact(f)
        k = z3.Int(fresh_name("k"))
        hv.fact(z3.And(k >= 0, z3.Or(k <= n, z3.And(k == 0, n < 0))))
        ck = L.at(hv, k)
        for nm, f in inv(ck):
            hv.fact(f)
        frame_goal = self.loop_frames(entry, touched, log, itop)
        out = []
        # one iteration
        b = hv.fork()
        b.log = [] if st.log is None else st.log
        b.branch(k < n)
        starts = [b]
        skip = []
        if not z3.is_true(q.guard):
            starts = []
            for y, val in self.split(b, q.guard_at(k)):
                (starts if val else skip).append(y)
        ends = [(y, "continue", None) for y in skip]
        after = self.loop_no
        if live is not None:
            self.lives = outer + [(hv, live, name)]
        try:
            for y in starts:
                self.typed(y, q.at(k))
                for w in self.assign(s.target, q.at(k), y):
                    ends += self.block(s.body, w)
        finally:
            self.lives = outer
        for y, kind, v in ends:
            if kind in ("next", "continue"):
                ce = L.at(y, k + 1)
                self.claims(y, "%s invariant preserved: " % name, inv(ce), "invariant")
                for nm, f in self.frame_check(y, entry, frame_goal):
                    self.obligate(y, "%s frame: %s" % (name, nm), f, "frame")
                if live is not None:
                    self.check_live(y, hv, live, name)
                for o, lv, nm in outer:
                    self.check_live(y, o, lv, nm)
            elif kind == "break":
                self.leave_scope(y)
                out.append((y, "next", None))
            else:
                out.append((y, kind, v))
        # exit
        e = hv
        e.branch(z3.Or(k == n, z3.And(n < 0, k == 0)) if not nonneg(n) else k == n)
        for nme in names:
            if nme not in st.env:
                e.env.pop(nme, None)
        out += self.block(s.orelse, e) if s.orelse else [(e, "next", None)]
        return out

    def leave_scope(self, y):
        pass

    lives = ()

    def check_live(self, y, hv, live, name):
        """The iterated container is not changed by the body."""
        for what, f in self.same_live(y, hv, live):
            self.obligate(y, "%s: %s" % (name, what), f)

    def same_live(self, y, hv, live):
        if live.ty[0] == "list":
            a, b = y.len(live.ty, live.t), hv.len(live.ty, live.t)
            if not a.eq(b):
                yield "iterated list keeps its length", a == b
            for (t, p), (_, r) in zip(y.elems(live.ty, live.t), hv.elems(live.ty, live.t)):
                if not p.eq(r):
                    yield "iterated list keeps its elements", p == r
        else:
            f = (lambda s: s.mem(live.ty, live.t)) if live.ty[0] == "set" else (lambda s: s.dom(live.ty, live.t))
            a, b = f(y), f(hv)
            if not a.eq(b):
                yield "iterated %s keeps its members" % live.ty[0], a == b

    def loop_state(self, st, entry, touched, names, log, itop):
        hv = st
        t = self.new_top(z3.Int(fresh_name("top")))
        hv.fact(t >= entry.top)
        hv.top = t
        hv.wftop = t
        for m in sorted(touched):
            hv.havoc(m)
        hv.allocated(entry.top)
        self.havoc_locals(hv, names, entry)
        fg = self.loop_frames(entry, touched, log, itop)
        for nm, f in self.frame_check(hv, entry, fg):
            hv.fact(f)
        # frames by construction
        for m in sorted(touched):
            refs = self.auto_frame(m, log, itop, entry)
            if refs is not None:
                r = z3.Int(fresh_name("r"))
                M1, M0 = hv.map(m, self.map_sorts[m]), entry.map(m, self.map_sorts[m])
                hv.fact(FA([r], Implies(conj([owner(r) < entry.top] + [r != x for x in dedupe(refs)]),
                                               z3.Select(M1, r) == z3.Select(M0, r)), patterns=[z3.Select(M1, r)]))
        self.ddict_facts(hv, touched)
        return hv

    def loop_frames(self, entry, touched, log, itop):
        """Maps whose frame must be shown through the function's modifies clause."""
        out = []
        for m in sorted(touched):
            if self.auto_frame(m, log, itop, entry) is None:
                out.append(m)
        return out

    def frame_check(self, st, entry, maps):
        """Outside the function's modifies clause, old objects keep their state."""
        out = []
        for m in maps:
            M1, M0 = st.map(m, self.map_sorts[m]), self.s0.map(m, self.map_sorts[m])
            if M1.eq(M0):
                continue
            r = z3.Int(fresh_name("r"))
            allowed = self.allowed(m, r)
            out.append((m, FA([r], Implies(z3.And(owner(r) < self.s0.top, neg(allowed)), z3.Select(M1, r) == z3.Select(M0, r)),
                                     patterns=[z3.Select(M1, r)])))
        return out

    def allowed(self, m, r):
        ps = self.mods.get(m, [])
        return disj([p(r) for p in ps])

    def ddict_facts(self, st, touched=None):
        for ty in self.opts.get("ddicts", []):
            dn = "dom:%s:%s" % (T.key(ty[1]), T.key(ty[2]))
            mn = "mem:%s" % T.key(ty[2][1])
            if touched is not None and dn not in touched and mn not in touched:
                continue
            D = st.map(dn, z3.ArraySort(I, AB))
            M = st.map(mn, z3.ArraySort(I, AB))
            d, k, x = z3.Int(fresh_name("d")), z3.Int(fresh_name("k")), z3.Int(fresh_name("x"))
            e = z3.Select(z3.Select(M, PH(d, k)), x)
            st.fact(FA([d, k, x], Implies(z3.And(d > 0, d < st.top, e), z3.Select(z3.Select(D, d), k)), patterns=[e]))

    def while_loop(self, s, st):
        self.settle(s, st)
        inv = self.next_invariant()
        my = self.loop_no
        before = self.before = self.known_symbols(st)
        touched, names, (log, itop) = self.dry(s, st, None, False)
        self.before = before
        entry = st.fork()
        L = LoopCtx(self, entry, s, None)
        name = "loop %d" % my
        self.claims(st, "%s invariant holds initially: " % name, inv(L.at(st, None)), "invariant")
        hv = self.loop_state(st, entry, touched, names, log, itop)
        for nm, f in inv(L.at(hv, None)):
            hv.fact(f)
        fg = self.loop_frames(entry, touched, log, itop)
        out = []
        for y, c in self.cond(s.test, hv):
            for z, val in self.split(y, c):
                if not val:
                    for nme in names:
                        if nme not in entry.env:
                            z.env.pop(nme, None)
                    out += self.block(s.orelse, z) if s.orelse else [(z, "next", None)]
                    continue
                for w, kind, v in self.block(s.body, z):
                    if kind in ("next", "continue"):
                        self.claims(w, "%s invariant preserved: " % name, inv(L.at(w, None)), "invariant")
                        for nm, f in self.frame_check(w, entry, fg):
                            self.obligate(w, "%s frame: %s" % (name, nm), f, "frame")
                    elif kind == "break":
                        out.append((w, "next", None))
                    else:
                        out.append((w, kind, v))
        return out

    # -------------------------------------------------------- verification
    def site(self, node):
        return (tuple(x[0] for x in self.stack), getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def curmod(self, st):
        return st.env.get("#mod")

    def verify(self, c):
        """Generate the obligations of one contract."""
        for _ in range(40):
            try:
                return self.verify_once(c)
            except Retry:
                continue
        raise Unsupported("types of literals do not settle")

    def verify_once(self, c):
        reset()
        self.start()
        self.lamax = {}
        self.contract = c
        self.cur = c.label
        r = self.src.function(c.fn)
        if r is None:
            raise Unsupported("function %s not found" % c.fn)
        mod, cls, node = r
        self.stack = [(c.fn, c.recv)]
        st = State(self)
        st.top = self.top0
        st.fact(self.top0 > 0)
        st.frames = [{"#mod": mod, "#cls": (mod, cls) if cls else None}]
        args = {}
        names = [a.arg for a in node.args.args]
        declared = dict(c.args)
        if names and names[0] == "self" and c.recv:
            declared = dict([("self", c.recv)] + list(declared.items()))
        if len(names) != len(declared) and set(names) != set(declared):
            if len(names) != len(declared):
                raise Unsupported("parameters of %s changed" % c.fn)
        # parameters are matched by position, so renaming one is harmless
        for nm, (dn, ty) in zip(names, declared.items()):
            v = st.fresh_val(dn, T.parse(ty))
            if isinstance(v, V) and v.ty[0] == "opt" and v.ty[1][0] == "ref":
                pass
            st.env[nm] = v
            args[dn] = v
        self.s0 = st.fork()
        self.s0.binders = []
        ctx = Ctx(self, args, self.s0, None, None)
        self.ddict_facts(st)
        for nm, f in c.requires(ctx) or ():
            st.fact(f)
        for nm, f in c.ghost(ctx) or ():
            st.fact(f)
        self.pre = st.formulas()
        self.s0 = st.fork()
        ctx = Ctx(self, args, self.s0, None, None)
        self.mods = {}
        for m, p in c.modifies(ctx) or ():
            self.mods.setdefault(m, []).append(p)
        self.ctx0 = ctx
        self.args = args
        outs = self.block(node.body, st)
        ret = T.parse(c.ret) if c.ret else None
        n = 0
        for y, kind, v in outs:
            if kind == "next":
                v = NONE
            elif kind != "return":
                raise Unsupported(kind)
            n += 1
            if ret is not None and ret != ("none",):
                v = self.adapt(y, v, ret)
            self.cover.append((y.formulas(), dict(y.wf)))
            post = Ctx(self, args, self.s0, y, v)
            try:
                steps = list(c.steps(post) or ()) if self.opts.get("steps", True) else []
            except Unsupported:
                steps = []      # they refer to locals that are not there: do without
            self.claims(y, "step: ", [("!" + nm, f) for nm, f in steps], "step")
            self.claims(y, "ensures ", c.ensures(post) or (), "ensures")
            tm = [k for k, m in y.h.items() if not m.eq(self.s0.map(k, self.map_sorts[k]))]
            for nm, f in self.frame_check(y, self.s0, sorted(tm)):
                self.obligate(y, "frame: %s" % nm, f, "frame")
        if c.pure:
            for y, kind, v in outs:
                # what a function allocates and drops is invisible to its caller
                if not y.top.eq(self.top0) and (ret is None or any(T.is_heap(t) or t[0] in ("any", "?") for _, t in T.flatten(ret))):
                    raise Unsupported("%s is declared pure but allocates" % c.fn)
        self.nexits = n
        return self.obs


class Ctx:
    """What a contract sees: o (entry state), n (exit state), res."""

    def __init__(self, eng, args, s0, s, result):
        self.eng, self._args, self.s0, self.s, self._res = eng, args, s0, s, result
        self.o = _Names(s0, args)
        self.n = _Names(s, args) if s is not None else None

    @property
    def res(self):
        return view(self.s, self._res)

    @property
    def resv(self):
        return self._res

    def old(self, v):
        return view(self.s0, v)

    def new(self, v):
        return view(self.s, v)

    def v(self, name, ty=None):
        """a local of the function (only in steps of its own proof)"""
        return view(self.s, LoopView._find(self, self.s, name, ty))

    def arg(self, n):
        return self._args[n]


def holds(x, v):
    return x is v or isinstance(x, Tup) and any(holds(y, v) for y in x.items)


def swap(x, old, new):
    if x is old:
        return new
    if isinstance(x, Tup) and holds(x, old):
        return Tup([swap(y, old, new) for y in x.items])
    return x


def in_term(t, x):
    return any(y.eq(x) for y in subterms(t))


class _Names:
    def __init__(self, s, vals):
        self._s, self._v = s, vals

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "self_":
            n = "self"
        if n not in self._v:
            raise Unsupported("contract refers to %s, which is not there" % n)
        return view(self._s, self._v[n])


SHAPES = {"list": 1, "dict": 2, "set": 3}      # every object has one of them


class LoopCtx:
    live = None

    def __init__(self, eng, entry, node, q):
        self.eng, self.entry, self.node, self.q = eng, entry, node, q

    def at(self, st, k):
        c = LoopView()
        c.node = self.node
        c.eng, c.s0, c.se, c.s, c.k, c.q = self.eng, self.eng.s0, self.entry, st, k, self.q
        c.o = _Names(self.eng.s0, self.eng.args)
        c.a = _Names(st, self.eng.args)
        c.n = self.q.bounds[0] if self.q is not None else None
        c.live = self.live.t if self.live is not None else None
        return c


class LoopView:
    """What a loop invariant sees: k, item(j), locals v(name, type), entry ve(...)."""

    def _find(self, st, name, ty):
        for fr in reversed(st.frames):
            if name in fr and isinstance(fr[name], (V, Tup, Seq, EmptyLit)):
                return fr[name]
        if ty is not None:
            t = T.parse(ty)
            args = {id(x) for x in self.eng.args.values()}
            c = []
            for fr in reversed(st.frames):
                for v in fr.values():
                    if isinstance(v, (V, Tup)) and v.ty == t and id(v) not in args and not any(v is x for x in c):
                        c.append(v)
                if c:
                    break
            if len(c) == 1:
                return c[0]
        raise Unsupported("loop annotation refers to local %s %s, which is not there: %s" % (name, ty, {k: getattr(v, "ty", None) for fr in st.frames for k, v in fr.items()}))

    def v(self, name, ty=None):
        return view(self.s, self._find(self.s, name, ty))

    def acc(self, up=0):
        """what a comprehension is building (the innermost one, or one further out)"""
        for fr in reversed(self.s.frames):
            for k in reversed(list(fr)):
                if k.startswith("#comp"):
                    if up == 0:
                        return view(self.s, fr[k])
                    up -= 1
        raise Unsupported("no comprehension here")

    def ve(self, name, ty=None):
        return view(self.se, self._find(self.se, name, ty))

    def raw(self, name, ty=None):
        return self._find(self.s, name, ty)

    def item(self, j, st=None):
        return view(st or self.s, self.q.at(j))

    def on(self, j):
        return self.q.guard_at(j)

    def seen(self, key):
        """Dictionary or set iteration: key was visited before this point."""
        return z3.And(z3.Select(self.q.dom, key), self.q.pos(key) < self.k)

    def cur(self, v):
        return view(self.s, v)

    def entry(self, v):
        return view(self.se, v)

    def old(self, v):
        return view(self.s0, v)


class _Appender:
    """Stands for a local list inside the body of an accumulating loop."""

    ty = ("list", ("?", None))

    def __init__(self, name, items=()):
        self.name, self.items = name, list(items)


class _NotAuto(Unsupported):
    pass


# ------------------------------------------------------------------ helpers
def zero(s):
    return z3.RealVal(0) if s == R else (FALSE if s == B else z3.IntVal(0))


def as_load(t):
    import copy

    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def has_unknown(ty):
    if ty[0] == "?":
        return True
    return any(has_unknown(x) for x in ty[1:] if isinstance(x, tuple))


def widen(ty):
    """Drop exactness of classes in the type of a mutable slot."""
    if ty[0] == "ref":
        return ("ref", ty[1], False)
    return tuple(widen(x) if isinstance(x, tuple) else x for x in ty)


def difference(t, x):
    """t - x, inside conditionals."""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = difference(t.arg(1), x), difference(t.arg(2), x)
        return a if a.eq(b) else If(t.arg(0), a, b)
    return z3.simplify(t - x)


def zero_one(t):
    """Condition under which a term over 0 and 1 is 1, or None."""
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = zero_one(t.arg(1)), zero_one(t.arg(2))
        if a is None or b is None:
            return None
        c = t.arg(0)
        return disj([conj([c, a]), conj([neg(c), b])])
    if z3.is_int_value(t) and t.as_long() in (0, 1):
        return TRUE if t.as_long() else FALSE
    return None


def occurs(x, e):
    return any(t.eq(x) for t in subterms(e))


def subterms(e, seen=None):
    seen = set()
    todo = [e]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield t
        todo.extend(t.children())


def consts(e):
    """Uninterpreted symbols (applications) of a term."""
    for t in subterms(e):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            yield t


def index_terms(body, i, others=()):
    """Terms of body with index i as a direct argument: alternative triggers."""
    out = []
    for t in subterms(body):
        if z3.is_app(t) and t.num_args() and (z3.is_select(t) or t.decl().kind() == z3.Z3_OP_UNINTERPRETED) \
                and t.arg(t.num_args() - 1).eq(i) and not any(occurs(i, c) for c in t.children()[:-1]) \
                and all(occurs(o, t) for o in others):
            if not any(t.eq(x) for x in out):
                out.append(t)
    return out


def fa_idx(idx, body):
    """forall idx: body, with every term indexed by idx as an alternative trigger."""
    if len(idx) == 1:
        ts = [t for t in index_terms(body, idx[0]) if not has_quant(t)][:6]
        if ts:
            return FA(list(idx), body, patterns=ts)
    return FA(list(idx), body)


def has_quant(e):
    return any(z3.is_quantifier(t) for t in subterms(e))


def nonneg(n):
    if z3.is_int_value(n):
        return n.as_long() >= 0
    if z3.is_select(n):
        return True
    if z3.is_app_of(n, z3.Z3_OP_ITE):
        return nonneg(n.arg(1)) and nonneg(n.arg(2))
    return z3.is_app(n) and n.decl().name() in ("card", "Count")


def is_fresh_in(r, itop):
    """r is an object allocated in the iteration that started at itop."""
    if r.eq(itop):
        return True
    if z3.is_app_of(r, z3.Z3_OP_ADD):
        return any(c.eq(itop) for c in r.children()) and all(c.eq(itop) or z3.is_int_value(c) for c in r.children())
    if z3.is_app(r) and r.decl().name() == "ph":
        return is_fresh_in(r.arg(0), itop)
    return False


def dedupe(fs):
    out = []
    seen = set()
    for f in fs:
        if f.get_id() not in seen:
            seen.add(f.get_id())
            out.append(f)
    return out


def simp_or(conds, d):
    """Disjunction of exclusive branch conditions, simplified when complementary."""
    if len(conds) == 2 and neg(conds[0]).eq(conds[1]):
        return TRUE
    s = z3.simplify(d) if not has_quant(d) else d
    return s
