"""Symbolic state, values and specification views."""
import itertools

import z3

from . import types as T

_multi = z3.MultiPattern


def _multi_safe(*args):
    """z3.MultiPattern drops its arguments before it uses them."""
    keep = list(args)
    return _multi(*keep)


z3.MultiPattern = _multi_safe

I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
_c = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_c))


def reset():
    global _c
    _c = itertools.count()


def bad_pattern(p):
    """z3 rejects patterns with propositional or conditional structure."""
    todo = [p]
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t) or not z3.is_app(t) and not z3.is_var(t):
            return True
        if z3.is_app(t):
            k = t.decl().kind()
            if k in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_LT,
                     z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
                if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
                    continue
                return True
            todo.extend(t.children())
    return False


def FA(xs, body, patterns=None):
    """ForAll that drops triggers z3 would reject."""
    if isinstance(xs, (list, tuple)) and not xs:
        return body
    if patterns:
        xl = list(xs) if isinstance(xs, (list, tuple)) else [xs]
        ok = []
        for p in patterns:
            if isinstance(p, (list, tuple)):
                ts = list(p)
            elif isinstance(p, z3.PatternRef):
                ts = p.children()
            else:
                ts = [p]
            if any(bad_pattern(t) for t in ts):
                continue
            free = set()
            for t in ts:
                free |= idents(t)
            if all(x.decl().name() in free for x in xl):
                ok.append(z3.MultiPattern(*ts))
        if ok:
            return z3.ForAll(xs, body, patterns=ok)
    return z3.ForAll(xs, body)


def idents(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            out.add(x.decl().name())
        todo.extend(x.children())
    return out


class Unsupported(Exception):
    """The construct is outside the verified subset."""


def sort(t):
    k = t[0]
    if k == "real":
        return R
    if k == "bool":
        return B
    if k == "iset":
        return AB
    if k == "irel":
        return z3.ArraySort(I, AB)
    if k == "opt" and t[1][0] in ("real", "bool"):
        raise Unsupported("optional %s" % t[1][0])
    return I


# ------------------------------------------------------------------ symbols
TYP = z3.Function("typ", I, I)                 # class tag of a reference
PH = z3.Function("ph", I, I, I)                # set held by a defaultdict under a key
PHD = z3.Function("ph_dict", I, I)
PHK = z3.Function("ph_key", I, I)
AR, AI, AB = z3.ArraySort(I, R), z3.ArraySort(I, I), z3.ArraySort(I, B)
SUM = z3.Function("SumR", AR, I, R)            # sum of a[0..n)
SUMI = z3.Function("SumI", AI, I, I)
PROD = z3.Function("ProdR", AR, I, R)
PRODI = z3.Function("ProdI", AI, I, I)
CNT = z3.Function("Count", AB, I, I)           # number of true in a[0..n)
CARD = z3.Function("card", AB, I)              # size of a finite set
STR = z3.Function("str_of", I, I)
SHAPE = z3.Function("shape", I, I)             # which of the types of an alternative an object has
JOIN = z3.Function("join", I, AI, I, I)
KNOWN = z3.Function("known", I, B)          # true of everything; a trigger


def owner(r):
    """Allocation index of a reference (a defaultdict's sets go with it)."""
    return z3.If(r < 0, PHD(r), r)


_atoms = {}


def atom(s):
    """Distinct constants for string literals."""
    if s not in _atoms:
        _atoms[s] = len(_atoms)
    return z3.IntVal(-1000000 - _atoms[s])


_tags = {}


def tag(c):
    if c not in _tags:
        _tags[c] = len(_tags) + 1
    return z3.IntVal(_tags[c])


def is_class(r, c):
    return z3.Or([TYP(r) == tag(x) for x in T.subclasses(c)]) if T.subclasses(c) else TYP(r) == tag(c)


NULLI = z3.Int("none_int")                     # None where an optional number is expected: no number the program computes


def null(ty):
    """None as a value of an optional type"""
    t = ty[1] if ty[0] == "opt" else ty
    return NULLI if t[0] in ("int", "atom", "enum") else z3.IntVal(0)


# ------------------------------------------------------------------- values
class V:
    """A scalar or reference."""

    __slots__ = ("ty", "t", "lit", "np")

    def __init__(self, ty, t, lit=None):
        self.ty = T.parse(ty) if isinstance(ty, str) else ty
        self.t = t
        self.lit = lit

    def __repr__(self):
        return "V(%s,%s)" % (self.ty, self.t)


class Tup:
    def __init__(self, items):
        self.items = list(items)

    @property
    def ty(self):
        return ("tuple",) + tuple(x.ty for x in self.items)


class Seq:
    """A pure list value: for indices idx (one per dimension, each below its
    bound) in lexicographic order with guard(idx), the element elem(idx)."""

    def __init__(self, idx, bounds, guard, elem, ety=None, empty=False):
        self.idx, self.bounds, self.guard, self.elem = idx, bounds, guard, elem
        self._ety = ety
        self.empty = empty

    @property
    def ety(self):
        return self.elem.ty if self.elem is not None else self._ety

    @property
    def ty(self):
        return ("list", self.ety)

    @property
    def plain(self):
        return not self.empty and len(self.idx) == 1 and z3.is_true(self.guard)

    def range(self, idx=None):
        idx = idx or self.idx
        sub = list(zip(self.idx, idx))
        return z3.And([z3.And(i >= 0, i < z3.substitute(b, *sub)) for i, b in zip(idx, self.bounds)]
                      + [z3.substitute(self.guard, *sub)])

    def at(self, *idx):
        return subst(self.elem, list(zip(self.idx, idx)))

    def guard_at(self, *idx):
        return z3.substitute(self.guard, *list(zip(self.idx, idx)))


class EmptyLit:
    """An empty list literal that is not on the heap yet."""

    ty = ("list", ("?", None))

    def __init__(self, key):
        self.key = key


class SeqView:
    def __init__(self, s, q):
        self._s, self._q = s, q

    @property
    def len(self):
        if isinstance(self._q, EmptyLit) or self._q.empty:
            return z3.IntVal(0)
        assert self._q.plain
        return self._q.bounds[0]

    def __getitem__(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return view(self._s, self._q.at(i))


class Fn:
    """Function value: def/lambda with closure, or builtin."""

    ty = ("func",)

    def __init__(self, node=None, env=None, mod=None, cls=None, name=None, builtin=None, self_=None, recv=None):
        self.node, self.env, self.mod, self.cls, self.name = node, env, mod, cls, name
        self.builtin, self.self_, self.recv = builtin, self_, recv


class Cls:
    ty = ("func",)

    def __init__(self, name):
        self.name = name


class Mod:
    ty = ("func",)

    def __init__(self, name):
        self.name = name


def subst(v, pairs):
    if isinstance(v, V):
        return V(v.ty, z3.substitute(v.t, *pairs)) if z3.is_expr(v.t) else v
    if isinstance(v, Tup):
        return Tup([subst(x, pairs) for x in v.items])
    if isinstance(v, Seq):
        if v.empty:
            return v
        return Seq(v.idx, [z3.substitute(b, *pairs) for b in v.bounds], z3.substitute(v.guard, *pairs), subst(v.elem, pairs))
    return v


# -------------------------------------------------------------------- state
class State:
    def __init__(self, eng):
        self.eng = eng
        self.h = {}          # map name -> z3 array
        self.top = None
        self.pc = []         # (kind, formula); kind 'b' branch, 'f' fact
        self.frames = []     # local variables, innermost last
        self.binders = []    # index constants of enclosing comprehensions
        self.log = None      # writes, inside summarised bodies
        self.wf = {}         # base map constant -> allocation bound of its typing axiom
        self.wftop = eng.top0

    @property
    def env(self):
        return self.frames[-1]

    def fork(self):
        s = State.__new__(State)
        s.eng, s.h, s.top = self.eng, dict(self.h), self.top
        s.pc, s.binders = list(self.pc), list(self.binders)
        s.frames = [dict(f) for f in self.frames]
        s.log = self.log
        s.wf, s.wftop = dict(self.wf), self.wftop
        return s

    def fact(self, f):
        if z3.is_true(f):
            return
        self.pc.append(("f", f))

    def branch(self, f):
        self.pc.append(("b", f))

    def formulas(self):
        return [f for _, f in self.pc]

    # fresh symbols depend on the enclosing comprehension indices
    def fresh(self, name, srt):
        n = fresh_name(name)
        if self.binders:
            return z3.Function(n, *[b.sort() for b in self.binders], srt)(*self.binders)
        return z3.Const(n, srt)

    def fresh_val(self, name, ty):
        if ty[0] == "tuple":
            return Tup([self.fresh_val(name, x) for x in ty[1:]])
        v = V(ty, self.fresh(name, sort(ty)))
        if T.is_heap(ty):
            self.eng.set_bound(v.t, self.top)
        self.typed(v)
        return v

    def typed(self, v):
        """Well-typedness of a value obtained from the heap or a parameter."""
        for f in self.typed_facts(v):
            self.fact(f)

    def typed_facts(self, v):
        out = []
        if isinstance(v, Tup):
            for x in v.items:
                out += self.typed_facts(x)
            return out
        ty = v.ty
        if ty[0] == "opt":
            if T.is_heap(ty[1]):
                out.append(z3.And(v.t >= 0, owner(v.t) < self.top))
                if ty[1][0] == "ref":
                    out.append(z3.Implies(v.t != 0, self.tagfact(v.t, ty[1])))
            return out
        if T.is_heap(ty):
            out.append(z3.And(v.t != 0, owner(v.t) < self.top, owner(v.t) > 0))
            if ty[0] == "ref":
                out.append(self.tagfact(v.t, ty))
                out.append(v.t > 0)
            elif ty[0] != "set":
                out.append(v.t > 0)
            if ty[0] == "list":
                out.append(self.len(ty, v.t) >= 0)
                if ty[1][0] == "ref" or ty[1][0] in ("list", "dict", "set"):
                    i = z3.Int("i!ty")
                    e = z3.Select(self.elems(ty, v.t)[0][1], i)
                    f = e != 0 if ty[1][0] == "set" else e > 0
                    if ty[1][0] == "ref":
                        f = z3.And(f, self.tagfact(e, ty[1]))
                    out.append(FA([i], z3.Implies(z3.And(i >= 0, i < self.len(ty, v.t)), f), patterns=[e]))
            elif ty[0] == "dict" and ty[2][0] in ("ref", "list", "dict", "set"):
                i = z3.Int("i!ty")
                e = z3.Select(self.dvals(ty, v.t)[0][1], i)
                f = e != 0 if ty[2][0] == "set" else e > 0
                if ty[2][0] == "ref":
                    f = z3.And(f, self.tagfact(e, ty[2]))
                out.append(FA([i], z3.Implies(z3.Select(self.dom(ty, v.t), i), f), patterns=[e]))
        elif ty[0] == "enum":
            out.append(z3.And(v.t >= 1, v.t <= len(T.ENUMS[ty[1]])))
        return out

    def tagfact(self, r, ty):
        if len(ty) > 2 and ty[2]:
            return TYP(r) == tag(ty[1])
        return is_class(r, ty[1])

    # ---- maps
    def map(self, name, srt):
        if name not in self.h:
            self.eng.map_sorts[name] = srt
            m = z3.Const("%s@0" % name, srt)
            # one initial version shared by every state of this function
            self.h[name] = m
            self.wf[m.decl().name()] = (name, self.wftop)
            self.eng.base.setdefault(m.decl().name(), (name, self.eng.top0))
        return self.h[name]

    def havoc(self, name):
        m = z3.Const(fresh_name(name), self.eng.map_sorts[name])
        self.h[name] = m
        self.wf[m.decl().name()] = (name, self.top)
        self.eng.base[m.decl().name()] = (name, self.top)
        return m

    def allocated(self, before):
        """A call may have allocated: typing covers the new objects as well. What was
        allocated before it still holds no reference to later objects, if unwritten."""
        self.wftop = self.top
        for m in self.h.values():
            while z3.is_store(m):
                m = m.arg(0)
            n = m.decl().name()
            if n in self.wf:
                name, old = self.wf[n]
                j = 1
                while n + "|%d" % j in self.wf and not self.wf[n + "|%d" % j][1].eq(old):
                    j += 1
                self.wf[n + "|%d" % j] = (name, old)
                self.wf[n] = (name, self.top)

    def put(self, name, srt, ref, val):
        m = self.map(name, srt)
        if self.log is not None:
            self.log.append((name, ref))
        self.h[name] = z3.Store(m, ref, val)

    def sel(self, name, srt, ref):
        return self.eng.rsel(self.map(name, srt), ref)

    # fields
    def fget(self, cls, f, r):
        o = T.field_owner(cls, f)
        ty = T.SCHEMA[o][f]
        leaves = T.flatten(ty)
        vals = [V(t, self.sel("f:%s.%s%s" % (o, f, p), z3.ArraySort(I, sort(t)), r)) for p, t in leaves]
        return build(ty, vals)

    def fput(self, cls, f, r, v):
        o = T.field_owner(cls, f)
        ty = T.SCHEMA[o][f]
        for (p, t), x in zip(T.flatten(ty), leaves_of(v)):
            self.put("f:%s.%s%s" % (o, f, p), z3.ArraySort(I, sort(t)), r, coerce(x, t))

    # lists
    def len(self, ty, r):
        return self.sel("len:%s" % T.key(ty[1]), AI, r)

    def elems(self, ty, r):
        """[(leaf type, array)] of a list."""
        return [(t, self.sel("elt:%s%s" % (T.key(ty[1]), p), z3.ArraySort(I, z3.ArraySort(I, sort(t))), r))
                for p, t in T.flatten(ty[1])]

    def elt(self, ty, r, i):
        return build(ty[1], [V(t, simp(z3.Select(a, i))) for t, a in self.elems(ty, r)])

    def set_list(self, ty, r, n, arrays):
        self.put("len:%s" % T.key(ty[1]), AI, r, n)
        for (p, t), a in zip(T.flatten(ty[1]), arrays):
            self.put("elt:%s%s" % (T.key(ty[1]), p), z3.ArraySort(I, z3.ArraySort(I, sort(t))), r, a)

    # sets and dictionaries
    def mem(self, ty, r):
        return self.sel("mem:%s" % T.key(ty[1]), z3.ArraySort(I, AB), r)

    def set_mem(self, ty, r, a):
        self.put("mem:%s" % T.key(ty[1]), z3.ArraySort(I, AB), r, a)

    def dom(self, ty, r):
        return self.sel("dom:%s:%s" % (T.key(ty[1]), T.key(ty[2])), z3.ArraySort(I, AB), r)

    def set_dom(self, ty, r, a):
        self.put("dom:%s:%s" % (T.key(ty[1]), T.key(ty[2])), z3.ArraySort(I, AB), r, a)

    def dvals(self, ty, r):
        return [(t, self.sel("val:%s:%s%s" % (T.key(ty[1]), T.key(ty[2]), p), z3.ArraySort(I, z3.ArraySort(I, sort(t))), r))
                for p, t in T.flatten(ty[2])]

    def dval(self, ty, r, k):
        if ty[0] == "ddict":
            return V(ty[2], PH(r, k))
        return build(ty[2], [V(t, simp(z3.Select(a, k))) for t, a in self.dvals(ty, r)])

    def set_dval(self, ty, r, k, v):
        for (p, t), x, (_, a) in zip(T.flatten(ty[2]), leaves_of(v), self.dvals(ty, r)):
            self.put("val:%s:%s%s" % (T.key(ty[1]), T.key(ty[2]), p), z3.ArraySort(I, z3.ArraySort(I, sort(t))), r,
                     z3.Store(a, k, coerce(x, t)))

    # allocation
    def alloc(self, name, ty):
        r = self.top
        self.top = simp(self.top + 1)
        self.eng.set_alloc(r)
        if ty[0] == "ref":
            self.fact(TYP(r) == tag(ty[1]))
        return V(ty, r)

    # specification view
    def __call__(self, v):
        return view(self, v)


class Refs:
    """Orders references by allocation, to resolve reads over writes.

    Sound because every base map only holds references below the allocation
    bound it was created with (positions that no code can read are chosen so)."""

    def refs_start(self):
        self.tops = {}
        self.bnd = {}
        self.alc = {}

    def new_top(self, t):
        self.tops[t.decl().name()] = len(self.tops)
        return t

    def level(self, t):
        """(ordinal, offset) of an allocation bound."""
        if z3.is_const(t) and t.decl().name() in self.tops:
            return self.tops[t.decl().name()], 0
        if z3.is_app_of(t, z3.Z3_OP_ADD) and t.num_args() == 2:
            a, b = t.arg(0), t.arg(1)
            if z3.is_int_value(b):
                a, b = b, a
            if z3.is_int_value(a) and z3.is_const(b) and b.decl().name() in self.tops:
                return self.tops[b.decl().name()], a.as_long()
        return None

    def set_bound(self, t, top):
        lv = self.level(top)
        if lv is not None:
            self.bnd[t.get_id()] = (t, lv)

    def set_alloc(self, r):
        lv = self.level(r)
        if lv is not None:
            self.alc[r.get_id()] = (r, lv)

    def bound(self, t, depth=0):
        """owner(t) is below this level, or None."""
        if depth > 12:
            return None
        i = t.get_id()
        if i in self.alc:
            o, off = self.alc[i][1]
            return (o, off + 1)
        if i in self.bnd:
            return self.bnd[i][1]
        if z3.is_app(t) and t.decl().name() == "ph" and t.num_args() == 2:
            return self.bound(t.arg(0), depth + 1)
        if z3.is_select(t):
            m, r = t.arg(0), t.arg(1)
            if z3.is_select(m):
                # list element or dictionary value
                base, r = m.arg(0), m.arg(1)
            else:
                base = m
            if z3.is_const(base) and base.decl().name() in self.base and self.refmap(self.base[base.decl().name()][0]):
                w = self.level(self.base[base.decl().name()][1])
                b = self.bound(r, depth + 1)
                if w is not None and b is not None and b <= w:
                    return w
        return None

    def refmap(self, name):
        """Does this map hold references?"""
        k, _, rest = name.partition(":")
        if k == "f":
            cls, _, attr = rest.partition(".")
            ty = T.SCHEMA[cls].get(attr)
            return ty is not None and T.is_heap(ty)
        if k == "elt":
            return rest in T.SCHEMA or rest.startswith(("list[", "dict[", "set["))
        if k == "val":
            v = rest.rsplit(":", 1)[1]
            return v in T.SCHEMA or v.startswith(("list[", "dict[", "set["))
        return False

    def apart(self, i, j):
        """References i and j are certainly different."""
        for a, b in ((i, j), (j, i)):
            if b.get_id() in self.alc:
                x = self.bound(a)
                if x is not None and x <= self.alc[b.get_id()][1]:
                    return True
            if z3.is_app(b) and b.decl().name() == "ph" and b.num_args() == 2:
                o = b.arg(0)
                if o.get_id() in self.alc:
                    x = self.bound(a)
                    if x is not None and x <= self.alc[o.get_id()][1]:
                        return True
        return False

    def rsel(self, m, i):
        a = m
        n = 0
        while z3.is_store(a) and n < 60:
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            if not self.apart(i, j):
                break
            a = a.arg(0)
            n += 1
        return z3.Select(a, i)


def simp(e):
    # cheap local simplification of select/store
    if z3.is_select(e):
        a, i = e.arg(0), e.arg(1)
        n = 0
        while z3.is_store(a) and n < 40:
            j = a.arg(1)
            if j.eq(i):
                return a.arg(2)
            d = z3.simplify(j - i) if j.sort() == I else None
            if d is not None and z3.is_int_value(d) and d.as_long() != 0:
                a = a.arg(0)
                n += 1
                continue
            break
        return z3.Select(a, i)
    if z3.is_app_of(e, z3.Z3_OP_ADD):
        return z3.simplify(e)
    return e


def build(ty, vals):
    if ty[0] == "tuple":
        items = []
        i = 0
        for x in ty[1:]:
            k = len(T.flatten(x))
            items.append(build(x, vals[i:i + k]))
            i += k
        return Tup(items)
    return vals[0] if vals[0].ty == ty else V(ty, vals[0].t)


def leaves_of(v):
    if isinstance(v, Tup):
        out = []
        for x in v.items:
            out += leaves_of(x)
        return out
    return [v]


def coerce(v, ty):
    """z3 term of scalar v at type ty."""
    if not isinstance(v, V):
        raise Unsupported("expected a scalar, got %r" % (v,))
    t = v.t
    want = sort(ty)
    if t.sort() == want:
        return t
    if want == R and t.sort() == I:
        return z3.ToReal(t)
    if want == R and t.sort() == B:
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    if want == I and t.sort() == B:
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported("cannot use %s as %s" % (v.ty, ty))


# ------------------------------------------------------------- spec views
def view(s, v):
    if isinstance(v, View):
        return View(s, v._ty, v._t)
    if isinstance(v, (Seq, EmptyLit)):
        return SeqView(s, v)
    if isinstance(v, Tup):
        return tuple(view(s, x) for x in v.items)
    if isinstance(v, V):
        if T.is_heap(v.ty):
            return View(s, v.ty, v.t)
        return v.t
    return v


class View:
    """Specification access to the heap of one state."""

    def __init__(self, s, ty, t):
        if ty[0] == "opt":
            ty = ty[1]
        self._s, self._ty, self._t = s, ty, t

    @property
    def ref(self):
        return self._t

    def __getattr__(self, f):
        if f.startswith("_"):
            raise AttributeError(f)
        if self._ty[0] != "ref":
            raise AttributeError(f)
        return view(self._s, self._s.fget(self._ty[1], f, self._t))

    def __getitem__(self, i):
        if isinstance(i, View):
            i = i._t
        if isinstance(i, int):
            i = z3.IntVal(i)
        if self._ty[0] == "list":
            return view(self._s, self._s.elt(self._ty, self._t, i))
        return view(self._s, self._s.dval(self._ty, self._t, i))

    @property
    def len(self):
        return self._s.len(self._ty, self._t)

    def has(self, k):
        if isinstance(k, View):
            k = k._t
        if isinstance(k, int):
            k = z3.IntVal(k)
        a = self._s.mem(self._ty, self._t) if self._ty[0] == "set" else self._s.dom(self._ty, self._t)
        return z3.Select(a, k)

    @property
    def dom(self):
        return self._s.mem(self._ty, self._t) if self._ty[0] == "set" else self._s.dom(self._ty, self._t)

    @property
    def arr(self):
        """element array of a list / value array of a dict (single leaf)."""
        x = self._s.elems(self._ty, self._t) if self._ty[0] == "list" else self._s.dvals(self._ty, self._t)
        return x[0][1]

    def __eq__(self, o):
        return self._t == (o._t if isinstance(o, View) else o)

    def __ne__(self, o):
        return self._t != (o._t if isinstance(o, View) else o)

    __hash__ = None

    def fresh(self, s0):
        return owner(self._t) >= s0.top

    def isa(self, c):
        return is_class(self._t, c)


def forall(*names_body, pat=None):
    """forall('i', lambda i: ...) over integers."""
    *names, body = names_body
    xs = [z3.Int(fresh_name(n)) for n in names]
    b = body(*xs)
    if pat is not None:
        p = pat(*xs)
        p = p if isinstance(p, (list, tuple)) else [p]
        return FA(xs, b, patterns=p)
    return FA(xs, b)


def exists(*names_body):
    *names, body = names_body
    xs = [z3.Int(fresh_name(n)) for n in names]
    return z3.Exists(xs, body(*xs))


def lam(srt, f, st=None, name="a"):
    """An array constant a with a[i] = f(i), and the defining fact."""
    i = z3.Int(fresh_name("i"))
    body = f(i)
    if st is not None and st.binders:
        a = z3.Function(fresh_name(name), *[b.sort() for b in st.binders], z3.ArraySort(I, srt))(*st.binders)
    else:
        a = z3.Const(fresh_name(name), z3.ArraySort(I, srt))
    return a, FA([i], z3.Select(a, i) == body, patterns=[z3.Select(a, i)])


And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
