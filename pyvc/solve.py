"""Discharges obligations with z3 and cvc5 (separate processes, resource limits)."""
import concurrent.futures
import os
import re
import subprocess
import tempfile
import time

import z3

from . import types as T
from .core import (AB,  FA, AI, AR, B, CARD, CNT, I, JOIN, PH, PHD, PHK, PROD, PRODI, R, STR, SUM, SUMI, TYP, fresh_name, is_class, owner, tag)
from .interp import consts, has_quant, subterms

Z3 = "/usr/bin/z3"
for _p in ("z3-new", "/opt/veriftools/bin/z3-new"):
    pass


def which(n):
    for d in os.environ.get("PATH", "").split(":") + ["/usr/bin", "/usr/local/bin", "/opt/veriftools/bin"]:
        p = os.path.join(d, n)
        if os.path.exists(p):
            return p
    return None


Z3NEW = which("z3-new")
Z3OLD = which("z3")
CVC5 = which("cvc5")


# --------------------------------------------------------------- background
def bg_axioms():
    """(trigger symbols, formula): sums, products, counts, finite sets, mixed-radix digits are proved in lean/Background.lean."""
    i, j, k, n, m = (z3.Int(x) for x in "ijknm")
    a, b = z3.Const("a", AR), z3.Const("b", AR)
    ai, bi = z3.Const("ai", AI), z3.Const("bi", AI)
    g, h = z3.Const("g", AB), z3.Const("h", AB)
    out = []

    def ax(syms, f):
        out.append((set(syms), f))

    ax(["ph"], FA([i, j], z3.And(PHD(PH(i, j)) == i, PHK(PH(i, j)) == j, PH(i, j) < 0), patterns=[PH(i, j)]))
    DR = z3.Function("dsum", AR, AR, I, I)
    for S, arr, x, y, D in ((SUM, AR, a, b, DR), (SUMI, AI, ai, bi, z3.Function("dsumi", AI, AI, I, I))):
        nm = S.name()
        ax([nm], FA([x], S(x, 0) == 0, patterns=[S(x, 0)]))
        ax([nm], FA([x, n], z3.Implies(n <= 0, S(x, n) == 0), patterns=[S(x, n)]))
        ax([nm], FA([x, n], z3.Implies(n >= 0, S(x, n + 1) == S(x, n) + x[n]), patterns=[S(x, n + 1)]))
        d = D(x, y, n)
        ax([nm], FA([x, y, n], z3.Or(S(x, n) == S(y, n), z3.And(d >= 0, d < n, x[d] != y[d])),
                           patterns=[(S(x, n), S(y, n))]))
    for S, x in ((SUM, a), (SUMI, ai)):
        nm = S.name()
        w = z3.Function(nm + "_neg", x.sort(), I, I)(x, n)
        nz = z3.Function(nm + "_nz", x.sort(), I, I)(x, n)
        isneg = z3.And(w >= 0, w < n, x[w] < 0)
        ax([nm], FA([x, n], z3.Or(S(x, n) >= 0, isneg), patterns=[S(x, n)]))
        ax([nm], FA([x, n], z3.Or(S(x, n) == 0, z3.And(nz >= 0, nz < n, x[nz] != 0)), patterns=[S(x, n)]))
        ax([nm], FA([x, n, i], z3.Implies(z3.And(i >= 0, i < n), z3.Or(S(x, n) >= x[i], isneg)), patterns=[(S(x, n), x[i])]))
        # sums of values of at most one
        w = z3.Function(nm + "_big", x.sort(), I, I)(x, n)
        big = z3.And(w >= 0, w < n, x[w] > 1)
        u = z3.Function(nm + "_not1", x.sort(), I, I)(x, n)
        ax([nm], FA([x, n, i], z3.Implies(z3.And(i >= 0, i < n, S(x, n) == n), z3.Or(x[i] >= 1, big)), patterns=[(S(x, n), x[i])]))
        ax([nm], FA([x, n], z3.Implies(n >= 0, z3.Or(S(x, n) == n, z3.And(u >= 0, u < n, x[u] != 1))), patterns=[S(x, n)]))
    for P, x, y, D in ((PROD, a, b, z3.Function("dprod", AR, AR, I, I)), (PRODI, ai, bi, z3.Function("dprodi", AI, AI, I, I))):
        nm = P.name()
        ax([nm], FA([x, n], z3.Implies(n <= 0, P(x, n) == 1), patterns=[P(x, n)]))
        ax([nm], FA([x, n], z3.Implies(n >= 0, P(x, n + 1) == P(x, n) * x[n]), patterns=[(P(x, n + 1), P(x, n)) if P is PRODI else P(x, n + 1)]))
        ax([nm], FA([x], P(x, 1) == x[0], patterns=[P(x, 1)]))
        d = D(x, y, n)
        ax([nm], FA([x, y, n], z3.Or(P(x, n) == P(y, n), z3.And(d >= 0, d < n, x[d] != y[d])),
                           patterns=[(P(x, n), P(y, n))]))
        if P is PRODI:
            w = z3.Function("prod_neg", AI, I, I)(x, n)
            ax([nm], FA([x, n], z3.Or(P(x, n) >= 0, z3.And(w >= 0, w < n, x[w] < 0)), patterns=[P(x, n)]))
    # counting
    W = z3.Function("cwit", AB, I, I)
    W2 = z3.Function("cwit2", AB, I, I)
    ax(["Count"], FA([g, n], z3.And(CNT(g, n) >= 0, z3.Implies(n >= 0, CNT(g, n) <= n)), patterns=[CNT(g, n)]))
    ax(["Count"], FA([g, n], z3.Implies(CNT(g, n) > 0, z3.And(W(g, n) >= 0, W(g, n) < n, g[W(g, n)])), patterns=[CNT(g, n)]))
    ax(["Count"], FA([g, n, i], z3.Implies(z3.And(i >= 0, i < n, g[i]), CNT(g, n) >= 1), patterns=[(CNT(g, n), g[i])]))
    ax(["Count"], FA([g, n, i, j], z3.Implies(z3.And(i >= 0, i < j, j < n, g[i], g[j]), CNT(g, n) >= 2),
                            patterns=[(CNT(g, n), g[i], g[j])]))
    ax(["Count"], FA([g, n], z3.Implies(CNT(g, n) >= 2, z3.And(W2(g, n) >= 0, W2(g, n) < n, g[W2(g, n)], W2(g, n) != W(g, n))), patterns=[CNT(g, n)]))
    ax(["Count"], FA([g, n, i], z3.Implies(z3.And(CNT(g, n) == n, i >= 0, i < n), g[i]), patterns=[(CNT(g, n), g[i])]))
    ax(["Count"], FA([g, n], z3.Implies(n >= 0, CNT(g, n + 1) == CNT(g, n) + z3.If(g[n], 1, 0)), patterns=[CNT(g, n + 1)]))
    WD = z3.Function("cnt_both", AB, AB, I, I)(g, h, n)
    WE = z3.Function("cnt_same", AB, AB, I, I)(g, h, n)
    ax(["Count"], FA([g, h, n, i], z3.Implies(z3.And(i >= 0, i < n, CNT(g, n) + CNT(h, n) >= n, z3.Not(g[i]), z3.Not(h[i])),
                                              z3.And(WD >= 0, WD < n, g[WD], h[WD])), patterns=[(CNT(g, n), CNT(h, n), g[i])]))
    ax(["Count"], FA([g, h, n], z3.Implies(n >= 0, z3.Or(CNT(g, n) + CNT(h, n) == n, z3.And(WE >= 0, WE < n, g[WE] == h[WE]))),
                     patterns=[(CNT(g, n), CNT(h, n))]))
    DC = z3.Function("dcnt", AB, AB, I, I)
    d = DC(g, h, n)
    ax(["Count"], FA([g, h, n], z3.Or(CNT(g, n) == CNT(h, n), z3.And(d >= 0, d < n, g[d] != h[d])),
                            patterns=[(CNT(g, n), CNT(h, n))]))
    from .interp import NTH
    DN = z3.Function("dnth", AB, AB, I, I)(g, h, n)
    ax(["nth_true"], FA([g, h, n, j], z3.Or(NTH(g, n, j) == NTH(h, n, j), z3.And(DN >= 0, DN < n, g[DN] != h[DN])),
                        patterns=[(NTH(g, n, j), NTH(h, n, j))]))
    # finite sets
    CW = z3.Function("card_wit", AB, I)
    DM = z3.Function("dcard", AB, AB, I)
    ax(["card"], FA([g], z3.And(CARD(g) >= 0, z3.Implies(CARD(g) > 0, g[CW(g)])), patterns=[CARD(g)]))
    ax(["card"], FA([g, i], z3.Implies(g[i], CARD(g) > 0), patterns=[(CARD(g), g[i])]))
    ax(["card"], FA([g, h], z3.Or(CARD(g) == CARD(h), g[DM(g, h)] != h[DM(g, h)]), patterns=[(CARD(g), CARD(h))]))
    ax(["card"], FA([g, i], CARD(z3.Store(g, i, z3.BoolVal(True))) == CARD(g) + z3.If(g[i], 0, 1), patterns=[CARD(z3.Store(g, i, z3.BoolVal(True)))]))
    ax(["card"], CARD(z3.K(I, z3.BoolVal(False))) == 0)
    # itertools.product
    from .expr import DIG, RANK
    DD = z3.Function("ddig", AI, I, I, I, I)
    c = z3.Const("c", AI)
    inr = lambda x: z3.And(x >= 0, x < PRODI(ai, m))
    ng = z3.Function("prod_neg", AI, I, I)(ai, m)
    ax(["digit"], FA([ai, m, k, j], z3.Implies(z3.And(inr(k), j >= 0, j < m), z3.Or(z3.And(DIG(ai, m, k, j) >= 0, DIG(ai, m, k, j) < ai[j]), z3.And(ng >= 0, ng < m, ai[ng] < 0))),
                            patterns=[DIG(ai, m, k, j)]))
    dd = DD(ai, m, k, n)
    ax(["digit"], FA([ai, m, k, n], z3.Implies(z3.And(inr(k), inr(n), k != n), z3.And(dd >= 0, dd < m, DIG(ai, m, k, dd) != DIG(ai, m, n, dd))),
                            patterns=[DD(ai, m, k, n)]))
    ax(["digit"], FA([ai, k], z3.Implies(z3.And(k >= 0, k < ai[0]), DIG(ai, 1, k, 0) == k), patterns=[DIG(ai, 1, k, 0)]))
    d = z3.Function("dprodi", AI, AI, I, I)(ai, bi, m)
    ax(["digit"], FA([ai, bi, m, k, j], z3.Or(DIG(ai, m, k, j) == DIG(bi, m, k, j), z3.And(d >= 0, d < m, ai[d] != bi[d])), patterns=[(DIG(ai, m, k, j), DIG(bi, m, k, j))]))
    BAD = z3.Function("rank_bad", AI, I, AI, I)
    bad = BAD(ai, m, c)
    ok = z3.Not(z3.And(bad >= 0, bad < m, z3.Or(c[bad] < 0, c[bad] >= ai[bad])))
    ax(["rank"], FA([ai, m, c], z3.Implies(ok, inr(RANK(ai, m, c))), patterns=[RANK(ai, m, c)]))
    ax(["rank"], FA([ai, m, c, j], z3.Implies(z3.And(ok, j >= 0, j < m), DIG(ai, m, RANK(ai, m, c), j) == c[j]),
                           patterns=[DIG(ai, m, RANK(ai, m, c), j)]))
    # text
    ax(["str_of"], FA([i], z3.Function("str_inv", I, I)(STR(i)) == i, patterns=[STR(i)]))
    DJ = z3.Function("djoin", I, AI, AI, I, I)
    dj = DJ(i, ai, bi, n)
    ax(["join"], FA([i, ai, bi, n], z3.Or(JOIN(i, ai, n) == JOIN(i, bi, n), z3.And(dj >= 0, dj < n, ai[dj] != bi[dj])),
                           patterns=[(JOIN(i, ai, n), JOIN(i, bi, n))]))
    return out


_BG = None
BOUNDS = 3     # earlier allocation bounds of a map that are stated


def wf_axiom(name, const, top):
    """Typing of the allocated part of an unmodified map."""
    k, _, rest = name.partition(":")
    r, i = z3.Int(fresh_name("r")), z3.Int(fresh_name("i"))
    alive = z3.And(owner(r) > 0, owner(r) < top)

    def typed(t, ty):
        if ty[0] == "opt":
            if not T.is_heap(ty[1]):
                return None
            f = z3.And(t >= 0, owner(t) < top)
            if ty[1][0] == "ref":
                f = z3.And(f, z3.Implies(t != 0, is_class(t, ty[1][1])))
            return f
        if T.is_heap(ty):
            f = z3.And(owner(t) > 0, owner(t) < top)
            if ty[0] == "ref":
                f = z3.And(f, t > 0, is_class(t, ty[1]))
            elif ty[0] != "set":
                f = z3.And(f, t > 0)
            return f
        if ty[0] == "enum":
            return z3.And(t >= 1, t <= len(T.ENUMS[ty[1]]))
        return None

    if k == "f":
        cls, _, attr = rest.partition(".")
        base = attr
        ty = T.SCHEMA[cls].get(attr)
        if ty is None:
            base, _, path = attr.rpartition(".")
            for p, tt in T.flatten(T.SCHEMA[cls][base.split(".")[0]]):
                if attr.endswith(p) and base.split(".")[0] + p == attr:
                    ty = tt
        if ty is None:
            return None
        e = z3.Select(const, r)
        f = typed(e, ty)
        if f is None:
            return None
        return FA([r], z3.Implies(z3.And(r > 0, r < top, is_class(r, cls)), f), patterns=[e])
    if k == "len":
        e = z3.Select(const, r)
        return FA([r], z3.Implies(z3.And(r > 0, r < top), e >= 0), patterns=[e])
    if k in ("elt", "val"):
        e = z3.Select(z3.Select(const, r), i)
        kt = rest if k == "elt" else rest.split(":", 1)[1]
        if kt in T.SCHEMA:
            f = z3.Or(e == 0, z3.And(e > 0, e < top, is_class(e, kt)))
        elif kt.startswith(("list[", "dict[")):
            f = z3.Or(e == 0, z3.And(e > 0, e < top))
        elif kt.startswith("set["):
            f = z3.Or(e == 0, z3.And(owner(e) > 0, owner(e) < top))
        else:
            return None
        return FA([r, i], z3.Implies(z3.And(r > 0, r < top), f), patterns=[e])
    return None


_WF = {}
_SYM = {}


def symbols(f):
    """Names of the uninterpreted symbols of f."""
    k = f.get_id()
    if k not in _SYM:
        _SYM[k] = (f, frozenset(t.decl().name() for t in subterms2(f, set())
                                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED))
    return _SYM[k][1]


def background(formulas, wf, eng, without=()):
    """Axioms relevant to these formulas."""
    global _BG
    if _BG is None:
        _BG = bg_axioms()
    from .contract import AXIOMS
    from .expr import FMT

    skips = set(getattr(getattr(eng, "contract", None), "skips", None) or ())
    have = set()
    todo = list(formulas)
    out = []
    done = set()

    def scan(f):
        have.update(symbols(f))

    for f in todo:
        scan(f)
    fm = {f.name(): ax for f, ax in FMT.values()}
    while True:
        new = []
        for n in sorted(have):
            if ("lam", n) not in done and n in eng.lamax:
                done.add(("lam", n))
                new.append(eng.lamax[n])
            if ("fmt", n) not in done and n in fm:
                done.add(("fmt", n))
                new.append(fm[n])
            if ("wf", n) not in done:
                ws = []
                j = 1
                while n + "|%d" % j in wf:
                    j += 1
                for x in [wf.get(n)] + [wf[n + "|%d" % i] for i in range(j - 1, max(0, j - 1 - BOUNDS), -1)] + [eng.base.get(n)]:
                    if x is not None and not any(x[1].eq(y[1]) for y in ws):
                        ws.append(x)
                for w in ws:
                    done.add(("wf", n))
                    k = (w[0], n, w[1].get_id())
                    if k not in _WF:
                        _WF[k] = (w[1], wf_axiom(w[0], z3.Const(n, eng.map_sorts[w[0]]), w[1]))
                    ax = _WF[k][1]
                    if ax is not None:
                        new.append(ax)
        for x, (syms, f) in enumerate(_BG):
            if ("bg", x) not in done and syms <= have and not (skips and skips & set(symbols(f))):
                done.add(("bg", x))
                new.append(f)
        for x, (nm, syms, f, why) in enumerate(AXIOMS):
            if ("ax", x) not in done and syms <= have and nm not in without:
                done.add(("ax", x))
                if why != "definition":
                    eng.background.add("background fact %s (%s)" % (nm, "proved on every run" if why == "lemma" else why))
                new.append(f)
        if not new:
            return out
        out += new
        for f in new:
            scan(f)


def subterms2(e, seen):
    todo = [e]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield t
        if z3.is_quantifier(t):
            todo.append(t.body())
            for p in range(t.num_patterns()):
                todo.append(t.pattern(p))
        else:
            todo.extend(t.children())


LOOK = {}


def look(t):
    srt = t.sort()
    if srt.name() not in LOOK or LOOK[srt.name()].domain(0) != srt:
        LOOK[srt.name()] = z3.Function("look_%s" % "".join(x for x in str(srt) if x.isalnum()), srt, B)
    return LOOK[srt.name()](t)


def skolem(goal):
    """Fresh constants for the outer universal quantifiers of a goal; its trigger terms become known to the solver."""
    looked = []
    while True:
        if z3.is_quantifier(goal) and goal.is_forall():
            vs = [z3.Const(fresh_name("sk"), goal.var_sort(i)) for i in range(goal.num_vars())]
            for p in range(goal.num_patterns()):
                for t in goal.pattern(p).children():
                    t = z3.substitute_vars(t, *reversed(vs))
                    looked.append(look(t))
            goal = z3.substitute_vars(goal.body(), *reversed(vs))
        elif z3.is_implies(goal) and z3.is_quantifier(goal.arg(1)):
            looked.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_or(goal) and any(z3.is_quantifier(x) and x.is_forall() for x in goal.children()):
            k = next(k for k, x in enumerate(goal.children()) if z3.is_quantifier(x) and x.is_forall())
            looked += [z3.Not(x) for i, x in enumerate(goal.children()) if i != k]
            goal = goal.arg(k)
        else:
            return looked, goal


def siblings(terms, hyps):
    """What the goal reads from a map, read from the other states of that map (so that frames connect them)."""
    maps = {}
    for f in hyps:
        for n in symbols(f):
            base = re.split("[@!]", n)[0]
            if base != n and ":" in n:
                maps.setdefault(base, set()).add(n)
    out, seen = [], set()
    for f in terms:
        for t in subterms2(f, seen):
            if not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT) or z3.is_array(t) or not ground(t) or not any("sk!" in n for n in symbols(t)):
                continue
            root = t
            while z3.is_app(root) and root.decl().kind() == z3.Z3_OP_SELECT:
                root = root.arg(0)
            if not z3.is_const(root) or root.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            n = root.decl().name()
            for m in sorted(maps.get(re.split("[@!]", n)[0], ()), key=lambda x: (len(x), x)):
                if m != n:
                    out.append(z3.Select(z3.substitute(t.arg(0), (root, z3.Const(m, root.sort()))), t.arg(1)))
    return out


def ground(t):
    return not any(z3.is_var(x) for x in subterms2(t, set()))


def smt(hyps, goal, wf, eng, dedup=True, without=()):
    fs = []
    seen = set()
    for f in hyps:
        if f.get_id() not in seen:
            seen.add(f.get_id())
            fs.append(f)
    looked, goal = skolem(goal)
    ng = z3.Not(goal)
    fs = fs + looked
    sib = siblings([goal] + looked, fs)
    if 0 < len(sib) <= 60:
        for t in sib:
            fs.append(look(t))
    bg = background(fs + [ng], wf, eng, without)
    s = z3.Solver()
    allf = bg + fs + [ng]
    for f in allf:
        s.add(f)
    texts = [s.to_smt2()]
    al = [linear(f, _LIN) for f in allf]
    if any(not a.eq(b) for a, b in zip(al, allf)):
        s = z3.Solver()
        for f in MUL_AX + al:
            s.add(f)
        texts.insert(0, s.to_smt2())
    return texts


# A product or quotient of two unknowns as an uninterpreted function with a few laws:
# what follows from the laws alone also holds of the real operations.
MUL = z3.Function("times", R, R, R)
DIV = z3.Function("over", R, R, R)
_x, _y = z3.Reals("x y")
_z = z3.Real("z")
MUL_AX = [FA([_x, _y, _z], MUL(MUL(_x, _y), _z) == MUL(_x, MUL(_y, _z)), patterns=[MUL(MUL(_x, _y), _z)]),
          FA([_x, _y], MUL(_x, _y) == MUL(_y, _x), patterns=[MUL(_x, _y)]),
          FA([_x, _y], z3.Implies(_x == 1, MUL(_x, _y) == _y), patterns=[MUL(_x, _y)]),
          FA([_x, _y], z3.Implies(_x == 0, MUL(_x, _y) == 0), patterns=[MUL(_x, _y)]),
          FA([_x, _y], z3.Implies(z3.And(_x >= 0, _y >= 0), MUL(_x, _y) >= 0), patterns=[MUL(_x, _y)]),
          FA([_x, _y], z3.Implies(z3.And(_x > 0, _y > 0), MUL(_x, _y) > 0), patterns=[MUL(_x, _y)]),
          FA([_x, _y], z3.Implies(_x == 0, z3.Implies(_y != 0, DIV(_x, _y) == 0)), patterns=[DIV(_x, _y)]),
          FA([_x, _y], z3.Implies(z3.And(_x >= 0, _y > 0), DIV(_x, _y) >= 0), patterns=[DIV(_x, _y)]),
          FA([_x, _y], z3.Implies(z3.And(_x == _y, _y != 0), DIV(_x, _y) == 1), patterns=[DIV(_x, _y)]),
          FA([_x, _y], z3.Implies(_y != 0, MUL(DIV(_x, _y), _y) == _x), patterns=[DIV(_x, _y)]),
          FA([_x, _y], z3.Implies(_y == 1, DIV(_x, _y) == _x), patterns=[DIV(_x, _y)])]


_LIN = {}
_NL = {}


def nonlinear(f):
    """Does f contain a product or quotient of two unknowns (or one such under a quantifier)?"""
    k = f.get_id()
    if k not in _NL:
        r = False
        for t in subterms2(f, set()):
            if z3.is_app(t):
                n = t.decl().kind()
                if n in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
                    r = True
                    break
        _NL[k] = (f, r)
    return _NL[k][1]


def linear(e, cache):
    k = e.get_id()
    if k not in cache and e.sort() == B and not nonlinear(e):
        return e
    if k in cache:
        return cache[k][1]
    if z3.is_quantifier(e):
        if e.is_lambda():
            r = e
        else:
            vs = [z3.Const(fresh_name("q"), e.var_sort(i)) for i in range(e.num_vars())]
            b = z3.substitute_vars(e.body(), *reversed(vs))
            nb = linear(b, cache)
            ps = [[linear(z3.substitute_vars(t, *reversed(vs)), cache) for t in e.pattern(i).children()] for i in range(e.num_patterns())]
            if nb.eq(b):
                r = e
            elif e.is_forall():
                r = FA(vs, nb, patterns=ps)
            else:
                r = z3.Exists(vs, nb)
    elif z3.is_app(e) and e.num_args():
        ch = [linear(c, cache) for c in e.children()]
        n = e.decl().kind()
        if n == z3.Z3_OP_MUL and e.sort() == R and sum(not numeral(c) for c in ch) > 1:
            num = [c for c in ch if numeral(c)]
            r = None
            for c in ch:
                if numeral(c):
                    continue
                r = c if r is None else MUL(r, c)
            for c in num:
                r = c * r
        elif n == z3.Z3_OP_DIV and not numeral(ch[1]):
            r = DIV(*ch)
        elif all(a.eq(b) for a, b in zip(ch, e.children())):
            r = e
        elif n in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            r = (z3.And if n == z3.Z3_OP_AND else z3.Or)(ch)
        elif n == z3.Z3_OP_ADD:
            r = z3.Sum(ch)
        elif n == z3.Z3_OP_MUL:
            r = z3.Product(ch)
        elif n == z3.Z3_OP_DISTINCT:
            r = z3.Distinct(ch)
        else:
            r = e.decl()(*ch)
    else:
        r = e
    cache[k] = (e, r)
    return r


def numeral(c):
    return z3.is_rational_value(c) or z3.is_int_value(c) or z3.is_to_real(c) and numeral(c.arg(0)) \
        or z3.is_app_of(c, z3.Z3_OP_UMINUS) and numeral(c.arg(0))


def run_one(text, rlimit, secs, which_):
    """'unsat' | 'sat' | 'unknown' with the time taken."""
    t0 = time.time()
    if which_.endswith("+"):
        # incremental mode: no preprocessing, triggers stay as written
        text = text.replace("(check-sat)", "(push)\n(check-sat)")
        which_ = which_[:-1]
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(text)
        path = f.name
    try:
        if which_ == "z3":
            cmd = [Z3NEW or Z3OLD, "-smt2", "smt.mbqi=false", "auto_config=false", "rlimit=%d" % rlimit, "-T:%d" % secs, path]
        elif which_ == "z3m":
            cmd = [Z3NEW or Z3OLD, "-smt2", "rlimit=%d" % rlimit, "-T:%d" % secs, path]
        elif which_ == "z3old":
            cmd = [Z3OLD, "-smt2", "smt.mbqi=false", "auto_config=false", "rlimit=%d" % rlimit, "-T:%d" % secs, path]
        else:
            cmd = [CVC5, "--rlimit=%d" % (rlimit // 10), "--tlimit=%d" % (secs * 1000), path]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs + 20)
        o = p.stdout.strip().splitlines()
        r = next((x for x in o if x in ("sat", "unsat", "unknown")), "unknown")
        err = next((x for x in o if "error" in x), "")
        if err:
            r = "error: " + err[:200]
    except subprocess.TimeoutExpired:
        r = "unknown"
    finally:
        os.unlink(path)
    return r, time.time() - t0


def discharge(text, budget, hint=None, deadline=None):
    """Try the back ends in turn.  Returns (status, back end, seconds, text used)."""
    total = 0.0
    last = "unknown"
    texts = text if isinstance(text, list) else [text]
    todo = [(b, rl, secs, i) for b, rl, secs in budget for i in range(len(texts))]
    if hint and hint[1] < len(texts):
        todo.insert(0, (hint[0], int(2e9), int(hint[2] * 4 + 15), hint[1]))
    b = "none"
    for b, rl, secs, i in todo:
        if deadline is not None:
            left = deadline() - time.time()
            if left < 2:
                return "unknown" if total else "not attempted", b, total, None
            secs = int(min(secs, left))
        r, t = run_one(texts[i], rl, secs, b)
        if r == "sat" and i != len(texts) - 1:
            r = "unknown"
        total += t
        if r == "unsat":
            return "discharged", b, total, (i, t)
        last = r if r != "unknown" else last
        if r.startswith("error"):
            return r, b, total, i
    return ("refuted" if last == "sat" else "unknown"), b, total, None


QUICK = [("z3+", 3_000_000, 8), ("z3old+", 10_000_000, 10), ("z3", 6_000_000, 12), ("z3old", 20_000_000, 15), ("cvc5", 20_000_000, 20),
         ("z3+", 60_000_000, 60), ("z3", 60_000_000, 90), ("z3old+", 100_000_000, 60), ("cvc5", 60_000_000, 60), ("z3m", 40_000_000, 60)]
if os.environ.get("PYVC_FAST"):
    QUICK = QUICK[:3]
THOROUGH = QUICK + [("z3old+", 300_000_000, 200), ("cvc5", 300_000_000, 200), ("z3+", 400_000_000, 400)]
