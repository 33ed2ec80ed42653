"""Generators and oracles shared by the executable (bounded) oracles.

Everything here is independent of pybbn: the oracle enumerates the joint
distribution of a network directly from the case description.
"""
import ast
import itertools
import math
import os
import random

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


class Fail(Exception):
    """A property is broken by the real code on this case."""


class Skip(Exception):
    """The case is outside the property's hypotheses."""


def require(cond, msg):
    if not cond:
        raise Fail(msg)


def close(a, b, tol=1e-6):
    a = float(a)
    b = float(b)
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- literals
def mine_literals():
    """Integer, float and string literals of the current source; they only
    steer the generators towards inputs the code treats specially."""
    ints, floats, strs = set(), set(), set()
    for root, _, files in os.walk(os.path.join(REPO, "pybbn")):
        for f in files:
            if not f.endswith(".py"):
                continue
            try:
                with open(os.path.join(root, f)) as h:
                    tree = ast.parse(h.read())
            except (SyntaxError, OSError, UnicodeDecodeError):
                continue
            docs = set()
            for node in ast.walk(tree):
                if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                    docs.add(id(node.value))
            for node in ast.walk(tree):
                if isinstance(node, ast.Constant) and id(node) not in docs:
                    v = node.value
                    if isinstance(v, bool):
                        continue
                    if isinstance(v, int) and 0 <= v <= 1000:
                        ints.add(v)
                    elif isinstance(v, float):
                        floats.add(v)
                    elif isinstance(v, str) and 0 < len(v) <= 12:
                        if all(c.isalnum() or c in "_." for c in v):
                            strs.add(v)
    return sorted(ints), sorted(floats), sorted(strs)


LIT_INTS, LIT_FLOATS, LIT_STRS = mine_literals()

STATE_POOLS = [
    ["on", "off", "mid", "x3", "x4"],
    ["t", "f", "u", "v", "w"],
    ["0", "1", "2", "3", "4"],
    ["true", "false", "maybe", "never", "NA"],
    ["10", "9", "8", "7", "11"],
    ["a", "b", "c", "d", "e"],
    ["low level", "high", "very high", "none", "A B"],
]


def rand_states(rng, k, allow_shuffle=True):
    pool = list(rng.choice(STATE_POOLS))
    if rng.random() < 0.1 and LIT_STRS:
        pool = list(dict.fromkeys(rng.sample(LIT_STRS, min(len(LIT_STRS), 5)) + pool))
    if allow_shuffle and rng.random() < 0.6:
        rng.shuffle(pool)
    return pool[:k]


def rand_ids(rng, n):
    kind = rng.random()
    if kind < 0.3:
        return list(range(n))
    if kind < 0.55:
        ids = list(range(n))
        rng.shuffle(ids)
        return ids
    if kind < 0.75:
        lo = rng.choice([1, 5, 7, 8, 9, 95, 98])
        ids = list(range(lo, lo + n))
        rng.shuffle(ids)
        return ids
    if kind < 0.9:
        return rng.sample(range(0, 200), n)
    pool = list(dict.fromkeys([i for i in LIT_INTS if i >= 0] + list(range(0, 30))))
    return rng.sample(pool, n)


def rand_names(rng, n):
    kind = rng.random()
    if kind < 0.4:
        names = [chr(97 + i) for i in range(n)]
    elif kind < 0.7:
        names = ["n%d" % i for i in range(n)]
    elif kind < 0.8:
        names = [str(i) for i in range(n)]
    elif kind < 0.9:
        names = ["%s var" % chr(97 + i) for i in range(n)]
    else:
        pool = list(dict.fromkeys(LIT_STRS + ["v%d" % i for i in range(n)]))
        names = rng.sample(pool, n)
    rng.shuffle(names)
    return names


def rand_dag(rng, n):
    """Edges over positions 0..n-1, acyclic, in a random order."""
    order = list(range(n))
    rng.shuffle(order)
    kind = rng.choice(
        ["sparse", "sparse", "dense", "tree", "chain", "fanin", "fanout", "loop",
         "forest", "empty", "poly", "two", "islands"]
    )
    edges = []
    if kind == "sparse":
        p = rng.uniform(0.2, 0.5)
        edges = [(a, b) for i, a in enumerate(order) for b in order[i + 1:] if rng.random() < p]
    elif kind == "dense":
        p = rng.uniform(0.6, 1.0)
        edges = [(a, b) for i, a in enumerate(order) for b in order[i + 1:] if rng.random() < p]
    elif kind == "tree":
        edges = [(order[rng.randrange(i)], order[i]) for i in range(1, n)]
    elif kind == "chain":
        edges = list(zip(order, order[1:]))
    elif kind == "fanin":
        edges = [(a, order[-1]) for a in order[:-1]]
    elif kind == "fanout":
        edges = [(order[0], a) for a in order[1:]]
    elif kind == "loop":
        # an undirected cycle of length n
        if n >= 3:
            k = rng.randrange(1, n - 1)
            up, down = order[1:-1][:k], order[1:-1][k:]
            for path in (up, down):
                prev = order[0]
                for x in path:
                    edges.append((prev, x))
                    prev = x
                edges.append((prev, order[-1]))
            edges = list(dict.fromkeys(edges))
    elif kind == "forest":
        edges = [(order[rng.randrange(i)], order[i]) for i in range(1, n) if rng.random() < 0.7]
    elif kind == "poly":
        for i in range(1, n):
            a, b = order[rng.randrange(i)], order[i]
            edges.append((a, b) if rng.random() < 0.5 else (b, a))
    elif kind == "islands":
        # isolated variables beside chains of two or three
        i = 0
        while i < n:
            k = rng.choice([1, 1, 2, 3])
            part = order[i:i + k]
            edges += [(a, b) if rng.random() < 0.7 else (b, a) for a, b in zip(part, part[1:])]
            i += k
    elif kind == "two":
        h = n // 2
        for part in (order[:h], order[h:]):
            edges += [(a, b) for i, a in enumerate(part) for b in part[i + 1:] if rng.random() < 0.6]
    rng.shuffle(edges)
    return edges


def wide_dag(rng, n):
    order = list(range(n))
    rng.shuffle(order)
    kind = rng.choice(["sink", "complete", "layers", "pairs"])
    edges = []
    if kind == "sink":
        k = min(6, n - 1)
        edges = [(a, order[k]) for a in order[:k]] + [(order[rng.randrange(k)], b) for b in order[k + 1:]]
    elif kind == "complete":
        k = rng.choice([5, 6, 7])
        edges = [(a, b) for i, a in enumerate(order[:k]) for b in order[i + 1:k]]
    elif kind == "layers":
        h = rng.choice([4, 5, 6])
        edges = [(a, b) for a in order[:h] for b in order[h:h + 3] if rng.random() < 0.85]
    else:
        # children of pairs of sources: no clique holds a node and its neighbours
        h = max(3, n // 2)
        pairs = [(a, b) for i, a in enumerate(order[:h]) for b in order[i + 1:h]]
        rng.shuffle(pairs)
        for c, (a, b) in zip(order[h:], pairs):
            edges += [(a, c), (b, c)]
    rng.shuffle(edges)
    return edges


def rand_row(rng, k, positive=False, kind=None):
    kind = kind or rng.choice(["dir", "dir", "dir", "uniform", "zero", "det", "skew", "coarse"])
    if positive and kind in ("zero", "det"):
        kind = "dir"
    if kind == "uniform":
        return [1.0 / k] * k
    if kind == "det":
        i = rng.randrange(k)
        return [1.0 if j == i else 0.0 for j in range(k)]
    if kind == "coarse":
        w = [rng.randrange(1 if positive else 0, 4) for _ in range(k)]
        if sum(w) == 0:
            w[rng.randrange(k)] = 1
        return [x / sum(w) for x in w]
    w = [rng.random() + 1e-3 for _ in range(k)]
    if kind == "zero" and k > 1:
        w[rng.randrange(k)] = 0.0
    if kind == "skew":
        w[rng.randrange(k)] = rng.choice([1e-6, 1e-4, 0.002, 30.0])
    s = sum(w)
    return [x / s for x in w]


def rand_net(rng, max_n=6, max_states=4, positive=False, max_joint=3000, min_n=1, min_states=1,
             big=0.06, max_parents=4, wide=0.04):
    if wide and max_n >= 4 and rng.random() < wide:
        # many parents, large cliques, many fill-in edges: two states each
        n = rng.choice([6, 7, 7, 8, 8, 9])
        max_parents, max_states = 6, 2
    else:
        n = 0
    for _ in range(200):
        if n and max_parents == 6:
            edges = wide_dag(rng, n)
            ks = [max(2, min_states)] * n
            break
        n = rng.randint(min_n, max_n)
        if rng.random() < big:
            n = rng.randint(max_n, max_n + 4)
        edges = rand_dag(rng, n)
        if edges and max(sum(1 for e in edges if e[1] == i) for i in range(n)) > max_parents:
            continue
        sk = rng.random()
        ks = []
        for _i in range(n):
            if sk < 0.4:
                k = 2
            else:
                k = rng.choice([2, 2, 3, 3, 4, 1])
            ks.append(min(max(k, min_states), max_states))
        if math.prod(ks) <= max_joint:
            break
    else:
        return rand_net(rng, 4, 2, positive, max_joint, min(min_n, 4), min_states, 0.0, max_parents)
    ids = rand_ids(rng, n)
    names = rand_names(rng, n)
    rowkind = rng.choice([None, None, None, "dir", "coarse", "uniform"])
    shared = rand_states(rng, max_states) if rng.random() < 0.4 else None
    parents = {i: [] for i in range(n)}
    for a, b in edges:
        parents[b].append(a)
    nodes = []
    for i in range(n):
        states = shared[: ks[i]] if shared else rand_states(rng, ks[i])
        rows = math.prod([ks[p] for p in parents[i]])
        probs = []
        for _r in range(rows):
            probs += rand_row(rng, ks[i], positive, rowkind)
        nodes.append([ids[i], names[i], list(states), probs])
    order = list(range(n))
    rng.shuffle(order)
    return {"nodes": [nodes[i] for i in order], "edges": [[ids[a], ids[b]] for a, b in edges]}


# ------------------------------------------------------------------ oracle
class Net:
    """A network as described by a case (not by pybbn)."""

    def __init__(self, case, probs=None):
        self.ids = [x[0] for x in case["nodes"]]
        self.name = {x[0]: x[1] for x in case["nodes"]}
        self.states = {x[0]: list(x[2]) for x in case["nodes"]}
        self.probs = {x[0]: list(x[3]) for x in case["nodes"]}
        if probs:
            for k, v in probs.items():
                self.probs[int(k)] = list(v)
        self.parents = {i: [] for i in self.ids}
        for a, b in case["edges"]:
            if a not in self.parents[b]:
                self.parents[b].append(a)
        self.axis = {i: a for a, i in enumerate(self.ids)}
        self._joint = None

    def cpt(self, i):
        scope = self.parents[i] + [i]
        arr = np.array(self.probs[i], dtype=float).reshape([len(self.states[j]) for j in scope])
        return scope, arr

    def spread(self, scope, arr):
        axes = [self.axis[j] for j in scope]
        order = np.argsort(axes)
        arr = np.transpose(arr, order)
        shape = [1] * len(self.ids)
        for j in scope:
            shape[self.axis[j]] = len(self.states[j])
        return arr.reshape(shape)

    def joint(self):
        if self._joint is None:
            j = np.ones([len(self.states[i]) for i in self.ids])
            for i in self.ids:
                j = j * self.spread(*self.cpt(i))
            self._joint = j
        return self._joint

    def components(self):
        comp = {i: i for i in self.ids}

        def find(i):
            while comp[i] != i:
                i = comp[i]
            return i

        for i in self.ids:
            for p in self.parents[i]:
                comp[find(i)] = find(p)
        return {i: find(i) for i in self.ids}

    def posteriors(self, ev):
        """ev: id -> {state: likelihood}; returns id -> {state: prob}, None if
        the evidence has probability zero."""
        j = self.joint()
        for i, lik in ev.items():
            v = np.array([float(lik[s]) for s in self.states[i]])
            j = j * self.spread([i], v)
        tot = j.sum()
        if not tot > 1e-12:
            return None
        res = {}
        for i in self.ids:
            ax = tuple(a for a in range(len(self.ids)) if a != self.axis[i])
            m = j.sum(axis=ax) / tot
            res[i] = {s: float(m[k]) for k, s in enumerate(self.states[i])}
        return res

    def do(self, x, xs):
        """Posterior of every variable under do(x = xs)."""
        j = np.ones([len(self.states[i]) for i in self.ids])
        for i in self.ids:
            if i == x:
                v = np.array([1.0 if s == xs else 0.0 for s in self.states[i]])
                j = j * self.spread([i], v)
            else:
                j = j * self.spread(*self.cpt(i))
        res = {}
        for i in self.ids:
            ax = tuple(a for a in range(len(self.ids)) if a != self.axis[i])
            m = j.sum(axis=ax)
            res[i] = {s: float(m[k]) for k, s in enumerate(self.states[i])}
        return res


def build_bbn(case, probs=None):
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable

    bbn = Bbn()
    nodes = {}
    for i, name, states, p in case["nodes"]:
        if probs and str(i) in probs:
            p = probs[str(i)]
        node = BbnNode(Variable(i, name, list(states)), list(p))
        nodes[i] = node
    late = case.get("late", False)
    if not late:
        for node in nodes.values():
            bbn.add_node(node)
    for a, b in case["edges"]:
        bbn.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
    for node in nodes.values():
        bbn.add_node(node)
    return bbn


def compare_posteriors(net, jt, ev, what, tol=1e-6):
    exp = net.posteriors(ev)
    if exp is None:
        return False
    got = jt.get_posteriors()
    require(set(got.keys()) == set(net.name.values()), "%s: variables reported %r" % (what, sorted(got)))
    for i in net.ids:
        g = got[net.name[i]]
        require(set(g.keys()) == set(net.states[i]), "%s: states reported for %s: %r" % (what, net.name[i], g))
        for s in net.states[i]:
            require(
                close(g[s], exp[i][s], tol),
                "%s: P(%s=%s) reported %r, joint gives %r" % (what, net.name[i], s, float(g[s]), exp[i][s]),
            )
            require(g[s] >= 0, "%s: negative posterior %r" % (what, g[s]))
        require(close(sum(g.values()), 1.0, tol), "%s: posterior of %s sums to %r" % (what, net.name[i], sum(g.values())))
    return True


LIKS = [0.0, 1.0, 0.5, 0.25, 2.0, -1.0, 0.1, 0.999999, 1.0000001, 1e-9, 3.5]


def rand_lik(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(LIKS)
    if r < 0.65 and LIT_FLOATS:
        return rng.choice(LIT_FLOATS)
    return rng.uniform(-0.5, 1.5)


KINDS = ["VIRTUAL", "FINDING", "OBSERVATION", "UNOBSERVE"]


def rand_evidence(rng, node, kind=None):
    """[id, kind, [[state, likelihood], ...]]"""
    i, _, states, _ = node
    kind = kind or rng.choice(["VIRTUAL", "VIRTUAL", "FINDING", "OBSERVATION", "OBSERVATION", "UNOBSERVE"])
    r = rng.random()
    if kind == "OBSERVATION" and r < 0.7:
        vals = [[rng.choice(states), 1.0]]
        if rng.random() < 0.3:
            vals += [[s, 0.0] for s in states if s != vals[0][0]]
    elif kind == "VIRTUAL" and r < 0.5:
        vals = [[s, round(rng.random(), 2)] for s in states]
        if rng.random() < 0.4:
            vals[rng.randrange(len(vals))][1] = 1.0
        if rng.random() < 0.2:
            vals[rng.randrange(len(vals))][1] = 0.0
    elif kind == "FINDING" and r < 0.5:
        vals = [[s, float(rng.random() < 0.6)] for s in states]
    else:
        sub = [s for s in states if rng.random() < 0.75]
        if not sub and kind == "OBSERVATION":
            sub = [rng.choice(states)]
        vals = [[s, rand_lik(rng)] for s in sub]
    rng.shuffle(vals)
    return [i, kind, vals]


def build_evidence(jt, ev):
    from pybbn.graph.jointree import EvidenceBuilder, EvidenceType

    i, kind, vals = ev
    b = EvidenceBuilder().with_node(jt.get_bbn_node(i)).with_type(EvidenceType[kind])
    for s, l in vals:
        b = b.with_evidence(s, l)
    return b.build()


def check_normalised(kind, states, given, out, what):
    """C03's statement, on the values an evidence holds after validation."""
    given = dict((s, l) for s, l in given)
    require(set(out.keys()) == set(states), "%s: states with likelihood %r" % (what, out))
    if kind == "VIRTUAL":
        for s in states:
            e = min(1.0, max(0.0, given.get(s, 0.0)))
            require(out[s] == e, "%s: virtual likelihood of %s is %r, expected %r" % (what, s, out[s], e))
    elif kind == "FINDING":
        pos = {s for s in states if given.get(s, 0.0) > 0.0}
        for s in states:
            e = 1.0 if (s in pos or not pos) else 0.0
            require(out[s] == e, "%s: finding likelihood of %s is %r, expected %r" % (what, s, out[s], e))
    elif kind == "OBSERVATION":
        ones = [s for s in states if out[s] == 1.0]
        require(len(ones) == 1, "%s: observation holds %r" % (what, out))
        require(all(out[s] == 0.0 for s in states if s != ones[0]), "%s: observation holds %r" % (what, out))
        m = max(given.get(s, 0.0) for s in states)
        require(given.get(ones[0], 0.0) == m, "%s: observed %s of likelihood %r, maximum is %r" % (what, ones[0], given.get(ones[0], 0.0), m))
    else:
        require(all(out[s] == 1.0 for s in states), "%s: withdrawn evidence holds %r" % (what, out))


def held(jt):
    return {
        i: {s: p.entries[0].value for s, p in d.items()}
        for i, d in jt.evidences.items()
    }
