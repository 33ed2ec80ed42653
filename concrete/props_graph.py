"""Executable oracles for graphs, formats, sampling, generators (C06-C08, C11-C17)."""
import itertools
import json
import math
import os
import shutil
import tempfile

from common import *


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vf")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# --------------------------------------------------------------- C06 / C07
def mk_node(kind, i):
    from pybbn.graph.node import BbnNode, Node
    from pybbn.graph.variable import Variable

    if kind == "bbn":
        return BbnNode(Variable(i, "n%d" % i, ["t", "f"]), [0.5, 0.5])
    return Node(i)


def mk_graph(cls):
    from pybbn.graph.dag import Bbn, Dag
    from pybbn.graph.graph import Graph, Ug
    from pybbn.graph.pdag import Pdag

    return {"Graph": Graph, "Ug": Ug, "Dag": Dag, "Bbn": Bbn, "Pdag": Pdag}[cls]()


def reach(adj, a, b):
    """b reachable from a by one or more steps."""
    seen, stack = set(), [a]
    while stack:
        x = stack.pop()
        for y in adj.get(x, ()):
            if y == b:
                return True
            if y not in seen:
                seen.add(y)
                stack.append(y)
    return False


class Model:
    """What the graph should be: the list of accepted edges."""

    def __init__(self, cls):
        self.cls = cls
        self.nodes = {}
        self.edges = {}  # (i, j, t) -> True; undirected keys are sorted

    def key(self, i, j, t):
        return (min(i, j), max(i, j), t) if t == "U" else (i, j, t)

    def arcs(self):
        out = {i: set() for i in self.nodes}
        for i, j, t in self.edges:
            out[i].add(j)
            if t == "U":
                out[j].add(i)
        return out

    def directed(self):
        out = {i: set() for i in self.nodes}
        for i, j, t in self.edges:
            if t == "D":
                out[i].add(j)
        return out

    def linked(self, i, j):
        a = self.arcs()
        return j in a.get(i, ()) or i in a.get(j, ())

    def accepts(self, i, j, t):
        """None: unspecified here."""
        if i == j:
            return False if self.cls != "Bbn" else None
        a = self.arcs()
        if self.cls == "Dag":
            if t != "D" or self.linked(i, j):
                return False
            return not reach(self.directed(), j, i)
        if self.cls == "Pdag":
            if self.linked(i, j):
                return False
            return not reach(self.directed(), j, i)
        if self.cls == "Bbn":
            return True if t == "D" else None
        if t == "U":
            return not (j in a.get(i, ()) and i in a.get(j, ()))
        return j not in a.get(i, ())


class C06:
    rule = "random sequences of 1-40 add_edge calls (repeated, reversed, self-referential, undirected) on Dag and Pdag"
    known = [
        ("bbn-add-edge-cycle", "Bbn.add_edge (Bbn.__shouldadd__ in pybbn/graph/dag.py) accepts every edge between BbnNodes, "
         "so adding a->b, b->a or a->a to a Bbn leaves a directed cycle"),
    ]

    @staticmethod
    def gen(rng):
        cls = rng.choice(["Dag", "Dag", "Pdag"])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 15])
        ids = rand_ids(rng, n)
        ops = []
        hist = []
        style = rng.choice(["any", "any", "long", "dense"])
        if style == "long" and n > 2:
            # a long path in random order, then closing attempts
            order = list(ids)
            rng.shuffle(order)
            hist = list(zip(order, order[1:]))
            rng.shuffle(hist)
            ops = [[a, b, "D"] for a, b in hist]
            ops.append([order[-1], order[0], "D"])
        for _ in range(rng.randint(1, 30 if style == "dense" else 15)):
            r = rng.random()
            if r < 0.15 and hist:
                a, b = rng.choice(hist)
                a, b = b, a
            elif r < 0.22 and hist:
                a, b = rng.choice(hist)
            elif r < 0.28:
                a = b = rng.choice(ids)
            else:
                a, b = rng.choice(ids), rng.choice(ids)
            t = "U" if rng.random() < (0.35 if cls == "Pdag" else 0.12) else "D"
            ops.append([a, b, t])
            hist.append((a, b))
        return {"cls": cls, "kind": rng.choice(["node", "bbn"]), "ids": ids, "ops": ops,
                "pre": rng.random() < 0.5, "query": rng.random() < 0.5}

    @staticmethod
    def check(case):
        from pybbn.graph.edge import Edge, EdgeType

        g = mk_graph(case["cls"])
        m = Model(case["cls"])
        nodes = {i: mk_node(case["kind"], i) for i in case["ids"]}
        if case["pre"]:
            for n in nodes.values():
                g.add_node(n)
                m.nodes[n.id] = True
        for k, (a, b, t) in enumerate(case["ops"]):
            what = "op %d, edge %r %s %r" % (k, a, "->" if t == "D" else "--", b)
            m.nodes[a] = m.nodes[b] = True
            acc = m.accepts(a, b, t)
            r = g.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED if t == "D" else EdgeType.UNDIRECTED))
            require(r is g, "%s: add_edge returns something else" % what)
            if acc:
                m.edges[m.key(a, b, t)] = True
            got = sorted((e.i.id, e.j.id, "D") if e.type == EdgeType.DIRECTED else (min(e.i.id, e.j.id), max(e.i.id, e.j.id), "U") for e in g.get_edges())
            require(got == sorted(m.edges), "%s: edges %r, expected %r" % (what, got, sorted(m.edges)))
            d = {}
            for i, j, tt in got:
                if tt == "D":
                    d.setdefault(i, set()).add(j)
            for i in list(d):
                require(not reach(d, i, i), "%s: directed cycle through %r" % (what, i))
            if case["query"]:
                ids = case["ids"]
                i, j = ids[k % len(ids)], ids[(3 * k + 1) % len(ids)]
                a_ = m.arcs()
                ij, ji = j in a_.get(i, ()), i in a_.get(j, ())
                if case["cls"] == "Dag":
                    require(g.edge_exists(i, j) == (ij and not ji), "%s: edge_exists(%r, %r)" % (what, i, j))
                else:
                    require(g.edge_exists(i, j) == (ij or ji), "%s: edge_exists(%r, %r)" % (what, i, j))
                    require(g.directed_edge_exists(i, j) == (ij and not ji), "%s: directed_edge_exists(%r, %r)" % (what, i, j))

    @staticmethod
    def findings():
        from pybbn.graph.edge import Edge, EdgeType

        g = mk_graph("Bbn")
        a, b = mk_node("bbn", 0), mk_node("bbn", 1)
        for x, y in ((a, b), (b, a), (a, a)):
            g.add_edge(Edge(x, y, EdgeType.DIRECTED))
        return ["bbn-add-edge-cycle"] if len(g.get_edges()) == 3 else []


class C07:
    rule = "random sequences of 1-25 add_node/add_edge/remove_node calls on Graph, Ug, Dag, Pdag and Bbn, all queries after every call"

    @staticmethod
    def gen(rng):
        cls = rng.choice(["Graph", "Graph", "Ug", "Dag", "Dag", "Pdag", "Pdag", "Bbn"])
        n = rng.randint(1, 7)
        ids = rand_ids(rng, n)
        ops = []
        for _ in range(rng.randint(1, 25)):
            r = rng.random()
            if r < 0.15:
                ops.append(["node", rng.choice(ids)])
            elif r < 0.3:
                ops.append(["remove", rng.choice(ids)])
            else:
                a, b = rng.choice(ids), rng.choice(ids)
                if rng.random() < 0.2 and ops and ops[-1][0] == "edge":
                    a, b = ops[-1][2], ops[-1][1]
                t = {"Graph": rng.choice("UD"), "Ug": "U", "Dag": "D", "Bbn": "D", "Pdag": rng.choice("UDD")}[cls]
                if cls == "Dag" and rng.random() < 0.1:
                    t = "U"
                if cls == "Bbn" and a == b:
                    continue
                ops.append(["edge", a, b, t])
        if not ops:
            ops = [["node", ids[0]]]
        return {"cls": cls, "kind": "bbn" if cls == "Bbn" else rng.choice(["node", "bbn"]), "ids": ids, "ops": ops,
                "fresh": rng.random() < 0.3, "touch": rng.random() < 0.5}

    @staticmethod
    def check(case):
        from pybbn.graph.edge import Edge, EdgeType

        cls = case["cls"]
        g = mk_graph(cls)
        m = Model(cls)
        first = {}
        pool = {i: mk_node(case["kind"], i) for i in case["ids"]}
        porder = {}

        def node(i):
            return mk_node(case["kind"], i) if case["fresh"] else pool[i]

        def add_node(n):
            if n.id not in first:
                first[n.id] = n
                m.nodes[n.id] = True

        objs = {}
        for k, op in enumerate(case["ops"]):
            what = "%s: op %d %r" % (cls, k, op)
            if op[0] == "node":
                n = node(op[1])
                r = g.add_node(n)
                require(r is g, what + ": add_node returns something else")
                add_node(n)
            elif op[0] == "remove":
                i = op[1]
                g.remove_node(i)
                m.nodes.pop(i, None)
                first.pop(i, None)
                for key in [e for e in m.edges if i in e[:2]]:
                    del m.edges[key]
                    objs.pop(key, None)
                porder.pop(i, None)
                for c in porder:
                    porder[c] = [p for p in porder[c] if p != i]
            else:
                _, a, b, t = op
                na, nb = node(a), node(b)
                if a == b:
                    nb = na
                acc = m.accepts(a, b, t)
                e = Edge(na, nb, EdgeType.DIRECTED if t == "D" else EdgeType.UNDIRECTED)
                r = g.add_edge(e)
                require(r is g, what + ": add_edge returns something else")
                add_node(na)
                add_node(nb)
                if acc is None:
                    raise Skip()
                key = m.key(a, b, t)
                if acc:
                    if cls != "Bbn":
                        require(not (key in m.edges and cls in ("Ug", "Dag", "Pdag")), what + ": duplicate accepted")
                    m.edges[key] = True
                    objs[key] = e
                    if cls == "Bbn" and a not in porder.setdefault(b, []):
                        porder[b].append(a)
            # ---- every view describes the model
            require({i: n for i, n in g.nodes.items()} == first, what + ": nodes %r, expected %r" % (sorted(g.nodes), sorted(first)))
            require(all(g.nodes[i] is first[i] and g.get_node(i) is first[i] for i in first), what + ": a node was replaced")
            require(sorted(n.id for n in g.get_nodes()) == sorted(first), what + ": get_nodes")
            es = list(g.get_edges())
            got = sorted(m.key(e.i.id, e.j.id, "D" if e.type == EdgeType.DIRECTED else "U") for e in es)
            require(got == sorted(m.edges), what + ": edges %r, expected %r" % (got, sorted(m.edges)))
            if cls != "Bbn":
                require({id(e) for e in es} == {id(e) for e in objs.values()}, what + ": an edge was replaced")
            arcs = m.arcs()
            present = list(m.nodes)
            for i in present:
                nb = {j for j in present if j in arcs[i] or i in arcs[j]}
                gn = set(g.get_neighbors(i)) if (case["touch"] or i in g.neighbors) else set()
                require(gn == nb, what + ": neighbours of %r are %r, expected %r" % (i, sorted(gn), sorted(nb)))
                if cls in ("Dag", "Bbn", "Pdag"):
                    want = sorted(j for j in present if i in arcs[j])
                    require(sorted(g.get_parents(i)) == want, what + ": parents of %r are %r, expected %r" % (i, sorted(g.get_parents(i)), want))
                if cls in ("Dag", "Bbn"):
                    require(sorted(g.get_children(i)) == sorted(arcs[i]), what + ": children of %r" % i)
                if cls == "Bbn":
                    require(list(g.parents.get(i, [])) == porder.get(i, []), what + ": parent order of %r" % i)
                    require(g.get_parents_ordered(i) == sorted(porder.get(i, [])), what + ": ordered parents of %r" % i)
                for j in present:
                    ij, ji = j in arcs[i], i in arcs[j]
                    if cls in ("Dag", "Bbn"):
                        want = ij and not ji
                    else:
                        want = ij or ji
                    require(bool(g.edge_exists(i, j)) == want, what + ": edge_exists(%r, %r)" % (i, j))
                    if cls == "Pdag":
                        require(bool(g.directed_edge_exists(i, j)) == (ij and not ji), what + ": directed_edge_exists(%r, %r)" % (i, j))
                if cls == "Pdag":
                    want = sorted(j for j in nb if i not in arcs[j] )
                    # out nodes: neighbours that are not parents
                    require(sorted(g.get_out_nodes(i)) == want, what + ": out nodes of %r" % i)
            for i, v in list(g.edge_map.items()) + list(g.neighbors.items()):
                require(i in m.nodes or not v, what + ": trace of %r" % i)
                require(all(j in m.nodes for j in v), what + ": trace in the entry of %r" % i)
            if cls == "Bbn":
                require(all(c in m.nodes for c in g.parents), what + ": trace in the parent map")


# --------------------------------------------------------------------- C08
class C08:
    rule = "random networks written to a dictionary, JSON or CSV and read back"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=7, max_joint=3000)
        case["late"] = rng.random() < 0.3
        case["fmt"] = rng.choice(["dict", "jsondict", "json", "csv", "csv"])
        case["twice"] = rng.random() < 0.3
        for n in case["nodes"]:
            if rng.random() < 0.1:
                n[3] = [rng.choice([0.1 + 0.2, 1e-9, 1.0, 0.0, 1 / 3, 1e-17, 123456789.123]) for _ in n[3]]
        return case

    @staticmethod
    def check(case):
        from pybbn.graph.dag import Bbn

        net = Net(case)
        bbn = build_bbn(case)

        def same(b, what):
            require(sorted(b.nodes) == sorted(net.ids), "%s: ids %r" % (what, sorted(b.nodes, key=str)))
            for i, n in b.nodes.items():
                v = n.variable
                require(n.id == i and v.id == i, "%s: id of node %r" % (what, i))
                require(v.name == net.name[i], "%s: name of %r is %r, was %r" % (what, i, v.name, net.name[i]))
                require(list(v.values) == net.states[i], "%s: states of %r are %r, were %r" % (what, i, v.values, net.states[i]))
                require([float(p) for p in n.probs] == [float(p) for p in net.probs[i]], "%s: probabilities of %r are %r, were %r" % (what, i, n.probs, net.probs[i]))
                require(list(b.parents.get(i, [])) == net.parents[i], "%s: parents of %r are %r, were %r" % (what, i, b.parents.get(i, []), net.parents[i]))
                require(sorted(b.get_parents(i)) == sorted(net.parents[i]), "%s: get_parents of %r" % (what, i))
            want = sorted((a, c) for c in net.ids for a in net.parents[c])
            require(sorted((e.i.id, e.j.id) for e in b.get_edges()) == want, "%s: edges" % what)
            for e in b.get_edges():
                require(b.nodes[e.i.id] is e.i and b.nodes[e.j.id] is e.j, "%s: edge links foreign nodes" % what)

        def trip(b):
            f = case["fmt"]
            if f == "dict":
                return Bbn.from_dict(Bbn.to_dict(b))
            if f == "jsondict":
                return Bbn.from_dict(json.loads(json.dumps(Bbn.to_dict(b))))
            with scratch() as d:
                p = os.path.join(d, "x." + f)
                if f == "json":
                    Bbn.to_json(b, p)
                    return Bbn.from_json(p)
                Bbn.to_csv(b, p)
                return Bbn.from_csv(p)

        b = trip(bbn)
        same(b, case["fmt"])
        same(bbn, "original after " + case["fmt"])
        if case["twice"]:
            same(trip(b), case["fmt"] + " twice")


# --------------------------------------------------------------------- C11
class C11:
    rule = "random networks, evidence of positive probability, seeds and counts; every draw is recomputed from the CPT rows"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=6, max_joint=800)
        case["late"] = rng.random() < 0.3
        case["seed"] = rng.choice([0, 1, 37, rng.randrange(10 ** 6)])
        case["n"] = rng.choice([0, 1, 2, 5, 20, 60])
        net = Net(case)
        ev = {}
        if rng.random() < 0.6:
            j = net.joint()
            import numpy as np

            flat = j.reshape(-1)
            cand = [int(x) for x in np.argsort(-flat)[: max(1, len(flat) // 3)] if flat[int(x)] > 1e-4]
            if cand:
                pos = np.unravel_index(rng.choice(cand), j.shape)
                for i in rng.sample(net.ids, rng.randint(1, min(3, len(net.ids)))):
                    ev[str(i)] = net.states[i][int(pos[net.axis[i]])]
                e = {int(i): {s: float(s == v) for s in net.states[int(i)]} for i, v in ev.items()}
                jj = j
                for i, lik in e.items():
                    jj = jj * net.spread([i], np.array([lik[s] for s in net.states[i]]))
                if jj.sum() < 0.003:
                    ev = {}
        case["evidence"] = ev
        case["again"] = rng.random() < 0.4
        return case

    @staticmethod
    def check(case):
        import numpy as np

        from pybbn.sampling.sampling import LogicSampler

        net = Net(case)
        for i in net.ids:
            k = len(net.states[i])
            rows = np.array(net.probs[i]).reshape(-1, k)
            if (rows.cumsum(axis=1)[:, -1] < 1 - 1e-9).any():
                raise Skip()
        s = LogicSampler(build_bbn(case))
        order = list(s.nodes)
        require(sorted(order) == sorted(net.ids), "order visits %r" % order)
        for i in net.ids:
            for p in net.parents[i]:
                require(order.index(p) < order.index(i), "node %r is sampled before its parent %r" % (i, p))
        ev = {int(i): v for i, v in case["evidence"].items()}
        given = dict(ev)

        def expected():
            np.random.seed(case["seed"])
            out = []
            tries = 0
            while len(out) < case["n"]:
                tries += 1
                if tries > 200000:
                    raise Skip()
                u = np.random.uniform(0.0, 1.0, size=len(order))
                sample = {}
                ok = True
                for p, i in zip(u, order):
                    rows = net.probs[i]
                    k = len(net.states[i])
                    r = 0
                    for q in net.parents[i]:
                        r = r * len(net.states[q]) + net.states[q].index(sample[q])
                    acc = np.array(rows[r * k: (r + 1) * k]).cumsum()
                    x = 0
                    while x < k and not p < acc[x]:
                        x += 1
                    if x >= k:
                        raise Skip()
                    sample[i] = net.states[i][x]
                    if i in ev and ev[i] != sample[i]:
                        ok = False
                        break
                if ok:
                    out.append(sample)
            return out

        want = expected()
        got = s.get_samples(evidence=ev, n_samples=case["n"], seed=case["seed"])
        require(ev == given, "the evidence passed in was changed to %r" % ev)
        require(len(got) == case["n"], "%d samples for %d requested" % (len(got), case["n"]))
        for k, (a, b) in enumerate(zip(got, want)):
            require(dict(a) == b, "sample %d is %r, the draws and CPT rows give %r" % (k, a, b))
        require(len({id(a) for a in got}) == len(got), "samples share a dictionary")
        if case["again"]:
            require(s.get_samples(evidence=ev, n_samples=case["n"], seed=case["seed"]) == got, "the same seed gives other samples")
            s2 = LogicSampler(build_bbn(case))
            require(s2.get_samples(evidence=ev, n_samples=case["n"], seed=case["seed"]) == got, "another sampler gives other samples")


# --------------------------------------------------------------------- C12
class C12:
    rule = ("random mean vectors, positive-definite covariances, observed subsets and listing orders (also chained); covariances exact, "
            "means exact for zero-mean models, otherwise pinned to the recorded sign defect")
    known = [
        ("gaussian-mean-sign", "GaussianInference.P reports -M and do_inferences computes m_Y - S_YZ S_ZZ^-1 (z - m_Z) (pybbn/gaussian/inference.py), so "
         "prior means are reported negated and conditional means are wrong when a prior mean is not zero or inference is chained; the existing tests pin it"),
    ]

    @staticmethod
    def gen(rng):
        n = rng.choice([2, 3, 4, 5, 6, 6, 12, 13])
        a = [[rng.gauss(0, 1) for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.3:
            for i in range(n):
                for j in range(n):
                    if rng.random() < 0.5:
                        a[i][j] = 0.0
        H = rand_names(rng, n)
        zero = rng.random() < 0.5
        M = [0.0 if zero else rng.gauss(0, 3) for _ in range(n)]
        obs = [[h, round(rng.gauss(0, 2), 3)] for h in rng.sample(H, rng.randint(1, n - 1 if rng.random() < 0.9 else n))]
        left = [h for h in H if h not in [o[0] for o in obs]]
        obs2 = [[h, round(rng.gauss(0, 2), 3)] for h in rng.sample(left, rng.randint(1, len(left)))] if left and rng.random() < 0.4 else []
        perm = list(range(len(obs)))
        rng.shuffle(perm)
        return {"H": H, "A": a, "M": M, "obs": obs, "obs2": obs2, "perm": perm, "list": rng.random() < 0.3}

    @staticmethod
    def check(case):
        import numpy as np

        from pybbn.gaussian.inference import GaussianInference

        H = list(case["H"])
        A = np.array(case["A"])
        E = A @ A.T + 0.3 * np.eye(len(H))
        M = np.array(case["M"])

        def cond(H, M, E, obs):
            zi = [H.index(h) for h, _ in obs]
            yi = [i for i in range(len(H)) if i not in zi]
            z = np.array([o for _, o in obs])
            K = E[np.ix_(yi, zi)] @ np.linalg.inv(E[np.ix_(zi, zi)])
            # the recorded defect: minus instead of plus (exact when M = 0 up to the sign P puts back)
            M2 = M[yi] - K @ (z - M[zi])
            E2 = E[np.ix_(yi, yi)] - K @ E[np.ix_(yi, zi)].T
            return [H[i] for i in yi], M2, E2

        def look(g, H, M, E, meta, what):
            require(list(g.H) == H, "%s: remaining variables %r, expected %r" % (what, g.H, H))
            P = g.P
            require(set(P) == set(H) | set(meta), "%s: variables reported %r" % (what, sorted(P)))
            for k, h in enumerate(H):
                m, v = P[h]
                require(close(v, E[k, k]), "%s: variance of %s is %r, expected %r" % (what, h, v, E[k, k]))
                require(close(m, -M[k], 1e-6), "%s: mean of %s is %r, expected %r" % (what, h, m, -M[k]))
            for h, o in meta.items():
                m, v = P[h]
                require(m == o and v == 0, "%s: observed %s reported as %r, %r" % (what, h, m, v))
            for d in g.marginals:
                m, v = P[d["name"]]
                require(close(d["mean"], m) and close(d["var"], v), "%s: marginals of %s" % (what, d["name"]))
            require(len(g.marginals) == len(P), "%s: marginals" % what)
            if len(H):
                require(np.allclose(np.array(g.E), E, rtol=1e-6, atol=1e-8), "%s: covariance %r, expected %r" % (what, g.E, E))

        M0, E0 = M.copy(), E.copy()
        g = GaussianInference(list(H), M, E)
        look(g, H, M, E, {}, "prior")
        obs = [tuple(o) for o in case["obs"]]
        r = g.do_inferences(obs)
        H1, M1, E1 = cond(H, M, E, obs)
        meta = dict(obs)
        look(r, H1, M1, E1, meta, "conditional")
        if not M0.any():
            # conditional mean as it should be, for the single step from zero means
            zi = [H.index(h) for h, _ in obs]
            yi = [i for i in range(len(H)) if i not in zi]
            true = E[np.ix_(yi, zi)] @ np.linalg.inv(E[np.ix_(zi, zi)]) @ np.array([o for _, o in obs])
            for k, h in enumerate(H1):
                require(close(r.P[h][0], true[k], 1e-6), "conditional mean of %s is %r, expected %r" % (h, r.P[h][0], true[k]))
        perm = [obs[i] for i in case["perm"]]
        r2 = g.do_inferences(perm)
        look(r2, H1, M1, E1, meta, "conditional, permuted")
        look(g, H, M0, E0, {}, "original afterwards")
        require((M == M0).all() and (E == E0).all(), "the given means or covariance changed")
        if len(obs) == 1:
            look(g.do_inference(*obs[0]), H1, M1, E1, meta, "single observation")
        if case["obs2"]:
            obs2 = [tuple(o) for o in case["obs2"]]
            r3 = r.do_inferences(obs2)
            H3, M3, E3 = cond(H1, M1, E1, obs2)
            look(r3, H3, M3, E3, {**meta, **dict(obs2)}, "chained")
            look(r, H1, M1, E1, meta, "first result afterwards")
            look(g, H, M0, E0, {}, "original after chaining")

    @staticmethod
    def findings():
        import numpy as np

        from pybbn.gaussian.inference import GaussianInference

        g = GaussianInference(["x", "y"], np.array([1.0, 2.0]), np.array([[2.0, 1.0], [1.0, 3.0]]))
        bad = g.P["x"][0] == -1.0
        r = g.do_inferences([("y", 4.0)])
        bad = bad and close(r.P["x"][0], -(1.0 - (1 / 3.0) * 2.0))
        return ["gaussian-mean-sign"] if bad else []


# --------------------------------------------------------------------- C13
class C13:
    rule = "random sizes 1-14, iterations 0-60, state bounds 1-5 and random states, both kinds, conversion and file output"

    @staticmethod
    def gen(rng):
        return {
            "n": rng.choice([1, 2, 2, 3, 4, 5, 6, 8, 10, 14]),
            "max_iter": rng.choice([0, 1, 2, 5, 10, 20, 60]),
            "max_values": rng.choice([1, 2, 2, 3, 4, 5]),
            "max_alpha": rng.choice([1, 2, 10, 50]),
            "kind": rng.choice(["singly", "multi"]),
            "seed": rng.randrange(2 ** 31),
            "file": rng.choice(["", "", "", "json", "csv"]),
        }

    @staticmethod
    def check(case):
        import networkx as nx
        import numpy as np

        from pybbn.generator import bbngenerator as B
        from pybbn.graph.dag import Bbn

        n = case["n"]
        np.random.seed(case["seed"])

        def structure(nodes, edges, what):
            u = nx.Graph()
            u.add_nodes_from(nodes)
            u.add_edges_from(edges)
            d = nx.DiGraph()
            d.add_nodes_from(nodes)
            d.add_edges_from(edges)
            require(sorted(nodes) == list(range(n)), "%s: nodes %r" % (what, nodes))
            require(nx.is_connected(u), "%s: not connected %r" % (what, edges))
            require(nx.is_directed_acyclic_graph(d), "%s: directed cycle %r" % (what, edges))
            require(len(u.edges) == len(edges), "%s: repeated edge" % what)
            if case["kind"] == "singly":
                require(len(edges) == n - 1, "%s: undirected cycle %r" % (what, edges))

        def cpts(rows, k, m, what):
            require(2 <= k <= max(2, case["max_values"]), "%s: %d states" % (what, k))
            require(len(rows) == m, "%s: %d rows for %d parent configurations" % (what, len(rows), m))
            for r in rows:
                require(len(r) == k and all(x >= 0 for x in r) and close(sum(r), 1.0), "%s: row %r" % (what, list(r)))

        if case["file"]:
            with scratch() as d:
                p = os.path.join(d, "g." + case["file"])
                B.generate_bbn_to_file(n, p, case["kind"], case["max_iter"], case["max_values"], case["max_alpha"])
                bbn = Bbn.from_csv(p) if case["file"] == "csv" else Bbn.from_json(p)
            edges = [(e.i.id, e.j.id) for e in bbn.get_edges()]
            structure([x.id for x in bbn.get_nodes()], edges, "file")
            for x in bbn.get_nodes():
                k = len(x.variable.values)
                m = math.prod(len(bbn.nodes[int(p) if int(p) in bbn.nodes else str(p)].variable.values) for p in bbn.parents.get(x.id, []))
                ps = [float(q) for q in x.probs]
                cpts([ps[i: i + k] for i in range(0, len(ps), k)], k, m, "file: node %r" % x.id)
            return
        f = B.generate_singly_bbn if case["kind"] == "singly" else B.generate_multi_bbn
        g, p = f(n, case["max_iter"], case["max_values"], case["max_alpha"])
        require(isinstance(g, nx.DiGraph), "not a directed graph")
        structure(list(g.nodes), list(g.edges), case["kind"])
        require(set(p) == set(g.nodes), "parameters of %r" % sorted(p))
        ks = {i: int(p[i]["params"].shape[1]) for i in g.nodes}
        for i in g.nodes:
            require(sorted(p[i]["parents"]) == sorted(g.predecessors(i)), "parents of %r" % i)
            m = math.prod(ks[q] for q in p[i]["parents"])
            cpts([list(r) for r in p[i]["params"]], ks[i], m, "node %r" % i)
            require([int(x) for x in p[i]["shape"]] == [m, ks[i]], "shape of %r" % i)
        src = {i: (list(p[i]["parents"]), np.array(p[i]["params"])) for i in g.nodes}
        bbn = B.convert_for_exact_inference(g, p)
        require(sorted(bbn.nodes) == sorted(g.nodes), "converted nodes")
        require(sorted((e.i.id, e.j.id) for e in bbn.get_edges()) == sorted(g.edges), "converted edges")
        for i in g.nodes:
            x = bbn.nodes[i]
            require(len(x.variable.values) == ks[i] and len(set(x.variable.values)) == ks[i], "states of %r" % i)
            pas, rows = src[i]
            bpas = list(bbn.parents.get(i, []))
            require(sorted(bpas) == sorted(pas), "converted parents of %r" % i)
            # row of a parent configuration: in p by the listed parents, in the BBN by its parent order
            for conf in itertools.product(*[range(ks[q]) for q in pas]):
                val = dict(zip(pas, conf))
                r = 0
                for q in bpas:
                    r = r * ks[q] + val[q]
                r0 = 0
                for q in pas:
                    r0 = r0 * ks[q] + val[q]
                got = [float(z) for z in x.probs[r * ks[i]: (r + 1) * ks[i]]]
                require(all(close(a, b) for a, b in zip(got, rows[r0])) and len(got) == ks[i],
                        "row of node %r for %r is %r, generated %r" % (i, val, got, list(rows[r0])))


# --------------------------------------------------------------------- C14
class C14:
    rule = "random libpgm networks (any key order, None/[] parents, 0-4 parents, 1-4 states) as object, dictionary and JSON"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=6, max_joint=2000)
        net = Net(case)
        V = [case["nodes"][k][1] for k in range(len(net.ids))]
        vd = {}
        for i, name, states, probs in case["nodes"]:
            pas = net.parents[i]
            k = len(states)
            d = {"ord": i, "numoutcomes": k, "vals": states,
                 "parents": [net.name[q] for q in pas] if pas else rng.choice([None, []]),
                 "children": [net.name[j] for j in net.ids if i in net.parents[j]] or None}
            if pas:
                keys = ["[" + ", ".join("'%s'" % v for v in vs) + "]" for vs in itertools.product(*[net.states[q] for q in pas])]
                rows = [probs[r * k:(r + 1) * k] for r in range(len(keys))]
                items = list(zip(keys, rows))
                rng.shuffle(items)
                d["cprob"] = {a: b for a, b in items}
            else:
                d["cprob"] = probs
            vd[name] = d
        rng.shuffle(V)
        names = list(vd)
        rng.shuffle(names)
        E = [[net.name[a], net.name[b]] for a, b in case["edges"]]
        rng.shuffle(E)
        case["lib"] = {"V": V, "E": E, "Vdata": {n: vd[n] for n in names}}
        case["via"] = rng.choice(["object", "dict", "json"])
        return case

    @staticmethod
    def check(case):
        from pybbn.graph.factory import Factory

        net = Net(case)
        d = json.loads(json.dumps(case["lib"]))
        if case["via"] == "json":
            bbn = Factory.from_libpgm_discrete_json(json.dumps(d))
        elif case["via"] == "dict":
            bbn = Factory.from_libpgm_discrete_dictionary(d)
        else:
            class O:
                pass

            o = O()
            o.V, o.E, o.Vdata = d["V"], d["E"], d["Vdata"]
            bbn = Factory.from_libpgm_discrete_object(o)
        require(d == case["lib"], "the source network was changed")
        require(sorted(bbn.nodes) == sorted(net.ids), "ids %r" % sorted(bbn.nodes))
        for i in net.ids:
            n = bbn.nodes[i]
            require(n.variable.name == net.name[i], "name of %r" % i)
            require(list(n.variable.values) == net.states[i], "states of %r" % i)
            pas = list(bbn.parents.get(i, []))
            require(sorted(pas) == sorted(net.parents[i]), "parents of %r are %r" % (i, pas))
            k = len(net.states[i])
            src = case["lib"]["Vdata"][net.name[i]]["cprob"]
            probs = [float(p) for p in n.probs]
            require(len(probs) == k * math.prod(len(net.states[q]) for q in pas), "table size of %r" % i)
            for r, vs in enumerate(itertools.product(*[net.states[q] for q in pas])):
                val = dict(zip(pas, vs))
                row = src["[" + ", ".join("'%s'" % val[q] for q in net.parents[i]) + "]"] if pas else src
                require(probs[r * k:(r + 1) * k] == [float(x) for x in row], "row of %r for %r" % (i, val))
        require(sorted((e.i.id, e.j.id) for e in bbn.get_edges()) == sorted((a, b) for b in net.ids for a in net.parents[b]), "edges")


# --------------------------------------------------------------------- C15
class C15:
    rule = "random tables (1-5 columns, 1-4 values of text, integer or boolean type), column orders, structures and parent-list orders"

    @staticmethod
    def gen(rng):
        n = rng.randint(1, 5)
        names = rand_names(rng, n)
        if rng.random() < 0.15:
            names = ["col %d" % i for i in range(n)]
            rng.shuffle(names)
        edges = rand_dag(rng, n)
        st = {names[b]: [] for b in range(n)}
        wide = rng.random() < 0.1
        for a, b in edges:
            if len(st[names[b]]) < (4 if wide else 3):
                st[names[b]].append(names[a])
        keys = list(st)
        rng.shuffle(keys)
        for k in keys:
            rng.shuffle(st[k])
        cols = list(names)
        rng.shuffle(cols)
        typ = rng.choice(["str", "str", "str", "int", "bool", "mix", "quote"])
        data = {}
        rows = rng.choice([1, 2, 3, 5, 10, 40, 40, 120])
        vals = {}
        for c in cols:
            t = rng.choice(["str", "int", "bool"]) if typ == "mix" else typ
            if t == "str":
                pool = rand_states(rng, rng.choice([1, 2, 2, 3, 4, 5]))
                if rng.random() < 0.1:
                    pool = ["s%d" % k for k in range(rng.choice([6, 9, 12]))]
            elif t == "quote":
                pool = ["it's", "a b", 'q"x']
            elif t == "int":
                pool = rng.sample([0, 1, 2, 5, 10, 11], rng.choice([1, 2, 3, 6]))
            else:
                pool = [True, False]
            vals[c] = pool
            w = [rng.random() + 0.05 for _ in pool]
            data[c] = [rng.choices(pool, w)[0] for _ in range(rows)]
        if rng.random() < 0.4 and n > 1:
            a, b = rng.sample(cols, 2)
            data[b] = [data[a][r] if rng.random() < 0.8 else data[b][r] for r in range(rows)] if vals[a] == vals[b] else data[b]
        return {"structure": [[k, st[k]] for k in keys], "columns": cols, "data": data}

    @staticmethod
    def check(case):
        import pandas as pd

        from pybbn.graph.factory import Factory

        st = {k: list(v) for k, v in case["structure"]}
        cols = case["columns"]
        df = pd.DataFrame({c: case["data"][c] for c in cols})[cols]
        bbn = Factory.from_data({k: list(v) for k, v in st.items()}, df)
        ids = {n.variable.name: i for i, n in bbn.nodes.items()}
        require(sorted(ids, key=str) == sorted(cols), "variables %r" % sorted(ids, key=str))
        require(len(bbn.nodes) == len(cols), "number of variables")
        rows = len(next(iter(case["data"].values())))
        for c in cols:
            n = bbn.nodes[ids[c]]
            require(n.id == ids[c] and n.variable.id == ids[c], "id of %s" % c)
            vals = list(n.variable.values)
            require(len(vals) == len(set(vals)) and set(vals) == set(case["data"][c]), "states of %s are %r" % (c, vals))
            pas = [bbn.nodes[p].variable.name for p in bbn.parents.get(ids[c], [])]
            require(sorted(pas) == sorted(st[c]), "parents of %s are %r, structure says %r" % (c, pas, st[c]))
            require(sorted(bbn.nodes[p].variable.name for p in bbn.get_parents(ids[c])) == sorted(st[c]), "get_parents of %s" % c)
            k = len(vals)
            doms = [list(bbn.nodes[ids[p]].variable.values) for p in pas]
            probs = [float(p) for p in n.probs]
            require(len(probs) == k * math.prod(len(d) for d in doms), "table size of %s" % c)
            for r, conf in enumerate(itertools.product(*doms)):
                sel = [t for t in range(rows) if all(case["data"][p][t] == v for p, v in zip(pas, conf))]
                row = probs[r * k:(r + 1) * k]
                require(close(sum(row), 1.0), "row of %s sums to %r" % (c, sum(row)))
                for v, p in zip(vals, row):
                    e = sum(1 for t in sel if case["data"][c][t] == v) / len(sel) if sel else 1.0 / k
                    require(close(p, e), "P(%s=%r | %r) is %r, relative frequency %r" % (c, v, dict(zip(pas, conf)), p, e))
        want = sorted((ids[p], ids[c]) for c in st for p in st[c])
        require(sorted((e.i.id, e.j.id) for e in bbn.get_edges()) == want, "edges")


# --------------------------------------------------------------------- C16
class C16:
    rule = "random strictly positive networks, every or some ordered pairs and effect values, repeated queries, against do(X=x) by enumeration"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=5, max_joint=250, positive=True, min_n=2, wide=0, min_states=rng.choice([1, 2]), max_states=3, big=0.02, max_parents=3)
        ids = [x[0] for x in case["nodes"]]
        st = {x[0]: x[2] for x in case["nodes"]}
        pairs = [(a, b) for a in ids for b in ids if a != b]
        qs = []
        npa = {i: sum(1 for e in case["edges"] if e[1] == i) for i in ids}
        pairs.sort(key=lambda ab: -npa[ab[0]] + rng.random() * 3)
        for a, b in pairs[: rng.randint(1, 3)]:
            qs.append([a, b, rng.choice(st[b])])
        if rng.random() < 0.4:
            qs.append(list(qs[0]))
        case["queries"] = qs
        return case

    @staticmethod
    def check(case):
        from pybbn.causality.ace import Ace

        net = Net(case)
        ace = Ace(build_bbn(case))
        for k, (x, y, v) in enumerate(case["queries"]):
            r = ace.get_ace(net.name[x], net.name[y], v)
            require(set(r) == set(net.states[x]), "query %d: states %r" % (k, sorted(r)))
            for s in net.states[x]:
                e = net.do(x, s)[y][v]
                require(close(r[s], e, 1e-6), "query %d: P(%s=%s | do(%s=%s)) reported %r, joint gives %r" % (k, net.name[y], v, net.name[x], s, r[s], e))


# --------------------------------------------------------------------- C17
class C17:
    rule = "random DAGs of 2-7 nodes, every node pair, every simple path, random evidence sets"

    @staticmethod
    def gen(rng):
        n = rng.choice([2, 3, 4, 5, 6, 7, 7, 10])
        labels = rng.choice([list(range(n)), [chr(97 + i) for i in range(n)], rand_ids(rng, n), rand_names(rng, n)])
        dag = rand_dag(rng, n)
        while n > 7 and len(dag) > n + 2:
            dag = rand_dag(rng, n)
        edges = [[labels[a], labels[b]] for a, b in dag]
        nodes = list(labels)
        rng.shuffle(nodes)
        evs = [rng.sample(nodes, rng.randint(0, n)) for _ in range(5)] + [[]]
        return {"nodes": nodes, "edges": edges, "ev": evs}

    @staticmethod
    def check(case):
        import networkx as nx

        from pybbn.causality import do as D

        nodes = case["nodes"]
        edges = [tuple(e) for e in case["edges"]]
        d = nx.DiGraph()
        d.add_nodes_from(nodes)
        d.add_edges_from(edges)
        before = (list(d.nodes), list(d.edges))
        g = D.get_graph(d)
        es = set(edges)
        adj = {x: [] for x in nodes}
        kids = {x: set() for x in nodes}
        for a, b in edges:
            adj[a].append(b)
            adj[b].append(a)
            kids[a].add(b)
        desc = {}
        for x in nodes:
            seen, st = set(), [x]
            while st:
                q = st.pop()
                for r in kids[q]:
                    if r not in seen:
                        seen.add(r)
                        st.append(r)
            desc[x] = seen | {x}

        def paths(x, y):
            out = []

            def walk(p):
                if p[-1] == y:
                    out.append(tuple(p))
                    return
                for q in adj[p[-1]]:
                    if q not in p:
                        walk(p + [q])

            walk([x])
            return out

        def active(p, ev):
            for a, z, b in zip(p, p[1:], p[2:]):
                if (a, z) in es and (b, z) in es:
                    if not (desc[z] & ev):
                        return False
                elif z in ev:
                    return False
            return True

        for x in nodes:
            for y in nodes:
                if x == y:
                    continue
                got = D.get_paths(g, x, y)
                want = paths(x, y)
                require(sorted(map(repr, (tuple(m["path"]) for m in got))) == sorted(map(repr, want)), "paths %r to %r: %r, expected %r" % (x, y, [m["path"] for m in got], want))
                for m in got:
                    p = list(m["path"])
                    cols = [z for a, z, b in zip(p, p[1:], p[2:]) if (a, z) in es and (b, z) in es]
                    require(m["x"] == x and m["y"] == y, "path ends")
                    require(list(m["colliders"]) == cols, "colliders of %r: %r, expected %r" % (p, m["colliders"], cols))
                    require(list(D.get_colliders(g, p)) == cols, "get_colliders of %r" % p)
                    require(sorted(map(repr, m["z"])) == sorted(map(repr, [z for z in p[1:-1] if z not in cols])), "interior of %r: %r" % (p, m["z"]))
                    require(bool(m["backdoor"]) == ((p[1], p[0]) in es), "backdoor of %r" % p)
                    require(bool(m["frontdoor"]) == ((p[0], p[1]) in es), "frontdoor of %r" % p)
                    if len(p) > 2:
                        require(bool(m["is_active"]) == active(p, set()), "activity of %r without evidence" % p)
                        for ev in case["ev"]:
                            e = set(ev)
                            require(bool(D.is_active_path(g, p, e)) == active(p, e), "activity of %r given %r is %r" % (p, ev, D.is_active_path(g, p, e)))
                            require(e == set(ev), "evidence changed")
        require(before == (list(d.nodes), list(d.edges)), "the graph changed")
