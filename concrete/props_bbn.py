"""Executable oracles for the inference properties (C01-C05, C09, C10)."""
import copy
import itertools
import json
import math

from common import *


# --------------------------------------------------------------------- C01
class C01:
    rule = ("random networks (1-10 variables, 1-4 states, any ids/insertion orders, zeros, disconnected) "
            "with random evidence, compared with enumeration of the joint")

    @staticmethod
    def gen(rng):
        case = rand_net(rng)
        evs = []
        for node in case["nodes"]:
            if rng.random() < rng.choice([0.0, 0.3, 0.6]):
                evs.append(rand_evidence(rng, node))
        case["late"] = rng.random() < 0.3
        case["evidence"] = evs
        case["again"] = rng.random() < 0.2
        return case

    @staticmethod
    def check(case):
        from pybbn.pptc.inferencecontroller import InferenceController

        net = Net(case)
        bbn = build_bbn(case)
        jt = InferenceController.apply(bbn)
        if case["again"]:
            jt = InferenceController.apply(bbn)
        compare_posteriors(net, jt, {}, "prior")
        if case["evidence"]:
            evs = [build_evidence(jt, e) for e in case["evidence"]]
            jt.update_evidences(evs)
            ev = {e.node.id: dict(e.values) for e in evs}
            compare_posteriors(net, jt, ev, "posterior")
            for e, src in zip(evs, case["evidence"]):
                check_normalised(src[1], net.states[e.node.id], src[2], e.values, "evidence")


# --------------------------------------------------------------------- C02
class C02:
    rule = "random networks with random histories of 1-9 evidence operations, compared after every operation"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=4, max_joint=300, big=0.02)
        ops = []
        last = None
        for _ in range(rng.randint(1, 9)):
            r = rng.random()
            nodes = case["nodes"]
            if r < 0.35:
                op = ["set", rand_evidence(rng, rng.choice(nodes), rng.choice(["OBSERVATION"] * 3 + KINDS))]
            elif r < 0.7:
                sub = rng.sample(nodes, rng.randint(1, min(3, len(nodes))))
                op = ["update", [rand_evidence(rng, x) for x in sub]]
            elif r < 0.8:
                op = ["unobserve", [x[0] for x in rng.sample(nodes, rng.randint(1, len(nodes)))]]
            elif r < 0.88:
                op = ["unobserve_all"]
            elif last is not None:
                op = copy.deepcopy(last)
            else:
                op = ["update", []]
            ops.append(op)
            last = op
        if rng.random() < 0.4:
            ops.append(["unobserve_all"])
        case["ops"] = ops
        return case

    @staticmethod
    def check(case):
        from pybbn.pptc.inferencecontroller import InferenceController

        net = Net(case)
        jt = InferenceController.apply(build_bbn(case))
        prior = jt.get_posteriors()
        model = {i: {s: 1.0 for s in net.states[i]} for i in net.ids}
        require(held(jt) == model, "fresh tree holds evidence %r" % held(jt))
        for n, op in enumerate(case["ops"]):
            what = "after op %d %r" % (n, op)
            if op[0] == "set":
                e = build_evidence(jt, op[1])
                i = e.node.id
                before = dict(model[i])
                jt.set_observation(e)
                now = held(jt)[i]
                want = dict(e.values)
                ones = [s for s in before if before[s] == 1.0]
                was_obs = len(ones) == 1 and all(before[s] == 0.0 for s in before if s not in ones)
                if was_obs and want == before:
                    # setting the same observation again withdraws it
                    ok = now == want or all(v == 1.0 for v in now.values())
                else:
                    ok = now == want
                require(ok, "%s: node %r holds %r, entered %r" % (what, i, now, want))
                model[i] = now
            elif op[0] == "update":
                evs = [build_evidence(jt, e) for e in op[1]]
                jt.update_evidences(evs)
                for e in evs:
                    model[e.node.id] = dict(e.values)
            elif op[0] == "unobserve":
                jt.unobserve([jt.get_bbn_node(i) for i in op[1]])
                for i in op[1]:
                    model[i] = {s: 1.0 for s in net.states[i]}
            else:
                jt.unobserve_all()
                model = {i: {s: 1.0 for s in net.states[i]} for i in net.ids}
            require(held(jt) == model, "%s: evidence held %r, entered %r" % (what, held(jt), model))
            compare_posteriors(net, jt, model, what)
            if all(v == 1.0 for d in model.values() for v in d.values()):
                require(jt.get_posteriors() == prior, "%s: priors are not restored exactly" % what)


# --------------------------------------------------------------------- C03
class C03:
    rule = "random likelihoods (any sign and size, ties, unmentioned states) of every kind, on 1-6 states"

    @staticmethod
    def gen(rng):
        k = rng.randint(1, 6)
        states = rand_states(rng, min(k, 5))
        kind = rng.choice(KINDS)
        vals = [[s, rand_lik(rng)] for s in states if rng.random() < rng.choice([0.3, 0.8, 1.0])]
        if rng.random() < 0.3 and vals:
            for v in vals:
                v[1] = rng.choice([0.0, 0.3, vals[0][1]])
        rng.shuffle(vals)
        via = rng.choice(["validate", "update", "set", "twice", "direct"])
        return {"states": states, "kind": kind, "values": vals, "via": via,
                "pre": rand_evidence(rng, [0, "a", states, None]) if rng.random() < 0.5 else None}

    @staticmethod
    def check(case):
        from pybbn.graph.dag import Bbn
        from pybbn.graph.jointree import Evidence, EvidenceBuilder, EvidenceType
        from pybbn.graph.node import BbnNode
        from pybbn.graph.variable import Variable
        from pybbn.pptc.inferencecontroller import InferenceController

        states = case["states"]
        node = BbnNode(Variable(0, "a", list(states)), [1.0 / len(states)] * len(states))
        if case["via"] == "direct":
            e = Evidence(node, EvidenceType[case["kind"]])
            for s, l in case["values"]:
                e.add_value(s, l)
        else:
            b = EvidenceBuilder().with_node(node).with_type(EvidenceType[case["kind"]])
            for s, l in case["values"]:
                b = b.with_evidence(s, l)
            e = b.build()
        require(e.node is node and e.type == EvidenceType[case["kind"]], "built evidence has another node or type")
        require(e.values == {s: l for s, l in case["values"]}, "built evidence holds %r" % (e.values,))
        what = "%s via %s" % (case["kind"], case["via"])
        if case["via"] in ("validate", "twice", "direct"):
            e.validate()
            if case["via"] == "twice":
                first = dict(e.values)
                e.validate()
                require(first == e.values, "validating twice gives %r then %r" % (first, e.values))
            check_normalised(case["kind"], states, case["values"], e.values, what)
            return
        jt = InferenceController.apply(Bbn().add_node(node))
        if case["pre"]:
            jt.update_evidences([build_evidence(jt, case["pre"])])
        before = held(jt)[0]
        if case["via"] == "update":
            jt.update_evidences([e])
            check_normalised(case["kind"], states, case["values"], held(jt)[0], what)
        else:
            jt.set_observation(e)
            now = held(jt)[0]
            if not (e.values == before and all(v == 1.0 for v in now.values())):
                check_normalised(case["kind"], states, case["values"], now, what)
        jt.unobserve([jt.get_bbn_node(0)])
        check_normalised("UNOBSERVE", states, [], held(jt)[0], what + ", withdrawn")


# --------------------------------------------------------------------- C04
def check_junction_tree(net, jt, strict=True):
    from pybbn.graph.node import SepSet

    cliques = list(jt.get_cliques())
    seps = list(jt.get_sep_sets())
    scope = {c.id: frozenset(n.id for n in c.nodes) for c in cliques}
    for c in cliques:
        require(len(scope[c.id]) == len(c.nodes), "clique %s repeats a node" % c.id)
        require(set(c.node_ids) == set(scope[c.id]), "node_ids of clique %s" % c.id)
    require(len(set(scope.values())) == len(cliques), "two cliques have one scope")
    for a in cliques:
        for b in cliques:
            require(a is b or not scope[a.id] <= scope[b.id], "clique %s lies in %s" % (a.id, b.id))
    for i in net.ids:
        fam = set(net.parents[i]) | {i}
        require(any(fam <= scope[c.id] for c in cliques), "no clique contains %r and its parents" % i)
    require(set().union(*scope.values()) == set(net.ids) if cliques else not net.ids, "variables of the cliques")
    # edges: clique - sepset - clique
    edges = list(jt.get_edges())
    require(len(edges) == len(seps), "%d edges for %d separation sets" % (len(edges), len(seps)))
    adj = {c.id: [] for c in cliques}
    used = set()
    for e in edges:
        s = e.sep_set
        require(s.id in jt.nodes and jt.nodes[s.id] is s, "separation set of edge %s" % e.key)
        require(s.id not in used, "separation set used twice")
        used.add(s.id)
        a, b = s.left, s.right
        require(jt.nodes.get(a.id) is a and jt.nodes.get(b.id) is b and a is not b, "end of edge %s" % e.key)
        require({n.id for n in s.nodes} == set(scope[a.id] & scope[b.id]), "separation set %s is not the intersection" % s.id)
        require(len({n.id for n in s.nodes}) == len(s.nodes), "separation set repeats a node")
        require(set(jt.get_neighbors(s.id)) == {a.id, b.id}, "neighbours of separation set %s" % s.id)
        adj[a.id].append((b.id, s))
        adj[b.id].append((a.id, s))
    for c in cliques:
        require(set(jt.get_neighbors(c.id)) == {s.id for _, s in adj[c.id]}, "neighbours of clique %s" % c.id)
    # forest
    comp = {}
    ncomp = 0
    for c in cliques:
        if c.id in comp:
            continue
        ncomp += 1
        stack = [c.id]
        comp[c.id] = ncomp
        while stack:
            x = stack.pop()
            for y, _ in adj[x]:
                if y not in comp:
                    comp[y] = ncomp
                    stack.append(y)
    require(len(edges) == len(cliques) - ncomp, "the clique graph has a cycle")
    for i in net.ids:
        have = {c.id for c in cliques if i in scope[c.id]}
        start = next(iter(have))
        seen = {start}
        stack = [start]
        while stack:
            x = stack.pop()
            for y, s in adj[x]:
                if y in have and y not in seen and any(n.id == i for n in s.nodes):
                    seen.add(y)
                    stack.append(y)
        require(seen == have, "cliques of variable %r are not connected" % i)


class C04:
    rule = "random networks of 1-16 variables; structure of the compiled join tree and of the moral graph"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=rng.choice([5, 7, 9, 12, 16]), max_joint=10 ** 9, max_states=4, big=0)
        # keep the tables small: structure only
        case["late"] = rng.random() < 0.3
        if len(case["nodes"]) > 9:
            case["nodes"] = [[i, n, s[:2] if len(s) > 1 else s, []] for i, n, s, _ in case["nodes"]]
            k = {i: len(s) for i, n, s, _ in case["nodes"]}
            pa = {i: [a for a, b in case["edges"] if b == i] for i in k}
            for x in case["nodes"]:
                rows = math.prod([k[p] for p in pa[x[0]]])
                x[3] = [1.0 / k[x[0]]] * (rows * k[x[0]])
        return case

    @staticmethod
    def check(case):
        from pybbn.pptc.inferencecontroller import InferenceController
        from pybbn.pptc.moralizer import Moralizer
        from pybbn.pptc.transformer import Transformer
        from pybbn.pptc.triangulator import Triangulator

        net = Net(case)
        bbn = build_bbn(case)
        ug = Moralizer.moralize(bbn)
        want = set()
        for i in net.ids:
            for p in net.parents[i]:
                want.add(frozenset((i, p)))
            for p, q in itertools.combinations(net.parents[i], 2):
                want.add(frozenset((p, q)))
        got = {frozenset((e.i.id, e.j.id)) for e in ug.get_edges()}
        require(got == want, "moral graph: extra %r, missing %r" % (
            [sorted(x) for x in got - want], [sorted(x) for x in want - got]))
        require(len(ug.get_edges()) == len(want), "moral graph lists an edge twice")
        for i in net.ids:
            require(set(ug.get_neighbors(i)) == {j for j in net.ids if frozenset((i, j)) in want}, "moral neighbours of %r" % i)
        require({n.id for n in ug.get_nodes()} == set(net.ids), "moral graph nodes")
        cliques = Triangulator.triangulate(ug)
        jt = Transformer.transform(cliques)
        check_junction_tree(net, jt)
        biggest = max(math.prod(len(n.variable.values) for n in c.nodes) for c in cliques)
        if biggest <= 600:
            jt = InferenceController.apply(build_bbn(case))
            check_junction_tree(net, jt)


# --------------------------------------------------------------------- C05
def mk_nodes(scope, probs=None):
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable

    return [BbnNode(Variable(i, "n%d" % i, list(s)), probs or []) for i, s in scope]


def rows_of(scope):
    return [
        {i: v for (i, _), v in zip(scope, vs)}
        for vs in itertools.product(*[s for _, s in scope])
    ]


def fill(pot, values):
    for e, v in zip(pot.entries, values):
        e.value = v


def rand_value(rng):
    return rng.choice([0.0, 0.0, 1.0, 0.5, 2.0, 3.0, 1e-6, 7.25, rng.random(), rng.random(), rng.random() * 10,
                       rng.random() * 10.0 ** -rng.randint(1, 30)])


def same_real(a, b):
    """Equal up to rounding, whatever the magnitude (sums and products of non-negative numbers)."""
    a, b = float(a), float(b)
    return a == b or (a == a and abs(a - b) <= 1e-9 * max(abs(a), abs(b)) and not math.isinf(a) and not math.isinf(b))


class C05:
    rule = "random scopes (0-4 variables, 1-4 states), table values with zeros; every table operation against its definition"

    @staticmethod
    def gen(rng):
        n = rng.randint(1, 4)
        ids = rand_ids(rng, n)
        shared = rand_states(rng, 4)
        same = rng.random() < 0.5
        scope = [[i, (shared if same else rand_states(rng, 4))[: rng.choice([2, 2, 3, 4, 1])]] for i in ids]
        size = math.prod(len(s) for _, s in scope)
        sub = [x for x in scope if rng.random() < 0.6]
        rng.shuffle(sub)
        y = list(sub) + [[i + 100000, s] for i, s in scope if rng.random() < 0.3]
        rng.shuffle(y)
        ssize = math.prod(len(s) for _, s in sub)
        ysize = math.prod(len(s) for _, s in y)
        zero = rng.random() < 0.1
        return {
            "scope": scope, "sub": sub, "y": y,
            "vals": [0.0 if zero else rand_value(rng) for _ in range(size)],
            "svals": [rand_value(rng) for _ in range(ssize)],
            "svals2": [rand_value(rng) for _ in range(ssize)],
            "yvals": [rand_value(rng) for _ in range(ysize)],
            "keep": [rng.random() < 0.7 for _ in range(ssize)],
        }

    @staticmethod
    def check(case):
        from pybbn.graph.node import Node
        from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil

        scope, sub, y = case["scope"], case["sub"], case["y"]
        rows, srows, yrows = rows_of(scope), rows_of(sub), rows_of(y)

        def table(pot, rs, values, what):
            require([e.entries for e in pot.entries] == rs, "%s: rows %r, expected %r" % (what, [e.entries for e in pot.entries], rs))
            for e, v in zip(pot.entries, values):
                require(same_real(e.value, v), "%s: row %r has %r, expected %r" % (what, e.entries, e.value, v))
            require(len({id(e) for e in pot.entries}) == len(pot.entries), "%s: rows share an entry" % what)
            require(len({id(e.entries) for e in pot.entries}) == len(pot.entries), "%s: rows share a dictionary" % what)

        def hit(row, key):
            return all(row[k] == v for k, v in key.items())

        nodes, snodes, ynodes = mk_nodes(scope), mk_nodes(sub), mk_nodes(y)
        big = PotentialUtil.get_potential_from_nodes(nodes)
        table(big, rows, [1.0] * len(rows), "fresh table")
        small = PotentialUtil.get_potential_from_nodes(snodes)
        table(small, srows, [1.0] * len(srows), "fresh table")

        # CPT table
        node, parents = nodes[-1], nodes[:-1]
        node.probs = list(case["vals"])
        table(PotentialUtil.get_potential(node, parents), rows, case["vals"], "CPT table")
        require([n.id for n in parents] == [i for i, _ in scope[:-1]], "get_potential changed the parent list")

        # matching
        fill(big, case["vals"])
        for key in srows[:4]:
            pe = PotentialEntry()
            for k, v in key.items():
                pe.add(k, v)
            got = big.get_matching_entries(pe)
            require([e.entries for e in got] == [r for r in rows if hit(r, key)], "matching rows of %r" % key)
            require(all(any(g is e for e in big.entries) for g in got), "matching rows are copies")
        foreign = PotentialEntry().add(987654, "zz")
        require(big.get_matching_entries(foreign) == [], "row matches a foreign variable")
        dup = big.entries[0].duplicate()
        require(dup.entries == big.entries[0].entries and dup.value == big.entries[0].value, "duplicate differs")
        require(dup is not big.entries[0] and dup.entries is not big.entries[0].entries, "duplicate shares state")

        class JT:
            pass

        jt = JT()
        x, s, yy = Node("x"), Node("s"), Node("y")
        x.nodes, s.nodes, yy.nodes = nodes, snodes, ynodes
        jt.potentials = {"x": big, "s": small, "y": PotentialUtil.get_potential_from_nodes(ynodes)}
        fill(small, case["svals"])
        fill(jt.potentials["y"], case["yvals"])

        def marg(values):
            return [sum(v for r, v in zip(rows, values) if hit(r, key)) for key in srows]

        m = PotentialUtil.marginalize_for(jt, x, snodes)
        table(m, srows, marg(case["vals"]), "marginal")
        table(big, rows, case["vals"], "clique after marginalising")
        table(small, srows, case["svals"], "separator after marginalising")

        # divide
        num = PotentialUtil.get_potential_from_nodes(snodes)
        fill(num, case["svals2"])
        q = PotentialUtil.divide(num, small)
        table(q, srows, [0.0 if a == 0 or b == 0 else a / b for a, b in zip(case["svals2"], case["svals"])], "quotient")
        table(num, srows, case["svals2"], "numerator after dividing")
        table(small, srows, case["svals"], "denominator after dividing")
        require(not any(a is b for a in q.entries for b in num.entries), "quotient shares rows")

        # multiply (complete and partial smaller table)
        PotentialUtil.multiply(big, small)
        prod = [v * case["svals"][[hit(r, k) for k in srows].index(True)] for r, v in zip(rows, case["vals"])]
        table(big, rows, prod, "product")
        table(small, srows, case["svals"], "factor after multiplying")
        part = Potential()
        for key, keep, v in zip(srows, case["keep"], case["svals2"]):
            if keep:
                pe = PotentialEntry()
                for k, val in key.items():
                    pe.add(k, val)
                pe.value = v
                part.add_entry(pe)
        exp = list(prod)
        for j, r in enumerate(rows):
            for key, keep, v in zip(srows, case["keep"], case["svals2"]):
                if keep and hit(r, key):
                    exp[j] *= v
        PotentialUtil.multiply(big, part)
        table(big, rows, exp, "product with a partial table")

        # message
        fill(big, case["vals"])
        old = list(case["svals"])
        small = PotentialUtil.get_potential_from_nodes(snodes)
        fill(small, old)
        jt.potentials["s"] = small
        PotentialUtil.pass_single_message(jt, x, s, yy)
        new = marg(case["vals"])
        table(jt.potentials["s"], srows, new, "separator after a message")
        table(jt.potentials["x"], rows, case["vals"], "sender after a message")
        ratio = [0.0 if a == 0 or b == 0 else a / b for a, b in zip(new, old)]
        table(jt.potentials["y"], yrows, [v * ratio[[hit(r, k) for k in srows].index(True)] for r, v in zip(yrows, case["yvals"])], "receiver after a message")

        # normalise
        fill(big, case["vals"])
        t = sum(case["vals"])
        r = PotentialUtil.normalize(big)
        require(r is big, "normalize returns another table")
        table(big, rows, [v / t for v in case["vals"]] if t != 0 else case["vals"], "normalised")


# --------------------------------------------------------------------- C09
class C09:
    rule = "random networks serialised (directly or via JSON text), deserialised, compared in structure and posteriors with evidence"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=5, max_joint=600)
        case["json"] = rng.random() < 0.5
        case["late"] = rng.random() < 0.3
        case["before"] = rng.random() < 0.3
        case["evidence"] = [
            [rand_evidence(rng, n) for n in rng.sample(case["nodes"], rng.randint(1, min(3, len(case["nodes"]))))]
            for _ in range(rng.randint(0, 3))
        ]
        return case

    @staticmethod
    def check(case):
        from pybbn.graph.jointree import JoinTree
        from pybbn.pptc.inferencecontroller import InferenceController

        net = Net(case)
        bbn = build_bbn(case)
        jt = InferenceController.apply(bbn)
        if case["before"] and case["evidence"]:
            jt.update_evidences([build_evidence(jt, e) for e in case["evidence"][0]])
        d = JoinTree.to_dict(jt, bbn)
        if case["json"]:
            d = json.loads(json.dumps(d))
        jt2 = JoinTree.from_dict(d)

        def shape(t):
            return (
                {frozenset(n.id for n in c.nodes) for c in t.get_cliques()},
                sorted(sorted(n.id for n in c.nodes) for c in t.get_cliques()),
                sorted((sorted([sorted(n.id for n in s.left.nodes), sorted(n.id for n in s.right.nodes)]), sorted(n.id for n in s.nodes)) for s in t.get_sep_sets()),
                sorted(sorted([sorted(n.id for n in e.i.nodes), sorted(n.id for n in e.j.nodes)]) for e in t.get_edges()),
            )

        require(shape(jt) == shape(jt2), "structure %r became %r" % (shape(jt), shape(jt2)))
        for n in jt2.get_bbn_nodes():
            require(n.variable.name == net.name[n.id] and list(n.variable.values) == net.states[n.id]
                    and [float(p) for p in n.probs] == [float(p) for p in net.probs[n.id]], "variable %r" % n.id)
        r = InferenceController.apply_from_serde(jt2)
        require(r is jt2, "apply_from_serde returns another tree")
        check_junction_tree(net, jt2)
        model = {}
        compare_posteriors(net, jt2, model, "deserialised prior")
        for evs in case["evidence"]:
            evs = [build_evidence(jt2, e) for e in evs]
            jt2.update_evidences(evs)
            model.update({e.node.id: dict(e.values) for e in evs})
            compare_posteriors(net, jt2, model, "deserialised posterior")
        if case["before"]:
            return
        compare_posteriors(net, jt, {}, "serialised tree afterwards")


# --------------------------------------------------------------------- C10
class C10:
    rule = "random networks, CPT replacements and interleaved later operations on the original and the derived trees"

    @staticmethod
    def gen(rng):
        case = rand_net(rng, max_n=4, max_joint=200, big=0.02)
        net = Net(case)
        ops = []
        trees = 1
        for _ in range(rng.randint(1, 7)):
            t = rng.randrange(trees)
            r = rng.random()
            if (r < 0.35 or trees == 1) and trees < 4:
                cpts = {}
                for i in net.ids:
                    if rng.random() < 0.5:
                        k = len(net.states[i])
                        row = []
                        for _r in range(len(net.probs[i]) // k):
                            row += rand_row(rng, k)
                        cpts[str(i)] = row
                ops.append(["reapply", t, cpts])
                trees += 1
            elif r < 0.8:
                ops.append(["update", t, [rand_evidence(rng, n) for n in rng.sample(case["nodes"], rng.randint(1, min(2, len(case["nodes"]))))]])
            elif r < 0.9:
                ops.append(["unobserve_all", t])
            else:
                ops.append(["set", t, rand_evidence(rng, rng.choice(case["nodes"]), "OBSERVATION")])
        if trees == 1:
            ops.append(["reapply", 0, {}])
        case["ops"] = ops
        case["pre"] = [rand_evidence(rng, n) for n in case["nodes"] if rng.random() < 0.3]
        return case

    @staticmethod
    def check(case):
        from pybbn.pptc.inferencecontroller import InferenceController

        net = Net(case)
        jt = InferenceController.apply(build_bbn(case))
        trees = [jt]
        nets = [net]
        full = {i: {s: 1.0 for s in net.states[i]} for i in net.ids}
        models = [copy.deepcopy(full)]
        if case["pre"]:
            evs = [build_evidence(jt, e) for e in case["pre"]]
            jt.update_evidences(evs)
            models[0].update({e.node.id: dict(e.values) for e in evs})

        def snapshot():
            return [(held(t), {n.id: (id(n), [float(p) for p in n.probs]) for n in t.get_bbn_nodes()}, t.get_posteriors()) for t in trees]

        for k, op in enumerate(case["ops"]):
            what = "after op %d %s on tree %d" % (k, op[0], op[1])
            before = snapshot()
            t = trees[op[1]]
            if op[0] == "reapply":
                new = {int(i): list(p) for i, p in op[2].items()}
                given = copy.deepcopy(new)
                r = InferenceController.reapply(t, new)
                require(new == given, "%s: the given CPTs changed" % what)
                require(all(r is not x for x in trees), "%s: returned an existing tree" % what)
                trees.append(r)
                probs = dict(nets[op[1]].probs)
                probs.update(given)
                nets.append(Net(case, probs))
                models.append(copy.deepcopy(full))
                changed = None
            else:
                changed = op[1]
                if op[0] == "update":
                    evs = [build_evidence(t, e) for e in op[2]]
                    t.update_evidences(evs)
                    models[changed].update({e.node.id: dict(e.values) for e in evs})
                elif op[0] == "set":
                    e = build_evidence(t, op[2])
                    t.set_observation(e)
                    now = held(t)[e.node.id]
                    require(now == dict(e.values) or all(v == 1.0 for v in now.values()), "%s: holds %r" % (what, now))
                    models[changed][e.node.id] = now
                else:
                    t.unobserve_all()
                    models[changed] = copy.deepcopy(full)
            after = snapshot()
            for j, (b, a) in enumerate(zip(before, after)):
                if j != changed:
                    require(a == b, "%s: tree %d changed" % (what, j))
            for j, t in enumerate(trees):
                require(held(t) == models[j], "%s: tree %d holds %r, entered %r" % (what, j, held(t), models[j]))
                for n in t.get_bbn_nodes():
                    require([float(p) for p in n.probs] == [float(p) for p in nets[j].probs[n.id]], "%s: CPT of %r in tree %d" % (what, n.id, j))
                compare_posteriors(nets[j], t, models[j], "%s: tree %d" % (what, j))
