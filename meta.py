"""Per-property facts used in evidence and MANIFEST (mkmanifest.py)."""
import json
import os

_H = os.path.dirname(os.path.abspath(__file__))
FLOAT = "floating point is treated as real arithmetic (oracle tolerance 1e-6)"

META = {}
for _l in open(os.path.join(_H, "properties.jsonl")):
    _p = json.loads(_l)
    META[_p["id"]] = {"title": _p["title"], "level": "exploration", "rule": "", "assumptions": [FLOAT]}

RULES = {
    "C01": "random networks (1-10 variables, 1-4 states, any ids and insertion orders, zeros, disconnected) with random evidence against enumeration of the joint",
    "C02": "random networks with histories of 1-9 evidence operations, compared after every operation with enumeration under the evidence held",
    "C03": "random likelihoods (any sign and size, ties, unmentioned states) of every kind on 1-6 states",
    "C04": "random networks of 1-16 variables; moral graph and join tree structure",
    "C05": "random scopes (1-4 variables, 1-4 states) and values with zeros; every table operation against its definition",
    "C06": "sequences of 1-40 add_edge calls (repeated, reversed, self-referential, undirected) on Dag and Pdag",
    "C07": "sequences of 1-25 add_node/add_edge/remove_node calls on Graph, Ug, Dag, Pdag, Bbn; all queries after every call",
    "C08": "random networks written to dictionary, JSON, CSV and read back",
    "C09": "random networks serialised, deserialised and queried with evidence",
    "C10": "random networks, CPT replacements and interleaved later operations on original and derived trees",
    "C11": "random networks, evidence, seeds and counts; every draw recomputed from the CPT rows",
    "C12": "random means, positive-definite covariances, observed subsets and listing orders, chained",
    "C13": "random sizes 1-14, iterations 0-60, state bounds 1-5 and random states, both kinds, conversion and file output",
    "C14": "random libpgm networks as object, dictionary and JSON",
    "C15": "random tables, column orders, structures and parent-list orders",
    "C16": "random positive networks and sequences of queries against do(X=x) by enumeration",
    "C17": "random DAGs of 2-7 nodes, every node pair, every simple path, random evidence sets",
}
for _k, _v in RULES.items():
    META[_k]["rule"] = _v

# what is proved on every run and what only the bounded oracle decides
NOTES = {
    "C01": ("exploration", "Proved for all inputs: CPT rows to tables, table operations, one message (multiplies by new over old separator marginal, nothing else written), clique lookups, the clique a node is assigned to, the neighbours along which messages pass, JoinTree.get_bbn_potential; InferenceController.apply as a composition of the contracts of its steps (each step's requirements hold; every node lies in a clique with its parents; tables of CPTs; calibrated without evidence, over the ghost contracts). Bounded: that the message schedule as a whole yields the marginals of the joint (enumeration of the joint on generated networks)."),
    "C02": ("exploration", "Proved: likelihood changes are classified exactly (nothing / update / retraction), the evidence held is exactly the normalised evidence entered, the listener is told of every change. Assumed: ghost contracts of initialise/propagate. Bounded: equality of the numbers with enumeration under the evidence held, over histories."),
    "C03": ("proof", "Every function of evidence normalisation is proved for all states and likelihoods; likelihoods are real numbers."),
    "C04": ("exploration", "Proved: moral links, elimination covers every complete set and gives complete cliques, none contained in another, separation sets, the tree has no cycle and links what it should; InferenceController.apply composes these: in the tree it returns every node lies in a clique with its parents. Assumed: distinct cliques and separation sets have distinct joined ids. Bounded: running intersection (the maximum-weight argument) and that the filled graph is chordal."),
    "C05": ("proof", "Every table operation is proved equal to its definition for all tables; values are real numbers."),
    "C06": ("proof", "Dag, Pdag: the invariant and the exact rejection rule are proved; path search proved sound and complete, termination not. Bbn.add_edge is a recorded finding."),
    "C07": ("proof", "Class invariant proved over every operation and query of Graph, Ug, Dag, Pdag, Bbn, for every history (an invariant of each operation)."),
    "C08": ("exploration", "Proved: to_dict and from_dict carry ids, names, states, CPTs, edges and their order. Bounded: JSON text and CSV."),
    "C09": ("exploration", "Proved: JoinTree.to_dict writes every node with its CPT, every clique and separation set, every edge and the lists of parents; InferenceController.apply_from_serde leaves a calibrated tree without evidence. Bounded: JoinTree.from_dict and the numbers."),
    "C10": ("exploration", "Proved: reapply writes nothing that existed before, takes the new CPTs of the listed nodes and keeps the others, drops evidence. Assumed: copy.deepcopy, ghost contracts of initialise/propagate. Bounded: the numbers."),
    "C11": ("exploration", "Proved: order of sampling, table rows and cumulated probabilities, inverse-CDF lookup. Bounded: rejection loop, counts, seeding."),
    "C12": ("proof", "Constructor, do_inference(s), P, marginals proved against the Schur complement for all sizes, orders and observed subsets, over real arithmetic, given numpy's operations (trusted contracts) and a symmetric positive definite covariance. The sign of means is a recorded finding: the contract states what the code computes."),
    "C13": ("proof", "Structure, states, CPT shapes and row sums, conversion proved for all sizes and random draws; networkx, numpy.random and Dirichlet sampling are trusted contracts. Bounded: file output and seeding."),
    "C14": ("exploration", "Proved: Factory.from_libpgm_discrete_object (nodes, states, CPT order, edges in parent order). Bounded: the dictionary and JSON forms around it."),
    "C15": ("exploration", "Bounded only: pandas frames are outside the verifier's reach; relative frequencies recounted in plain Python."),
    "C16": ("exploration", "Proved: maps between names and ids, lookup of nodes by name. Bounded: do-distributions by enumeration of the mutilated network (Ace.get_ace)."),
    "C17": ("proof", "Simple paths, colliders, triplets and active paths proved for all graphs and evidence sets, given networkx's path enumeration and descendants (trusted contracts)."),
}
for _k, (_lv, _n) in NOTES.items():
    META[_k]["level"] = _lv
    META[_k]["note"] = _n
    META[_k]["technique"] = {
        "proof": "contract-based deductive verification (own VC generator over the Python source, z3/cvc5); oracle finds failing inputs",
        "exploration": "bounded oracle on the real code" if _k == "C15" else "contract-based deductive verification of the parts named in level_note; bounded oracle for the rest",
    }[_lv]
