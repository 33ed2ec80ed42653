"""Classes of the repository as the verifier sees them."""
from pyvc import types as T

T.ENUMS.update(EdgeType=["UNDIRECTED", "DIRECTED"], EvidenceType=["VIRTUAL", "FINDING", "OBSERVATION", "UNOBSERVE"],
               ChangeType=["NONE", "UPDATE", "RETRACTION"])

T.declare("Variable", id="int", name="atom", values="list[atom]")
T.record("Meta", parents="list[Node]", parent__clique="Clique")
T.declare("Node", at="pybbn.graph.node:Node", id="int", metadata="Meta")
T.declare("BbnNode", "Node", variable="Variable", probs="list[real]", potential="opt[Potential]", weight="int")
T.declare("Clique", "Node", nodes="list[BbnNode]", marked="bool", node_ids="set[int]")
T.declare("SepSet", "Clique", left="Clique", right="Clique", is_empty_intersection="bool")
T.declare("Edge", i="Node", j="Node", type="EdgeType")
T.declare("SepSetEdge", "Edge")
T.declare("JtEdge", "Edge", sep_set="SepSet")
T.declare("Graph", at="pybbn.graph.graph:Graph", nodes="dict[int,Node]", edges="dict[atom,Edge]", edge_map="ddict[int,set[int]]",
          neighbors="ddict[int,set[int]]")
T.declare("Ug", "Graph")
T.declare("Dag", "Graph")
T.declare("Bbn", "Dag", parents="dict[int,list[int]]")
T.declare("Pdag", "Graph")
T.declare("JoinTree", "Ug", potentials="dict[int,Potential]", evidences="dict[int,dict[atom,Potential]]", listener="opt[InferenceController]",
          parent_info="dict[int,list[int]]")
T.declare("JoinTreeListener")
T.declare("InferenceController", "JoinTreeListener")
T.declare("Potential", entries="list[PotentialEntry]")
T.declare("PotentialEntry", entries="dict[int,atom]", value="real")
T.declare("Evidence", node="BbnNode", type="EvidenceType", values="dict[atom,real]")
T.declare("EvidenceBuilder", node="opt[BbnNode]", type="EvidenceType", values="dict[atom,real]")
T.declare("DagPathDetector", at="pybbn.graph.dag:PathDetector", graph="Dag", start="int", stop="int", seen="set[int]")
T.declare("PdagPathDetector", at="pybbn.graph.pdag:PathDetector", graph="Pdag", start="int", stop="int", seen="set[int]")
T.declare("JtPathDetector", at="pybbn.graph.jointree:PathDetector", graph="JoinTree", start="int", stop="int", seen="set[int]")
T.declare("NodeClique", node="BbnNode", neighbors="list[BbnNode]", weight="int", edges="list[Edge]")
# networkx graphs (only their edge relation matters) and the pair of graphs of pybbn.causality.do
T.declare("NxDiGraph", at="ext", ns="iset", arcs="irel", stamp="int")
T.declare("NxGraph", at="ext", ns="iset", links="irel")
T.record("PathInfo", x="atom", y="atom", z="list[atom]", path="list[atom]", is_active="bool", colliders="list[atom]", backdoor="bool", frontdoor="bool")
T.record("NodeParams", parents="list[int]", params="list[list[real]]", shape="list[int]")
T.declare("PathGraph", at="pybbn.causality.do:Graph", u="NxGraph", d="NxDiGraph")
T.declare("SortableNode", node_id="int", parent_ids="set[int]")
T.declare("LogicSampler", bbn="Bbn!", nodes="list[int]", tables="dict[int,Table]")
T.declare("Table", node="BbnNode", parents="list[BbnNode]", parent_ids="list[int]", probs="alt[list[real],dict[atom,list[real]]]")
# dictionaries written by the serialisation
T.record("VarDict", id="int", name="atom", values="list[atom]")
T.record("NodeDict", probs="list[real]", variable="VarDict")
T.record("EdgeDict", pa="int", ch="int")
T.record("BbnDict", nodes="dict[int,NodeDict]", edges="list[EdgeDict]")
T.record("JtNodeDict", node_ids="list[int]", left="int", right="int", type="atom")
T.record("JtGraphDict", nodes="dict[int,JtNodeDict]", edges="list[int]", parent_info="dict[atom,list[int]]")
T.record("JtDict", bbn_nodes="dict[int,NodeDict]", jt="JtGraphDict")
# networks in libpgm form
T.record("LibpgmData", parents="opt[list[atom]]", vals="list[atom]", ord="int", cprob="alt[list[real],dict[atom,list[real]]]")
T.declare("LibpgmBBN", at="ext", V="list[atom]", Vdata="dict[atom,LibpgmData]")
# numpy matrices (val: the matrix as a value of matrix algebra) and Gaussian networks
T.declare("Mat", at="ext", rows="int", cols="int", val="int")
T.record("Marginal", name="atom", mean="real", var="real")
T.declare("GaussianInference", H="list[atom]", M="list[real]", E="Mat", I="dict[atom,int]", meta="dict[atom,real]")
T.finish()

OPTS = {"ddicts": [T.parse("ddict[int,set[int]]")]}
