"""C01: XML import represents every process element of the file, and nothing else."""
from hypothesis import strategies as st

from harness import model, snap
from harness.core import expect_equal

ID = "C01"
RULE = ("Cases are abstract BPMN documents (1-3 processes, nested sub-processes, all supported node types, random "
        "attribute subsets, event definitions, flows incl. self-loops and antiparallel pairs, optional shapes and "
        "waypoints, optional collaboration and lanes; one document in four is large: up to 60 nodes, 8 processes, any depth) rendered to XML in a plain or a random style, loaded and compared attribute by attribute "
        "with the document. Non-trivial: at least 3 nodes and 1 sequence flow. Distinct by document and style.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)", "texts are XML 1.0 characters"]
BUDGET = {"quick": 8000, "thorough": 150000}


def strategy():
    return st.fixed_dictionaries({
        "doc": st.one_of(model.document(max_nodes=8), model.document(collaboration=False, lanes=False, max_nodes=10),
                         model.document(max_processes=1, max_nodes=14, depth=1),
                         model.big()),
        "style": st.one_of(st.just(0), st.integers(0, 10 ** 6))})


def run(case):
    doc = model.full(case["doc"])
    diagram = snap.load_xml(model.render(doc, case["style"]))
    flows = [f["id"] for p in doc["processes"] for f in model.all_flows(p["nodes"], p["flows"])]
    flows += [f["id"] for f in doc["collab"]["mflows"]] if doc["collab"] else []
    expect_equal("ids of loaded and written flows", sorted(a["id"] for _, _, a in diagram.get_flows()), sorted(flows))
    expect_equal("loaded and written diagram", snap.snapshot(diagram), model.expected(doc))
    for node_id, attrs in diagram.diagram_graph.nodes(data=True):
        if type(attrs.get("incoming")) is not list or type(attrs.get("outgoing")) is not list:
            expect_equal("type of flow lists", [type(attrs.get("incoming")), type(attrs.get("outgoing"))], [list, list])
    return classify(doc, case["style"])


def classify(doc, style=0):
    nodes = [n for p in doc["processes"] for n in model.all_nodes(p["nodes"])]
    flows = [f for p in doc["processes"] for f in model.all_flows(p["nodes"], p["flows"])]
    labels = ["type " + t for t in sorted(set(n["type"] for n in nodes))]
    pairs = set((f["source"], f["target"]) for f in flows)
    if any((t, s) in pairs and s != t for s, t in pairs):
        labels.append("antiparallel flows")
    if any(s == t for s, t in pairs):
        labels.append("self-loop")
    if any(n["type"] == "subProcess" and n["nodes"] for n in nodes):
        labels.append("nested content")
    if any(n["type"] == "subProcess" and any(m["type"] == "subProcess" and m["nodes"] for m in n["nodes"]) for n in nodes):
        labels.append("nested twice")
    if any(f["cond"] for f in flows):
        labels.append("conditional flow")
    if any(n["defs"] for n in nodes):
        labels.append("event definitions")
    if doc["collab"]:
        labels.append("collaboration")
        if doc["collab"]["mflows"]:
            labels.append("message flows")
    if any(p["laneset"] for p in doc["processes"]):
        labels.append("lanes")
    if len(doc["processes"]) > 1:
        labels.append("several processes")
    if style:
        labels.append("random style")
    return {"nontrivial": len(nodes) >= 3 and len(flows) >= 1, "labels": labels}
