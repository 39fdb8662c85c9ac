"""C26: nodes are classified by their role in the process."""
from hypothesis import strategies as st

from harness import graphs, model, snap, sources, build
from harness.checks import c13
from harness.core import expect_equal, fail

ID = "C26"
RULE = ("Cases are process graphs of all shapes, random multisets of all node types with random flows, diagrams from XML "
        "(nested, with pools and message flows), CSV and the API, and building histories after which the classification "
        "is taken. The labels of every node are compared with ones computed from the edges of the graph. Non-trivial: "
        "at least 4 nodes, one of them a split or a join.")
ASSUMPTIONS = ["black-box participants are not elements of a process"]
BUDGET = {"quick": 5000, "thorough": 100000}


def strategy():
    return st.one_of(
        graphs.graph().map(lambda g: {"graph": g}), graphs.graph(max_size=25).map(lambda g: {"graph": g}),
        c13.mixture().map(lambda g: {"graph": g}),
        sources.from_doc(max_nodes=8, depth=2).map(lambda s: {"source": s}), sources.from_csv().map(lambda s: {"source": s}),
        sources.from_random().map(lambda s: {"source": s}), sources.from_big().map(lambda s: {"source": s}), sources.from_both().map(lambda s: {"source": s}),
        build.history(max_ops=20).map(lambda ops: {"ops": ops}))


def expected(graph):
    out = {}
    for node, attrs in graph.nodes(data=True):
        if attrs["type"] == "participant":
            continue
        labels = ["Element"]
        if attrs["type"] == "startEvent":
            labels.append("Start Event")
        if attrs["type"] == "endEvent":
            labels.append("End Event")
        if graph.in_degree(node) > 1:
            labels.append("Join")
        if graph.out_degree(node) > 1:
            labels.append("Split")
        out[node] = sorted(labels)
    return out


def compare(diagram):
    import bpmn_python.bpmn_diagram_layouter as layouter
    import bpmn_python.bpmn_import_utils as utils
    graph = diagram.diagram_graph
    wanted = expected(graph)
    got = utils.BpmnImportUtils.generate_nodes_clasification(diagram)
    expect_equal("classification of nodes", {n: sorted(v) for n, v in got.items()}, wanted)
    nodes, flows = layouter.generate_elements_clasification(diagram)
    seen = {}
    for entry in nodes:
        node, attrs = entry["node"]
        if node in seen:
            fail("node %r is classified twice" % node)
        seen[node] = sorted(entry["classification"])
        expect_equal("attributes of node %r" % node, attrs, graph.nodes[node])
    expect_equal("classification of nodes for the layout", seen, wanted)
    expect_equal("classified flows", sorted([f["flow"][0], f["flow"][1], f["flow"][2]["id"]] for f in flows),
                 sorted([s, t, a["id"]] for s, t, a in graph.edges(data=True)))
    for entry in flows:
        expect_equal("classification of a flow", list(entry["classification"]), ["Flow"])
    return wanted


def run(case):
    if "graph" in case:
        diagram = graphs.build(case["graph"])
        labels = ["graph"]
    elif "source" in case:
        diagram = sources.make(case["source"])
        labels = ["from " + case["source"]["kind"]]
    else:
        diagram = snap.new_diagram()
        session = build.Session(diagram)
        for op in case["ops"]:
            session.apply(op)
        labels = ["history"]
    wanted = compare(diagram)
    roles = sorted(set(label for v in wanted.values() for label in v))
    types = set(a["type"] for _, a in diagram.diagram_graph.nodes(data=True)) & set(model.TYPES)
    return {"nontrivial": len(wanted) >= 4 and ("Split" in roles or "Join" in roles),
            "labels": labels + roles + sorted(types)}
