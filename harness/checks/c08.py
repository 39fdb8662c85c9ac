"""C08: nodes, flows and flow lists of a diagram always agree."""
from hypothesis import strategies as st

from harness import model, snap, sources
from harness.core import expect_equal, fail

ID = "C08"
RULE = ("Cases are diagrams from every producer: loaded from generated XML in random styles (flow lists given, partly "
        "given or left out), loaded from generated CSV, built, built on a loaded one, laid out, exported and loaded "
        "again. The cross-references are checked in every diagram. Non-trivial: at least 3 nodes and 2 flows.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)"]
BUDGET = {"quick": 5000, "thorough": 100000}


def strategy():
    styled = st.builds(lambda case, style: dict(case, style=style), sources.from_doc(), st.integers(0, 10 ** 6))
    pools = sources.from_doc(collaboration=True, max_nodes=3)
    return st.fixed_dictionaries({
        "source": st.one_of(styled, pools, sources.any_diagram(), sources.any_diagram(), sources.from_big(40)), "reload": st.booleans()})


def check(diagram):
    graph = diagram.diagram_graph
    nodes = dict(graph.nodes(data=True))
    collab = diagram.collaboration or {}
    mflows = collab.get("messageFlows", {})
    participants = collab.get("participants", {})
    incoming = {n: [] for n in nodes}
    outgoing = {n: [] for n in nodes}
    seen = set()
    for source, target, attrs in graph.edges(data=True):
        flow = attrs.get("id")
        if not flow or flow in seen:
            fail("flow without its own id", source=source, target=target, id=flow)
        seen.add(flow)
        for end in (source, target):
            if "type" not in nodes[end]:
                fail("flow connects something that is no node", flow=flow, end=end)
        if (flow in diagram.sequence_flows) == (flow in mflows):
            fail("flow is not recorded in exactly one of the flow dictionaries", flow=flow)
        record = diagram.sequence_flows[flow] if flow in diagram.sequence_flows else mflows[flow]
        expect_equal("record and edge of flow %s" % flow, [attrs["name"], attrs["sourceRef"], attrs["targetRef"]],
                     [record["name"], record["sourceRef"], record["targetRef"]])
        expect_equal("ends of flow %s" % flow, [attrs["sourceRef"], attrs["targetRef"]], [source, target])
        if flow in mflows and "id" in record:
            expect_equal("id of message flow", record["id"], flow)
        outgoing[source].append(flow)
        incoming[target].append(flow)
    expect_equal("recorded and drawn flows", sorted(list(diagram.sequence_flows) + list(mflows)), sorted(seen))
    for node_id, attrs in nodes.items():
        expect_equal("key and id of a node", attrs.get("id"), node_id)
        expect_equal("incoming flows of %s" % node_id, sorted(attrs["incoming"]), sorted(incoming[node_id]))
        expect_equal("outgoing flows of %s" % node_id, sorted(attrs["outgoing"]), sorted(outgoing[node_id]))
        parent = attrs.get("process")
        if parent in nodes and nodes[parent]["type"] == "subProcess":
            continue
        if parent in diagram.process_elements or (attrs["type"] == "participant" and parent in participants):
            continue
        fail("node belongs to no process, sub-process or participant", node=node_id, parent=parent)


def run(case):
    diagram = sources.make(case["source"])
    check(diagram)
    if case["reload"]:
        diagram = snap.load_xml(snap.export_xml(diagram))
        check(diagram)
    info = sources.describe(case["source"], diagram)
    info["nontrivial"] = info["nontrivial"] and len(diagram.get_flows()) >= 2
    return info
