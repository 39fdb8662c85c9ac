"""C13: counting metrics equal the number of elements in the diagram."""
from hypothesis import strategies as st

from harness import build, graphs, model, snap, sources
from harness.core import expect_equal

ID = "C13"
RULE = ("Cases are diagrams with random multisets of all node types (loaded from XML, CSV, several processes, nested, with "
        "pools; with retyped nodes) and building histories in which the metrics are taken after every call. Every "
        "counting metric is compared with a count over the elements. Non-trivial: at least 3 nodes of 2 types.")
ASSUMPTIONS = ["activities are tasks and sub-processes, events are start, end and intermediate events (as in the "
               "documentation of the metrics)"]
BUDGET = {"quick": 6000, "thorough": 100000}

_MIX = st.lists(st.sampled_from(model.TYPES), max_size=25)


@st.composite
def mixture(draw):
    kinds = draw(st.lists(st.sampled_from(model.TYPES), min_size=1, max_size=9, unique=True))
    nodes = draw(st.lists(st.sampled_from(kinds), max_size=30))
    k = len(nodes)
    edges = draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)).map(list), unique_by=tuple,
                          max_size=20)) if k else []
    edges = [e for e in edges if "dataObject" not in (nodes[e[0]], nodes[e[1]])]
    return {"nodes": nodes, "edges": edges, "order": list(range(k)), "shape": "mixture", "di": False}


def strategy():
    return st.one_of(
        mixture().map(lambda g: {"graph": g}), mixture().map(lambda g: {"graph": g}),
        sources.from_doc(max_nodes=8, depth=2).map(lambda s: {"source": s}), sources.from_csv().map(lambda s: {"source": s}),
        sources.from_random().map(lambda s: {"source": s}), sources.from_big().map(lambda s: {"source": s}),
        sources.from_both().map(lambda s: {"source": s}),
        build.history(max_ops=15).map(lambda ops: {"ops": ops}))


def compare(diagram):
    import bpmn_python.bpmn_diagram_metrics as m
    types = [a["type"] for _, a in diagram.diagram_graph.nodes(data=True)]
    count = {t: types.count(t) for t in set(types) | set(model.TYPES) | {"participant", "nothing", "Task"}}
    expect_equal("number of nodes", m.get_nodes_count(diagram), len(types))
    for node_type, n in sorted(count.items()):
        expect_equal("number of nodes of type " + node_type, m.get_nodes_count(diagram, node_type), n)
        expect_equal("number of nodes of type " + node_type, m.get_nodes_count(diagram, node_type=node_type), n)
    gateways = {t: count[t] for t in model.GATEWAYS}
    events = {t: count[t] for t in ("startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent")}
    activities = {t: count[t] for t in ("task", "subProcess")}
    expect_equal("gateway counts", dict(m.get_gateway_counts(diagram)), gateways)
    expect_equal("event counts", dict(m.get_events_counts(diagram)), events)
    expect_equal("activity counts", dict(m.get_activities_counts(diagram)), activities)
    expect_equal("gateways", sorted(n for n, _ in m.get_all_gateways(diagram)),
                 sorted(n for n, a in diagram.diagram_graph.nodes(data=True) if a["type"] in model.GATEWAYS))
    ng, ne, na = sum(gateways.values()), sum(events.values()), sum(activities.values())
    for name, value in (
            ("all_activities_count", na), ("all_gateways_count", ng), ("all_events_count", ne),
            ("all_control_flow_elements_count", ng + ne), ("TNSE_metric", events["startEvent"]),
            ("TNIE_metric", events["intermediateCatchEvent"] + events["intermediateThrowEvent"]),
            ("TNEE_metric", events["endEvent"]), ("TNE_metric", ne), ("NOA_metric", na), ("NOAC_metric", na + ng + ne),
            ("NOAJS_metric", na + ng), ("NumberOfNodes_metric", na + ng + ne)):
        expect_equal(name, getattr(m, name)(diagram), value)
    return types


def run(case):
    if "graph" in case:
        diagram = graphs.build(case["graph"])
        types = compare(diagram)
        # the metrics follow the diagram
        for _, attrs in diagram.diagram_graph.nodes(data=True):
            if attrs["type"] == "userTask":
                attrs["type"] = "task"
                compare(diagram)
                break
        labels = ["mixture"]
    elif "source" in case:
        diagram = sources.make(case["source"])
        types = compare(diagram)
        labels = ["from " + case["source"]["kind"]]
    else:
        diagram = snap.new_diagram()
        compare(diagram)
        session = build.Session(diagram)
        types = []
        for op in case["ops"]:
            session.apply(op)
            types = compare(diagram)
        labels = ["history"]
    return {"nontrivial": len(types) >= 3 and len(set(types)) >= 2, "labels": labels}
