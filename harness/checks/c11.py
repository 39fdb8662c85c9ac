"""C11: layout succeeds for every process and only sets positions."""
from hypothesis import strategies as st

from harness import graphs, model, snap, sources
from harness.core import expect_equal, fail

ID = "C11"
RULE = ("Cases are process graphs (random digraphs, DAGs, trees, cycles with and without entry, series-parallel blocks with "
        "back edges, disconnected parts, self-loops; with and without layout data, in random file order), diagrams "
        "loaded from generated documents with sub-processes, pools and message flows, built ones and CSV ones. The "
        "layout is generated twice. Non-trivial: at least 4 nodes and 3 flows.")
ASSUMPTIONS = ["no black-box pools", "at most one flow per ordered pair of nodes (known finding KF1)"]
BUDGET = {"quick": 12000, "thorough": 100000}


@st.composite
def from_pools(draw):
    doc = draw(model.document(max_nodes=5, depth=1))
    if doc["collab"]:
        boxes = set(p["id"] for p in doc["collab"]["participants"] if not p["processRef"])
        doc["collab"]["participants"] = [p for p in doc["collab"]["participants"] if p["processRef"]]
        doc["collab"]["mflows"] = [f for f in doc["collab"]["mflows"]
                                   if f["source"] not in boxes and f["target"] not in boxes]
    return {"kind": "doc", "doc": doc, "style": 0, "layout": False, "edits": []}


def strategy():
    plain = st.one_of(graphs.graph(), graphs.graph(), graphs.graph(), graphs.graph(max_size=25),
                      graphs.graph(shapes=["random", "cycle", "blocks loops", "cycle tail"])).map(lambda g: {"graph": g})
    other = st.one_of(from_pools(), sources.from_build(layout=False), sources.from_csv(layout=False))
    return st.one_of(plain, plain, plain, plain, other.map(lambda s: {"source": s}))


def frame(diagram, sized=True):
    """Everything a layout must not change; nodes without a size get the default one."""
    state = snap.raw(diagram)
    for i, (node_id, attrs) in enumerate(state["nodes"]):
        attrs = dict(attrs)
        attrs.pop("x", None)
        attrs.pop("y", None)
        if not sized:
            attrs.setdefault("width", "100")
            attrs.setdefault("height", "100")
        state["nodes"][i] = (node_id, attrs)
    for i, (source, target, attrs) in enumerate(state["edges"]):
        attrs = dict(attrs)
        attrs.pop("waypoints", None)
        state["edges"][i] = (source, target, attrs)
    return state


def places(diagram):
    return ({n: [a.get("x"), a.get("y")] for n, a in diagram.diagram_graph.nodes(data=True)},
            {a["id"]: [list(p) for p in a["waypoints"]] for _, _, a in diagram.diagram_graph.edges(data=True)})


def run(case):
    import bpmn_python.bpmn_diagram_layouter as layouter
    diagram = graphs.build(case["graph"]) if "graph" in case else sources.make(case["source"])
    before = frame(diagram, False)
    layouter.generate_layout(diagram)
    expect_equal("everything but coordinates and waypoints, after and before the layout", frame(diagram), before)
    nodes, flows = places(diagram)
    taken = {}
    for node_id, (x, y) in nodes.items():
        if not isinstance(x, str) or not isinstance(y, str):
            fail("node got no coordinates", node=node_id, x=x, y=y)
        spot = (float(x), float(y))
        if spot in taken:
            fail("two nodes share a position", nodes=[taken[spot], node_id], position=spot)
        taken[spot] = node_id
    for flow_id, points in flows.items():
        if len(points) < 2 or not all(isinstance(c, str) and float(c) == float(c) for p in points for c in p):
            fail("flow got no line", flow=flow_id, points=points)
    layouter.generate_layout(diagram)
    expect_equal("positions after a second layout and after the first", places(diagram), (nodes, flows))
    expect_equal("everything else after a second layout", frame(diagram), before)
    labels = graphs.View(case["graph"]).labels() + ["shape " + case["graph"]["shape"]] if "graph" in case \
        else ["from " + case["source"]["kind"]]
    return {"nontrivial": len(nodes) >= 4 and len(flows) >= 3, "labels": labels}
