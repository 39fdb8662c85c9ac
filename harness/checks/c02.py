"""C02: pools, lanes and message flows survive XML import and re-export."""
from hypothesis import strategies as st

from harness import model, snap
from harness.core import expect_equal

ID = "C02"
RULE = ("Cases are abstract BPMN documents with a collaboration (participants of processes and black boxes, message flows "
        "between nodes of any depth and black boxes, lane sets nested up to 3 levels, random subsets of shapes), "
        "rendered with the collaboration and the message flows at random places. Compared with the document after "
        "loading, and after 1-3 exports and loads. Non-trivial: a message flow or a lane with a node, and 2 "
        "participants or lanes.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)"]
BUDGET = {"quick": 6000, "thorough": 100000}


def strategy():
    return st.fixed_dictionaries({
        "doc": st.one_of(model.document(collaboration=True, max_nodes=4, depth=2),
                         model.document(collaboration=True, max_nodes=3, max_processes=4, depth=1),
                         model.document(collaboration=True, max_nodes=4, max_processes=2, depth=0, full_di=True),
                         model.big(40, collaboration=True)),
        "style": st.one_of(st.just(0), st.integers(0, 10 ** 6)), "rounds": st.integers(1, 3)})


def view(snapshot):
    flows = set(snapshot["collaboration"].get("messageFlows", {}))
    return {
        "collaboration": snapshot["collaboration"],
        "lanes": {k: p["laneSet"] for k, p in snapshot["processes"].items() if "laneSet" in p},
        "drawn": {k: e for k, e in snapshot["edges"].items() if e["id"] in flows},
        "black boxes": {k: n for k, n in snapshot["nodes"].items() if n["type"] == "participant"},
        "ends": {k: [[f for f in n["incoming"] if f in flows], [f for f in n["outgoing"] if f in flows]]
                 for k, n in snapshot["nodes"].items()}}


def run(case):
    doc = model.full(case["doc"])
    diagram = snap.load_xml(model.render(doc, case["style"]))
    wanted = view(model.expected(doc))
    expect_equal("collaboration and lanes loaded and written", view(snap.snapshot(diagram)), wanted)
    for _ in range(case["rounds"]):
        diagram = snap.load_xml(snap.export_xml(diagram))
        expect_equal("collaboration and lanes after export and load and those written", view(snap.snapshot(diagram)),
                     wanted)
    collab = doc["collab"]
    lanes = [x for p in doc["processes"] if p["laneset"] for x in all_lanes(p["laneset"])]
    boxes = set(p["id"] for p in collab["participants"] if not p["processRef"])
    labels = []
    if collab["mflows"]:
        labels.append("message flows")
    if any(f["source"] in boxes or f["target"] in boxes for f in collab["mflows"]):
        labels.append("message flow to a black box")
    if lanes:
        labels.append("lanes")
    if any(x["child"] is not None for x in lanes):
        labels.append("child lanes")
    if any(x["refs"] for x in lanes):
        labels.append("nodes in lanes")
    nontrivial = (bool(collab["mflows"]) or any(x["refs"] for x in lanes)) and \
        (len(collab["participants"]) >= 2 or len(lanes) >= 2)
    return {"nontrivial": nontrivial, "labels": labels}


def all_lanes(lane_set):
    for lane in lane_set["lanes"]:
        yield lane
        if lane["child"] is not None:
            for inner in all_lanes(lane["child"]):
                yield inner
