"""C23: diagrams are independent of each other."""
import atexit
import json
import re

from hypothesis import strategies as st

from harness import blocks, build, core, model, remote, snap, sources
from harness.core import fail
from harness.strat import NAME, fraction

ID = "C23"
RULE = ("Cases are 2-4 diagram objects, each with a history of 1-3 lives (created or loaded from XML or CSV, built on, "
        "edited, laid out, measured, exported; a new life begins with create_new_diagram_graph on the used object; the last "
        "call may overwrite everything reachable from the object) and a schedule that interleaves the histories. State and "
        "files after each call, and all states at the end, are compared with the same life run alone on a new object in a "
        "process forked for it from one that never used the library. Random ids are renamed by first appearance. "
        "Non-trivial: at least 2 objects with 2 calls each that do not run one after the other.")
ASSUMPTIONS = ["single thread", "loading is the first operation of a life", "no layout of black-box pools"]
BUDGET = {"quick": 1600, "thorough": 60000}
_SERVER = []
_UUID = re.compile(r"id[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}")
MEASURES = ["get_all_gateways", "TNE_metric", "NOAJS_metric", "DurfeeSquare_metric", "PerfectSquare_metric",
            "NumberOfNodes_metric", "get_gateway_counts", "get_events_counts"]


# ------------------------------------------------------------------------------------------------------------ strategy
@st.composite
def life(draw, first):
    kind = draw(st.sampled_from(["new", "new", "xml", "xml", "csv"]))
    ops = []
    if not first:
        ops.append(["new", draw(NAME)])
    boxes = False
    if kind == "new":
        ops += [["build", op] for op in draw(build.history(max_ops=9, renew=False, defaults=False))][0 if first else 1:]
    elif kind == "xml":
        doc = draw(model.document(full_di=draw(st.booleans()), max_nodes=4, max_processes=draw(st.sampled_from([2, 2, 4])), depth=1))
        boxes = bool(doc["collab"]) and any(not p["processRef"] for p in doc["collab"]["participants"])
        ops.append(["xml", doc])
        if fraction(draw, 1, 2):
            ops += [["build", op] for op in draw(build.history(max_ops=5, base=doc, renew=False, defaults=False))]
    else:
        ops.append(["csv", blocks.write_rows(draw(blocks.csv_rows(depth=1)))])
    rest = [["export xml"], ["export no di"], ["measure", draw(st.sampled_from(MEASURES))],
            ["edit", draw(sources.edits(3))], ["edit", draw(sources.edits(3))], ["query"]]
    if not boxes:
        rest.append(["layout"])
    if kind == "csv":
        rest.append(["export csv"])
    ops += draw(st.lists(st.sampled_from(rest), max_size=4))
    return ops


@st.composite
def histories(draw):
    objects = []
    for _ in range(draw(st.sampled_from([2, 2, 3, 4]))):
        lives = [draw(life(True))]
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            lives.append(draw(life(False)))
        objects.append(lives)
    left = [i for i, lives in enumerate(objects) for one in lives for _ in one]
    schedule = draw(st.permutations(left))
    wreck = [i for i in range(len(objects)) if fraction(draw, 1, 3)]
    return {"objects": objects, "schedule": schedule, "wreck": wreck[:len(objects) - 1]}


def strategy():
    return histories()


# --------------------------------------------------------------------------------------------------------- operations
class Runner(object):
    """One diagram object and its results."""

    def __init__(self):
        self.diagram = snap.new_diagram()
        self.session = build.Session(self.diagram)
        self.results = []

    def state(self):
        return json.dumps(remote.plain(snap.raw(self.diagram)))

    def apply(self, op):
        kind = op[0]
        d = self.diagram
        result = None
        if kind == "new":
            d.create_new_diagram_graph(diagram_name=op[1])
            self.session = build.Session(d)
        elif kind == "build":
            self.session.apply(op[1])
        elif kind == "xml":
            path = core.scratch() + "life.bpmn"
            with open(path, "wb") as f:
                f.write(model.render(op[1], 0))
            d.load_diagram_from_xml_file(path)
            self.session = build.Session(d, op[1])
        elif kind == "csv":
            path = core.scratch() + "life.csv"
            with open(path, "w", encoding="utf-8", newline="") as f:
                f.write(op[1])
            d.load_diagram_from_csv_file(path)
        elif kind == "export xml":
            result = snap.export_xml(d).decode("utf-8")
        elif kind == "export no di":
            result = snap.export_xml(d, no_di=True).decode("utf-8")
        elif kind == "export csv":
            import networkx
            if networkx.is_directed_acyclic_graph(d.diagram_graph) and len(d.diagram_graph) < 40:
                result = remote.attempt(lambda: snap.export_csv(d).decode("utf-8"))
        elif kind == "measure":
            import bpmn_python.bpmn_diagram_metrics as metrics
            result = remote.attempt(lambda: getattr(metrics, op[1])(d))
        elif kind == "query":
            result = remote.plain([d.get_nodes("task"), d.get_nodes_id_list_by_type("task"), d.get_flows()])
        elif kind == "layout":
            import bpmn_python.bpmn_diagram_layouter as layouter
            layouter.generate_layout(d)
        elif kind == "edit":
            sources.apply_edits(d, op[1])
        else:
            raise AssertionError(kind)
        self.results.append([json.dumps(result), self.state()])


def remote_work(request):
    runner = Runner()
    for op in request["life"]:
        runner.apply(op)
    return runner.results


def wreck(value, seen=None):
    """Writes into everything reachable from the diagram."""
    seen = seen if seen is not None else set()
    if id(value) in seen:
        return
    seen.add(id(value))
    if isinstance(value, dict):
        for item in list(value.values()):
            wreck(item, seen)
        value["wrecked"] = "wrecked"
    elif isinstance(value, list):
        for item in list(value):
            wreck(item, seen)
        value.append("wrecked")


def destroy(diagram):
    seen = set()
    for _, attrs in list(diagram.diagram_graph.nodes(data=True)):
        wreck(attrs, seen)
    for _, _, attrs in list(diagram.diagram_graph.edges(data=True)):
        wreck(attrs, seen)
    for part in (diagram.sequence_flows, diagram.process_elements, diagram.diagram_attributes, diagram.plane_attributes,
                 diagram.collaboration):
        wreck(part, seen)
    diagram.diagram_graph.add_node("wrecked")


def renamed(results):
    names = {}
    return json.loads(_UUID.sub(lambda m: names.setdefault(m.group(0), "random%d" % len(names)), json.dumps(results)))


def server():
    if not _SERVER:
        _SERVER.append(remote.Remote(True, 0, 0, core.scratch() + "alone", __name__))
        atexit.register(stop)
    return _SERVER[0]


def stop():
    while _SERVER:
        _SERVER.pop().close()


def run(case):
    if not case["objects"]:
        return {}
    server()
    runners = [Runner() for _ in case["objects"]]
    queues = [[op for one in lives for op in one] for lives in case["objects"]]
    switches, last = 0, None
    for index in case["schedule"]:
        runners[index].apply(queues[index].pop(0))
        switches += index != last
        last = index
    for index in case["wreck"]:
        destroy(runners[index].diagram)
    for index, (runner, lives) in enumerate(zip(runners, case["objects"])):
        start = 0
        for number, one in enumerate(lives):
            alone = server().ask({"module": __name__, "life": one})
            if not isinstance(alone, list):
                raise RuntimeError("a life could not be run alone: %r" % (alone,))
            mine = runner.results[start:start + len(one)]
            if number + 1 == len(lives) and index not in case["wreck"]:
                mine = mine + [[None, runner.state()]]
                alone = alone + [[None, alone[-1][1]]]
            start += len(one)
            for i, (got, expected) in enumerate(zip(renamed(mine), renamed(alone))):
                if got != expected:
                    call = one[i][0] if i < len(one) else "the end"
                    got, expected = [[json.loads(x) if x else None for x in pair] for pair in (got, expected)]
                    fail("object %d, life %d, after call %d (%s): not as when it is run alone" % (index, number, i, call),
                         difference=core.diff(got, expected))
    busy = sum(1 for lives in case["objects"] if sum(len(x) for x in lives) >= 2)
    labels = ["%d objects" % len(runners), "%d lives" % max(len(x) for x in case["objects"])]
    labels += sorted(set(op[0] for lives in case["objects"] for one in lives for op in one))
    labels += ["wreck"] if case["wreck"] else []
    return {"nontrivial": busy >= 2 and switches > len(runners), "labels": labels}
