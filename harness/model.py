"""
Abstract BPMN documents: Hypothesis strategy, rendering to XML in many styles, and the diagram that loading such a
document has to give. Everything is plain JSON data.
"""
import random

from hypothesis import strategies as st

from harness.strat import _ID_BASES, BOOL_TEXT, COORD, NAME, NASTY, SIZE, Ids, fraction, maybe

TASKS = ["task", "userTask", "serviceTask", "manualTask"]
GATEWAYS = ["inclusiveGateway", "exclusiveGateway", "parallelGateway", "eventBasedGateway", "complexGateway"]
EVENTS = ["startEvent", "endEvent", "intermediateCatchEvent", "intermediateThrowEvent", "boundaryEvent"]
TYPES = TASKS + ["subProcess", "dataObject"] + GATEWAYS + EVENTS
DEFS = {
    "startEvent": ["message", "timer", "conditional", "escalation", "signal"],
    "intermediateCatchEvent": ["message", "timer", "signal", "conditional", "escalation"],
    "endEvent": ["message", "signal", "escalation", "error", "compensate", "terminate"],
    "intermediateThrowEvent": ["message", "signal", "escalation", "compensate"],
    "boundaryEvent": ["message", "timer", "signal", "conditional", "escalation", "error"],
}
DIRECTIONS = ["Unspecified", "Converging", "Diverging", "Mixed"]
ATTRS = {  # attribute -> (values, default)
    "triggeredByEvent": (["true", "false"], "false"),
    "isCollection": (["true", "false"], "false"),
    "gatewayDirection": (DIRECTIONS, "Unspecified"),
    "instantiate": (["true", "false"], "false"),
    "eventGatewayType": (["Exclusive", "Parallel"], "Exclusive"),
    "parallelMultiple": (["true", "false"], "false"),
    "isInterrupting": (["true", "false"], "true"),
    "cancelActivity": (["true", "false"], "true"),
}
TYPE_ATTRS = {
    "subProcess": ["triggeredByEvent"], "dataObject": ["isCollection"],
    "inclusiveGateway": ["gatewayDirection"], "exclusiveGateway": ["gatewayDirection"],
    "parallelGateway": ["gatewayDirection"], "complexGateway": ["gatewayDirection"],
    "eventBasedGateway": ["gatewayDirection", "instantiate", "eventGatewayType"],
    "startEvent": ["parallelMultiple", "isInterrupting"], "intermediateCatchEvent": ["parallelMultiple"],
    "boundaryEvent": ["parallelMultiple", "cancelActivity"],
}
WITH_DEFAULT = TASKS + ["subProcess", "inclusiveGateway", "exclusiveGateway", "complexGateway"]

_TYPE = st.sampled_from(TYPES + TASKS + ["subProcess"])
_VALUES = {name: st.one_of(st.none(), st.sampled_from(values)) for name, (values, _) in ATTRS.items()}
_OPT_NAME = st.one_of(st.none(), NAME, NAME, NAME)
_COND = st.one_of(st.none(), st.none(), NAME)
_PREFIX = st.sampled_from(["def", "cond", None])
_POINT = st.tuples(COORD, COORD).map(list)
_POINTS = st.one_of(st.lists(_POINT, min_size=2, max_size=5), st.lists(_POINT, min_size=2, max_size=5),
                    st.lists(_POINT, min_size=1, max_size=3).flatmap(  # points that occur more than once
                        lambda p: st.lists(st.sampled_from(p), min_size=2, max_size=6)))
_SHAPE = st.fixed_dictionaries({"x": COORD, "y": COORD, "width": SIZE, "height": SIZE})


def shape(draw, always):
    if always or fraction(draw, 7, 8):
        return draw(_SHAPE)
    return None


def content(draw, ids, depth, full_di, max_nodes, types=None):
    nodes, flows = [], []
    for _ in range(draw(st.integers(0, max_nodes))):
        node_type = draw(types or _TYPE)
        node = {"type": node_type, "id": ids.new(), "name": draw(_OPT_NAME), "attrs": {},
                "shape": shape(draw, full_di), "defs": []}
        for name in TYPE_ATTRS.get(node_type, ()):
            value = draw(_VALUES[name])
            if value is not None:
                node["attrs"][name] = value
        if node_type in DEFS:
            for kind in draw(st.lists(st.sampled_from(DEFS[node_type]), max_size=3)):
                node["defs"].append({"type": kind + "EventDefinition",
                                     "id": ids.new(draw(_PREFIX)) if fraction(draw, 3, 4) else None})
        if node_type == "subProcess":
            node["isExpanded"] = draw(st.one_of(st.none(), BOOL_TEXT))
            node["nodes"], node["flows"] = ([], [])
            if depth > 0:
                node["nodes"], node["flows"] = content(draw, ids, depth - 1, full_di, max(1, max_nodes // 2), types)
        nodes.append(node)
    linked = [n["id"] for n in nodes if n["type"] != "dataObject"]
    taken = set()
    if any(n.get("nodes") for n in nodes) and fraction(draw, 1, 8):
        # some flows written here connect nodes of the sub-processes
        linked = [n["id"] for n in all_nodes(nodes) if n["type"] != "dataObject"]
        taken = {(f["source"], f["target"]) for f in all_flows(nodes, [])}
    if linked:
        k = len(linked)
        pairs = draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)), unique=True, max_size=2 * k))
        for s, t in pairs:
            if (linked[s], linked[t]) in taken:
                continue
            cond = draw(_COND)
            flows.append({"id": ids.new(), "name": draw(_OPT_NAME), "source": linked[s], "target": linked[t],
                          "cond": None if cond is None else {"text": cond, "id": ids.new(draw(_PREFIX))
                                                             if fraction(draw, 3, 4) else None},
                          "waypoints": draw(_POINTS) if full_di or fraction(draw, 7, 8) else None})
    activities = [n["id"] for n in nodes if n["type"] in TASKS + ["subProcess"]]
    for node in nodes:
        outs = [f["id"] for f in flows if f["source"] == node["id"]]
        ins = [f["id"] for f in flows if f["target"] == node["id"]]
        if node["type"] in WITH_DEFAULT and outs and fraction(draw, 1, 3):
            node["attrs"]["default"] = draw(st.sampled_from(outs))
        if node["type"] == "boundaryEvent":
            if activities:
                node["attrs"]["attachedToRef"] = draw(st.sampled_from(activities))
            elif draw(st.booleans()):
                node["attrs"]["attachedToRef"] = "nothing"
        listing = draw(st.integers(0, 3))  # which flows are listed under the node
        if listing == 0:
            node["in"], node["out"] = [], []
        elif listing == 1 and len(ins) + len(outs) > 1:
            node["in"] = [x for x in draw(st.permutations(ins)) if draw(st.booleans())]
            node["out"] = [x for x in draw(st.permutations(outs)) if draw(st.booleans())]
        else:
            node["in"], node["out"] = ins, outs
    return nodes, flows


def all_nodes(nodes):
    for node in nodes:
        yield node
        if node["type"] == "subProcess":
            for inner in all_nodes(node["nodes"]):
                yield inner


def all_flows(nodes, flows):
    for node in nodes:
        if node["type"] == "subProcess":
            for inner in all_flows(node["nodes"], node["flows"]):
                yield inner
    for flow in flows:
        yield flow


def lane_set(draw, ids, node_ids, depth):
    lanes = []
    for _ in range(draw(st.integers(0, 3 if fraction(draw, 7, 8) else 12))):
        refs = draw(st.lists(st.sampled_from(node_ids), unique=True, max_size=4)) if node_ids else []
        lanes.append({"id": ids.new(), "name": draw(_OPT_NAME), "refs": refs,
                      "child": lane_set(draw, ids, node_ids, depth - 1) if depth > 0 and fraction(draw, 1, 3 if depth < 3 else 1) else None,
                      "shape": shape(draw, False), "isHorizontal": draw(st.one_of(st.none(), BOOL_TEXT))})
    return {"id": ids.new() if fraction(draw, 3, 4) else None, "lanes": lanes}


@st.composite
def document(draw, collaboration=None, full_di=False, max_nodes=6, max_processes=3, depth=3, lanes=True, types=None):
    """collaboration: True (always), False (never), None (sometimes)."""
    ids = Ids(draw)
    doc = {"diagram": {"id": ids.new(), "name": draw(_OPT_NAME)}, "plane": {"id": ids.new()}, "processes": [],
           "collab": None}
    for _ in range(draw(st.integers(1, max_processes))):
        process = {"id": ids.new(), "name": draw(_OPT_NAME), "isClosed": draw(st.one_of(st.none(), BOOL_TEXT)),
                   "isExecutable": draw(st.one_of(st.none(), BOOL_TEXT)),
                   "processType": draw(st.sampled_from([None, "None", "Public", "Private"])), "laneset": None}
        process["nodes"], process["flows"] = content(draw, ids, draw(st.integers(0, depth)), full_di, max_nodes, types)
        doc["processes"].append(process)
    if collaboration or (collaboration is None and draw(st.booleans())):
        doc["collab"] = make_collaboration(draw, ids, doc, full_di)
    if lanes:
        for process in doc["processes"]:
            if fraction(draw, 1, 2) if collaboration else fraction(draw, 1, 5):
                nodes = [n["id"] for n in process["nodes"]]
                process["laneset"] = lane_set(draw, ids, nodes, draw(st.sampled_from([0, 1, 1, 2, 2, 3, 4])))
    candidates = [p["id"] for p in doc["processes"]] + ([doc["collab"]["id"]] if doc["collab"] else [])
    doc["plane"]["bpmnElement"] = draw(st.sampled_from(candidates + candidates + [""]))
    return doc


def make_collaboration(draw, ids, doc, full_di):
    collab = {"id": ids.new(), "participants": [], "mflows": []}
    pools = []  # (pool, possible ends of message flows)
    for process in doc["processes"]:
        ends = [n["id"] for n in all_nodes(process["nodes"]) if n["type"] != "dataObject"]
        if fraction(draw, 4, 5):
            for _ in range(2 if fraction(draw, 1, 8) else 1):  # pools may share a process
                collab["participants"].append({"id": ids.new(), "name": draw(_OPT_NAME), "processRef": process["id"]})
        pools.append(ends)
    if fraction(draw, 1, 6):  # a pool whose process is described elsewhere
        collab["participants"].append({"id": ids.new(), "name": draw(_OPT_NAME), "processRef": ids.new()})
    for _ in range(draw(st.integers(0, 2))):
        participant = {"id": ids.new(), "name": draw(_OPT_NAME), "processRef": draw(st.sampled_from([None, ""]))}
        collab["participants"].append(participant)
        pools.append([participant["id"]])
    collab["participants"] = list(draw(st.permutations(collab["participants"])))
    for participant in collab["participants"]:
        participant["shape"] = shape(draw, full_di)
        participant["isHorizontal"] = draw(st.one_of(st.none(), BOOL_TEXT))
    pools = [p for p in pools if p]
    if len(pools) > 1:
        k = len(pools)
        used = set()
        for s, t in draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)), max_size=4)):
            if s == t:
                continue
            pair = (draw(st.sampled_from(pools[s])), draw(st.sampled_from(pools[t])))
            if pair in used:
                continue
            used.add(pair)
            collab["mflows"].append({"id": ids.new(), "name": draw(_OPT_NAME), "source": pair[0], "target": pair[1],
                                     "waypoints": draw(_POINTS) if full_di or fraction(draw, 2, 3) else None})
    return collab


# -------------------------------------------------------------------------------------------------- large documents
def big(most=60, collaboration=None):
    """A large document; the details follow from a number. model.full gives the document itself."""
    return st.fixed_dictionaries({"big": st.integers(0, 10 ** 6), "nodes": st.integers(8, most),
                                  "collaboration": st.just(collaboration) if collaboration is not None else st.booleans()})


def full(doc):
    return make_big(doc) if "big" in doc else doc


def make_big(how):
    rng = random.Random(how["big"])
    bases = [b for b in _ID_BASES if b != "similar"]
    bases = [rng.choice(bases)] if rng.random() < 0.3 else rng.sample(bases, 6)
    count = [0]
    taken = []
    related = rng.random() < 0.4  # ids that start with another id

    def new():
        count[0] += 1
        base = rng.choice(bases)
        made = base.replace("?", str(count[0])) if "?" in base else base + "_%d" % count[0]
        if related and taken and rng.random() < 0.5:
            longer = rng.choice(taken[:12] if rng.random() < 0.5 else taken) + rng.choice(["_%d", "_%d", "x%d", "-%d", ".%d", "%d"]) % rng.randrange(5)
            made = made if longer in taken else longer
        while made in taken:
            made += "_"
        taken.append(made)
        return made

    def name():
        return rng.choice([None, "N%d" % rng.randrange(9), rng.choice(NASTY), rng.choice(NASTY)])

    def coordinate():
        return rng.choice([str(rng.randrange(-500, 3000)), "%.2f" % (rng.random() * 1000), "0", "100"])

    def box():
        if rng.random() < 0.1:
            return None
        return {"x": coordinate(), "y": coordinate(), "width": str(rng.randrange(1, 400)), "height": str(rng.randrange(1, 400))}

    def points():
        if rng.random() < 0.1:
            return None
        return [[coordinate(), coordinate()] for _ in range(rng.choice([2, 2, 3, 4, rng.randrange(2, 25)]))]

    def flow(source, target):
        cond = rng.choice(NASTY) if rng.random() < 0.2 else None
        return {"id": new(), "name": name(), "source": source, "target": target, "waypoints": points(),
                "cond": None if cond is None else {"text": cond, "id": new() if rng.random() < 0.7 else None}}

    doc = {"diagram": {"id": new(), "name": name()}, "plane": {"id": new()}, "processes": [], "collab": None}
    for _ in range(rng.choice([1, 1, 2, 3, 5, 8])):
        ids = [p["id"] + rng.choice(["_%d", "-%d", "%d"]) % rng.randrange(5) for p in doc["processes"]]
        ids = [i for i in ids if related and i not in taken and rng.random() < 0.4]
        taken.extend(ids[:1])
        doc["processes"].append({"id": ids[0] if ids else new(), "name": name(), "isClosed": rng.choice([None, "true", "false"]),
                                 "isExecutable": rng.choice([None, "true", "false"]),
                                 "processType": rng.choice([None, "None", "Public", "Private"]), "laneset": None,
                                 "nodes": [], "flows": []})
    parents = list(doc["processes"])
    kinds = TYPES if rng.random() < 0.5 else rng.sample(TYPES, 3) + ["subProcess"]
    deep = rng.random() < 0.4  # sub-processes in sub-processes
    for k in range(how["nodes"]):
        kind = rng.choice(kinds)
        node = {"type": kind, "id": new(), "name": name(), "attrs": {}, "shape": box(), "defs": []}
        for key in TYPE_ATTRS.get(kind, ()):
            if rng.random() < 0.6:
                node["attrs"][key] = rng.choice(ATTRS[key][0])
        if kind in DEFS:
            for definition in rng.choices(DEFS[kind], k=rng.choice([0, 0, 1, 1, 2, rng.randrange(8)])):
                node["defs"].append({"type": definition + "EventDefinition", "id": new() if rng.random() < 0.7 else None})
        parent = parents[-1] if deep and rng.random() < 0.6 else rng.choice(parents)
        if kind == "subProcess":
            node.update(isExpanded=rng.choice([None, "true", "false"]), nodes=[], flows=[])
            if deep or rng.random() < 0.3:
                parents.append(node)
        parent["nodes"].append(node)
    for parent in parents:
        ids = [n["id"] for n in parent["nodes"] if n["type"] != "dataObject"]
        pairs = set()
        if ids:
            hub = rng.choice(ids)
            for _ in range(rng.randrange(2 * len(ids) + 1)):
                pair = (rng.choice(ids), rng.choice(ids))
                way = rng.randrange(4)
                pairs.add((hub, pair[1]) if way == 0 else (pair[0], hub) if way == 1 else pair)
            if rng.random() < 0.3:
                pairs.update((hub, other) for other in rng.sample(ids, rng.randrange(len(ids) + 1)))
            if rng.random() < 0.3:
                pairs.update((other, hub) for other in rng.sample(ids, rng.randrange(len(ids) + 1)))
        pairs = sorted(pairs)
        rng.shuffle(pairs)
        parent["flows"] = [flow(s, t) for s, t in pairs]
        activities = [n["id"] for n in parent["nodes"] if n["type"] in TASKS + ["subProcess"]]
        for node in parent["nodes"]:
            outs = [f["id"] for f in parent["flows"] if f["source"] == node["id"]]
            ins = [f["id"] for f in parent["flows"] if f["target"] == node["id"]]
            if node["type"] in WITH_DEFAULT and outs and rng.random() < 0.3:
                node["attrs"]["default"] = rng.choice(outs)
            if node["type"] == "boundaryEvent" and activities:
                node["attrs"]["attachedToRef"] = rng.choice(activities)
            keep = rng.choice([0, 0.5, 1, 1])
            node["in"] = [f for f in ins if rng.random() < keep]
            node["out"] = [f for f in outs if rng.random() < keep]
            if keep == 0.5:
                rng.shuffle(node["in"])
                rng.shuffle(node["out"])

    def lanes(ids, depth):
        found = []
        for _ in range(rng.choice([1, 2, 3, rng.randrange(10)])):
            found.append({"id": new(), "name": name(), "refs": rng.sample(ids, rng.randrange(len(ids) + 1)),
                          "child": lanes(ids, depth - 1) if depth > 0 and rng.random() < 0.3 else None, "shape": box(),
                          "isHorizontal": rng.choice([None, "true", "false"])})
        return {"id": new() if rng.random() < 0.7 else None, "lanes": found}

    for process in doc["processes"]:
        if rng.random() < 0.3:
            process["laneset"] = lanes([n["id"] for n in process["nodes"]], rng.randrange(5))
    candidates = [p["id"] for p in doc["processes"]]
    if how["collaboration"]:
        collab = doc["collab"] = {"id": new(), "participants": [], "mflows": []}
        candidates.append(collab["id"])
        refs = [p["id"] for p in doc["processes"] if rng.random() < 0.9] + [None] * rng.randrange(6)
        rng.shuffle(refs)
        for ref in refs:
            collab["participants"].append({"id": new(), "name": name(), "processRef": ref, "shape": box(),
                                           "isHorizontal": rng.choice([None, "true", "false"])})
        pools = [[n["id"] for n in all_nodes(p["nodes"]) if n["type"] != "dataObject"] for p in doc["processes"]]
        pools = [p for p in pools + [[p["id"]] for p in collab["participants"] if p["processRef"] is None] if p]
        used = set()
        for _ in range(rng.randrange(20) if len(pools) > 1 else 0):
            one, two = rng.sample(pools, 2)
            pair = (rng.choice(one), rng.choice(two))
            if pair not in used:
                used.add(pair)
                made = flow(*pair)
                del made["cond"]
                collab["mflows"].append(made)
    doc["plane"]["bpmnElement"] = rng.choice(candidates + candidates + [""])
    return doc


# ------------------------------------------------------------------------------------------------ expected diagram
def expected(doc):
    """What harness.snap.snapshot has to give for the loaded document."""
    out = {"diagram": {"id": doc["diagram"]["id"], "name": doc["diagram"]["name"] or ""},
           "plane": {"id": doc["plane"]["id"], "bpmnElement": doc["plane"]["bpmnElement"]},
           "processes": {}, "nodes": {}, "edges": {}, "sequence_flows": {}, "collaboration": {}}
    for process in doc["processes"]:
        attrs = {"name": process["name"] or "", "isClosed": process["isClosed"] or "false",
                 "isExecutable": process["isExecutable"] or "false", "processType": process["processType"] or "None",
                 "node_ids": sorted(n["id"] for n in process["nodes"])}
        if process["laneset"] is not None:
            attrs["laneSet"] = expected_lanes(process["laneset"])
        out["processes"][process["id"]] = attrs
        expected_content(out, process["id"], process["nodes"], process["flows"])
    collab = doc["collab"]
    if collab is not None:
        participants = {}
        for p in collab["participants"]:
            participants[p["id"]] = {"name": p["name"] or "", "processRef": p["processRef"] or ""}
            if p["shape"]:
                participants[p["id"]].update(p["shape"], isHorizontal=p["isHorizontal"] or "")
            if not p["processRef"]:
                node = {"id": p["id"], "type": "participant", "node_name": p["name"] or "", "process": p["id"],
                        "incoming": [], "outgoing": []}
                if p["shape"]:
                    node.update(p["shape"])
                out["nodes"][p["id"]] = node
        mflows = {}
        for f in collab["mflows"]:
            mflows[f["id"]] = {"id": f["id"], "name": f["name"] or "", "sourceRef": f["source"],
                               "targetRef": f["target"]}
            edge = {"id": f["id"], "name": f["name"] or "", "sourceRef": f["source"], "targetRef": f["target"]}
            if f["waypoints"] is not None:
                edge["waypoints"] = [list(p) for p in f["waypoints"]]
            out["edges"][f["source"] + " -> " + f["target"]] = edge
            link(out, f)
        out["collaboration"] = {"id": collab["id"], "participants": participants, "messageFlows": mflows}
    return out


def link(out, flow):
    outgoing = out["nodes"][flow["source"]]["outgoing"]
    incoming = out["nodes"][flow["target"]]["incoming"]
    if flow["id"] not in outgoing:
        outgoing.append(flow["id"])
    if flow["id"] not in incoming:
        incoming.append(flow["id"])


def expected_lanes(lane_set_):
    lanes = {}
    for lane in lane_set_["lanes"]:
        attrs = {"id": lane["id"], "name": lane["name"] or "", "flowNodeRefs": list(lane["refs"]),
                 "childLaneSet": expected_lanes(lane["child"]) if lane["child"] is not None else {}}
        if lane["shape"]:
            attrs.update(lane["shape"], isHorizontal=lane["isHorizontal"] or "")
        lanes[lane["id"]] = attrs
    return {"id": lane_set_["id"] or "", "lanes": lanes}


def expected_content(out, parent, nodes, flows):
    for node in nodes:
        attrs = {"id": node["id"], "type": node["type"], "node_name": node["name"] or "", "process": parent,
                 "incoming": list(node["in"]), "outgoing": list(node["out"])}
        for name in TYPE_ATTRS.get(node["type"], ()):
            attrs[name] = node["attrs"].get(name, ATTRS[name][1])
        if "default" in node["attrs"]:
            attrs["default"] = node["attrs"]["default"]
        if node["type"] == "boundaryEvent":
            attrs["attachedToRef"] = node["attrs"].get("attachedToRef", "")
        if node["type"] in DEFS:
            attrs["event_definitions"] = sorted([d["type"], d["id"] or ""] for d in node["defs"])
        if node["shape"]:
            attrs.update(node["shape"])
        if node["type"] == "subProcess":
            attrs["node_ids"] = sorted(n["id"] for n in node["nodes"])
            if node["shape"]:
                attrs["isExpanded"] = node["isExpanded"] or "false"
        out["nodes"][node["id"]] = attrs
        if node["type"] == "subProcess":
            expected_content(out, node["id"], node["nodes"], node["flows"])
    for flow in flows:
        edge = {"id": flow["id"], "name": flow["name"] or "", "process": parent, "sourceRef": flow["source"],
                "targetRef": flow["target"]}
        if flow["cond"] is not None:
            edge["conditionExpression"] = {"id": flow["cond"]["id"] or "", "conditionExpression": flow["cond"]["text"]}
        if flow["waypoints"] is not None:
            edge["waypoints"] = [list(p) for p in flow["waypoints"]]
        out["edges"][flow["source"] + " -> " + flow["target"]] = edge
        out["sequence_flows"][flow["id"]] = {"name": flow["name"] or "", "sourceRef": flow["source"],
                                             "targetRef": flow["target"]}
        link(out, flow)


# ------------------------------------------------------------------------------------------------------- rendering
MODEL = "http://www.omg.org/spec/BPMN/20100524/MODEL"
BPMNDI = "http://www.omg.org/spec/BPMN/20100524/DI"
DC = "http://www.omg.org/spec/DD/20100524/DC"
DI = "http://www.omg.org/spec/DD/20100524/DI"
FOREIGN = "http://example.com/schema/ext"


def el(ns, tag, attrs=(), children=()):
    return [ns, tag, [(k, v) for k, v in attrs if v is not None], list(children)]


def bounds(shape_):
    return el("dc", "Bounds", [("x", shape_["x"]), ("y", shape_["y"]), ("width", shape_["width"]),
                               ("height", shape_["height"])])


def flow_xml(flow):
    children = []
    if flow["cond"] is not None:
        children.append(el("m", "conditionExpression", [("id", flow["cond"]["id"])], [flow["cond"]["text"]]))
    return el("m", "sequenceFlow", [("id", flow["id"]), ("name", flow["name"]), ("sourceRef", flow["source"]),
                                    ("targetRef", flow["target"])], children)


def node_xml(node, rnd):
    attrs = [("id", node["id"]), ("name", node["name"])] + sorted(node["attrs"].items())
    children = [el("m", "incoming", (), [x]) for x in node["in"]]
    outgoing = [el("m", "outgoing", (), [x]) for x in node["out"]]
    definitions = [el("m", d["type"], [("id", d["id"])]) for d in node["defs"]]
    if rnd is not None:
        children = merge(rnd, children, outgoing)
        children = merge(rnd, children, definitions)
    else:
        children = children + outgoing + definitions
    if node["type"] == "subProcess":
        children += content_xml(node["nodes"], node["flows"], rnd)
    return el("m", node["type"], attrs, children)


def merge(rnd, first, second):
    """Random interleaving that keeps the order within both lists."""
    first, second, out = list(first), list(second), []
    mode = rnd.randrange(3)
    if mode == 0:
        return first + second
    if mode == 1:
        return second + first
    while first or second:
        if first and (not second or rnd.random() < 0.5):
            out.append(first.pop(0))
        else:
            out.append(second.pop(0))
    return out


def content_xml(nodes, flows, rnd):
    nodes = [node_xml(n, rnd) for n in nodes]
    flows = [flow_xml(f) for f in flows]
    return merge(rnd, nodes, flows) if rnd is not None else nodes + flows


def lanes_xml(tag, lane_set_, rnd):
    lanes = []
    for lane in lane_set_["lanes"]:
        refs = [el("m", "flowNodeRef", (), [x]) for x in lane["refs"]]
        child = [lanes_xml("childLaneSet", lane["child"], rnd)] if lane["child"] is not None else []
        children = refs + child if rnd is None or rnd.random() < 0.5 else child + refs
        lanes.append(el("m", "lane", [("id", lane["id"]), ("name", lane["name"])], children))
    return el("m", tag, [("id", lane_set_["id"])], lanes)


def lane_shapes(lane_set_):
    for lane in lane_set_["lanes"]:
        if lane["shape"]:
            yield el("bd", "BPMNShape", [("id", lane["id"] + "_sh"), ("bpmnElement", lane["id"]),
                                         ("isHorizontal", lane["isHorizontal"])], [bounds(lane["shape"])])
        if lane["child"] is not None:
            for item in lane_shapes(lane["child"]):
                yield item


def tree(doc, rnd=None):
    processes, shapes, edges = [], [], []
    for process in doc["processes"]:
        children = content_xml(process["nodes"], process["flows"], rnd)
        if process["laneset"] is not None:
            lanes = [lanes_xml("laneSet", process["laneset"], rnd)]
            children = merge(rnd, lanes, children) if rnd is not None else lanes + children
            shapes += list(lane_shapes(process["laneset"]))
        processes.append(el("m", "process", [("id", process["id"]), ("name", process["name"]),
                                             ("isClosed", process["isClosed"]),
                                             ("isExecutable", process["isExecutable"]),
                                             ("processType", process["processType"])], children))
        for node in all_nodes(process["nodes"]):
            if node["shape"]:
                attrs = [("id", node["id"] + "_sh"), ("bpmnElement", node["id"])]
                if node["type"] == "subProcess":
                    attrs.append(("isExpanded", node["isExpanded"]))
                shapes.append(el("bd", "BPMNShape", attrs, [bounds(node["shape"])]))
        edges += [edge_xml(f) for f in all_flows(process["nodes"], process["flows"]) if f["waypoints"] is not None]
    roots = processes
    if doc["collab"] is not None:
        collab = doc["collab"]
        participants = [el("m", "participant", [("id", p["id"]), ("name", p["name"]), ("processRef", p["processRef"])])
                        for p in collab["participants"]]
        mflows = [el("m", "messageFlow", [("id", f["id"]), ("name", f["name"]), ("sourceRef", f["source"]),
                                          ("targetRef", f["target"])]) for f in collab["mflows"]]
        children = merge(rnd, participants, mflows) if rnd is not None else participants + mflows
        xml = el("m", "collaboration", [("id", collab["id"])], children)
        roots = merge(rnd, [xml], roots) if rnd is not None else [xml] + roots
        for p in collab["participants"]:
            if p["shape"]:
                shapes.append(el("bd", "BPMNShape", [("id", p["id"] + "_sh"), ("bpmnElement", p["id"]),
                                                     ("isHorizontal", p["isHorizontal"])], [bounds(p["shape"])]))
        edges += [edge_xml(f) for f in collab["mflows"] if f["waypoints"] is not None]
    if rnd is not None:
        rnd.shuffle(shapes)
        rnd.shuffle(edges)
    plane = el("bd", "BPMNPlane", [("id", doc["plane"]["id"]), ("bpmnElement", doc["plane"]["bpmnElement"] or None)],
               merge(rnd, shapes, edges) if rnd is not None else shapes + edges)
    diagram = el("bd", "BPMNDiagram", [("id", doc["diagram"]["id"]), ("name", doc["diagram"]["name"])], [plane])
    roots = merge(rnd, [diagram], roots) if rnd is not None else roots + [diagram]
    return el("m", "definitions", [("id", "definitions_0"), ("targetNamespace", "http://example.com/t")], roots)


def edge_xml(flow):
    return el("bd", "BPMNEdge", [("id", flow["id"] + "_ed"), ("bpmnElement", flow["id"])],
              [el("di", "waypoint", [("x", x), ("y", y)]) for x, y in flow["waypoints"]])


PREFIXES = [{"m": "", "bd": "bpmndi", "dc": "dc", "di": "di", "x": "ext"},
            {"m": "bpmn", "bd": "bpmndi", "dc": "omgdc", "di": "omgdi", "x": "camunda"},
            {"m": "bpmn2", "bd": "di2", "dc": "a", "di": "b", "x": "x"},
            {"m": "semantic", "bd": "bpmndi", "dc": "dc", "di": "di", "x": "signavio"},
            {"m": "", "bd": "_1", "dc": "task", "di": "process", "x": "e"},
            {"m": "m.o-d", "bd": "", "dc": "dc", "di": "di", "x": "ext"}]
URIS = {"m": MODEL, "bd": BPMNDI, "dc": DC, "di": DI, "x": FOREIGN}


def render(doc, style=0):
    """bytes of the document in the given style; style 0 is the plain one."""
    if style == 0:
        return Writer(None).document(tree(doc))
    rnd = random.Random(style)
    return Writer(rnd).document(tree(doc, rnd))


# legal attributes that are not a part of the diagram
EXTRA_ATTRS = {"task": [("isForCompensation", "true"), ("startQuantity", "2")], "subProcess": [("isForCompensation", "false")],
               "userTask": [("implementation", "##unspecified")], "sequenceFlow": [("isImmediate", "true")],
               "process": [("definitionalCollaborationRef", "none")], "messageFlow": [("messageRef", "none")],
               "BPMNShape": [("isMarkerVisible", "true"), ("isMessageVisible", "false")],
               "BPMNEdge": [("messageVisibleKind", "initiating"), ("sourceElement", "none")],
               "BPMNPlane": [], "BPMNDiagram": [("documentation", "text"), ("resolution", "96.00000267028808")],
               "dataObject": [("itemSubjectRef", "none")], "lane": [("partitionElementRef", "none")],
               "laneSet": [("name", "lanes")], "boundaryEvent": [], "collaboration": [("isClosed", "true")],
               "definitions": [("exporter", "tool"), ("exporterVersion", "1.0"), ("name", "red")]}
PI_TARGETS = ["tool", "tool", "end", "bpmn", "process", "task", "start", "editor-state", "x.y", "sequenceFlow", "_"]
TEXT_TAGS = ("incoming", "outgoing", "flowNodeRef")


class Writer(object):
    def __init__(self, rnd):
        self.rnd = rnd
        self.prefix = PREFIXES[0]
        self.options = {}
        self.charset = None
        if rnd is not None:
            self.prefix = rnd.choice(PREFIXES)
            for name in ("comments", "pis", "cdata", "charrefs", "noise", "shuffle", "single", "pad", "open", "label",
                         "badorder", "doctype", "local"):
                self.options[name] = rnd.random() < 0.4
            self.options["indent"] = rnd.choice(["", "\n", "\n  ", "\r\n\t", "  "])
            self.charset = rnd.choice([None, "utf-8", "utf-8", "UTF-8", "utf-16", "ascii", "iso-8859-1", "iso-8859-1", "bom", "iso-8859-2", "windows-1252"])
        else:
            self.options["indent"] = "\n"

    def on(self, name, p=0.4):
        return self.options.get(name) and self.rnd.random() < p

    def escape(self, text, quote):
        out = []
        for c in text:
            if c == "&":
                out.append("&amp;")
            elif c == "<":
                out.append("&lt;")
            elif c == ">":
                out.append("&gt;" if not (self.rnd is not None and quote and self.rnd.random() < 0.5) else ">")
            elif c == "\r" or quote and c in "\t\n":
                out.append("&#%d;" % ord(c))
            elif c == quote:
                out.append("&quot;" if c == '"' else "&apos;")
            elif self.on("charrefs", 0.3):
                out.append("&#x%X;" % ord(c) if self.rnd.random() < 0.5 else "&#%d;" % ord(c))
            else:
                out.append(c)
        return "".join(out)

    def text(self, text, tag):
        pad = ""
        if tag in TEXT_TAGS and self.options.get("pad"):
            pad = self.rnd.choice(["", " ", "\n    ", "\t", "\n\t\t", "\r\n  "])
        if self.on("cdata", 0.6) and "\r" not in text:
            k = self.rnd.randrange(len(text) + 1)
            first, second = text[:k], text[k:]
            body = self.escape(first, None)
            while "]]>" in second:
                i = second.index("]]>")
                body += "<![CDATA[" + second[:i + 2] + "]]>"
                second = second[i + 2:]
            body += "<![CDATA[" + second + "]]>"
        else:
            body = self.escape(text, None)
            if self.on("comments", 0.3) and "&" not in body:
                k = self.rnd.randrange(len(body) + 1)
                body = body[:k] + "<!-- c -->" + body[k:]
        return pad + body + pad

    def filler(self):
        out = self.options["indent"]
        if self.on("comments", 0.2):
            out += self.rnd.choice(["<!-- comment -->", "<!--<task id=\"no\"/>-->", "<!-- a - b -->"]) + out
        if self.on("pis", 0.2):
            out += "<?%s some data?>" % self.rnd.choice(PI_TARGETS) + self.options["indent"]
        return out

    def noise(self, tag):
        """Elements that carry no supported content, allowed inside tag."""
        r = self.rnd
        out = []
        if tag in ("process", "subProcess", "task", "userTask", "exclusiveGateway", "startEvent", "endEvent",
                   "sequenceFlow", "lane", "participant", "messageFlow", "collaboration", "dataObject"):
            if r.random() < 0.4:
                out.append(el("m", "documentation", [("id", None)], ["some <text> & more"]))
            if r.random() < 0.4:
                out.append(el("m", "extensionElements", (), [
                    el("x", "property", [("name", "k"), ("value", "v")]),
                    el("x", "task", [("id", "ghost_task"), ("name", "ghost")], [el("x", "incoming", (), ["ghost"])]),
                    el("x", "sequenceFlow", [("id", "ghost_flow"), ("sourceRef", "g1"), ("targetRef", "g2")])]))
        if tag.endswith("Event") and r.random() < 0.3:
            out.append(el("m", "extensionElements", (), [
                el("x", r.choice(DEFS[tag]) + "EventDefinition", [("id", "ghost_definition")])]))
        if tag == "process" and r.random() < 0.2:
            out.append(el("m", "extensionElements", (), [
                el("x", "laneSet", [("id", "ghost_lanes")], [el("x", "lane", [("id", "ghost_lane")])])]))
        if tag == "subProcess" and r.random() < 0.2:
            out.append(el("m", "laneSet", [("id", "ghost_lanes")], [el("m", "lane", [("id", "ghost_lane")])]))
        if tag == "BPMNShape" and r.random() < 0.2:
            out.append(el("di", "extension", (), [el("x", "Bounds", [("x", "1"), ("y", "2"), ("width", "3"), ("height", "4")])]))
        if tag == "BPMNEdge" and r.random() < 0.2:
            out.append(el("di", "extension", (), [el("x", "waypoint", [("x", "1"), ("y", "2")])]))
        if tag in ("process", "subProcess"):
            if r.random() < 0.3:
                out.append(el("m", "textAnnotation", [("id", "ghost_annotation")], [el("m", "text", (), ["note"])]))
                out.append(el("m", "association", [("id", "ghost_assoc"), ("sourceRef", "q1"), ("targetRef", "q2")]))
            if r.random() < 0.3:
                out.append(el("m", "dataObjectReference", [("id", "ghost_dref"), ("dataObjectRef", "q3")]))
                out.append(el("m", "dataStoreReference", [("id", "ghost_store"), ("name", "s")]))
        if tag in ("task", "userTask", "serviceTask", "manualTask") and r.random() < 0.3:
            out.append(el("m", "ioSpecification", (), [el("m", "inputSet"), el("m", "outputSet")]))
            out.append(el("m", "performer", [("id", "ghost_performer")]))
        if tag == "definitions":
            if r.random() < 0.4:
                out += [el("m", "message", [("id", "ghost_msg"), ("name", "M")]),
                        el("m", "error", [("id", "ghost_err"), ("errorCode", "E")]),
                        el("m", "signal", [("id", "ghost_sig"), ("name", "S")]),
                        el("m", "itemDefinition", [("id", "ghost_item")])]
            if r.random() < 0.3:
                out.append(el("m", "interface", [("id", "ghost_interface"), ("name", "I")], [el("m", "extensionElements", (), [
                    el("x", "process", [("id", "ghost_process")]),
                    el("x", "collaboration", [("id", "ghost_collab")], [el("x", "participant", [("id", "ghost_pool")])]),
                    el("x", "BPMNDiagram", [("id", "ghost_diagram")], [el("x", "BPMNPlane", [("id", "ghost_plane")])])])]))
        if tag == "BPMNPlane" and r.random() < 0.4:
            out.append(el("bd", "BPMNShape", [("id", "ghost_shape"), ("bpmnElement", "ghost_annotation")],
                          [el("dc", "Bounds", [("x", "1"), ("y", "2"), ("width", "3"), ("height", "4")])]))
            out.append(el("bd", "BPMNEdge", [("id", "ghost_edge"), ("bpmnElement", "ghost_assoc")],
                          [el("di", "waypoint", [("x", "1"), ("y", "2")]), el("di", "waypoint", [("x", "3"), ("y", "2")])]))
        return out

    def element(self, node, root=False):
        ns, tag, attrs, children = node
        prefix = self.prefix[ns]
        name = prefix + ":" + tag if prefix else tag
        attrs = list(attrs)
        children = list(children)
        is_text = bool(children) and all(isinstance(c, str) for c in children)
        if self.options.get("noise") and not is_text:
            extra = self.noise(tag)
            if extra:
                children = merge(self.rnd, extra, children)
            if tag not in ("BPMNPlane", "BPMNDiagram") and self.on("noise", 0.3):
                attrs.append((self.prefix["x"] + ":" + self.rnd.choice(["color", "name", "id", "default", "x"]), "red"))
            for key, value in EXTRA_ATTRS.get(tag, ()):
                if self.on("noise", 0.3):
                    attrs.append((key, value))
        if tag == "conditionExpression" and self.options.get("noise") and self.rnd.random() < 0.6:
            xsi = self.rnd.choice(["xsi", "xsi", "i"])
            attrs += [(xsi + ":type", self.rnd.choice([prefix + ":" if prefix else "", ""]) + "tFormalExpression"),
                      ("xmlns:" + xsi, "http://www.w3.org/2001/XMLSchema-instance")]
            if self.rnd.random() < 0.3:
                attrs.append(("language", "http://www.w3.org/1999/XPath"))
        if self.options.get("label") and tag in ("BPMNShape", "BPMNEdge"):
            label = [el("bd", "BPMNLabel", [("id", None)], [
                el("dc", "Bounds", [("x", "7"), ("y", "8"), ("width", "9"), ("height", "10")])][:self.rnd.randrange(2)])]
            children = label + children if self.on("badorder") else children + label
        if root:
            for key, uri in URIS.items():
                attrs.append(("xmlns:" + self.prefix[key] if self.prefix[key] else "xmlns", uri))
        if self.options.get("shuffle"):
            self.rnd.shuffle(attrs)
        out = ["<", name]
        for key, value in attrs:
            quote = "'" if self.on("single", 0.5) else '"'
            gap = self.rnd.choice([" ", "  ", "\n ", " "]) if self.rnd is not None else " "
            out.append(gap + key + "=" + quote + self.escape(value, quote) + quote)
        if not children:
            out.append("/>" if not self.on("open", 0.7) else "></" + name + ">")
        elif is_text:
            out.append(">" + self.text("".join(children), tag) + "</" + name + ">")
        else:
            out.append(">")
            for child in children:
                out.append(self.filler())
                out.append(self.element(child))
            out.append(self.filler() + "</" + name + ">")
        return "".join(out)

    def document(self, root):
        body = self.element(root, True)
        if self.rnd is None:
            return ("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + body).encode("utf-8")
        head = ""
        if self.options.get("comments"):
            head = "<!-- made by a tool -->\n"
        if self.options.get("pis"):
            head += "<?xml-stylesheet href=\"x.xsl\"?>\n"
        charset = self.charset
        if charset in ("ascii", "iso-8859-1", "iso-8859-2", "windows-1252"):
            data = "<?xml version=\"1.0\" encoding=\"%s\"?>" % charset + head + body
            if "<![CDATA[" in data or "\u0000" in data:
                try:
                    return data.encode(charset)
                except UnicodeEncodeError:
                    charset = "utf-8"
            else:
                return data.encode(charset, "xmlcharrefreplace")
        if charset == "utf-16":
            return ("<?xml version=\"1.0\" encoding=\"utf-16\"?>" + head + body).encode("utf-16")
        if charset == "bom":
            return b"\xef\xbb\xbf" + ("<?xml version=\"1.0\"?>\n" + head + body + "\n").encode("utf-8")
        if charset is None:
            return (head + body).encode("utf-8")
        return ("<?xml version='1.0' encoding='%s' standalone='yes'?>\n" % charset + head + body + "\n").encode("utf-8")
