"""Snapshots of a diagram through its documented attributes, and loading helpers."""
import copy
import os
import shutil

from harness import core

NODE_KEYS = ["id", "type", "node_name", "process", "incoming", "outgoing", "triggeredByEvent", "isExpanded",
             "isCollection", "gatewayDirection", "instantiate", "eventGatewayType", "parallelMultiple",
             "isInterrupting", "cancelActivity", "attachedToRef", "width", "height", "x", "y"]
EDGE_KEYS = ["id", "name", "process", "sourceRef", "targetRef"]
PROCESS_KEYS = ["name", "isClosed", "isExecutable", "processType"]
LANE_KEYS = ["id", "name", "isHorizontal", "width", "height", "x", "y"]
PARTICIPANT_KEYS = ["name", "processRef", "isHorizontal", "width", "height", "x", "y"]
FLOW_KEYS = ["name", "sourceRef", "targetRef"]


def rep():
    import bpmn_python.bpmn_diagram_rep as module
    return module


def new_diagram():
    return rep().BpmnDiagramGraph()


def pick(source, keys):
    return {key: copy.deepcopy(source[key]) for key in keys if key in source}


def snap_node(attrs):
    out = pick(attrs, NODE_KEYS)
    if attrs.get("default") is not None:
        out["default"] = attrs["default"]
    # an empty list says nothing on a node that is no event (the CSV import puts one on every node)
    if "event_definitions" in attrs and (attrs["event_definitions"] or str(attrs.get("type")).endswith("Event")):
        out["event_definitions"] = sorted([d["definition_type"], d["id"]] for d in attrs["event_definitions"])
    if "node_ids" in attrs:
        out["node_ids"] = sorted(attrs["node_ids"])
    return out


def snap_edge(attrs):
    out = pick(attrs, EDGE_KEYS)
    if "waypoints" in attrs:
        out["waypoints"] = [list(p) for p in attrs["waypoints"]]
    if "conditionExpression" in attrs:
        out["conditionExpression"] = pick(attrs["conditionExpression"], ["id", "conditionExpression"])
    return out


def snap_lane_set(lane_set):
    if not lane_set:
        return {}
    lanes = {}
    for key, attrs in lane_set["lanes"].items():
        lane = pick(attrs, LANE_KEYS)
        lane["flowNodeRefs"] = list(attrs.get("flowNodeRefs", []))
        lane["childLaneSet"] = snap_lane_set(attrs.get("childLaneSet"))
        lanes[key] = lane
    return {"id": lane_set.get("id", ""), "lanes": lanes}


def snapshot(diagram, node_ids=True):
    out = {"diagram": dict(diagram.diagram_attributes), "plane": dict(diagram.plane_attributes), "processes": {},
           "nodes": {}, "edges": {}, "sequence_flows": {}, "collaboration": {}}
    for key, attrs in diagram.process_elements.items():
        process = pick(attrs, PROCESS_KEYS)
        if "node_ids" in attrs:
            process["node_ids"] = sorted(attrs["node_ids"])
        if "laneSet" in attrs:
            process["laneSet"] = snap_lane_set(attrs["laneSet"])
        out["processes"][key] = process
    for key, attrs in diagram.diagram_graph.nodes(data=True):
        out["nodes"][key] = snap_node(attrs)
    for source, target, attrs in diagram.diagram_graph.edges(data=True):
        key = "%s -> %s" % (source, target)
        if key in out["edges"]:
            core.fail("two edges for one pair of nodes", pair=key)
        out["edges"][key] = snap_edge(attrs)
    for key, attrs in diagram.sequence_flows.items():
        out["sequence_flows"][key] = pick(attrs, FLOW_KEYS)
    collab = diagram.collaboration
    if collab:
        out["collaboration"] = {
            "id": collab.get("id"),
            "participants": {k: pick(v, PARTICIPANT_KEYS) for k, v in collab["participants"].items()},
            "messageFlows": {k: pick(v, ["id"] + FLOW_KEYS) for k, v in collab["messageFlows"].items()}}
    if not node_ids:
        drop_node_ids(out)
    return out


def drop_node_ids(snap):
    for process in snap["processes"].values():
        process.pop("node_ids", None)
    for node in snap["nodes"].values():
        node.pop("node_ids", None)
    return snap


def raw(diagram):
    """Everything a diagram holds, with order: for 'nothing changed' comparisons."""
    graph = diagram.diagram_graph
    return copy.deepcopy({
        "nodes": [(n, list(a.items())) for n, a in graph.nodes(data=True)],
        "edges": [(s, t, list(a.items())) for s, t, a in graph.edges(data=True)],
        "sequence_flows": list(diagram.sequence_flows.items()),
        "process_elements": [(k, list(v.items())) for k, v in diagram.process_elements.items()],
        "diagram_attributes": dict(diagram.diagram_attributes),
        "plane_attributes": dict(diagram.plane_attributes),
        "collaboration": list(diagram.collaboration.items()),
        "graph_attributes": dict(graph.graph)})


def load_xml(data, name="in.bpmn"):
    path = core.scratch() + name
    with open(path, "wb") as f:
        f.write(data)
    diagram = new_diagram()
    diagram.load_diagram_from_xml_file(path)
    return diagram


def written(diagram, export, name):
    """What the export writes: to a new file, into folders that do not exist or over a longer file."""
    folder = core.scratch()
    how = (diagram.diagram_graph.number_of_nodes() + diagram.diagram_graph.number_of_edges()) % 3
    if how == 1:
        shutil.rmtree(folder + "new", ignore_errors=True)
        folder += "new/folder/"
    elif os.path.exists(folder + name):
        os.remove(folder + name)
    if how == 2:
        with open(folder + name, "wb") as f:
            f.write(b"<!-- an old file -->\n" * 2000)
    export(folder, name)
    with open(folder + name, "rb") as f:
        return f.read()


def export_xml(diagram, name="out.bpmn", no_di=False):
    return written(diagram, diagram.export_xml_file_no_di if no_di else diagram.export_xml_file, name)


def export_csv(diagram, name="out.csv"):
    return written(diagram, diagram.export_csv_file, name)


def load_csv(text, name="in.csv"):
    path = core.scratch() + name
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)
    diagram = new_diagram()
    diagram.load_diagram_from_csv_file(path)
    return diagram
