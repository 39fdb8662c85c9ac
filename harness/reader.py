"""
Independent reader of exported BPMN XML (ElementTree with full names). Gives the same form as snap.snapshot, and fails
on anything that is not expected in a BPMN 2.0 document made of the supported elements.
"""
import xml.etree.ElementTree as ET

from harness import model
from harness.core import fail

M = "{%s}" % model.MODEL
BD = "{%s}" % model.BPMNDI
DC = "{%s}" % model.DC
DI = "{%s}" % model.DI

COMMON = ["id", "name"]
NODE_ATTRS = {t: COMMON + model.TYPE_ATTRS.get(t, []) + (["default"] if t in model.WITH_DEFAULT else [])
              for t in model.TYPES}
NODE_ATTRS["boundaryEvent"] = NODE_ATTRS["boundaryEvent"] + ["attachedToRef"]


class Reader(object):
    def __init__(self, data, with_di=True):
        self.out = {"diagram": {}, "plane": {}, "processes": {}, "nodes": {}, "edges": {}, "collaboration": {}}
        self.ids = set()
        self.elements = set()   # ids that shapes, edges and references may point to
        self.references = []
        self.by_flow = {}
        try:
            root = ET.fromstring(data)
        except ET.ParseError as exc:
            fail("exported file is not well-formed: %s" % exc)
        if root.tag != M + "definitions":
            fail("unexpected root element", tag=root.tag)
        seen = []
        for child in root:
            seen.append(child.tag)
            if child.tag == M + "process":
                self.process(child)
            elif child.tag == M + "collaboration" and with_di:
                self.collaboration(child)
            elif child.tag == BD + "BPMNDiagram" and with_di:
                pass
            else:
                fail("unexpected element in definitions", tag=child.tag)
        if with_di:
            if seen.count(BD + "BPMNDiagram") != 1:
                fail("not exactly one BPMNDiagram element")
            if seen.count(M + "collaboration") > 1:
                fail("more than one collaboration element")
            self.diagram(root.find(BD + "BPMNDiagram"))
        for what, value in self.references:
            if not with_di and what in ("incoming", "outgoing"):
                continue  # may be message flows, which belong to the collaboration
            if value not in self.elements:
                fail("reference does not resolve", attribute=what, value=value)

    def identify(self, element, required=True, target=True):
        value = element.get("id")
        if not value:
            if required:
                fail("element without id", tag=element.tag)
            return ""
        if value in self.ids:
            fail("id occurs twice", id=value, tag=element.tag)
        self.ids.add(value)
        if target:
            self.elements.add(value)
        return value

    def only(self, element, attributes, children=None):
        for key in element.keys():
            if key not in attributes:
                fail("unexpected attribute", element=element.tag, attribute=key)
        for child in element:
            if children is not None and child.tag not in children:
                fail("unexpected child", element=element.tag, child=child.tag)
        if len(element) and element.text and element.text.strip():
            fail("unexpected text", element=element.tag, text=element.text)

    def process(self, element):
        process_id = self.identify(element)
        self.only(element, COMMON + ["isClosed", "isExecutable", "processType"])
        process = {k: element.get(k) for k in ("name", "isClosed", "isExecutable", "processType")}
        self.out["processes"][process_id] = process
        for child in element:
            if child.tag == M + "laneSet":
                if "laneSet" in process:
                    fail("two laneSet elements", process=process_id)
                process["laneSet"] = self.lane_set(child)
            else:
                self.flow_element(child, process_id)

    def lane_set(self, element):
        out = {"id": self.identify(element, False), "lanes": {}}
        self.only(element, ["id"], [M + "lane"])
        for lane in element:
            lane_id = self.identify(lane)
            self.only(lane, COMMON, [M + "flowNodeRef", M + "childLaneSet"])
            attrs = {"id": lane_id, "name": lane.get("name"), "flowNodeRefs": [], "childLaneSet": {}}
            for child in lane:
                if child.tag == M + "flowNodeRef":
                    attrs["flowNodeRefs"].append(child.text)
                    self.references.append(("flowNodeRef", child.text))
                else:
                    if attrs["childLaneSet"]:
                        fail("two childLaneSet elements", lane=lane_id)
                    attrs["childLaneSet"] = self.lane_set(child)
            out["lanes"][lane_id] = attrs
        return out

    def flow_element(self, element, parent):
        if not element.tag.startswith(M):
            fail("element is not in the BPMN namespace", tag=element.tag)
        tag = element.tag[len(M):]
        if tag == "sequenceFlow":
            self.sequence_flow(element, parent)
            return
        if tag not in model.TYPES:
            fail("unexpected element", tag=tag, parent=parent)
        node_id = self.identify(element)
        self.only(element, NODE_ATTRS[tag])
        node = {"id": node_id, "type": tag, "node_name": element.get("name"), "process": parent, "incoming": [],
                "outgoing": []}
        for key in NODE_ATTRS[tag]:
            if key not in COMMON and element.get(key) is not None:
                node[key] = element.get(key)
        definitions = []
        self.out["nodes"][node_id] = node
        for child in element:
            name = child.tag[len(M):] if child.tag.startswith(M) else child.tag
            if name in ("incoming", "outgoing"):
                node[name].append(child.text)
                self.references.append((name, child.text))
            elif tag in model.DEFS and name.endswith("EventDefinition"):
                self.only(child, ["id"], [])
                definitions.append([name, self.identify(child, False)])
            elif tag == "subProcess":
                self.flow_element(child, node_id)
            else:
                fail("unexpected child", node=node_id, tag=child.tag)
        if tag in model.DEFS:
            node["event_definitions"] = sorted(definitions)

    def sequence_flow(self, element, parent):
        flow_id = self.identify(element)
        self.only(element, COMMON + ["sourceRef", "targetRef"], [M + "conditionExpression"])
        edge = {"id": flow_id, "name": element.get("name"), "process": parent, "sourceRef": element.get("sourceRef"),
                "targetRef": element.get("targetRef")}
        self.references += [("sourceRef", edge["sourceRef"]), ("targetRef", edge["targetRef"])]
        for child in element:
            if "conditionExpression" in edge:
                fail("two conditions", flow=flow_id)
            self.only(child, ["id"], [])
            edge["conditionExpression"] = {"id": self.identify(child, False), "conditionExpression": child.text or ""}
        self.add_edge(edge)

    def add_edge(self, edge):
        key = "%s -> %s" % (edge["sourceRef"], edge["targetRef"])
        if key in self.out["edges"]:
            fail("two flows between the same nodes", flow=edge["id"])
        self.out["edges"][key] = edge
        self.by_flow[edge["id"]] = edge

    def collaboration(self, element):
        collab = {"id": self.identify(element), "participants": {}, "messageFlows": {}}
        self.only(element, ["id"], [M + "participant", M + "messageFlow"])
        self.out["collaboration"] = collab
        for child in element:
            key = self.identify(child)
            if child.tag == M + "participant":
                self.only(child, COMMON + ["processRef"], [])
                collab["participants"][key] = {"name": child.get("name"), "processRef": child.get("processRef")}
            else:
                self.only(child, COMMON + ["sourceRef", "targetRef"], [])
                flow = {"id": key, "name": child.get("name"), "sourceRef": child.get("sourceRef"),
                        "targetRef": child.get("targetRef")}
                self.references += [("sourceRef", flow["sourceRef"]), ("targetRef", flow["targetRef"])]
                collab["messageFlows"][key] = dict(flow)
                self.add_edge(flow)

    def lanes_by_id(self, lane_set, out):
        for lane_id, lane in lane_set.get("lanes", {}).items():
            out[lane_id] = lane
            self.lanes_by_id(lane["childLaneSet"], out)
        return out

    def diagram(self, element):
        self.only(element, COMMON, [BD + "BPMNPlane"])
        self.out["diagram"] = {"id": self.identify(element), "name": element.get("name")}
        planes = element.findall(BD + "BPMNPlane")
        if len(planes) != 1:
            fail("not exactly one plane")
        plane = planes[0]
        self.only(plane, ["id", "bpmnElement"], [BD + "BPMNShape", BD + "BPMNEdge"])
        self.out["plane"] = {"id": self.identify(plane), "bpmnElement": plane.get("bpmnElement")}
        lanes = {}
        for process in self.out["processes"].values():
            self.lanes_by_id(process.get("laneSet", {}), lanes)
        participants = self.out["collaboration"].get("participants", {})
        shown = set()
        for item in plane:
            self.identify(item, target=False)
            ref = item.get("bpmnElement")
            if ref in shown:
                fail("two shapes or edges for one element", element=ref)
            shown.add(ref)
            if item.tag == BD + "BPMNShape":
                self.only(item, ["id", "bpmnElement", "isHorizontal", "isExpanded"], [DC + "Bounds"])
                if len(item) != 1:
                    fail("shape without exactly one Bounds", element=ref)
                self.only(item[0], ["x", "y", "width", "height"], [])
                target = self.out["nodes"].get(ref) or lanes.get(ref) or participants.get(ref)
                if target is None:
                    fail("shape of an unknown element", element=ref)
                target.update(item[0].attrib)
                for key in ("isHorizontal", "isExpanded"):
                    if item.get(key) is not None:
                        target[key] = item.get(key)
            else:
                self.only(item, ["id", "bpmnElement"], [DI + "waypoint"])
                target = self.by_flow.get(ref)
                if target is None:
                    fail("edge of an unknown flow", element=ref)
                target["waypoints"] = []
                for point in item:
                    self.only(point, ["x", "y"], [])
                    target["waypoints"].append([point.get("x"), point.get("y")])


def read(data, with_di=True):
    return Reader(data, with_di).out


def wanted(snapshot, with_di=True):
    """What reading the export of a diagram with this snapshot has to give."""
    out = {k: snapshot[k] for k in ("diagram", "plane", "collaboration")}
    out["processes"] = {}
    for key, process in snapshot["processes"].items():
        process = dict(process)
        process.pop("node_ids", None)
        if not with_di:
            process.pop("laneSet", None)
        out["processes"][key] = process
    out["nodes"] = {}
    for key, node in snapshot["nodes"].items():
        if node["type"] == "participant":
            continue
        node = dict(node)
        node.pop("node_ids", None)
        if node["type"] == "subProcess" and "x" in node:
            node.setdefault("isExpanded", "false")
        if not with_di:
            for name in ("x", "y", "width", "height", "isExpanded"):
                node.pop(name, None)
        out["nodes"][key] = node
    out["edges"] = {}
    for key, edge in snapshot["edges"].items():
        edge = dict(edge)
        if not with_di:
            edge.pop("waypoints", None)
            if edge["id"] not in snapshot["sequence_flows"]:
                continue
        if "conditionExpression" in edge and not edge["name"]:
            edge["name"] = edge["conditionExpression"]["conditionExpression"]
        out["edges"][key] = edge
    if not with_di:
        out["diagram"], out["plane"], out["collaboration"] = {}, {}, {}
    return out
