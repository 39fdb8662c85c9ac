"""
Histories of building calls: Hypothesis strategy, execution against a real diagram, and a reference model that is
updated call by call. Elements are referred to by the position at which they were added.

Operations (JSON lists):
  ["new", name]                                     create_new_diagram_graph
  ["process", {options}]                            add_process_to_diagram
  ["node", kind, parent, {options}]                 add_..._to_diagram; parent: index into processes + sub-processes
  ["flow", source, target, name or None, where]     add_sequence_flow_to_diagram; where: number of a container (left out:
                                                     the parent of the source)
  ["edit", node, key, value]                        value written through the returned live view
"""
from hypothesis import strategies as st

from harness import core, model, snap
from harness.strat import COORD, NAME, Ids, fraction

START_DEFS = ["message", "timer", "conditional", "signal", "escalation"]
END_DEFS = ["terminate", "escalation", "message", "compensate", "signal", "error"]
PLAIN = ["userTask", "serviceTask", "manualTask"]
KINDS = ["task", "subProcess", "startEvent", "endEvent", "exclusiveGateway", "inclusiveGateway", "parallelGateway"]
_KIND = st.sampled_from(KINDS + ["task", "task", "plain"])
_OPT = st.one_of(st.none(), NAME, NAME)
_FLAG = st.one_of(st.none(), st.booleans())
_ODD_ID = st.sampled_from([None, None, "", " ", "a b", "-", "żó ł", "%", "'\"&<", "id", "A", "a", "\n", "Task ", "0", "None"])
_NTYPE = st.sampled_from(["None", "Public", "Private"])


def node_options(draw, kind, ids, simple_ids, odd_ids=False):
    options = {}
    name = draw(_OPT)
    if kind == "subProcess":
        options["name"] = name or ""
    elif kind == "plain":
        options["type"] = draw(st.sampled_from(PLAIN))
        options["name"] = name or ""
    elif name is not None:
        options["name"] = name
    if simple_ids or fraction(draw, 1, 3):
        options["id"] = ids.new("n" if simple_ids else draw(_ODD_ID) if odd_ids else None)
        if odd_ids and fraction(draw, 1, 8):
            options["id"] += draw(st.sampled_from([" ", "\t", ".", "_", "\u00a0"]))
    if odd_ids and draw(st.booleans()):
        options["positional"] = True
    if kind == "subProcess":
        flag(draw, options, "expanded")
        flag(draw, options, "triggered")
    elif kind == "startEvent":
        flag(draw, options, "parallel")
        flag(draw, options, "interrupting")
        if draw(st.booleans()):
            options["def"] = draw(st.sampled_from(START_DEFS))
    elif kind == "endEvent":
        if draw(st.booleans()):
            options["def"] = draw(st.sampled_from(END_DEFS))
    elif kind.endswith("Gateway"):
        if draw(st.booleans()):
            options["direction"] = draw(st.sampled_from(model.DIRECTIONS))
        if kind != "parallelGateway" and fraction(draw, 1, 4):
            options["default"] = draw(st.sampled_from(["d1", "n1", "flow"]))
    return options


def flag(draw, options, key):
    value = draw(_FLAG)
    if value is not None:
        options[key] = value


@st.composite
def history(draw, max_ops=25, base=None, renew=True, edits=True, simple_ids=False, defaults=True, odd_ids=False):
    """base: abstract document the history continues, or None for an empty diagram."""
    ids = Ids(draw)
    ops = []
    containers, nodes = [], []  # nodes: (parent index)
    pairs = set()
    if base is not None:
        for process in base["processes"]:
            containers.append(process["id"])
        taken = base_nodes(base)
        nodes = list(range(len(taken)))
        containers += [n["id"] for n in taken if n["type"] == "subProcess"]
        index = {n["id"]: i for i, n in enumerate(taken)}
        for s, t in base_pairs(base):
            if s in index and t in index:
                pairs.add((index[s], index[t]))
        for node in taken:
            ids.used.add(node["id"])
        ids.used.update(all_ids(base))
    else:
        ops.append(["new", draw(_OPT)])
    count = draw(st.integers(2, max_ops))
    for _ in range(count):
        choice = draw(st.integers(0, 19))
        if not containers or choice == 0:
            ops.append(["process", {k: v for k, v in {
                "name": draw(_OPT), "closed": draw(_FLAG), "executable": draw(_FLAG),
                "type": draw(st.one_of(st.none(), _NTYPE))}.items() if v is not None}])
            containers.append(None)
        elif choice == 1 and renew and fraction(draw, 1, 4):
            ops.append(["new", draw(_OPT)])
            containers, nodes, pairs = [], [], set()
            # the diagram object is used again: ids given before are free again
            ids = Ids(draw)
        elif choice < 10 or len(nodes) == 0:
            kind = draw(_KIND)
            options = node_options(draw, kind, ids, simple_ids, odd_ids)
            if not defaults:
                options.pop("default", None)
            ops.append(["node", kind, draw(st.integers(0, len(containers) - 1)), options])
            nodes.append(None)
            if kind == "subProcess":
                containers.append(None)
        elif choice < 12 and edits:
            key = draw(st.sampled_from(["x", "y", "width", "height", "node_name"]))
            ops.append(["edit", draw(st.integers(0, len(nodes) - 1)), key,
                        draw(NAME) if key == "node_name" else draw(COORD)])
        else:
            s, t = draw(st.integers(0, len(nodes) - 1)), draw(st.integers(0, len(nodes) - 1))
            if (s, t) not in pairs:
                pairs.add((s, t))
                ops.append(["flow", s, t, draw(_OPT)])
                if fraction(draw, 1, 5):
                    ops[-1].append(draw(st.integers(0, len(containers) - 1)))
    return ops


def base_nodes(doc):
    return [n for p in doc["processes"] for n in model.all_nodes(p["nodes"])]


def base_pairs(doc):
    for process in doc["processes"]:
        for flow in model.all_flows(process["nodes"], process["flows"]):
            yield flow["source"], flow["target"]
    if doc["collab"]:
        for flow in doc["collab"]["mflows"]:
            yield flow["source"], flow["target"]


def all_ids(doc):
    out = set([doc["diagram"]["id"], doc["plane"]["id"]])
    stack = list(doc["processes"])
    if doc["collab"]:
        stack.append(doc["collab"])
    while stack:
        item = stack.pop()
        if isinstance(item, dict):
            if isinstance(item.get("id"), str):
                out.add(item["id"])
            stack.extend(item.values())
        elif isinstance(item, list):
            stack.extend(item)
    return out


class Session(object):
    """Runs operations on a real diagram and keeps the model of what the diagram has to contain."""

    def __init__(self, diagram, base=None):
        self.diagram = diagram
        self.model = {"diagram": {}, "plane": {}, "processes": {}, "nodes": {}, "edges": {}, "sequence_flows": {},
                      "collaboration": {}}
        self.containers, self.nodes, self.views, self.ids = [], [], [], set()
        if base is not None:
            self.model = snap.drop_node_ids(model.expected(base))
            self.containers = [p["id"] for p in base["processes"]]
            for node in base_nodes(base):
                self.nodes.append(node["id"])
                self.views.append(diagram.diagram_graph.nodes[node["id"]])
            self.containers += [n["id"] for n in base_nodes(base) if n["type"] == "subProcess"]
            self.ids = all_ids(base)

    def new_id(self, value, wanted=None):
        if not isinstance(value, str) or value == "":
            core.fail("call did not return an id", got=value)
        if wanted is not None:
            core.expect_equal("asked and returned id", value, wanted)
        if value in self.ids:
            core.fail("id is not unique in the diagram", id=value)
        self.ids.add(value)
        return value

    def apply(self, op):
        getattr(self, "op_" + op[0])(*op[1:])

    def op_new(self, name):
        if name is None:
            self.diagram.create_new_diagram_graph()
        else:
            self.diagram.create_new_diagram_graph(diagram_name=name)
        self.__init__(self.diagram)
        self.model["diagram"] = {"id": self.new_id(self.diagram.diagram_attributes.get("id")), "name": name or ""}

    def op_process(self, options):
        kwargs = {}
        for key, arg in (("name", "process_name"), ("closed", "process_is_closed"),
                         ("executable", "process_is_executable"), ("type", "process_type")):
            if key in options:
                kwargs[arg] = options[key]
        process_id = self.new_id(self.diagram.add_process_to_diagram(**kwargs))
        self.containers.append(process_id)
        self.model["processes"][process_id] = {
            "name": options.get("name", ""), "isClosed": text(options.get("closed", False)),
            "isExecutable": text(options.get("executable", False)), "processType": options.get("type", "None")}
        plane_id = self.diagram.plane_attributes.get("id")
        self.model["plane"] = {"id": self.new_id(plane_id), "bpmnElement": process_id}

    def op_node(self, kind, parent, options):
        d = self.diagram
        parent = self.containers[parent]
        node_type = options["type"] if kind == "plain" else kind
        attrs = {"type": node_type, "node_name": options.get("name", ""), "process": parent, "incoming": [],
                 "outgoing": [], "width": "100", "height": "100", "x": "100", "y": "100"}
        kwargs = {}
        if "id" in options:
            kwargs["node_id"] = options["id"]
        if options.get("positional"):
            result = self.positional(kind, parent, node_type, options)
        elif kind == "plain":
            result = d.add_flow_node_to_diagram(parent, node_type, options["name"], **kwargs)
        elif kind == "task":
            result = d.add_task_to_diagram(parent, **args(kwargs, options, name="task_name"))
        elif kind == "subProcess":
            result = d.add_subprocess_to_diagram(parent, **args(kwargs, options, name="subprocess_name",
                                                                expanded="is_expanded",
                                                                triggered="triggered_by_event"))
        elif kind == "startEvent":
            result = d.add_start_event_to_diagram(parent, **args(
                kwargs, options, **{"name": "start_event_name", "def": "start_event_definition",
                                    "parallel": "parallel_multiple", "interrupting": "is_interrupting"}))
        elif kind == "endEvent":
            result = d.add_end_event_to_diagram(parent, **args(kwargs, options, **{
                "name": "end_event_name", "def": "end_event_definition"}))
        else:
            names = dict(name="gateway_name", direction="gateway_direction")
            if kind != "parallelGateway":
                names["default"] = "default"
            result = self.call(kind)(parent, **args(kwargs, options, **names))
        if kind == "subProcess":
            attrs.update(isExpanded=text(options.get("expanded", False)),
                         triggeredByEvent=text(options.get("triggered", False)))
        elif kind == "startEvent":
            attrs.update(parallelMultiple=text(options.get("parallel", False)),
                         isInterrupting=text(options.get("interrupting", True)))
        elif kind.endswith("Gateway"):
            attrs["gatewayDirection"] = options.get("direction", "Unspecified")
            if options.get("default") is not None:
                attrs["default"] = options["default"]
        if not isinstance(result, tuple) or len(result) != 2:
            core.fail("call did not return an id and a view", got=result)
        node_id, view = result
        self.new_id(node_id, options.get("id"))
        attrs["id"] = node_id
        if kind in ("startEvent", "endEvent"):
            attrs["event_definitions"] = []
            if options.get("def"):
                real = self.diagram.diagram_graph.nodes[node_id].get("event_definitions")
                if not real or len(real) != 1:
                    core.fail("event definition is missing", got=real, asked=options["def"])
                attrs["event_definitions"] = [[options["def"] + "EventDefinition", self.new_id(real[0].get("id"))]]
        self.model["nodes"][node_id] = attrs
        self.nodes.append(node_id)
        self.views.append(view)
        if kind == "subProcess":
            self.containers.append(node_id)
        if view is not self.diagram.diagram_graph.nodes[node_id]:
            core.fail("the returned attributes are not those of the new node", node=node_id)

    def call(self, kind):
        return getattr(self.diagram, {
            "plain": "add_flow_node_to_diagram", "task": "add_task_to_diagram", "subProcess": "add_subprocess_to_diagram",
            "startEvent": "add_start_event_to_diagram", "endEvent": "add_end_event_to_diagram",
            "exclusiveGateway": "add_exclusive_gateway_to_diagram", "parallelGateway": "add_parallel_gateway_to_diagram",
            "inclusiveGateway": "add_inclusive_gateway_to_diagram"}[kind])

    def positional(self, kind, parent, node_type, options):
        """The call with arguments by position, up to the last one that is given."""
        order = {"plain": [("name", None)], "task": [("name", "")],
                 "subProcess": [("name", None), ("expanded", False), ("triggered", False)],
                 "startEvent": [("name", ""), ("def", None), ("parallel", False), ("interrupting", True)],
                 "endEvent": [("name", ""), ("def", None)],
                 "parallelGateway": [("name", ""), ("direction", "Unspecified")]}.get(
            kind, [("name", ""), ("direction", "Unspecified"), ("default", None)]) + [("id", None)]
        while order and order[-1][0] not in options:
            order.pop()
        first = [parent, node_type] if kind == "plain" else [parent]
        return self.call(kind)(*(first + [options.get(key, default) for key, default in order]))

    def op_flow(self, source, target, name, where=None):
        source, target = self.nodes[source], self.nodes[target]
        s, t = self.model["nodes"][source], self.model["nodes"][target]
        process = s["process"] if where is None else self.containers[where]
        if name is None:
            result = self.diagram.add_sequence_flow_to_diagram(process, source, target)
        else:
            result = self.diagram.add_sequence_flow_to_diagram(process, source, target, sequence_flow_name=name)
        flow_id, view = result
        self.new_id(flow_id)
        self.model["edges"]["%s -> %s" % (source, target)] = {
            "id": flow_id, "name": name or "", "process": process, "sourceRef": source, "targetRef": target}
        if "x" in s and "x" in t:
            self.model["edges"]["%s -> %s" % (source, target)]["waypoints"] = [[s["x"], s["y"]], [t["x"], t["y"]]]
        self.model["sequence_flows"][flow_id] = {"name": name or "", "sourceRef": source, "targetRef": target}
        s["outgoing"].append(flow_id)
        t["incoming"].append(flow_id)
        if view is not self.diagram.diagram_graph[source][target]:
            core.fail("the returned attributes are not those of the new flow", flow=flow_id)

    def op_edit(self, node, key, value):
        if key not in self.views[node]:
            return  # no position to change
        self.views[node][key] = value
        self.model["nodes"][self.nodes[node]][key] = value

    def check(self):
        core.expect_equal("diagram and model of the calls", snap.snapshot(self.diagram, node_ids=False), self.model)


def args(kwargs, options, **names):
    for key, arg in names.items():
        if key in options:
            kwargs[arg] = options[key]
    return kwargs


def text(flag_):
    return "true" if flag_ else "false"


def run(diagram, ops, base=None):
    session = Session(diagram, base)
    for op in ops:
        session.apply(op)
    return session
