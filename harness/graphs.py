"""
Process graphs of many shapes for layout and metrics.

graph = {"nodes": [type, ...], "edges": [[source, target], ...], "order": [...], "di": bool}
Nodes are numbered; order is the order in which they are written; build(graph) loads the diagram from XML.
"""
from hypothesis import strategies as st

from harness import model, snap
from harness.strat import fraction

COMMON = ["task", "task", "task", "userTask", "subProcess", "exclusiveGateway", "parallelGateway", "inclusiveGateway",
          "startEvent", "endEvent"]
LINKED = [t for t in model.TYPES if t != "dataObject"]
_TYPE = st.sampled_from(COMMON * 2 + LINKED + ["dataObject"])
_ACTIVITY = st.sampled_from(["task", "task", "task", "subProcess", "userTask", "intermediateCatchEvent"])
_GATEWAY = st.sampled_from(["exclusiveGateway", "parallelGateway", "inclusiveGateway", "eventBasedGateway",
                            "complexGateway", "task"])


class Maker(object):
    def __init__(self, draw):
        self.draw = draw
        self.nodes, self.edges = [], []

    def node(self, node_type):
        self.nodes.append(node_type)
        return len(self.nodes) - 1

    def edge(self, source, target):
        if [source, target] not in self.edges:
            self.edges.append([source, target])

    # the shapes ------------------------------------------------------------------------------------------------
    def random(self, size, acyclic=False):
        first = len(self.nodes)
        for _ in range(size):
            self.node(self.draw(_TYPE))
        linked = [i for i in range(first, first + size) if self.nodes[i] != "dataObject"]
        if not linked:
            return
        k = len(linked)
        density = self.draw(st.sampled_from([k // 2, k, k + k // 2, 2 * k]))
        for s, t in self.draw(st.lists(st.tuples(st.integers(0, k - 1), st.integers(0, k - 1)), unique=True,
                                       max_size=density)):
            if acyclic:
                if s == t:
                    continue
                s, t = min(s, t), max(s, t)
            self.edge(linked[s], linked[t])

    def tree(self, size, inward=False):
        first = self.node(self.draw(_TYPE.filter(lambda t: t != "dataObject")))
        for _ in range(size - 1):
            parent = self.draw(st.integers(first, len(self.nodes) - 1))
            new = self.node(self.draw(st.sampled_from(LINKED)))
            if inward:
                self.edge(new, parent)
            else:
                self.edge(parent, new)

    def cycle(self, size):
        ids = [self.node(self.draw(st.sampled_from(COMMON))) for _ in range(size)]
        for i in range(size):
            self.edge(ids[i], ids[(i + 1) % size])
        return ids

    def block(self, depth, entry):
        """Series-parallel: returns the node at which the block ends."""
        last = entry
        for _ in range(self.draw(st.integers(1, 3))):
            if depth > 0 and fraction(self.draw, 1, 2):
                split = self.node(self.draw(_GATEWAY))
                self.edge(last, split)
                ends = []
                for _ in range(self.draw(st.integers(2, 4))):
                    if fraction(self.draw, 1, 8):
                        ends.append(split)  # branch without a step
                    else:
                        end = self.block(depth - 1, split)
                        if fraction(self.draw, 1, 6):
                            self.edge(end, self.node("endEvent"))
                        else:
                            ends.append(end)
                join = self.node(self.draw(_GATEWAY))
                for end in ends:
                    self.edge(end, join)
                last = join
            else:
                step = self.node(self.draw(_ACTIVITY))
                self.edge(last, step)
                last = step
        return last

    def process(self, depth):
        start = self.node("startEvent")
        last = self.block(depth, start)
        self.edge(last, self.node("endEvent"))

    def back_edges(self):
        linked = [i for i, t in enumerate(self.nodes) if t != "dataObject"]
        for _ in range(self.draw(st.integers(1, 3))):
            self.edge(self.draw(st.sampled_from(linked)), self.draw(st.sampled_from(linked)))


@st.composite
def graph(draw, max_size=12, shapes=None, parts=True, di=None):
    maker = Maker(draw)
    shape = draw(st.sampled_from(shapes or ["random", "random", "dag", "dag", "tree", "inward", "cycle", "cycle tail",
                                            "blocks", "blocks", "blocks loops"]))
    if shape in ("random", "dag"):
        maker.random(draw(st.integers(1, max_size)), shape == "dag")
    elif shape in ("tree", "inward"):
        maker.tree(draw(st.integers(1, max_size)), shape == "inward")
    elif shape == "cycle":
        maker.cycle(draw(st.integers(1, min(6, max_size))))
    elif shape == "cycle tail":
        ids = maker.cycle(draw(st.integers(2, 5)))
        maker.block(1, ids[0])
    else:
        maker.process(draw(st.integers(0, 2)))
        if shape == "blocks loops":
            maker.back_edges()
    if parts and fraction(draw, 1, 4):
        maker.random(draw(st.integers(1, 4)))
    if parts and fraction(draw, 1, 8):
        maker.cycle(draw(st.integers(1, 3)))
    count = len(maker.nodes)
    order = list(range(count))
    if draw(st.booleans()):
        order = list(draw(st.permutations(order)))
    edges = maker.edges
    if draw(st.booleans()):
        edges = list(draw(st.permutations(edges)))
    return {"nodes": maker.nodes, "edges": edges, "order": order, "shape": shape,
            "di": draw(st.booleans()) if di is None else di}


def document(g):
    nodes = []
    for i in g["order"]:
        node_type = g["nodes"][i]
        node = {"type": node_type, "id": "n%d" % i, "name": "N%d" % i, "attrs": {}, "defs": [], "in": [], "out": [],
                "shape": {"x": str(7 * i), "y": str(3 * i), "width": str(20 + i), "height": "36"} if g["di"] else None}
        if node_type == "boundaryEvent":
            node["attrs"]["attachedToRef"] = "n0"
        if node_type == "subProcess":
            node.update(isExpanded="false", nodes=[], flows=[])
        nodes.append(node)
    flows = []
    for k, (s, t) in enumerate(g["edges"]):
        flows.append({"id": "f%d" % k, "name": "", "source": "n%d" % s, "target": "n%d" % t, "cond": None,
                      "waypoints": [[str(2 * j + 1), str(j + k)] for j in range(2 + (3 * k + len(g["edges"])) % 9)] if g["di"] else None})
    return {"diagram": {"id": "dg", "name": "d"}, "plane": {"id": "pl", "bpmnElement": "pr"}, "collab": None,
            "processes": [{"id": "pr", "name": "p", "isClosed": None, "isExecutable": None, "processType": None,
                           "laneset": None, "nodes": nodes, "flows": flows}]}


def build(g):
    return snap.load_xml(model.render(document(g), 0))


class View(object):
    """Adjacency of a graph, for the oracles."""

    def __init__(self, g):
        self.count = len(g["nodes"])
        self.types = g["nodes"]
        self.succ = {i: [] for i in range(self.count)}
        self.pred = {i: [] for i in range(self.count)}
        for s, t in g["edges"]:
            self.succ[s].append(t)
            self.pred[t].append(s)

    def acyclic(self):
        degree = {i: len(p) for i, p in self.pred.items()}
        ready = [i for i in degree if degree[i] == 0]
        seen = 0
        while ready:
            node = ready.pop()
            seen += 1
            for nxt in self.succ[node]:
                degree[nxt] -= 1
                if degree[nxt] == 0:
                    ready.append(nxt)
        return seen == self.count

    def labels(self):
        out = []
        if not self.acyclic():
            out.append("loop")
        if any(len(p) >= 2 for p in self.pred.values()):
            out.append("join")
        if any(len(s) >= 2 for s in self.succ.values()):
            out.append("split")
        if any(i in self.succ[i] for i in self.succ):
            out.append("self-loop")
        if self.count and not any(len(p) == 0 for p in self.pred.values()):
            out.append("no start")
        return out
