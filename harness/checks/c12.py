"""C12: generated layout is an aligned grid read from left to right."""
from hypothesis import strategies as st

from harness import graphs
from harness.core import expect_equal, fail

ID = "C12"
RULE = ("Cases are process graphs (random digraphs, DAGs, trees, chains, cycles, series-parallel blocks with and without back "
        "edges, disconnected parts) laid out once. Grid, columns, rows of chains and all waypoints are computed from "
        "the graph and the positions. Non-trivial: at least 4 nodes and 3 flows.")
ASSUMPTIONS = ["no pools", "at most one flow per ordered pair of nodes (known finding KF1)",
               "gateway lines bend for exclusive, inclusive and parallel gateways"]
BUDGET = {"quick": 15000, "thorough": 100000}
BENDING = ("parallelGateway", "inclusiveGateway", "exclusiveGateway")


@st.composite
def chains(draw):
    maker = graphs.Maker(draw)
    for _ in range(draw(st.integers(1, 4))):
        last = None
        for _ in range(draw(st.integers(1, 5))):
            node = maker.node(draw(st.sampled_from(graphs.COMMON)))
            if last is not None:
                maker.edge(last, node)
            last = node
    order = list(draw(st.permutations(range(len(maker.nodes)))))
    return {"nodes": maker.nodes, "edges": maker.edges, "order": order, "shape": "chains", "di": draw(st.booleans())}


def strategy():
    return st.one_of(graphs.graph(), graphs.graph(shapes=["dag", "tree", "inward", "blocks"]),
                     graphs.graph(shapes=["dag", "blocks"], parts=False), graphs.graph(max_size=20), chains())


def pure_cycles(view):
    """Cycles that nothing leads into: each node has its predecessor in the cycle as the only one."""
    out, seen = [], set()
    for i in range(view.count):
        path, node = [], i
        while len(view.pred[node]) == 1 and node not in path:
            path.append(node)
            node = view.pred[node][0]
        if path and node == i and i not in seen:
            seen.update(path)
            out.append(path)
    return out


def run(case):
    import bpmn_python.bpmn_diagram_layouter as layouter
    diagram = graphs.build(case)
    layouter.generate_layout(diagram)
    view = graphs.View(case)
    nodes = diagram.diagram_graph.nodes
    col, row, place = {}, {}, {}
    for i in range(view.count):
        attrs = nodes["n%d" % i]
        x, y = int(attrs["x"]), int(attrs["y"])
        if (x - 50) % 150 or (y - 50) % 100 or x < 200:
            fail("node is not on the grid", node=i, x=x, y=y)
        place[i], col[i], row[i] = (x, y), (x - 50) // 150, (y - 50) // 100
    cycles = pure_cycles(view)
    in_cycle = {i for c in cycles for i in c}
    for i in range(view.count):
        if not view.pred[i]:
            expect_equal("column of node %d, which has no predecessor," % i, col[i], 1)
        elif len(view.pred[i]) == 1 and i not in in_cycle:
            expect_equal("column of node %d, compared to its only predecessor," % i, col[i], col[view.pred[i][0]] + 1)
    for cycle in cycles:
        first = [i for i in cycle if col[i] == 1]
        others = [i for i in cycle if col[i] != 1]
        if len(first) != 1 or any(col[i] != col[view.pred[i][0]] + 1 for i in others):
            fail("loop without entry does not run to the right from one first node", columns={i: col[i] for i in cycle})
    direct = any(len(view.succ[s]) >= 2 and len(view.pred[t]) >= 2 for s in view.succ for t in view.succ[s])
    labels = view.labels() + ["shape " + case["shape"]]
    if view.acyclic() and not direct:
        labels.append("left to right")
        for i in range(view.count):
            if len(view.pred[i]) >= 2:
                expect_equal("column of join %d" % i, col[i], max(col[p] for p in view.pred[i]) + 1)
            for t in view.succ[i]:
                if col[t] <= col[i]:
                    fail("flow does not run from left to right", flow=(i, t), columns=(col[i], col[t]))
    if case["shape"] == "chains":
        for i in range(view.count):
            for t in view.succ[i]:
                expect_equal("row of the next node of a chain", row[t], row[i])
    for s, t in case["edges"]:
        points = [tuple(p) for p in diagram.diagram_graph.edges["n%d" % s, "n%d" % t]["waypoints"]]
        (sx, sy), (tx, ty) = place[s], place[t]
        if view.types[s] in BENDING:
            wanted = [(sx + 50, sy + 50), (sx + 50, ty + 50), (tx, ty + 50)]
        elif sy != ty and view.types[t] in BENDING:
            wanted = [(sx + 50, sy + 50), (tx + 50, sy + 50), (tx + 50, ty)]
        else:
            wanted = [(sx + 50, sy + 50), (tx, ty + 50)]
        expect_equal("line of flow %d -> %d" % (s, t), tidy(points), tidy(wanted))
    return {"nontrivial": view.count >= 4 and len(case["edges"]) >= 3, "labels": labels}


def tidy(points):
    """Numbers, without repeated points."""
    out = []
    for x, y in points:
        point = (float(x), float(y))
        if not out or out[-1] != point:
            out.append(point)
    return out
