"""C15: longest-path metrics return a real and longest path."""
from hypothesis import strategies as st

from harness import graphs
from harness.core import expect_equal, fail

ID = "C15"
RULE = ("Cases are process graphs of all shapes (random digraphs, DAGs, trees, cycles, blocks with back edges, self-loops, "
        "disconnected parts) of up to 9 nodes or a little more for blocks, chains of 8-30 nodes with up to 3 side steps, short cuts or ways back, and nodes with 3-12 outgoing flows and tails of different lengths. The answer is compared with all simple paths, "
        "enumerated exhaustively. Non-trivial: the longest path has at least 3 nodes and there is a split or a loop.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)", "at most 20000 simple paths, of at most 40 nodes (known finding KF3)"]
BUDGET = {"quick": 12000, "thorough": 100000}


@st.composite
def tail_on_activity(draw):
    """Loops whose only way out or longest stretch lies behind the loop."""
    maker = graphs.Maker(draw)
    start = maker.node(draw(st.sampled_from(["startEvent", "task", "exclusiveGateway"])))
    last = maker.block(1, start)
    back = draw(st.integers(0, last))
    maker.edge(last, back)
    if draw(st.booleans()):
        maker.edge(last, maker.node(draw(st.sampled_from(["endEvent", "task", "subProcess"]))))
    order = list(draw(st.permutations(range(len(maker.nodes)))))
    return {"nodes": maker.nodes, "edges": list(draw(st.permutations(maker.edges))), "order": order, "shape": "loop",
            "di": False}


@st.composite
def long_way(draw):
    """A long chain with a few side steps, short cuts and ways back."""
    maker = graphs.Maker(draw)
    kind = st.sampled_from(["task", "task", "subProcess", "exclusiveGateway", "intermediateCatchEvent", "userTask"])
    size = draw(st.integers(8, 30))
    for i in range(size):
        maker.node(draw(kind))
        if i:
            maker.edge(i - 1, i)
    for _ in range(draw(st.integers(0, 3))):
        at, to = draw(st.integers(0, size - 1)), draw(st.integers(0, size - 1))
        if draw(st.booleans()):
            maker.edge(at, to)
        else:
            side = maker.node(draw(kind))
            maker.edge(at, side)
            if draw(st.booleans()):
                maker.edge(side, to)
    order = list(draw(st.permutations(range(len(maker.nodes)))))
    return {"nodes": maker.nodes, "edges": list(draw(st.permutations(maker.edges))), "order": order, "shape": "long",
            "di": False}


@st.composite
def hub(draw):
    """A node with many flows, which lead to tails of different lengths and back."""
    maker = graphs.Maker(draw)
    kind = st.sampled_from(["task", "task", "subProcess", "exclusiveGateway", "endEvent"])
    at = maker.node(draw(st.sampled_from(["startEvent", "task", "exclusiveGateway"])))
    if draw(st.booleans()):
        maker.edge(maker.node("startEvent"), at)
    for _ in range(draw(st.integers(3, 12))):
        last = at
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3]))):
            node = maker.node(draw(kind))
            maker.edge(last, node)
            last = node
        if draw(st.integers(0, 5)) == 0:
            maker.edge(last, draw(st.integers(0, last)))
    order = list(draw(st.permutations(range(len(maker.nodes)))))
    return {"nodes": maker.nodes, "edges": list(draw(st.permutations(maker.edges))), "order": order, "shape": "hub",
            "di": False}


def strategy():
    return st.one_of(graphs.graph(max_size=8, parts=False), graphs.graph(max_size=9, parts=False, shapes=["dag", "random"]),
                     graphs.graph(max_size=6), tail_on_activity(), tail_on_activity(), long_way(), hub())


def simple_paths(view, limit):
    """All maximal and non-maximal simple paths from nodes without incoming flows."""
    out = []
    stack = [[i] for i in range(view.count) if not view.pred[i]]
    while stack:
        path = stack.pop()
        out.append(path)
        if len(out) > limit:
            return None
        for nxt in view.succ[path[-1]]:
            if nxt not in path:
                stack.append(path + [nxt])
    return out


def run(case):
    if "chain" in case:
        size = case["chain"]
        case = {"nodes": ["task"] * size, "edges": [[i, i + 1] for i in range(size - 1)], "order": list(range(size)),
                "shape": "long", "di": False}
    view = graphs.View(case)
    large = case["shape"] in ("long", "hub")
    if len(case["edges"]) > 18 and not large:
        return {"nontrivial": False, "labels": ["too many flows"]}
    paths = simple_paths(view, 20000)
    if paths is None or view.count > 16 and not large:
        return {"nontrivial": False, "labels": ["too large"]}
    import bpmn_python.diagram_layout_metrics as metrics
    diagram = graphs.build(case)
    nodes = {n: a for n, a in diagram.diagram_graph.nodes(data=True)}

    full = [p for p in paths if not view.succ[p[-1]]]
    best = max([len(p) for p in full] or [0])
    answer, length = metrics.compute_longest_path(diagram)
    got = [int(n[0][1:]) for n in answer]
    expect_equal("length of the longest path", length, best)
    expect_equal("number of nodes of the longest path", len(got), best)
    if best and got not in full:
        fail("not a path from a node without incoming to a node without outgoing flows", path=got)

    activity = [i for i in range(view.count) if view.types[i] in ("task", "subProcess")]
    lists = set(tuple(i for i in p if i in activity) for p in paths)
    best_tasks = max([len(x) for x in lists] or [0])
    tasks, number = metrics.compute_longest_path_tasks(diagram)
    got_tasks = [int(n[0][1:]) for n in tasks]
    expect_equal("number of activities on the longest path", number, best_tasks)
    expect_equal("number of activities listed", len(got_tasks), best_tasks)
    if best_tasks and tuple(got_tasks) not in lists:
        fail("not the activities of one path", activities=got_tasks)
    for node_id, attrs in list(answer) + list(tasks):
        expect_equal("attributes of a node on the path", dict(attrs), dict(nodes[node_id]))
    labels = view.labels() + ["length %d" % min(best, 9)]
    return {"nontrivial": best >= 3 and ("split" in labels or "loop" in labels), "labels": labels}
