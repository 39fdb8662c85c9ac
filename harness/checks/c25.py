"""C25: branches are laid out evenly around their split."""
from hypothesis import strategies as st

from harness import graphs
from harness.core import expect_equal, fail
from harness.strat import fraction

ID = "C25"
RULE = ("Cases are sequences of steps and blocks (a split, 2-9 branches of 1-5 steps, a join; the last block may stay open; "
        "the join of a block may be the split of the next one) with nodes of all types, in any order in the file. Rows of "
        "all nodes are compared with the rule. Non-trivial: at least one block and 5 nodes.")
ASSUMPTIONS = ["one process without loops, pools and nested blocks", "each branch has at least one step"]
BUDGET = {"quick": 8000, "thorough": 150000}
_TYPE = st.sampled_from(graphs.LINKED + graphs.COMMON)


@st.composite
def strategy_(draw):
    maker = graphs.Maker(draw)
    spine, blocks = [], []

    def extend():
        node = maker.node(draw(_TYPE))
        if spine:
            maker.edge(spine[-1], node)
        spine.append(node)

    for _ in range(draw(st.integers(0, 2))):
        extend()
    count = draw(st.integers(0, 3))
    for k in range(count):
        if not spine or not (blocks and fraction(draw, 1, 4)):
            extend()
        split = spine[-1]
        branches = []
        width = draw(st.integers(2, 4)) if fraction(draw, 3, 4) else draw(st.integers(5, 9))
        for _ in range(width):
            length = draw(st.integers(1, 2 if width > 4 else 5))
            branch = [maker.node(draw(_TYPE)) for _ in range(length)]
            for a, b in zip([split] + branch, branch):
                maker.edge(a, b)
            branches.append(branch)
        blocks.append([split, branches])
        if k == count - 1 and fraction(draw, 1, 3):
            break
        join = maker.node(draw(_TYPE))
        for branch in branches:
            maker.edge(branch[-1], join)
        spine.append(join)
    else:
        for _ in range(draw(st.integers(0, 3))):
            extend()
    order = list(range(len(maker.nodes)))
    if draw(st.booleans()):
        order = list(draw(st.permutations(order)))
    edges = maker.edges
    if draw(st.booleans()):
        edges = list(draw(st.permutations(edges)))
    return {"nodes": maker.nodes, "edges": edges, "order": order, "shape": "series", "di": draw(st.booleans()),
            "spine": spine, "blocks": blocks}


def strategy():
    return strategy_()


def run(case):
    import bpmn_python.bpmn_diagram_layouter as layouter
    diagram = graphs.build(case)
    layouter.generate_layout(diagram)
    row = {i: int(diagram.diagram_graph.nodes["n%d" % i]["y"]) for i in range(len(case["nodes"]))}
    if case["spine"]:
        level = row[case["spine"][0]]
        for node in case["spine"]:
            expect_equal("row of node %d of the main line" % node, row[node], level)
    labels = ["%d blocks" % len(case["blocks"])]
    for split, branches in case["blocks"]:
        rows = []
        for branch in branches:
            rows.append(row[branch[0]] - row[split])
            for node in branch:
                expect_equal("row of node %d of a branch" % node, row[node], row[branch[0]])
        half, odd = divmod(len(branches), 2)
        unit = max(rows) // half
        wanted = [unit * k for k in range(-half, half + 1) if k or odd]
        if sorted(rows) != wanted or unit < 100:
            fail("branches are not spread evenly around the split", rows=sorted(rows), expected=wanted)
        labels.append("%d branches" % len(branches))
    return {"nontrivial": bool(case["blocks"]) and len(case["nodes"]) >= 5, "labels": labels}
