"""C17: CSV import builds the process the spreadsheet describes."""
from hypothesis import strategies as st

from harness import blocks, snap
from harness.core import expect_equal, fail

ID = "C17"
RULE = ("Cases are block trees (steps, sub-processes, terminated rows, nested lettered branches up to depth 3 and 26 "
        "branches, goto rows, short branch orders, conditions of all kinds, odd texts, chains of up to 130 rows) written as CSV in a plain or "
        "random style (quoting, column order, blanks around orders, line ends, extra cells), loaded and compared with "
        "the process computed from the tree. Gateways are compared by type, predecessors and conditional successors. "
        "Non-trivial: at least one split and 4 rows.")
ASSUMPTIONS = ["rows are listed in the order in which they are followed",
               "a branch starts with a row, consecutive groups of branches are separated by a row",
               "goto is the last row of its branch and at least one other branch reaches the join",
               "names do not start with goto, conditions are not blank-only, no CR in cells"]
BUDGET = {"quick": 6000, "thorough": 150000}


def strategy():
    return st.fixed_dictionaries({"tree": blocks.lengthened(st.one_of(
        blocks.csv_tree(), blocks.csv_tree(depth=4), blocks.csv_tree(depth=1), blocks.csv_tree(depth=8, thin=True)), [""]),
                                  "style": st.one_of(st.just(0), st.integers(0, 10 ** 6))})


def run(case):
    process = blocks.Process(case["tree"])
    diagram = snap.load_csv(blocks.write_rows(process.rows, case["style"]))
    compare(diagram, process)
    kinds = sorted(process.kinds) + ["depth %d" % process.depth]
    return {"nontrivial": bool(process.gateways) and len(process.rows) >= 4, "labels": kinds}


def compare(diagram, process):
    nodes, gateways, edges = {}, {}, {}
    for node_id, attrs in diagram.diagram_graph.nodes(data=True):
        if node_id in process.nodes:
            nodes[node_id] = (attrs["type"], attrs["node_name"])
            if attrs["type"] in ("startEvent", "endEvent") and attrs.get("event_definitions") != []:
                fail("event definitions of a plain event", node=node_id)
        else:
            if not attrs["type"].endswith("Gateway"):
                fail("unexpected node", node=node_id, attributes=attrs)
            gateways[node_id] = {"type": attrs["type"], "preds": set(), "succs": {}}
        if attrs["process"] not in diagram.process_elements:
            fail("node of an unknown process", node=node_id)
    for source, target, attrs in diagram.diagram_graph.edges(data=True):
        cond = attrs.get("conditionExpression", {}).get("conditionExpression", "")
        if source in gateways and target in gateways:
            fail("flow between two gateways", flow=(source, target))
        if source in gateways:
            gateways[source]["succs"][target] = cond
        elif target in gateways:
            gateways[target]["preds"].add(source)
            if cond:
                fail("condition on a flow into a gateway", flow=(source, target))
        else:
            edges[(source, target)] = cond
    expect_equal("steps of loaded process and rows", nodes, process.nodes)
    expect_equal("flows between steps", edges, process.edges)
    actual = sorted([g["type"], sorted(g["preds"]), sorted(g["succs"].items())] for g in gateways.values())
    expect_equal("gateways", actual, process.gateway_list())
    if len(diagram.process_elements) != 1:
        fail("not exactly one process", processes=list(diagram.process_elements))
