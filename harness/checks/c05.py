"""C05: export to XML and re-import is lossless and stable."""
from hypothesis import strategies as st

from harness import reader, snap, sources
from harness.core import expect_equal, fail

ID = "C05"
RULE = ("Cases are diagrams from every producer (loaded from generated XML or CSV, built, built on a loaded one, laid out, "
        "edited), exported and loaded 1-4 times. Each loaded diagram is compared with the original and every further "
        "export with the first re-export, byte for byte. Non-trivial: at least 3 nodes and 1 flow.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)",
               "the list of child ids (node_ids) exists only for loaded diagrams and is not compared",
               "byte for byte if sequence flows stay within one process or sub-process, as BPMN asks; the order of "
               "elements is not compared otherwise",
               "a laid-out sub-process without an isExpanded mark is written as not expanded"]
BUDGET = {"quick": 3500, "thorough": 80000}


def strategy():
    return st.fixed_dictionaries({"source": st.one_of(sources.any_diagram(), sources.from_big()), "rounds": st.integers(1, 4)})


def normal(snapshot):
    snap.drop_node_ids(snapshot)
    for edge in snapshot["edges"].values():
        if "conditionExpression" in edge and not edge["name"]:
            edge["name"] = edge["conditionExpression"]["conditionExpression"]
            snapshot["sequence_flows"][edge["id"]]["name"] = edge["name"]
    for node in snapshot["nodes"].values():
        if node["type"] == "subProcess" and "x" in node:
            node.setdefault("isExpanded", "false")
    return snapshot


def within_one_parent(diagram):
    nodes = diagram.diagram_graph.nodes
    return all(nodes[s]["process"] == nodes[t]["process"] == a["process"]
               for s, t, a in diagram.diagram_graph.edges(data=True) if a["id"] in diagram.sequence_flows)


def run(case):
    diagram = sources.make(case["source"])
    info = sources.describe(case["source"], diagram)
    wanted = normal(snap.snapshot(diagram))
    data = snap.export_xml(diagram)
    stable = None
    exact = within_one_parent(diagram)
    for i in range(case["rounds"]):
        diagram = snap.load_xml(data)
        expect_equal("diagram after %d exports and loads and original" % (i + 1), snap.snapshot(diagram, node_ids=False),
                     wanted)
        data = snap.export_xml(diagram)
        if stable is not None and not exact:
            expect_equal("content of the next export and of the first one", reader.read(data), reader.read(stable))
        elif stable is not None and data != stable:
            fail("export of an exported and loaded diagram changed", before=stable.decode("utf-8", "replace"),
                 after=data.decode("utf-8", "replace"))
        if stable is None:
            stable = data
    return info
