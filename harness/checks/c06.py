"""C06: export without layout data keeps the whole process content."""
from hypothesis import strategies as st

from harness import reader, snap, sources
from harness.core import expect_equal

ID = "C06"
RULE = ("Cases are diagrams from every producer (also without any layout data). The export without layout data is read "
        "with an independent strict reader and compared with the diagram and with the process content of the full "
        "export. Non-trivial: at least 3 nodes and 1 flow.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)"]
BUDGET = {"quick": 5000, "thorough": 100000}


def strategy():
    return st.one_of(sources.any_diagram(), sources.from_big())


def run(case):
    diagram = sources.make(case)
    wanted = reader.wanted(snap.snapshot(diagram), with_di=False)
    bare = reader.read(snap.export_xml(diagram, no_di=True), with_di=False)
    expect_equal("document exported without layout and diagram", bare, wanted)
    full = reader.read(snap.export_xml(diagram))
    for node_id, node in bare["nodes"].items():
        other = full["nodes"][node_id]
        for key, value in node.items():
            expect_equal("%s of node %s without and with layout" % (key, node_id), value, other[key])
    for key, edge in bare["edges"].items():
        for name, value in edge.items():
            expect_equal("%s of flow %s without and with layout" % (name, key), value, full["edges"][key][name])
    return sources.describe(case, diagram)
