"""C04: exported XML says exactly what the diagram says."""
from hypothesis import strategies as st

from harness import reader, snap, sources
from harness.core import expect_equal

ID = "C04"
RULE = ("Cases are diagrams loaded from generated XML or CSV, built through the API, or built on top of a loaded one, "
        "partly laid out and edited afterwards. The exported file is read with an independent strict reader and "
        "compared with the diagram. Non-trivial: at least 3 nodes and 1 flow.")
ASSUMPTIONS = ["no element has the id of another one followed by '_gui' (ids of shapes and edges are made that way)",
               "at most one flow per ordered pair of nodes (known finding KF1)",
               "a conditional flow without a name is written with the condition as its name (as documented in C05)"]
BUDGET = {"quick": 5000, "thorough": 100000}


def strategy():
    return st.one_of(sources.any_diagram(), sources.from_big())


def run(case):
    diagram = sources.make(case)
    wanted = reader.wanted(snap.snapshot(diagram))
    data = snap.export_xml(diagram)
    expect_equal("exported document and diagram", reader.read(data), wanted)
    return sources.describe(case, diagram)
