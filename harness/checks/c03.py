"""C03: XML import does not depend on how the document is written."""
from hypothesis import strategies as st

from harness import model, snap
from harness.checks import c01
from harness.core import expect_equal

ID = "C03"
RULE = ("Cases are an abstract BPMN document and two styles in which it is written (namespace prefixes, attribute and "
        "sibling order, whitespace, comments, processing instructions, CDATA, character references, encodings, "
        "documentation, extension, label and unsupported elements). Both texts are loaded and the diagrams compared "
        "with each other and with the one loaded from the plain text. Non-trivial: the texts differ and the document "
        "has at least 3 nodes and 1 flow.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)",
               "siblings of the same kind keep their order"]
BUDGET = {"quick": 5000, "thorough": 100000}


def strategy():
    return st.fixed_dictionaries({
        "doc": st.one_of(model.document(max_nodes=6), model.document(max_processes=1, max_nodes=10, depth=1),
                         model.document(collaboration=True, max_nodes=3, depth=1), model.big(30)),
        "styles": st.lists(st.integers(1, 10 ** 6), min_size=2, max_size=2, unique=True)})


def run(case):
    doc = model.full(case["doc"])
    texts = [model.render(doc, s) for s in [0] + case["styles"]]
    plain, first, second = [snap.snapshot(snap.load_xml(t)) for t in texts]
    expect_equal("diagram loaded from document in style %d and plain one" % case["styles"][0], first, plain)
    expect_equal("diagram loaded from document in style %d and plain one" % case["styles"][1], second, plain)
    info = c01.classify(doc, 1)
    info["nontrivial"] = info["nontrivial"] and len(set(texts)) == 3
    return info
