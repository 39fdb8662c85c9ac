"""C07: the diagram-building API does exactly what each call says."""
from hypothesis import strategies as st

from harness import build, model, snap

ID = "C07"
RULE = ("Cases are histories of 3-26 create/add calls (all add_* methods with random subsets of their options, given or "
        "generated ids (also with blanks and special characters), arguments by name or position, several processes, nesting in sub-processes, re-creation of the diagram, edits through "
        "returned views), on an empty diagram or on one loaded from a generated file. The whole diagram is compared "
        "with the reference model after every call. Non-trivial: at least 3 nodes and a flow or a re-creation.")
ASSUMPTIONS = ["given ids are unique and parents exist", "at most one flow per ordered pair of nodes",
               "the last process added is the one the plane shows"]
BUDGET = {"quick": 9000, "thorough": 100000}


@st.composite
def on_loaded(draw):
    doc = draw(model.document(full_di=draw(st.booleans()), max_nodes=4, max_processes=2, depth=1))
    return {"base": doc, "ops": draw(build.history(max_ops=12, base=doc))}


def strategy():
    return st.one_of(st.fixed_dictionaries({"base": st.none(), "ops": build.history(odd_ids=True)}),
                     st.fixed_dictionaries({"base": st.none(), "ops": build.history(max_ops=45, odd_ids=True)}), on_loaded())


def run(case):
    if case["base"] is not None:
        diagram = snap.load_xml(model.render(case["base"], 0))
    else:
        diagram = snap.new_diagram()
    session = build.Session(diagram, case["base"])
    session.check()
    labels = set()
    for op in case["ops"]:
        session.apply(op)
        session.check()
        labels.add(op[0] if op[0] != "node" else "node " + op[1])
    # views stay live: what they say is what the diagram says
    for node_id, view in zip(session.nodes, session.views):
        if diagram.diagram_graph.nodes[node_id] is not view:
            raise AssertionError("view of %s is no longer live" % node_id)
    flows = sum(1 for op in case["ops"] if op[0] == "flow")
    nodes = sum(1 for op in case["ops"] if op[0] == "node")
    news = sum(1 for op in case["ops"][1:] if op[0] == "new")
    if news:
        labels.add("re-created")
    if case["base"] is not None:
        labels.add("on a loaded diagram")
    return {"nontrivial": nodes >= 3 and (flows >= 1 or news >= 1), "labels": sorted(labels)}
