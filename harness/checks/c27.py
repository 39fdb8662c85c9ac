"""C27: the shown picture has every node and flow in its place."""
from hypothesis import strategies as st

from harness import picture, sources
from harness.core import expect_equal

ID = "C27"
RULE = ("Cases are diagrams from every producer in which all nodes have a position: loaded, built, both, from CSV, large ones, "
        "laid out or not, edited, also shown twice. The real matplotlib figure is read when the window is opened: markers, "
        "texts and arrows are compared with the nodes and flows of the diagram. Non-trivial: at least 3 nodes and 1 flow.")
ASSUMPTIONS = ["names that the installed networkx misses in the installed Python and matplotlib are put back by the harness",
               "colours, sizes and the position of an arrow along its line are not compared"]
BUDGET = {"quick": 1200, "thorough": 20000}
SHAPE = {"task": "square", "subProcess": "square", "complexGateway": "diamond", "inclusiveGateway": "diamond",
         "exclusiveGateway": "diamond", "parallelGateway": "diamond", "eventBasedGateway": "circle", "startEvent": "circle",
         "endEvent": "circle", "intermediateCatchEvent": "circle", "intermediateThrowEvent": "circle"}


def strategy():
    return st.fixed_dictionaries({
        "source": st.one_of(sources.from_doc(full_di=True), sources.from_doc(full_di=True, collaboration=True),
                            sources.from_doc(full_di=True, max_nodes=8, depth=2), sources.from_build(),
                            sources.from_csv(layout=True), sources.from_csv(layout=False), sources.from_random(most=25),
                            sources.from_doc(full_di=False, collaboration=False, layout=True)),
        "twice": st.booleans()})


def run(case):
    diagram = sources.make(case["source"])
    nodes, flows = list(diagram.get_nodes()), list(diagram.get_flows())
    if not nodes or not all("x" in a and "y" in a for _, a in nodes):
        return {"nontrivial": False, "labels": ["without nodes or positions"]}
    at = {n: (float(a["x"]), float(a["y"])) for n, a in nodes}
    expected = {
        "shapes": [(SHAPE[a["type"]], picture.point(at[n])) for n, a in nodes if a["type"] in SHAPE],
        "texts": [(a["node_name"], picture.point(at[n])) for n, a in nodes]
        + [(a["name"], picture.point([(at[s][0] + at[t][0]) / 2, (at[s][1] + at[t][1]) / 2])) for s, t, a in flows],
        "arrows": [(picture.point(at[s]), picture.point(at[t])) for s, t, _ in flows]}
    for _ in range(2 if case["twice"] else 1):
        drawn = picture.shown(diagram)
        for key in ("shapes", "texts", "arrows"):
            expect_equal("%s of the picture" % key, drawn[key], sorted(expected[key]))
    info = sources.describe(case["source"], diagram)
    info["labels"] += sorted(set(a["type"] for _, a in nodes))
    return info
