"""C14: structural complexity metrics match their published definitions."""
from hypothesis import strategies as st

from harness import graphs, model, sources
from harness.checks import c13
from harness.core import expect_equal, fail
from harness.strat import fraction

ID = "C14"
RULE = ("Cases are diagrams with random multisets of node types (1-16 types, 1-12 of each) "
        "and flows, process graphs of all shapes, and diagrams from documents with pools. Each metric is compared with "
        "its definition evaluated naively. Non-trivial: at least 4 nodes of 2 types.")
ASSUMPTIONS = ["metrics that are averages are taken only when there is something to average",
               "a flow from a gateway to itself counts as incoming and as outgoing"]
BUDGET = {"quick": 8000, "thorough": 150000}


@st.composite
def histogram(draw):
    """Number of occurrences of each type, near the limits of the squares."""
    kinds = draw(st.permutations(model.TYPES))[:draw(st.integers(1, 8) if fraction(draw, 2, 3) else st.integers(9, 16))]
    top = draw(st.sampled_from([1, 2, 3, 6, 6, 12]))
    nodes = []
    for kind in kinds:
        nodes += [kind] * draw(st.integers(1, top))
    nodes = list(draw(st.permutations(nodes))) if len(nodes) < 30 else nodes
    return {"nodes": nodes, "edges": [], "order": list(range(len(nodes))), "shape": "histogram", "di": False}


def strategy():
    return st.one_of(histogram().map(lambda g: {"graph": g}), c13.mixture().map(lambda g: {"graph": g}),
                     graphs.graph().map(lambda g: {"graph": g}), sources.from_random().map(lambda s: {"source": s}), sources.from_big().map(lambda s: {"source": s}),
                     sources.from_doc(max_nodes=8, depth=1).map(lambda s: {"source": s}))


def close(what, actual, expected):
    if isinstance(actual, bool) or not isinstance(actual, (int, float)) or abs(actual - expected) > 1e-9:
        fail(what + " differs", got=actual, expected=expected)


def run(case):
    import bpmn_python.bpmn_diagram_metrics as m
    diagram = graphs.build(case["graph"]) if "graph" in case else sources.make(case["source"])
    graph = diagram.diagram_graph
    types = {n: a["type"] for n, a in graph.nodes(data=True)}
    flows = list(graph.edges())
    counts = sorted((list(types.values()).count(t) for t in set(types.values())), reverse=True)
    gateways = [n for n, t in types.items() if t in model.GATEWAYS]
    labels = []
    expect_equal("gateway heterogeneity", m.GatewayHeterogenity_metric(diagram), len(set(types[g] for g in gateways)))
    if types:
        close("coefficient of network complexity", m.CoefficientOfNetworkComplexity_metric(diagram),
              len(flows) / len(types))
    if gateways:
        labels.append("gateways")
        degree = sum((s == g) + (t == g) for g in gateways for s, t in flows)
        close("average gateway degree", m.AverageGatewayDegree_metric(diagram), degree / len(gateways))
    durfee = max([d for d in range(len(counts) + 1) if sum(1 for c in counts if c >= d) >= d or d == 0])
    expect_equal("Durfee square", m.DurfeeSquare_metric(diagram), durfee)
    perfect = max([p for p in range(len(counts) + 1) if sum(counts[:p]) >= p * p])
    expect_equal("perfect square", m.PerfectSquare_metric(diagram), perfect)
    labels += ["durfee %d" % durfee, "perfect %d" % perfect]
    return {"nontrivial": len(types) >= 4 and len(counts) >= 2, "labels": labels}
