"""C20: DOT and PNG pictures show every node and flow with its name."""
from hypothesis import strategies as st

from harness import build, dots, snap, sources
from harness.core import expect_equal, fail
from harness.strat import NAME

ID = "C20"
RULE = ("Cases are diagrams from every producer and built diagrams whose node ids and names are arbitrary texts. The DOT file "
        "is parsed by Graphviz (gvpr) and compared with the diagram; the PNG is drawn with a stand-in for 'dot' that "
        "records the source it is given, and that source is parsed by Graphviz as well. Non-trivial: at least 2 nodes "
        "and 1 flow.")
ASSUMPTIONS = ["ids do not start with '%' (Graphviz reserves them)", "no control characters in texts",
               "a backslash may be written once or doubled",
               "a value that is a single line break counts as empty, as Graphviz reads it so", "rasterising is Graphviz's part and is not run"]
BUDGET = {"quick": 2000, "thorough": 20000}
_NODE_ID = NAME.filter(lambda t: t != "" and not t.startswith("%"))


@st.composite
def odd_ids(draw):
    count = draw(st.integers(1, 6))
    ids = draw(st.lists(_NODE_ID, min_size=count, max_size=count, unique=True))
    ops = [["new", None], ["process", {}]]
    for node_id in ids:
        kind = draw(st.sampled_from(["task", "task", "exclusiveGateway", "startEvent", "endEvent", "subProcess",
                                     "parallelGateway"]))
        ops.append(["node", kind, 0, {"id": node_id, "name": draw(NAME)}])
    pairs = draw(st.lists(st.tuples(st.integers(0, count - 1), st.integers(0, count - 1)), unique=True, max_size=6))
    for s, t in pairs:
        ops.append(["flow", s, t, draw(NAME)])
    return {"kind": "build", "ops": ops, "layout": False, "edits": []}


def strategy():
    return st.fixed_dictionaries({
        "source": st.one_of(odd_ids(), odd_ids(), sources.from_build(max_ops=12), sources.from_doc(max_nodes=4, depth=1),
                            sources.from_csv(), sources.from_random(most=30)),
        "name": st.sampled_from(["p", "picture", "a.b", "with space", "x.dot", "żółw", "p.png", "-p"])})


def key(text):
    """Texts are compared up to the doubling of backslashes; a text that is one line break is empty to Graphviz."""
    if text == "\n":
        return ""
    while "\\\\" in text:
        text = text.replace("\\\\", "\\")
    return text


def same(actual, expected):
    return key(actual) == key(expected)


def run(case):
    diagram = sources.make(case["source"])
    nodes = {n: a for n, a in diagram.get_nodes()}
    if any(n.startswith("%") for n in nodes) or len(set(map(key, nodes))) != len(nodes):
        return {"nontrivial": False, "labels": ["ids Graphviz cannot tell apart"]}
    flows = {(s, t): a for s, t, a in diagram.get_flows()}
    info = sources.describe(case["source"], diagram)
    info["nontrivial"] = len(nodes) >= 2 and len(flows) >= 1

    graph = dots.parse(dots.dot_text(diagram, case["name"]))
    compare(graph, nodes, flows, "DOT")
    for n, attrs in named(graph["nodes"], nodes):
        check_attributes("node " + n, attrs, nodes[n])
    for s, t, attrs in graph["edges"]:
        pair = [p for p in flows if same(p[0], s) and same(p[1], t)][0]
        check_attributes("flow %s -> %s" % pair, attrs, flows[pair])

    source, picture = dots.png_source(diagram, case["name"])
    if picture != b"PICTURE -Tpng":
        fail("the file is not the picture drawn as PNG", content=picture)
    graph = dots.parse(source)
    compare(graph, nodes, flows, "PNG")
    for n, attrs in named(graph["nodes"], nodes):
        name = nodes[n].get("node_name")
        if not same(attrs.get("label", ""), name or ""):
            fail("node is not labelled with its name", node=n, label=attrs.get("label"), name=name)
        if nodes[n]["type"] == "task":
            expect_equal("shape of a task", [attrs.get("shape"), attrs.get("style")], ["box", "rounded"])
        elif nodes[n]["type"] == "exclusiveGateway":
            expect_equal("shape of an exclusive gateway", attrs.get("shape"), "diamond")
        elif attrs.get("shape") in ("diamond", "box"):
            fail("only tasks are boxes and exclusive gateways diamonds", node=n, type=nodes[n]["type"],
                 shape=attrs.get("shape"))
    for s, t, attrs in graph["edges"]:
        pair = [p for p in flows if same(p[0], s) and same(p[1], t)][0]
        if not same(attrs.get("label", ""), flows[pair].get("name") or ""):
            fail("flow is not labelled with its name", flow=pair, label=attrs.get("label"), name=flows[pair].get("name"))
    return info


def compare(graph, nodes, flows, what):
    if not graph["directed"]:
        fail("%s: the graph is not directed" % what)
    expect_equal(what + ": nodes shown and nodes of the diagram", sorted(map(key, graph["nodes"])), sorted(map(key, nodes)))
    expect_equal(what + ": flows shown and flows of the diagram", sorted((key(s), key(t)) for s, t, _ in graph["edges"]),
                 sorted((key(s), key(t)) for s, t in flows))


def named(shown, nodes):
    by_key = {key(n): n for n in nodes}
    for n, attrs in shown.items():
        yield by_key[key(n)], attrs


def check_attributes(what, attrs, wanted):
    for name, value in wanted.items():
        if isinstance(value, str) and not same(attrs.get(name, ""), value):
            fail("attribute is not written as it is", element=what, attribute=name, value=value, written=attrs.get(name))
        if not isinstance(value, str) and value and name not in attrs:
            fail("attribute is missing", element=what, attribute=name)
