"""C09: queries return exactly the elements that match."""
from hypothesis import strategies as st

from harness import model, snap, sources
from harness.core import expect_equal, fail

ID = "C09"
RULE = ("Cases are diagrams from every producer with edits of attributes before the queries. All queries are made with "
        "every existing type, process, node and flow id and with ids that do not exist (prefixes, other case, ids of "
        "another kind of element), and compared with a filter over the graph. Non-trivial: at least 3 nodes and 1 flow.")
ASSUMPTIONS = ["at most one flow per ordered pair of nodes (known finding KF1)",
               "positions are asked for only when all nodes have coordinates"]
BUDGET = {"quick": 5000, "thorough": 60000}


def strategy():
    return st.fixed_dictionaries({"source": st.one_of(sources.any_diagram(), sources.from_big(), sources.from_big()), "types": st.lists(st.integers(0, 60), max_size=3)})


def as_nodes(result):
    return [(n, dict(a)) for n, a in result]


def as_flows(result):
    return [(s, t, dict(a)) for s, t, a in result]


def same_elements(what, actual, expected):
    """Equal as sets of elements, each once."""
    expect_equal(what, sorted(map(repr, actual)), sorted(map(repr, expected)))


def twice(what, query, convert):
    first, second = convert(query()), convert(query())
    if first != second:
        fail(what + ": two equal queries give different answers", first=first, second=second)
    return first


def run(case):
    diagram = sources.make(case["source"])
    graph = diagram.diagram_graph
    # retyped nodes: the answer follows the current value
    ids = list(graph.nodes())
    for k in case["types"]:
        if ids:
            node = graph.nodes[ids[k % len(ids)]]
            if node["type"] in model.TASKS:
                node["type"] = model.TASKS[(model.TASKS.index(node["type"]) + 1) % len(model.TASKS)]
    nodes = [(n, dict(graph.nodes[n])) for n in graph.nodes()]
    flows = [(s, t, dict(graph.edges[s, t])) for s, t in graph.edges()]

    same_elements("all nodes", twice("get_nodes", diagram.get_nodes, as_nodes), nodes)
    same_elements("all nodes", as_nodes(diagram.get_nodes("")), nodes)
    same_elements("all flows", twice("get_flows", diagram.get_flows, as_flows), flows)
    types = set(model.TYPES) | set(a["type"] for _, a in nodes) | {"Task", "Gateway", "sequenceFlow", "event", "tas"}
    for node_type in sorted(types):
        wanted = [(n, a) for n, a in nodes if a["type"] == node_type]
        same_elements("nodes of type %s" % node_type,
                      twice("get_nodes", lambda: diagram.get_nodes(node_type), as_nodes), wanted)
        got = twice("get_nodes_id_list_by_type", lambda: diagram.get_nodes_id_list_by_type(node_type), list)
        expect_equal("ids of type %s" % node_type, sorted(got), sorted(n for n, _ in wanted))
    node_ids = [n for n, _ in nodes]
    flow_ids = [a["id"] for _, _, a in flows]
    parents = set(diagram.process_elements) | set(a["process"] for _, a in nodes) | \
        set(a["process"] for _, _, a in flows if "process" in a)
    odd = set(["", "nothing", " "])
    for known in node_ids[:6] + flow_ids[:6] + sorted(parents)[:4]:
        odd |= {known + "x", known[:-1], known.upper(), known.lower(), " " + known}
    for process in sorted(parents | odd | set(node_ids)):
        wanted = [(n, a) for n, a in nodes if a["process"] == process]
        same_elements("nodes of process %r" % process,
                      twice("nodes of process", lambda: diagram.get_nodes_list_by_process_id(process), as_nodes), wanted)
        wanted = [f for f in flows if f[2].get("process") == process]
        same_elements("flows of process %r" % process,
                      twice("flows of process", lambda: diagram.get_flows_list_by_process_id(process), as_flows), wanted)
    by_id = dict(nodes)
    flow_by_id = {a["id"]: (s, t, a) for s, t, a in flows}
    for key in sorted(set(node_ids) | set(flow_ids) | odd | parents):
        got = diagram.get_node_by_id(key)
        if key in by_id:
            expect_equal("node %r" % key, (got[0], dict(got[1])) if got else got, (key, by_id[key]))
        elif got is not None:
            fail("a node was found for an id that no node has", id=key, got=got)
        got = diagram.get_flow_by_id(key)
        if key in flow_by_id:
            expect_equal("flow %r" % key, (got[0], got[1], dict(got[2])) if got else got, flow_by_id[key])
        elif got is not None:
            fail("a flow was found for an id that no flow has", id=key, got=got)
    if all("x" in a and "y" in a for _, a in nodes):
        expect_equal("positions", {k: tuple(v) for k, v in diagram.get_nodes_positions().items()},
                     {n: (float(a["x"]), float(a["y"])) for n, a in nodes})
    return sources.describe(case["source"], diagram)
