"""C10: queries, metrics, exports and rendering never change the diagram."""
import os

from hypothesis import strategies as st

from harness import core, dots, picture, snap, sources
from harness.core import expect_equal, fail

ID = "C10"
RULE = ("Cases are diagrams from every producer and a random sequence of 2-12 read-only calls (all queries, all metrics, "
        "layout metrics, XML export with and without layout, CSV, DOT and PNG export, showing the picture). The complete ordered state of "
        "the diagram is compared before and after each call, and each call is made twice and has to give the same "
        "answer or file. Non-trivial: at least 3 nodes, 1 flow and 2 different calls.")
ASSUMPTIONS = ["path metrics only on diagrams with at most 14 nodes and 20 flows, segment metrics when all flows are drawn",
               "CSV export only of block-structured processes", "PNG is drawn with a stand-in for 'dot'",
               "a metric without a value (average over nothing) may raise, but changes nothing either"]
BUDGET = {"quick": 2400, "thorough": 60000}

COUNTS = ["get_nodes_count", "get_gateway_counts", "get_events_counts", "get_activities_counts", "all_activities_count",
          "all_gateways_count", "all_control_flow_elements_count", "all_events_count", "TNSE_metric", "TNIE_metric",
          "TNEE_metric", "TNE_metric", "NOA_metric", "NOAC_metric", "NOAJS_metric", "NumberOfNodes_metric",
          "GatewayHeterogenity_metric", "CoefficientOfNetworkComplexity_metric", "AverageGatewayDegree_metric",
          "DurfeeSquare_metric", "PerfectSquare_metric", "get_all_gateways"]
LAYOUT = ["count_crossing_points", "count_segments", "compute_longest_path", "compute_longest_path_tasks"]
QUERIES = ["nodes", "nodes of type", "ids of type", "node", "nodes of process", "flows", "flow", "flows of process",
           "positions"]
EXPORTS = ["xml", "xml", "xml_no_di", "xml_no_di", "csv", "csv", "dot", "png", "show"]
_OP = st.one_of(st.tuples(st.just("count"), st.sampled_from(COUNTS), st.integers(0, 20)),
                st.tuples(st.just("layout"), st.sampled_from(LAYOUT), st.integers(0, 20)),
                st.tuples(st.just("query"), st.sampled_from(QUERIES), st.integers(0, 20)),
                st.tuples(st.just("export"), st.sampled_from(EXPORTS), st.integers(0, 20))).map(list)


def strategy():
    return st.fixed_dictionaries({
        "source": st.one_of(sources.any_diagram(), sources.from_tree(), sources.from_doc(full_di=True, max_nodes=5),
                            sources.from_csv(layout=True)),
        "ops": st.lists(_OP, min_size=2, max_size=12)})


def frozen(value):
    if isinstance(value, dict):
        return {k: frozen(v) for k, v in value.items()}
    if isinstance(value, (str, int, float, bool, type(None))):
        return value
    if hasattr(value, "__iter__"):
        return [frozen(v) for v in value]
    return repr(value)


def call(case, diagram, op):
    kind, name, k = op
    nodes, flows = list(diagram.get_nodes()), list(diagram.get_flows())
    if kind == "count":
        import bpmn_python.bpmn_diagram_metrics as metrics
        return frozen(getattr(metrics, name)(diagram))
    if kind == "layout":
        import bpmn_python.diagram_layout_metrics as metrics
        if name.startswith("compute") and (len(nodes) > 14 or len(flows) > 20):
            return None
        if name.startswith("count") and not all("waypoints" in a for _, _, a in flows):
            return None
        return frozen(getattr(metrics, name)(diagram))
    if kind == "query":
        node = nodes[k % len(nodes)] if nodes else ("x", {"type": "task", "process": "p"})
        flow = flows[k % len(flows)][2] if flows else {"id": "f", "process": "p"}
        if name == "positions" and not all("x" in a for _, a in nodes):
            return None
        return frozen({
            "nodes": diagram.get_nodes, "nodes of type": lambda: diagram.get_nodes(node[1]["type"]),
            "ids of type": lambda: diagram.get_nodes_id_list_by_type(node[1]["type"]),
            "node": lambda: diagram.get_node_by_id(node[0]),
            "nodes of process": lambda: diagram.get_nodes_list_by_process_id(node[1]["process"]),
            "flows": diagram.get_flows, "flow": lambda: diagram.get_flow_by_id(flow["id"]),
            "flows of process": lambda: diagram.get_flows_list_by_process_id(flow.get("process")),
            "positions": diagram.get_nodes_positions}[name]())
    if name == "xml":
        return snap.export_xml(diagram)
    if name == "xml_no_di":
        return snap.export_xml(diagram, no_di=True)
    if name == "csv":
        return snap.export_csv(diagram) if case["source"]["kind"] == "tree" else None
    if name == "dot":
        return dots.dot_text(diagram, "d")
    if name == "png":
        return dots.png_source(diagram, "d")
    if name == "show":
        return picture.shown(diagram) if all("x" in a for _, a in nodes) and nodes else None
    raise AssertionError(name)


def attempt(case, diagram, op):
    try:
        return ["value", call(case, diagram, op)]
    except ZeroDivisionError:
        return ["undefined", None]


def run(case):
    diagram = sources.make(case["source"])
    before = snap.raw(diagram)
    for op in case["ops"]:
        first = attempt(case, diagram, op)
        unchanged(before, diagram, op)
        second = attempt(case, diagram, op)
        unchanged(before, diagram, op)
        if first != second:
            fail("the same call gives another answer the second time", call=op, first=first, second=second)
    info = sources.describe(case["source"], diagram)
    info["labels"] += sorted(set(op[1] for op in case["ops"]))
    info["nontrivial"] = info["nontrivial"] and len(set(op[1] for op in case["ops"])) >= 2
    return info


def unchanged(before, diagram, op):
    after = snap.raw(diagram)
    if before != after:
        fail("the diagram was changed by a read-only call", call=op, difference=core.diff(after, before))
