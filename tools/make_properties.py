#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
import os

IMP = "bpmn_python/bpmn_diagram_import.py"
EXP = "bpmn_python/bpmn_diagram_export.py"
REP = "bpmn_python/bpmn_diagram_rep.py"
LAY = "bpmn_python/bpmn_diagram_layouter.py"
MET = "bpmn_python/bpmn_diagram_metrics.py"
LM = "bpmn_python/diagram_layout_metrics.py"
CI = "bpmn_python/bpmn_process_csv_import.py"
CE = "bpmn_python/bpmn_process_csv_export.py"
VIS = "bpmn_python/bpmn_diagram_visualizer.py"
UT = "bpmn_python/bpmn_import_utils.py"
CL = "bpmn_python/graph/classes"

P = []


def prop(pid, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})


prop("C01", "XML import represents every process element of the file, and nothing else",
     "Loading a BPMN 2.0 XML file yields exactly the processes, flow nodes (tasks and their user/service/manual "
     "variants, sub-processes nested to any depth, data objects, all five gateway kinds, start/end/intermediate/"
     "boundary events) and sequence flows written in the file, each once, under its own id, type and parent, with "
     "its name, type-specific attributes, event definitions, condition expression, shape bounds and waypoints as "
     "written. Attributes absent from the file get the BPMN defaults. The incoming and outgoing lists of a node hold "
     "exactly the flows that end and start there, in the order the file lists them, also when the file does not list "
     "them under the node.",
     ["inputs"], "every well-formed BPMN 2.0 file made of the supported elements, with at most one sequence flow per "
     "ordered pair of nodes, any ids, names, nesting, attribute subsets and DI subsets",
     "The tests load about a dozen fixed files from a few editors and compare a few hand-picked attributes of a few "
     "elements; element kinds, attribute combinations, nesting depths and missing optional parts are unbounded.",
     [IMP, UT, REP], [("one import routine per element kind, dispatched on the tag name", IMP + ": load_diagram_from_xml")],
     ["diagram_graph nodes and edges, sequence_flows, process_elements, diagram_attributes, plane_attributes"])

prop("C02", "Pools, lanes and message flows survive XML import and re-export",
     "Loading a file with a collaboration yields exactly its participants, message flows and (nested) lanes, with "
     "names, references, lane membership, orientation and bounds as written, and connects message flows to the nodes "
     "or black-box participants they refer to, wherever they appear in the document. Exporting the diagram and "
     "loading the result gives the same collaboration and lanes.",
     ["inputs"], "every collaboration with any number of white-box and black-box participants, message flows between "
     "different pools, lane sets nested to any depth, with or without shapes",
     "The tests have three fixed files with lanes and check counts and a handful of names; nesting, black-box pools, "
     "missing shapes and document order are not varied.",
     [IMP, EXP], [("import of collaboration, lane sets and lanes", IMP + ": import_collaboration_element, import_lane_element"),
                  ("export of collaboration and lanes", EXP + ": export_xml_file, export_lane")],
     ["collaboration, process_elements[...]['laneSet'], participant nodes, message flow edges, exported file"])

prop("C03", "XML import does not depend on how the document is written",
     "Two XML documents with the same BPMN content load into equal diagrams, no matter which namespace prefixes they "
     "use, how attributes and sibling elements of different kinds are ordered, what whitespace, comments, processing "
     "instructions, CDATA sections, character references, encoding declarations, documentation or extension elements, "
     "labels and unsupported elements they contain.",
     ["inputs"], "every supported document and every combination of these presentation choices",
     "Each fixture is written by one editor in one style, so a style dependence is visible only if that style happens "
     "to be in the fixtures.",
     [IMP, UT], [("namespace-insensitive matching and skipping of foreign nodes",
                  UT + ": iterate_elements, remove_namespace_from_tag_name, get_text_content")],
     ["all public attributes of the loaded diagram"])

prop("C04", "Exported XML says exactly what the diagram says",
     "Exporting a diagram writes a well-formed, namespace-correct BPMN 2.0 document which, read by an independent "
     "parser, contains each process, node, sequence flow, condition, event definition, lane, participant and message "
     "flow of the diagram exactly once in its own parent with the diagram's current values, text escaped so that it "
     "reads back unchanged. It contains one shape with the right bounds per element that has bounds and one edge with "
     "the right waypoints in order per flow that has them, no other, and ids are unique and references resolve.",
     ["inputs", "histories"], "every diagram that was loaded, built with the API, or edited through the attribute "
     "dictionaries the API hands out",
     "Tests export a few diagrams and only re-import them with the library itself, where symmetric errors cancel out.",
     [EXP, REP], [("one export routine per element kind", EXP + ": export_xml_file, export_node_data, export_flow_process_data, export_node_di_data, export_flow_di_data")],
     ["the exported file"])

prop("C05", "Export to XML and re-import is lossless and stable",
     "Exporting any diagram to XML and loading the file gives a diagram equal to the original in every processes', "
     "nodes', flows', lanes', participants' and layout attribute, except that a conditional flow without a name takes "
     "the condition text as its name and a drawn sub-process without an isExpanded mark gets the value false. Exporting "
     "the loaded diagram gives the same content and, if all sequence flows stay within one process or sub-process, from "
     "then on the same file byte for byte, however often it is repeated.",
     ["inputs", "histories"], "every diagram loaded from XML, built with the API, or laid out by the library, and "
     "every number of export/import cycles",
     "Tests round-trip a few fixed files and compare a few attributes of them.",
     [EXP, IMP, REP], [("export and import agree on element names, attributes and defaults", EXP + " / " + IMP)],
     ["public attributes of the re-loaded diagram, bytes of the re-exported file"])

prop("C06", "Export without layout data keeps the whole process content",
     "Exporting without diagram-interchange data writes each process, node, sequence flow, event definition and "
     "condition of the diagram exactly once in its own parent with the same attributes and text as the full export, "
     "and no shape, edge, bounds or waypoint. It does not require that elements have layout data.",
     ["inputs"], "every diagram, with any number of processes and nesting of sub-processes",
     "Tests call this export and never look at what is in the file.",
     [EXP], [("process part of the export shared with the full export", EXP + ": export_xml_file_no_di")],
     ["the exported file"])

prop("C07", "The diagram-building API does exactly what each call says",
     "After any sequence of create/add calls the diagram contains exactly the processes, nodes and sequence flows "
     "added since it was last created, with the given names, types, options and parents, the documented defaults for "
     "the rest, and default bounds and waypoints; each call changes nothing else. Every call returns the id of the "
     "new element, unique in the diagram and equal to the one asked for if one was given, and a live view of its attributes.",
     ["histories"], "every sequence of API calls with any arguments, any number of processes, at most one sequence "
     "flow per ordered pair of nodes (self-loops included)",
     "Tests build three fixed diagrams and look at a few attributes at the end.",
     [REP], [("add_*_to_diagram methods", REP)],
     ["return values and public attributes of the diagram after every call"])

prop("C08", "Nodes, flows and flow lists of a diagram always agree",
     "In every diagram the library produces, each sequence or message flow has one id, connects two existing nodes, "
     "is listed exactly once as outgoing at its source and as incoming at its target and nowhere else, and is "
     "recorded in the flow dictionaries with the same name, source and target. Every node is stored under its own id "
     "and belongs to an existing process, sub-process or participant.",
     ["inputs", "histories"], "every diagram obtained by XML import, CSV import, API calls, layout generation, and "
     "chains of these",
     "Tests check the lists of a few nodes in a few files; the redundancy has to be consistent for every producer.",
     [REP, IMP, CI, LAY], [("double bookkeeping of flows in edges, flow dictionary and node lists",
                            IMP + ": import_sequence_flow_to_graph; " + REP + ": add_sequence_flow_to_diagram; " + CI + ": add_connection, remove_node")],
     ["diagram_graph, sequence_flows, collaboration"])

prop("C09", "Queries return exactly the elements that match",
     "Asking a diagram for its nodes (all, of a type, ids of a type, of a process), a node by id, its flows (all, of "
     "a process), a flow by id, or node positions returns exactly the matching elements, each once, with its current "
     "attributes, in a stable order, and nothing (or an empty result) when none matches.",
     ["inputs", "histories"], "every diagram and every query argument, including ids and types that are prefixes of "
     "each other, differ in case or do not exist",
     "Tests query a few fixed diagrams with arguments that exist.",
     [REP], [("query methods filter nodes and edges by attribute", REP)],
     ["return values of the query methods"])

prop("C10", "Queries, metrics, exports and rendering never change the diagram",
     "Calling any query, metric or XML/CSV/DOT/PNG export on a diagram, or showing it, leaves every attribute of the diagram, its nodes, "
     "flows, lists and their order exactly as they were, so that repeating the call gives the same answer.",
     ["inputs", "histories"], "every diagram and every sequence of such calls, including ones that are rejected",
     "Tests call each of these once on a fresh diagram and do not compare the diagram before and after.",
     [REP, EXP, CE, MET, LM, VIS], [("deep copies before destructive traversal", LM + ", " + CE), ("read-only traversal", EXP)],
     ["all public attributes of the diagram before and after"])

prop("C11", "Layout succeeds for every process and only sets positions",
     "Generating a layout terminates without error for every diagram without black-box pools, whatever its loops, "
     "splits, joins, dead ends and disconnected parts, and gives each node its own place so that no two nodes share a position. It changes "
     "only node coordinates and flow waypoints: ids, names, types, sizes (100 x 100 where there was none), flows and all other "
     "attributes stay as they were, and so does the layout when it is generated again.",
     ["inputs"], "every directed graph of flow nodes of all supported types, sequence flows with at most one per ordered pair of "
     "distinct nodes, without black-box pools",
     "Tests lay out a few fixed diagrams and only check that nothing is raised.",
     [LAY, "bpmn_python/grid_cell_class.py"], [("topological sort with loop breaking, grid placement with row insertion", LAY + ": topological_sort, grid_layout, insert_into_grid")],
     ["node x/y, flow waypoints, everything else before and after"])

prop("C12", "Generated layout is an aligned grid read from left to right",
     "A generated layout puts nodes on a grid of 150 x 100 units, nodes without predecessors (and one node of "
     "each loop that nothing leads into) in its first column, a node with one predecessor in the column right after it, "
     "and a chain of nodes in one row; in a process without loops and without a split connected directly to a join every "
     "flow runs strictly left to right and each join comes right after the last of its predecessors. Each flow is drawn "
     "from the centre of the 100 x 100 cell of its source to the middle of the left or top side of that of its target: one straight "
     "line, except that it runs in a vertical and a horizontal piece where it leaves an exclusive, inclusive or parallel "
     "gateway, and in a horizontal and a vertical piece where it enters one from another row.",
     ["inputs"], "every process graph without pools; the left-to-right part for every acyclic one of that kind",
     "Tests never look at the computed coordinates.",
     [LAY], [("column of a node derived from its predecessors, waypoints from node positions", LAY + ": place_element_in_grid, set_flows_waypoints")],
     ["node x/y and flow waypoints after layout"])

prop("C13", "Counting metrics equal the number of elements in the diagram",
     "Every counting metric (nodes per type or overall, activities, gateways and events per type and overall, control-flow elements, "
     "TNSE, TNIE, TNEE, TNE, NOA, NOAC, NOAJS, number of nodes) equals the number of elements of the kinds it is "
     "defined over that are in the diagram, and related metrics add up.",
     ["inputs", "histories"], "every diagram, including empty ones and ones with several processes or nested sub-processes",
     "Tests compare the metrics with constants for four diagrams.",
     [MET], [("counts of nodes by type", MET)], ["return values of the metrics"])

prop("C14", "Structural complexity metrics match their published definitions",
     "Gateway heterogeneity is the number of gateway kinds present, the coefficient of network complexity is flows "
     "per node, the average gateway degree is the mean of incoming plus outgoing flows over all gateways, the Durfee square is the "
     "largest d such that d element types occur at least d times each, and the perfect square is the largest p such "
     "that the p most frequent types together occur at least p*p times.",
     ["inputs"], "every diagram for which the metric is defined (a node, respectively a gateway, exists)",
     "Tests compare with constants for four diagrams.",
     [MET], [("histogram of element types", MET + ": DurfeeSquare_metric, PerfectSquare_metric"), ("degrees of the graph", MET + ": AverageGatewayDegree_metric")],
     ["return values of the metrics"])

prop("C15", "Longest-path metrics return a real and longest path",
     "The longest path is a sequence of distinct nodes that starts at a node without incoming flows, follows flows in "
     "their direction and ends at a node without outgoing flows, the reported length is its number of nodes, and no "
     "such path is longer (0 and an empty path if there is none). The longest path over activities lists the tasks "
     "and sub-processes, in order, of one path without repeated nodes from a node without incoming flows, and no such path has more of them.",
     ["inputs"], "every diagram, with any splits, joins, loops, self-loops, dead ends and disconnected parts",
     "Tests compare the length with a constant for a few diagrams.",
     [LM], [("exhaustive path search", LM + ": find_longest_path, find_longest_path_tasks")],
     ["return values of the metrics"])

prop("C16", "Crossing and segment counts match the drawn geometry exactly",
     "The number of segments is the number of straight pieces of all flow lines, and the number of crossing points is "
     "the number of pairs of such pieces, from the same or different flows, that meet (cross, touch or overlap) "
     "without sharing an endpoint, whatever their slopes, directions, lengths, coordinates and number formats.",
     ["inputs"], "every diagram in which every flow has waypoints",
     "Tests compare with constants for a few diagrams with mostly horizontal and vertical lines.",
     [LM], [("orientation test for two segments", LM + ": do_intersect, orientation, lies_on_segment")],
     ["return values of the metrics"])

prop("C17", "CSV import builds the process the spreadsheet describes",
     "Loading a CSV process description yields one node per activity row, with the row's order number as its id, the text of its cells "
     "as written and the event, sub-process or task type the row asks for, consecutive rows connected, and a gateway before "
     "every group of lettered branches (exclusive, inclusive or parallel as their conditions imply) and before the "
     "row at which two or more of them meet again, at the right nesting level. Conditions are attached to the flows "
     "of their branches, goto rows become flows to their target, and no other node or flow exists.",
     ["inputs"], "every block-structured description with any nesting, up to 26 branches per split, branches of any "
     "length, terminated branches, goto rows, any cell texts",
     "Tests load five fixed spreadsheets and check nothing but that loading does not fail.",
     [CI], [("successor of a row computed from its order number", CI + ": fill_graph_connections"), ("goto and trivial gateways removed afterwards", CI + ": remove_goto_nodes, remove_unnecessary_merge_gateways")],
     ["public attributes of the loaded diagram"])

prop("C18", "CSV export writes each step once, numbered by its place in the process",
     "Exporting a block-structured process with one start, in which each end event is entered by one flow, to CSV writes a row for the start, every task (of any kind), sub-process "
     "and end event exactly once, in an order in which it can be followed, numbered by position and prefixed by the "
     "branch it lies in, with its name as text, the condition of its branch ('else' for a default flow, none after a "
     "parallel gateway), the sub-process and terminated marks, and a goto row for a branch that leads directly to the join.",
     ["inputs"], "every block-structured process of the supported element kinds with nested splits, up to 26 branches, "
     "branches that end, join or are empty",
     "Tests export a few fixed diagrams and do not compare the written rows.",
     [CE, UT], [("recursive export with order and prefix", CE + ": export_node, export_element")],
     ["the exported file, parsed by an independent CSV reader"])

prop("C19", "A process survives the trip through CSV",
     "Exporting a block-structured process to CSV and loading it gives a process with the same steps, types (start, task, "
     "sub-process, end), names, branch conditions and the same 'can follow' relation between steps, also after several "
     "trips if no branch leads directly to a join. Loading a CSV description without goto rows, in which two or more branches of a split meet "
     "again or none does, and exporting it writes the same rows again.",
     ["inputs", "histories"], "every block-structured process in which each split follows a step",
     "No test exports what it imported from CSV or the reverse.",
     [CE, CI], [("order numbers written by export are those read by import", CE + " / " + CI)],
     ["diagram after reload, rows after re-export"])

prop("C20", "DOT and PNG pictures show every node and flow with its name",
     "The DOT file of a diagram is valid Graphviz input that contains exactly the diagram's nodes and flows, with "
     "their directions and attributes, and the PNG picture is drawn from a graph with exactly the diagram's nodes and "
     "flows, labelled with their names, tasks as rounded boxes and exclusive gateways as diamonds. This holds "
     "whatever characters ids and names contain, and the file is written under the given name.",
     ["inputs"], "every diagram, any printable ids and names",
     "Tests draw a few fixed diagrams with plain names and never look at the output.",
     [VIS], [("conversion of the graph to Graphviz", VIS + ": bpmn_diagram_to_dot_file, bpmn_diagram_to_png")],
     ["the DOT file and the Graphviz source handed to the renderer, parsed by Graphviz"])

prop("C21", "Typed BPMN element objects accept exactly the documented values",
     "A typed element object starts with its documented defaults, every value accepted by a setter or constructor is "
     "what the getter returns, every value of another type than documented is refused with a TypeError and every "
     "text outside a documented list of values with a ValueError, and a refused or accepted call changes no other field and no other object.",
     ["inputs", "histories"], "every element class, every field and every sequence of setter calls with values of any type",
     "No test covers these classes.",
     [CL], [("checked setters", CL + ": set_* methods")],
     ["getters of the objects"])

prop("C22", "Results are reproducible across runs, processes and locations",
     "For the same input files, loading, laying out, measuring and exporting to XML and CSV give byte-identical files "
     "and equal values in every run, process and hash seed and for every directory, file name and number of repetitions.",
     ["inputs", "configurations"], "every input and every combination of hash seed, working directory, output "
     "location and earlier work in the same process",
     "Each test runs once in one interpreter with one hash seed and one output directory.",
     [IMP, EXP, LAY, CI, CE], [("ordered containers, no dependence on set order or global state", IMP + ", " + EXP)],
     ["bytes of exported files, returned values"])

prop("C23", "Diagrams are independent of each other",
     "Operations on one diagram object never affect another: interleaving any operations on several diagrams gives "
     "each the same state as running its own operations alone, in particular nothing from an earlier diagram appears "
     "in a new one. Creating a new diagram in an object that was used before discards everything that was in it.",
     ["histories"], "every interleaving of create, add, load, layout and export operations on several diagram objects",
     "Each test uses one diagram object.",
     [REP, IMP, CI], [("fresh containers per instance", REP + ": __init__, create_new_diagram_graph")],
     ["public attributes of all diagrams"])

prop("C24", "Invalid input is refused and leaves everything as it was",
     "A gateway direction outside the allowed list, a sequence flow whose source or target is not in the diagram, a CSV export of a diagram "
     "without exactly one node without incoming flows, a CSV description in which a step that is not terminated leads nowhere, and an XML file that is "
     "missing, ill-formed or without a diagram and plane element are refused with an error (the library's own one in the first four cases). A refused "
     "call of the building, exporting or XML-loading kind leaves the diagram unchanged and creates, truncates or "
     "overwrites no file or folder.",
     ["inputs", "histories"], "every such invalid argument or file, at any point of any history",
     "Tests contain no invalid input.",
     [REP, CE, CI, IMP], [("checks before the first change", REP + ": add_gateway_to_diagram, add_sequence_flow_to_diagram; " + CE + ": export_process_to_csv"), ("syntax errors", CI + ": fill_graph_connections")],
     ["raised exception, diagram and output directory before and after"])

prop("C25", "Generated layout spreads the branches of a split evenly around it",
     "In a process that is a sequence of steps and blocks, each block a split with two or more branches that are chains of "
     "at least one step and meet again in a join (in the last block they may also end without meeting), a generated "
     "layout puts all steps, splits and joins of the sequence in one row and each branch in a row of its own. The rows of "
     "the branches of a split lie at equal distances, as many above the row of the split as below it, and one in that row "
     "if their number is odd.",
     ["inputs"], "every such process, with any node types, branch numbers and lengths and any order of elements in the file",
     "Tests lay out three fixed diagrams and do not look at the result.",
     [LAY], [("placing of the successors of a split", LAY + ": place_element_in_grid")],
     ["node positions after layout"])

prop("C26", "Nodes are classified by their role in the process",
     "The classification of a diagram (the one for CSV export and the one for layout) has one entry for each flow node, "
     "labelled 'Element', and in addition 'Start Event' or 'End Event' if it is such an event, 'Join' if two or more flows "
     "lead to it and 'Split' if two or more flows leave it, with no other label and no other entry, whatever the type of "
     "the node; the classification for layout also has one entry for each flow.",
     ["inputs", "histories"], "every diagram, however it came about",
     "Tests use it only indirectly, with few node types.",
     [UT, LAY], [("labels", UT + ": generate_nodes_clasification, split_join_classification; " + LAY + ": generate_elements_clasification")],
     ["returned classification"])

prop("C27", "The shown picture has every node and flow in its place",
     "Showing a diagram draws each task and sub-process as a square, each exclusive, inclusive, parallel and complex "
     "gateway as a diamond and each event-based gateway, start, end and intermediate event as a circle, once and centred "
     "at the position of the node, the name of every node at its position, and for every flow one arrow from the position "
     "of its source to that of its target and its name half-way between them, and nothing else. The window is opened "
     "once, when all of this is drawn.",
     ["inputs", "histories"], "every diagram in which all nodes have a position, however it came about",
     "No test shows a diagram.",
     [VIS], [("drawing", VIS + ": visualize_diagram"), ("positions", REP + ": get_nodes_positions")],
     ["content of the matplotlib figure when it is shown"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
