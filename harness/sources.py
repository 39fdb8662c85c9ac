"""Diagrams from every producer of the library: cases are JSON, make(case) gives the diagram."""
import random

from hypothesis import strategies as st

from harness import build, model, snap
from harness.strat import COORD, NAME, fraction

# a name can also be the id or the name of some node, often the one that gets it
_TEXT = st.one_of(NAME, NAME, st.sampled_from(["own id", "id", "name"]).flatmap(
    lambda what: st.fixed_dictionaries({"same as": st.just(what), "of": st.integers(0, 60)})))
_EDIT = st.one_of(
    st.tuples(st.just("node"), st.integers(0, 60), st.sampled_from(["node_name"]), _TEXT),
    st.tuples(st.just("node"), st.integers(0, 60), st.sampled_from(["x", "y", "width", "height"]), COORD),
    st.tuples(st.just("flow"), st.integers(0, 60), st.just("name"), _TEXT),
    st.tuples(st.just("flow"), st.integers(0, 60), st.just("waypoints"),
              st.one_of(st.lists(st.tuples(COORD, COORD).map(list), min_size=1, max_size=4), model._POINTS)),
    st.tuples(st.just("flow"), st.integers(0, 60), st.just("condition"), NAME),
    st.tuples(st.just("process"), st.integers(0, 3), st.just("name"), NAME),
    st.tuples(st.just("default"), st.integers(0, 60), st.just("default"), st.integers(0, 5))).map(list)


def edits(max_size=4):
    return st.one_of(st.just([]), st.lists(_EDIT, max_size=max_size))


@st.composite
def from_doc(draw, layout=None, **kwargs):
    doc = draw(model.document(**kwargs))
    lay = doc["collab"] is None and (draw(st.booleans()) if layout is None else layout) and fraction(draw, 1, 2)
    return {"kind": "doc", "doc": doc, "style": 0, "layout": bool(lay), "edits": draw(edits())}


def from_big(most=60):
    return st.fixed_dictionaries({"kind": st.just("doc"), "doc": model.big(most), "style": st.just(0),
                                  "layout": st.just(False), "edits": edits(2)})


@st.composite
def from_build(draw, layout=None, max_ops=25):
    ops = draw(build.history(max_ops=max_ops, renew=False, defaults=False))
    if not any(op[0] == "process" for op in ops):
        ops.append(["process", {}])
    lay = draw(st.booleans()) if layout is None else layout
    return {"kind": "build", "ops": ops, "layout": bool(lay), "edits": draw(edits())}


@st.composite
def from_both(draw):
    """Built on top of a loaded diagram."""
    doc = draw(model.document(full_di=draw(st.booleans()), max_nodes=4, max_processes=2, depth=1))
    ops = draw(build.history(max_ops=10, base=doc, renew=False, defaults=False))
    return {"kind": "both", "doc": doc, "ops": ops, "layout": False, "edits": draw(edits(2))}


@st.composite
def from_csv(draw, layout=None):
    from harness import blocks
    rows = draw(blocks.csv_rows())
    lay = draw(st.booleans()) if layout is None else layout
    return {"kind": "csv", "text": blocks.write_rows(rows, 0), "layout": bool(lay), "edits": draw(edits(2))}


@st.composite
def from_tree(draw, layout=None, depth=2):
    """Block-structured process built through the API: can be exported to CSV."""
    from harness import blocks
    lay = draw(st.booleans()) if layout is None else layout
    return {"kind": "tree", "tree": draw(blocks.api_tree(depth=depth)), "layout": bool(lay), "edits": []}


@st.composite
def from_random(draw, least=8, most=60):
    """Large diagram of nodes of all kinds; the details follow from a number."""
    return {"kind": "random", "seed": draw(st.integers(0, 10 ** 6)), "nodes": draw(st.integers(least, most)),
            "flows": draw(st.integers(0, most + most // 4)), "mix": draw(st.sampled_from(["even", "few", "one"])),
            "layout": False, "edits": draw(edits(2)), "reload": draw(st.booleans())}


def make_random(case):
    rng = random.Random(case["seed"])
    diagram = snap.new_diagram()
    diagram.create_new_diagram_graph("big")
    containers = [diagram.add_process_to_diagram("p%d" % k) for k in range(rng.choice([1, 1, 2, 3]))]
    kinds = {"even": build.KINDS, "few": rng.sample(build.KINDS, 2), "one": [rng.choice(build.KINDS)]}[case["mix"]]
    ids = []
    numbers = list(range(case["nodes"]))
    if rng.random() < 0.5:
        rng.shuffle(numbers)
    calls = {"task": diagram.add_task_to_diagram, "subProcess": diagram.add_subprocess_to_diagram,
             "startEvent": diagram.add_start_event_to_diagram, "endEvent": diagram.add_end_event_to_diagram,
             "exclusiveGateway": diagram.add_exclusive_gateway_to_diagram,
             "inclusiveGateway": diagram.add_inclusive_gateway_to_diagram,
             "parallelGateway": diagram.add_parallel_gateway_to_diagram}
    for k in numbers:
        kind = rng.choice(kinds)
        parent = rng.choice(containers)
        name = "n%d" % (k if rng.random() < 0.5 else k // 2) if rng.random() < 0.1 else "N%d" % (k // 2)
        ids.append(calls[kind](parent, name, node_id="n%d" % k)[0])
        if kind == "subProcess" and rng.random() < 0.3:
            containers.append(ids[-1])
    pairs = set()
    hub, way = rng.choice(ids), rng.randrange(4)
    for _ in range(case["flows"]):
        pair = (rng.choice(ids), rng.choice(ids[:1 + rng.randrange(len(ids))]))
        if way == 1 and rng.random() < 0.6:
            pair = (hub, pair[0])
        elif way == 2 and rng.random() < 0.6:
            pair = (pair[0], hub)
        if pair not in pairs:
            pairs.add(pair)
            attrs = diagram.diagram_graph.nodes[pair[0]]
            where = rng.choice(containers) if rng.random() < 0.1 else attrs["process"]
            diagram.add_sequence_flow_to_diagram(where, pair[0], pair[1], rng.choice(["", "f", "yes"]))
    return snap.load_xml(snap.export_xml(diagram)) if case["reload"] else diagram


def any_diagram():
    return st.one_of(from_doc(), from_doc(), from_doc(max_nodes=8, depth=2), from_build(), from_build(), from_both(), from_csv(),
                     from_random())


def make(case):
    kind = case["kind"]
    if kind == "doc":
        diagram = snap.load_xml(model.render(model.full(case["doc"]), case["style"]))
    elif kind == "build":
        diagram = snap.new_diagram()
        build.run(diagram, case["ops"])
    elif kind == "both":
        diagram = snap.load_xml(model.render(case["doc"], 0))
        build.run(diagram, case["ops"], case["doc"])
    elif kind == "random":
        diagram = make_random(case)
    elif kind == "tree":
        from harness import blocks
        diagram = snap.new_diagram()
        blocks.Builder(diagram, case["tree"])
    else:
        diagram = snap.load_csv(case["text"])
    if case["layout"]:
        import bpmn_python.bpmn_diagram_layouter as layouter
        layouter.generate_layout(diagram)
    apply_edits(diagram, case["edits"])
    return diagram


def apply_edits(diagram, edit_list):
    """Direct edits of the attributes, through the views the library gives."""
    nodes = [n for n in diagram.get_nodes() if n[1]["type"] != "participant"]
    flows = list(diagram.get_flows())
    processes = list(diagram.process_elements.items())
    for kind, index, key, value in edit_list:
        if isinstance(value, dict) and not nodes:
            continue
        if isinstance(value, dict):
            node, attrs = nodes[(index if value["same as"] == "own id" and kind == "node" else value["of"]) % len(nodes)]
            value = attrs["node_name"] if value["same as"] == "name" else node
        if kind == "node" and nodes:
            attrs = nodes[index % len(nodes)][1]
            if key == "node_name" or key in attrs:
                attrs[key] = value
        elif kind == "flow" and flows:
            attrs = flows[index % len(flows)][2]
            sequence = attrs["id"] in diagram.sequence_flows
            if key == "name":
                attrs["name"] = value
                record = diagram.sequence_flows if sequence else diagram.collaboration["messageFlows"]
                record[attrs["id"]]["name"] = value
            elif key == "waypoints":
                attrs["waypoints"] = [tuple(p) for p in value]
            elif key == "condition" and sequence:
                attrs["conditionExpression"] = {"id": attrs["id"] + "_edited", "conditionExpression": value}
        elif kind == "process" and processes:
            processes[index % len(processes)][1]["name"] = value
        elif kind == "default" and nodes:
            attrs = nodes[index % len(nodes)][1]
            mine = [f for f in attrs["outgoing"] if f in diagram.sequence_flows]
            if attrs["type"] in model.WITH_DEFAULT and mine:
                attrs["default"] = mine[value % len(mine)]


def describe(case, diagram):
    nodes, flows = len(diagram.get_nodes()), len(diagram.get_flows())
    labels = ["from " + case["kind"]]
    if case["layout"]:
        labels.append("laid out")
    if case["edits"]:
        labels.append("edited")
    if diagram.collaboration:
        labels.append("collaboration")
    if any("laneSet" in p for p in diagram.process_elements.values()):
        labels.append("lanes")
    return {"nontrivial": nodes >= 3 and flows >= 1, "labels": labels}
