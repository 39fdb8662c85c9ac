"""C19: a process survives the trip through CSV."""
import copy

from hypothesis import strategies as st

from harness import blocks, snap
from harness.checks import c18
from harness.core import expect_equal

ID = "C19"
RULE = ("Two thirds of the cases are block-structured processes built through the API with distinct names, exported to CSV and "
        "loaded: steps, types, names and, for each step, the steps that can follow it with the branch conditions on the "
        "way are compared. The rest are CSV descriptions (nested branches, terminated rows, odd texts) that are loaded and "
        "exported: the rows have to be the same. Each is repeated 1-3 times. Non-trivial: a split and 4 steps.")
ASSUMPTIONS = ["block-structured processes with one start", "one trip where a branch leads directly to the join",
               "two splits in a row are separated by a step",
               "descriptions without goto rows, in which each group of branches that goes on has 2 or more open ends",
               "kinds of tasks, events and gateways are not kept by the format, apart from message and timer in the name"]
BUDGET = {"quick": 3200, "thorough": 100000}


KINDS = st.one_of(st.just(0), st.just(0), st.integers(1, 10 ** 6))


def strategy():
    once = st.fixed_dictionaries({
        "tree": blocks.lengthened(st.one_of(
            blocks.api_tree(adjacent=False), blocks.api_tree(adjacent=False, depth=4),
            blocks.api_tree(adjacent=False, depth=2), blocks.api_tree(adjacent=False, depth=7, thin=True)), []), "rounds": st.just(1), "kinds": KINDS})
    often = st.fixed_dictionaries({
        "tree": st.one_of(blocks.api_tree(adjacent=False, skip=False),
                          blocks.api_tree(adjacent=False, skip=False, depth=4)), "rounds": st.integers(2, 3), "kinds": KINDS})
    options = {"goto": False, "min_open": 2, "short": False, "midcond": False}
    imported = st.fixed_dictionaries({
        "csv": blocks.lengthened(st.one_of(
            blocks.csv_tree(**options), blocks.csv_tree(depth=4, **options),
            blocks.csv_tree(depth=7, thin=True, **options)), [""]), "rounds": st.integers(1, 3)})
    return st.one_of(once, often, imported)


def distinct_names(tree):
    """Each step gets its own name."""
    tree = copy.deepcopy(tree)
    count = [0]

    def mark(holder, index):
        count[0] += 1
        # names keep their beginning or their end
        holder[index] = "%s #%d" % (holder[index], count[0]) if count[0] % 2 else "%d# %s" % (count[0], holder[index])

    def visit(seq):
        for item in seq["items"]:
            if item[0] == "step":
                mark(item, 1)
            else:
                for branch in item[2]:
                    if branch["seq"] is not None:
                        visit(branch["seq"])
        if seq["end"] is not None:
            mark(seq["end"], 1)
    count[0] = len(str(tree)) % 2
    mark(tree["start"], 0)
    visit(tree["seq"])
    return tree


def condition(diagram, source, attrs):
    """Condition of a flow out of a split, as the CSV format knows it."""
    node = diagram.diagram_graph.nodes[source]
    if not node["type"].endswith("Gateway") or len(node["outgoing"]) < 2 or node["type"] == "parallelGateway":
        return ""
    if node.get("default") == attrs["id"]:
        return "else"
    return attrs.get("name") or attrs.get("conditionExpression", {}).get("conditionExpression", "")


def behaviour(diagram):
    """name -> [type, sorted list of (name of a step that can follow, conditions on the way)]"""
    graph = diagram.diagram_graph
    out = {}
    for node_id, attrs in graph.nodes(data=True):
        if attrs["type"].endswith("Gateway"):
            continue
        name = attrs["node_name"]
        for definition in attrs.get("event_definitions", []):
            kind = definition["definition_type"]
            if kind == "messageEventDefinition" or (kind == "timerEventDefinition" and attrs["type"] == "startEvent"):
                name = kind[:-len("EventDefinition")] + " " + name
        follow = set()
        stack = [(node_id, ())]
        while stack:
            at, conds = stack.pop()
            for _, target, edge in graph.out_edges(at, data=True):
                text = condition(diagram, at, edge)
                step = conds + ((text,) if text else ())
                if graph.nodes[target]["type"].endswith("Gateway"):
                    stack.append((target, step))
                else:
                    follow.add((target, step))
        out[node_id] = ["task" if attrs["type"].endswith("Task") else attrs["type"], name, follow]
    names = {n: v[1] for n, v in out.items()}
    return {v[1]: [v[0], sorted((names[t], list(c)) for t, c in v[2])] for v in out.values()}


def run(case):
    if "tree" in case:
        tree = distinct_names(case["tree"])
        diagram = snap.new_diagram()
        blocks.Builder(diagram, tree)
        if case.get("kinds"):
            c18.vary_kinds(diagram, case["kinds"])
        wanted = behaviour(diagram)
        splits = sum(1 for _, a in diagram.get_nodes() if a["type"].endswith("Gateway"))
        labels = ["export and import"]
        for i in range(case["rounds"]):
            diagram = snap.load_csv(snap.export_csv(diagram).decode("utf-8"))
            expect_equal("process after %d trips through CSV and original" % (i + 1), behaviour(diagram), wanted)
            labels.append("%d trips" % (i + 1))
        return {"nontrivial": len(wanted) >= 4 and splits > 0, "labels": labels}
    process = blocks.Process(case["csv"])
    text = blocks.write_rows(process.rows)
    labels = ["import and export"]
    for _ in range(case["rounds"]):
        data = snap.export_csv(snap.load_csv(text))
        expect_equal("rows exported and rows loaded", c18.read(data), process.rows)
        text = data.decode("utf-8")
    return {"nontrivial": len(process.rows) >= 4 and bool(process.gateways), "labels": labels}
