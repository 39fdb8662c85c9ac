"""C18: CSV export writes each step once, numbered by its place in the process."""
import csv
import io
import random

from hypothesis import strategies as st

from harness import blocks, snap
from harness.core import expect_equal, fail

ID = "C18"
RULE = ("Cases are block-structured processes built through the API (nested exclusive/inclusive/parallel splits, "
        "gateway or activity joins, terminated branches, branches that lead directly to the join, default flows, "
        "conditions as names or expressions, message/timer events, steps nothing follows, odd texts, chains of up to 130 steps), half of them with "
        "some tasks and gateways of other kinds, some after a trip through XML, exported and compared row by row with "
        "rows computed from the tree. Non-trivial: at least one split and 4 rows.")
ASSUMPTIONS = ["one start event; steps are tasks (of any kind) and sub-processes", "branches start with a step or lead to the join",
               "a branch leads directly to the join only if the join is not followed by another split",
               "at most some 170 steps on one way (known finding KF2)"]
BUDGET = {"quick": 6000, "thorough": 150000}


def strategy():
    return st.fixed_dictionaries({"tree": blocks.lengthened(st.one_of(
        blocks.api_tree(), blocks.api_tree(depth=4), blocks.api_tree(stop=True), blocks.api_tree(depth=1),
        blocks.api_tree(depth=7, thin=True)), []),
                                  "kinds": st.one_of(st.just(0), st.integers(1, 10 ** 6)),
                                  "reload": st.sampled_from([False, False, True])})


def vary_kinds(diagram, seed):
    """Turns some tasks and exclusive gateways into other kinds of tasks and gateways."""
    rnd = random.Random(seed)
    for _, node in diagram.get_nodes():
        if node["type"] == "task" and rnd.random() < 0.5:
            node["type"] = rnd.choice(["userTask", "serviceTask", "manualTask"])
        elif node["type"] == "exclusiveGateway" and rnd.random() < 0.3:
            if node["default"] is None and rnd.random() < 0.5:
                node["type"] = "eventBasedGateway"
                node["instantiate"], node["eventGatewayType"] = "false", "Exclusive"
            else:
                node["type"] = "complexGateway"


def read(data):
    rows = list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))
    if not rows or rows[0] != blocks.HEADER:
        fail("header", got=rows[:1])
    return rows[1:]


def run(case):
    case = dict(case, tree=blocks.add_chain(case["tree"], case.get("chain", 0), []))
    diagram = snap.new_diagram()
    blocks.Builder(diagram, case["tree"])
    if case.get("kinds"):
        vary_kinds(diagram, case["kinds"])
    if case.get("reload"):
        diagram = snap.load_xml(snap.export_xml(diagram))
    reference = blocks.Rows(case["tree"])
    expect_equal("exported and expected rows", read(snap.export_csv(diagram)), reference.rows)
    return {"nontrivial": bool(reference.kinds) and len(reference.rows) >= 4,
            "labels": sorted(reference.kinds) + ["depth %d" % reference.depth]}
