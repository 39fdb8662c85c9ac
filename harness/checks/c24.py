"""C24: invalid input is refused and leaves everything as it was."""
import os
import re
import shutil
import xml.parsers.expat

from hypothesis import strategies as st

from harness import blocks, core, model, snap, sources
from harness.core import fail
from harness.strat import NAME, fraction

ID = "C24"
RULE = ("Cases are diagrams from every producer and an invalid call: a gateway (all kinds) with a direction outside the list "
        "(spelling variants, other types), a sequence flow with one or two ids that are no node of the diagram (near misses, "
        "ids of flows, processes and other diagrams), a CSV export with zero or several nodes without incoming flows, a "
        "generated CSV description changed so that a row leads nowhere, an XML file that is missing, cut, damaged so that "
        "expat refuses it, or has no diagram or plane. The call has to raise, the ordered state of the diagram and all "
        "files in the output folder stay as they were, and the corrected call is accepted afterwards where there is one. "
        "Non-trivial: the input was invalid by the oracle and the diagram has at least 2 nodes.")
ASSUMPTIONS = ["the own error of the library is BpmnPythonError", "a CSV load that fails may leave the diagram half filled"]
BUDGET = {"quick": 6000, "thorough": 150000}
GATEWAYS = ["exclusive", "inclusive", "parallel"]
_DIRECTION = st.one_of(
    st.sampled_from(["unspecified", "Converging ", "DIVERGING", "", "mixed", "None", " Mixed", "Unspecified,Mixed", "Con",
                     "verging", "Mixed\n", "unidentified", None, 0, True, 5]),
    NAME.filter(lambda t: t not in model.DIRECTIONS))
_NEAR = st.sampled_from(["absent", "case", "prefix", "longer", "space", "flow", "process", "empty", "none", "type", "name"])


@st.composite
def broken_rows(draw):
    rows = draw(blocks.csv_rows(goto=False, short=draw(st.booleans())))
    for _ in range(draw(st.integers(1, 2))):
        at = draw(st.integers(1, len(rows) - 1)) if len(rows) > 1 else 0
        how = draw(st.integers(0, 3))
        if how == 0 and len(rows) > 2:
            del rows[at]
        elif how < 3:
            ends = [i for i, r in enumerate(rows) if r[5] == "yes"]
            if ends:
                rows[draw(st.sampled_from(ends))][5] = draw(st.sampled_from(["", "no", "y"]))
        else:
            number = re.match(r"(.*?)(\d+)$", rows[at][0])
            if number and not any(r[0] == number.group(1) + str(int(number.group(2)) + 5) for r in rows):
                rows[at][0] = number.group(1) + str(int(number.group(2)) + 5)
    return rows


@st.composite
def bad_call(draw):
    kind = draw(st.sampled_from(["direction", "flow", "flow", "csv export", "csv export", "xml", "xml", "csv"]))
    if kind == "direction":
        return [kind, draw(st.sampled_from(GATEWAYS)), draw(_DIRECTION), draw(st.booleans())]
    if kind == "flow":
        return [kind, draw(st.sampled_from(["source", "target", "both"])), draw(_NEAR), draw(_NEAR), draw(st.integers(0, 30))]
    if kind == "csv export":
        return [kind, draw(st.booleans()), draw(st.booleans())]
    if kind == "csv":
        return [kind, draw(broken_rows())]
    how = draw(st.sampled_from(["missing", "folder", "empty", "cut", "cut", "char", "char", "delete", "no diagram",
                                "no plane", "swap"]))
    doc = draw(model.document(max_nodes=4, max_processes=2, depth=1))
    return [kind, how, doc, draw(st.integers(0, 100000)), draw(st.sampled_from("<>&\"'\0\x01]/= "))]


def strategy():
    small = st.one_of(sources.from_doc(max_nodes=4, max_processes=2, depth=1), sources.from_build(max_ops=12),
                      sources.from_csv(), sources.from_tree())
    return st.fixed_dictionaries({"source": small, "call": bad_call()})


# ------------------------------------------------------------------------------------------------------------- oracle
def leads_on(order, orders):
    """Is there a row at which the process goes on after the row?"""
    parts = re.findall(r"(\d+)([a-z]?)", order)
    last = parts[-1]
    levels = parts
    if last[1] == "":
        head = "".join(n + l for n, l in parts[:-1])
        follow = head + str(int(last[0]) + 1)
        if follow in orders or follow + "a" in orders or follow + "a1" in orders:
            return True
        levels = parts[:-1]
    for i in range(len(levels)):
        if "".join(n + l for n, l in levels[:i]) + str(int(levels[i][0]) + 1) in orders:
            return True
    return False


def damaged(data, how, at, char):
    if how == "empty":
        return b""
    if how == "cut":
        return data[:at % len(data)]
    at %= len(data)
    if how == "char":
        return data[:at] + char.encode("ascii") + data[at:]
    if how == "delete":
        return data[:at] + data[at + 1 + at % 7:]
    if how == "swap":
        return data[:at] + data[at:at + 5][::-1] + data[at + 5:]
    name = b"BPMNDiagram" if how == "no diagram" else b"BPMNPlane"
    return re.sub(rb"(</?(?:[^\s<>:]+:)?)" + name + rb"\b", rb"\1Other", data)


def well_formed(data):
    parser = xml.parsers.expat.ParserCreate()
    try:
        parser.Parse(data, True)
        return True
    except (xml.parsers.expat.ExpatError, LookupError, ValueError):  # the last two: an encoding nobody knows
        return False


def refused(what, call, own):
    import bpmn_python.bpmn_diagram_exception as exceptions
    try:
        call()
    except exceptions.BpmnPythonError:
        return
    except Exception as exc:
        if own:
            fail(what + " was not refused with the error of the library", error=core.describe(exc))
        return
    fail(what + " was accepted")


def listing(folder):
    out = {}
    for base, _, files in os.walk(folder):
        out[os.path.relpath(base, folder)] = None
        for name in files:
            with open(os.path.join(base, name), "rb") as f:
                out[os.path.relpath(os.path.join(base, name), folder)] = f.read()
    return out


def near_miss(diagram, kind, k):
    nodes = list(diagram.diagram_graph.nodes(data=True))
    node_id, attrs = nodes[k % len(nodes)] if nodes else ("n", {"type": "task", "node_name": "x"})
    flows = [a["id"] for _, _, a in diagram.get_flows()]
    value = {"absent": "nowhere", "case": node_id.swapcase(), "prefix": node_id[:-1], "longer": node_id + "1",
             "space": node_id + " ", "flow": flows[k % len(flows)] if flows else "f",
             "process": sorted(diagram.process_elements)[0] if diagram.process_elements else "p", "empty": "", "none": None,
             "type": attrs["type"], "name": attrs["node_name"]}[kind]
    return value if value not in diagram.diagram_graph else "nowhere at all"


def run(case):
    diagram = sources.make(case["source"])
    nodes = list(diagram.get_nodes())
    call = case["call"]
    kind = call[0]
    labels = [kind]
    before = snap.raw(diagram)
    invalid = True
    if kind == "direction":
        _, gateway, direction, with_id = call
        add = getattr(diagram, "add_%s_gateway_to_diagram" % gateway)
        process = sorted(diagram.process_elements)[0] if diagram.process_elements else "p"
        kwargs = {"node_id": "brand new"} if with_id else {}
        refused("gateway direction %r" % (direction,),
                lambda: add(process, gateway_name="g", gateway_direction=direction, **kwargs), True)
    elif kind == "flow":
        _, which, one, two, k = call
        good = nodes[k % len(nodes)][0] if nodes else "nobody"
        source = near_miss(diagram, one, k) if which in ("source", "both") else good
        target = near_miss(diagram, two, k) if which in ("target", "both") else good
        labels.append("unknown " + which)
        process = sorted(diagram.process_elements)[0] if diagram.process_elements else "p"
        refused("flow from %r to %r" % (source, target),
                lambda: diagram.add_sequence_flow_to_diagram(process, source, target, "f"), True)
    elif kind == "csv export":
        starts = [n for n, a in nodes if not a["incoming"]]
        if len(starts) == 1:
            # make a second one, or none
            if call[1]:
                diagram.add_task_to_diagram(nodes[0][1]["process"], "another start", node_id="second start")
            else:
                diagram.add_sequence_flow_to_diagram(nodes[0][1]["process"], nodes[-1][0], starts[0])
            before = snap.raw(diagram)
        labels.append("no start" if not [1 for _, a in diagram.get_nodes() if not a["incoming"]] else "several starts")
        folder = core.scratch() + "refused"
        shutil.rmtree(folder, ignore_errors=True)
        fresh = len(call) > 2 and call[2]
        if not fresh:
            os.mkdir(folder)
        if call[1] and not fresh:
            with open(folder + "/out.csv", "w") as f:
                f.write("precious")
        files = listing(core.scratch())
        refused("CSV export without exactly one start", lambda: diagram.export_csv_file(folder + "/", "out.csv"), True)
        if listing(core.scratch()) != files:
            fail("a refused export changed a file", before=sorted(files), after=sorted(listing(core.scratch())))
    elif kind == "csv":
        rows = call[1]
        orders = [r[0] for r in rows]
        stuck = [r[0] for r in rows if r[5] != "yes" and not leads_on(r[0], orders)]
        invalid = bool(stuck)
        if invalid:
            refused("CSV description in which %s lead nowhere" % stuck,
                    lambda: snap.load_csv(blocks.write_rows(rows)), True)
        else:
            labels.append("not broken")
    else:
        _, how, doc, at, char = call
        path = core.scratch() + "broken.bpmn"
        labels.append(how)
        if os.path.exists(path):
            os.remove(path)
        if how == "missing":
            path = core.scratch() + "no such file.bpmn"
        elif how == "folder":
            path = core.scratch()
        else:
            data = damaged(model.render(doc, 0), how, at, char)
            invalid = how in ("no diagram", "no plane") or not well_formed(data)
            with open(path, "wb") as f:
                f.write(data)
        if invalid:
            files = listing(core.scratch())
            refused("XML file (%s)" % how, lambda: diagram.load_diagram_from_xml_file(path), False)
            if listing(core.scratch()) != files:
                fail("a refused load changed a file")
    after = snap.raw(diagram)
    if after != before:
        fail("a refused call changed the diagram", call=call[:2], difference=core.diff(after, before))
    return {"nontrivial": invalid and len(nodes) >= 2, "labels": labels}
