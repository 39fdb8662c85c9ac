"""C22: results are reproducible across runs, processes and locations."""
import atexit
import os
import re

from hypothesis import strategies as st

from harness import blocks, core, graphs, model, remote, snap
from harness.core import fail

ID = "C22"
RULE = ("Cases are XML documents (with pools, lanes and nested sub-processes; process graphs of all shapes; block-structured "
        "processes) and CSV descriptions. Each is loaded, optionally laid out, measured and exported in this process, in a "
        "long-lived second process and in a process forked for the case, and once in one whose locale knows only ASCII, with different hash seeds, environments, working "
        "directories and clocks, under 2-3 different file and folder names, absolute and relative, also over existing files and to folders that do not exist yet. All values, the ordered "
        "state of the diagram and all files have to be identical. Non-trivial: at least 4 nodes and 3 flows.")
ASSUMPTIONS = ["hash seeds 0, 1, 7 and 4242", "ids of elements made by the building API are random by design and not compared",
               "CSV export of acyclic diagrams with at most 60 nodes",
               "file names do not end like compressed files (pandas unpacks those)"]
BUDGET = {"quick": 1400, "thorough": 60000}
_SERVERS = []

_STEM = st.sampled_from(["a", "b", "diagram", "file with spaces", "zażółć", "A.B.C", "0", "x" * 60, ".hidden", "process_1", "-o",
                         "100%", "a+b", "#1", "out", "Ä", "tmp", "a'b", "v1.2"])
_EXTENSION = st.sampled_from([".bpmn", ".xml", "", ".bpmn2", ".bpmn20.xml", ".XML", ".csv", ".txt", ".BPMN", ".bak", ".tmp", ".xls",
                              ".json", ".dat", ".old", "."])
_FILE = st.builds(lambda a, b: a + b, _STEM, _EXTENSION)
_FOLDER = st.sampled_from(["", "in", "in/nested", "other folder", "f/b/c", "wyjście", "x.y", "bpmn", "csv.d", "in/../in2"])
_VARIANT = st.fixed_dictionaries({"name": _FILE, "folder": _FOLDER, "out": _FOLDER, "written": _FILE,
                                  "relative": st.booleans(), "fresh": st.sampled_from([False, False, True]), "stale": st.sampled_from([0, 0, 1, 100000])})


def strategy():
    documents = st.one_of(model.document(max_nodes=6), model.document(max_nodes=8, depth=2, full_di=True)).map(
        lambda d: {"doc": d})
    process = st.one_of(graphs.graph(), graphs.graph(), graphs.graph(max_size=20)).map(lambda g: {"graph": g})
    trees = blocks.api_tree().map(lambda t: {"tree": t})
    rows = blocks.csv_rows().map(lambda r: {"rows": r})
    return st.fixed_dictionaries({
        "input": st.one_of(documents, process, process, trees, rows), "layout": st.sampled_from([True, True, False]),
        "variants": st.lists(_VARIANT, min_size=2, max_size=3, unique_by=lambda v: (v["name"], v["folder"]))})


def data_of(case):
    """(kind, text of the input file)"""
    given = case["input"]
    if "doc" in given:
        return "xml", model.render(given["doc"], 0).decode("utf-8")
    if "graph" in given:
        return "xml", snap.export_xml(graphs.build(given["graph"])).decode("utf-8")
    if "rows" in given:
        return "csv", blocks.write_rows(given["rows"])
    diagram = snap.new_diagram()
    blocks.Builder(diagram, given["tree"])
    text = snap.export_xml(diagram).decode("utf-8")
    seen = {}

    def short(match):
        return seen.setdefault(match.group(0), "e%d" % len(seen))
    return "xml", re.sub(r"id[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", short, text)


def servers():
    if not _SERVERS:
        base = core.scratch()
        _SERVERS.append(remote.Remote(False, 1, 86400 * 40, base + "one"))
        _SERVERS.append(remote.Remote(True, 4242, 4321, base + "two", settings={
            "LC_ALL": "de_DE.UTF-8", "LANG": "de_DE.UTF-8", "LANGUAGE": "de", "TMPDIR": base + "two"}))
        _SERVERS.append(remote.Remote(False, 7, -86400, base + "ascii", settings={
            "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LC_ALL": "C", "LANG": "C", "COLUMNS": "40"}))
        atexit.register(stop)
    return _SERVERS


def stop():
    for server in _SERVERS:
        server.close()
    del _SERVERS[:]


def run(case):
    kind, text = data_of(case)
    given = case["input"]
    csv = "tree" in given or ("rows" in given) or ("graph" in given and len(given["graph"]["nodes"]) <= 10)
    request = {"kind": kind, "data": text, "layout": case["layout"] and not boxes(given), "csv": csv,
               "variants": case["variants"]}
    here = os.path.join(core.scratch(), "here")
    os.makedirs(here, exist_ok=True)
    case = dict(case, variants=[dict(v, out="fresh%d/%s" % (i, v["out"])) if v.get("fresh") else v
                                for i, v in enumerate(case["variants"])])
    request["variants"] = case["variants"]
    runs = [("this process, run %d" % (i + 1), remote.work(dict(request, **v), here))
            for i, v in enumerate(case["variants"])]
    for name, server in zip(("another process", "a forked process", "a process with an ASCII locale"), servers()):
        replies = server.ask(request if "ASCII" not in name else dict(request, variants=plain_names(case["variants"])))
        if isinstance(replies, dict):
            fail("no answer from " + name, reply=replies)
        runs += [("%s, run %d" % (name, i + 1), r) for i, r in enumerate(replies)]
    first = runs[0][1]
    if first["load"][0] != "value":
        fail("the input was refused", reply=first["load"])
    for key in ("xml", "xml no di"):
        if first[key][0] != "value":
            fail("export failed: " + key, reply=first[key])
    for name, result in runs[1:]:
        for key in first:
            if result.get(key) != first[key]:
                fail("%s differs between %s and %s" % (key, runs[0][0], name), first=first[key], other=result.get(key))
    nodes = len(first["loaded"][1][1]) if first["loaded"][0] == "dict" else 0
    flows = len(first["loaded"][2][1]) if first["loaded"][0] == "dict" else 0
    labels = [sorted(given)[0], "laid out" if request["layout"] else "as loaded"]
    labels += [key for key in ("csv", "xml", "compute_longest_path") if key in first and first[key][0] == "value"]
    return {"nontrivial": nodes >= 4 and flows >= 3, "labels": labels}


def plain_names(variants):
    """One run, with file names such a process can handle."""
    return [{k: re.sub("[^ -~]", "_", v) if isinstance(v, str) else v for k, v in variants[-1].items()}]


def boxes(given):
    """Black-box pools are not laid out."""
    collab = given["doc"]["collab"] if "doc" in given else None
    return bool(collab) and any(not p["processRef"] for p in collab["participants"])
