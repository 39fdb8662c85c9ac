"""
Runs the same work in other processes (C22, C23): other hash seed, working directory, environment and clock.

remote.py FORK OFFSET: a server that reads one JSON request per line and answers with one JSON line. With FORK=1 each
request is handled by a process forked for it, otherwise all are handled by the same process.
"""
import base64
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    sys.path.insert(0, HERE)

from harness import core  # noqa: E402

ANSWER_S = 180
METRICS = ["get_nodes_count", "get_gateway_counts", "get_events_counts", "get_activities_counts", "all_activities_count",
           "all_gateways_count", "all_control_flow_elements_count", "all_events_count", "TNSE_metric", "TNIE_metric",
           "TNEE_metric", "TNE_metric", "NOA_metric", "NOAC_metric", "NOAJS_metric", "NumberOfNodes_metric",
           "GatewayHeterogenity_metric", "CoefficientOfNetworkComplexity_metric", "AverageGatewayDegree_metric",
           "DurfeeSquare_metric", "PerfectSquare_metric", "get_all_gateways"]


def plain(value):
    """JSON form of a value; containers without an order are sorted."""
    if isinstance(value, dict):
        return ["dict"] + [[plain(k), plain(v)] for k, v in value.items()]
    if isinstance(value, (set, frozenset)):
        return ["set"] + sorted((plain(v) for v in value), key=repr)
    if isinstance(value, (str, int, float, bool, type(None))):
        return value
    if isinstance(value, bytes):
        return base64.b64encode(value).decode("ascii")
    if hasattr(value, "items"):
        return plain(dict(value))
    if hasattr(value, "__iter__"):
        return [plain(v) for v in value]
    return repr(value)


def attempt(call):
    try:
        return ["value", plain(call())]
    except Exception as exc:
        return ["error", type(exc).__name__]


def work(request, root):
    """One run: load, lay out, measure, export. Everything is written below root. Returns JSON."""
    import networkx
    import bpmn_python.bpmn_diagram_layouter as layouter
    import bpmn_python.bpmn_diagram_metrics as metrics
    import bpmn_python.bpmn_diagram_rep as rep
    import bpmn_python.diagram_layout_metrics as layout_metrics
    from harness import snap
    folder = os.path.join(root, request["folder"])
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, request["name"])
    with open(path, "wb") as f:
        f.write(request["data"].encode("utf-8"))
    if request["relative"]:
        path = os.path.relpath(path)
    diagram = rep.BpmnDiagramGraph()
    out = {}
    out["load"] = attempt(lambda: (diagram.load_diagram_from_xml_file if request["kind"] == "xml"
                                   else diagram.load_diagram_from_csv_file)(path))
    if out["load"][0] == "error":
        return out
    out["loaded"] = plain(snap.raw(diagram))
    if request["layout"]:
        out["layout"] = attempt(lambda: layouter.generate_layout(diagram))
        out["laid out"] = plain(snap.raw(diagram))
    for name in METRICS:
        out[name] = attempt(lambda: getattr(metrics, name)(diagram))
    graph = diagram.diagram_graph
    if len(graph) <= 14 and graph.number_of_edges() <= 20:
        for name in ("compute_longest_path", "compute_longest_path_tasks"):
            out[name] = attempt(lambda: getattr(layout_metrics, name)(diagram))
    for name in ("count_crossing_points", "count_segments"):
        out[name] = attempt(lambda: getattr(layout_metrics, name)(diagram))
    target = os.path.join(root, request["out"]) + "/"
    if not request.get("fresh"):
        os.makedirs(target, exist_ok=True)
    if request["relative"]:
        target = os.path.relpath(target) + "/"

    name = request.get("written", request["name"] + ".out")

    def written(call, name):
        if request.get("fresh"):  # the library makes missing folders
            shutil.rmtree(os.path.join(root, request["out"]), ignore_errors=True)
        elif request.get("stale"):
            with open(target + name, "w") as f:
                f.write("old\n" * request["stale"])
        call(target, name)
        with open(target + name, "rb") as f:
            return f.read()
    out["xml"] = attempt(lambda: written(diagram.export_xml_file, name))
    out["xml no di"] = attempt(lambda: written(diagram.export_xml_file_no_di, name))
    if request["csv"] and len(graph) <= 60 and networkx.is_directed_acyclic_graph(graph):
        out["csv"] = attempt(lambda: written(diagram.export_csv_file, name))
    out["at the end"] = plain(snap.raw(diagram))
    return out


class Remote(object):
    """Client of one server."""

    def __init__(self, fork, hash_seed, offset, folder, module="", settings=None):
        env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str(hash_seed), "PYTHONUTF8": "1",
               "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "MPLCONFIGDIR": folder, "HOME": folder,
               "USER": "user%d" % hash_seed, "LANG": "C.UTF-8", "TZ": "UTC%+d" % (offset % 12), "VERIF_SCRATCH": folder,
               "VERIF_REPO": core.REPO}
        env.update(settings or {})
        os.makedirs(folder, exist_ok=True)
        self.proc = subprocess.Popen([sys.executable, os.path.abspath(__file__), str(int(fork)), str(offset),
                                      module], cwd=folder,
                                     env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def ask(self, request):
        def late(signum, frame):
            raise core.Hang("no answer from another process after %d s" % ANSWER_S)
        old = signal.signal(signal.SIGALRM, late)
        signal.alarm(ANSWER_S)
        try:
            self.proc.stdin.write(json.dumps(request) + "\n")
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        if not line:
            raise RuntimeError("server ended")
        return json.loads(line)

    def close(self):
        self.proc.kill()
        self.proc.wait()


def shift_clock(offset):
    import datetime
    import time
    real = time.time
    time.time = lambda: real() + offset

    class Shifted(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return datetime.datetime.fromtimestamp(real() + offset, tz)

        @classmethod
        def utcnow(cls):
            return datetime.datetime.fromtimestamp(real() + offset)

        today = now
    datetime.datetime = Shifted


def answer(request):
    base = os.getcwd()
    try:
        if "module" in request:
            return importlib.import_module(request["module"]).remote_work(request)
        return [work(dict(request, **variant), base) for variant in request["variants"]]
    except Exception as exc:
        return {"failed": repr(exc)}


def serve(fork, offset, module):
    core.setup_paths()
    if module:
        importlib.import_module(module)
    import bpmn_python.bpmn_diagram_rep  # noqa: F401
    import bpmn_python.bpmn_diagram_layouter  # noqa: F401
    import bpmn_python.bpmn_diagram_metrics  # noqa: F401
    import bpmn_python.diagram_layout_metrics  # noqa: F401
    # after the imports: libraries may keep references to the real clock
    shift_clock(offset)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        request = json.loads(line)
        if not fork:
            reply = json.dumps(answer(request))
        else:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                with os.fdopen(w, "w") as f:
                    f.write(json.dumps(answer(request)))
                os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                reply = f.read()
            os.waitpid(pid, 0)
        out.write((reply or '{"failed": "no answer"}') + "\n")
        out.flush()


if __name__ == "__main__":
    serve(sys.argv[1] == "1", int(sys.argv[2]), sys.argv[3])
