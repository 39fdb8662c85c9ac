"""
Driver shared by all checks: runs Hypothesis over the case strategy of a property in several worker processes,
records what was generated, shrinks a failure, writes the replay file and the evidence.

A check module defines
    ID            property id
    RULE          text: how cases are made, what makes one non-trivial
    ASSUMPTIONS   list of texts
    BUDGET        {"quick": cases, "thorough": cases}   (sum over workers)
    strategy()    Hypothesis strategy of JSON-serialisable cases
    run(case)     raises on violation; returns a dict {"nontrivial": bool, "labels": [..]}
"""
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CASE_CPU_S = 60          # CPU seconds for one case: beyond that the code under test does not terminate
SHRINK_S = 12            # wall seconds for shrinking
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class Violation(Exception):
    """The property does not hold for the current case."""


class Hang(BaseException):
    """The code under test did not return within the CPU budget of a case."""


class StopNow(BaseException):
    """Ends a Hypothesis run (shrinking took long enough)."""


def setup_paths():
    sys.dont_write_bytecode = True
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
    sys.path.insert(0, REPO)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    import bpmn_python.bpmn_diagram_rep as rep
    if not os.path.abspath(rep.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("code under test was imported from " + rep.__file__)


def fail(message, **details):
    text = message
    for key, value in details.items():
        text += "\n    %s: %s" % (key, short(value))
    raise Violation(text)


def short(value, limit=1500):
    text = value if isinstance(value, str) else repr(value)
    return text if len(text) <= limit else text[:limit] + "...(%d chars)" % len(text)


def expect_equal(what, actual, expected):
    if actual != expected:
        fail(what + " differ", difference=diff(actual, expected))


def diff(actual, expected, path="", out=None, limit=6):
    """Readable differences between nested values."""
    top = out is None
    if top:
        out = []
    if len(out) >= limit:
        pass
    elif isinstance(actual, dict) and isinstance(expected, dict):
        for key in expected:
            if key not in actual:
                out.append("%s[%r]: missing, expected %s" % (path, key, short(expected[key], 200)))
            elif actual[key] != expected[key]:
                diff(actual[key], expected[key], path + "[%r]" % (key,), out)
        for key in actual:
            if key not in expected:
                out.append("%s[%r]: unexpected %s" % (path, key, short(actual[key], 200)))
    elif isinstance(actual, (list, tuple)) and isinstance(expected, (list, tuple)) and len(actual) == len(expected):
        for i, (a, e) in enumerate(zip(actual, expected)):
            if a != e:
                diff(a, e, path + "[%d]" % i, out)
    else:
        out.append("%s: got %s, expected %s" % (path, short(actual, 300), short(expected, 300)))
    if top:
        return "; ".join(out[:limit])
    return out


_SCRATCH = None


def scratch():
    """Scratch directory of this process, with a trailing slash (the exporters concatenate directory and name)."""
    global _SCRATCH
    if _SCRATCH is None:
        base = os.environ.get("VERIF_SCRATCH")
        _SCRATCH = tempfile.mkdtemp(prefix="bpmnpbt_", dir=base) + "/"
    return _SCRATCH


def drop_scratch():
    global _SCRATCH
    if _SCRATCH is not None:
        shutil.rmtree(_SCRATCH, ignore_errors=True)
        _SCRATCH = None


def canonical(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True, separators=(",", ":"))


def digest(text):
    return hashlib.blake2b(text.encode("ascii"), digest_size=8).hexdigest()


def run_case(module, case):
    """Runs one case with a CPU limit. Returns its classification or raises."""
    def on_timer(signum, frame):
        raise Hang("no result after %d s of CPU time" % CASE_CPU_S)
    old = signal.signal(signal.SIGVTALRM, on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return module.run(case) or {}
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = traceback.extract_tb(exc.__traceback__)
    where = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:])
    return "%s: %s (%s)" % (type(exc).__name__, short(str(exc), 600), where)


def load(pid):
    return importlib.import_module("harness.checks." + pid.lower())


# --------------------------------------------------------------------------------------------------------- worker
def worker(pid, tier, seed, index, cases, wall_s, out_path):
    # code under test that eats memory without end gets a MemoryError instead of taking the machine down
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    setup_paths()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    module = load(pid)
    strategy = module.strategy()
    stats = {"evaluations": 0, "hashes": [], "labels": {}, "samples": [], "failure": None, "error": None}
    hashes = set()
    best = {}
    start = time.time()
    first_failure = [None]

    def test(case):
        if first_failure[0] is not None and time.time() - first_failure[0] > SHRINK_S:
            raise StopNow()
        text = canonical(case)
        stats["evaluations"] += 1
        try:
            info = run_case(module, case)
        except Hang as exc:
            best.clear()
            best.update(text=text, message=describe(exc))
            raise StopNow()
        except Exception as exc:
            if first_failure[0] is None:
                first_failure[0] = time.time()
            if not best or len(text) <= len(best["text"]):
                best.clear()
                best.update(text=text, message=describe(exc))
            raise
        for label in info.get("labels", ()):
            stats["labels"][label] = stats["labels"].get(label, 0) + 1
        if info.get("nontrivial"):
            h = digest(text)
            if h not in hashes:
                hashes.add(h)
                if len(stats["samples"]) < 2 and len(text) < 4000:
                    stats["samples"].append(case)

    chunk = getattr(module, "CHUNK", 150)
    rounds = 0
    try:
        while stats["evaluations"] < cases and time.time() - start < wall_s and not best:
            n = min(chunk, cases - stats["evaluations"])
            if n <= 0:
                break
            wrapped = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                               phases=(Phase.generate, Phase.shrink), report_multiple_bugs=False,
                               suppress_health_check=list(HealthCheck), print_blob=False,
                               verbosity=hypothesis.Verbosity.quiet)(given(strategy)(test))
            wrapped = hypothesis.seed((seed * 1000003 + index) * 1009 + rounds)(wrapped)
            rounds += 1
            before = stats["evaluations"]
            try:
                wrapped()
            except StopNow:
                pass
            except Exception as exc:
                if not best:
                    stats["error"] = traceback.format_exc()
                    break
            if stats["evaluations"] == before:
                stats["error"] = "generator produced no cases"
                break
    except BaseException:
        stats["error"] = traceback.format_exc()
    if best:
        stats["failure"] = {"case": json.loads(best["text"]), "message": best["message"]}
    stats["hashes"] = sorted(hashes)
    stats["wall"] = time.time() - start
    drop_scratch()
    with open(out_path + ".tmp", "w") as f:
        json.dump(stats, f)
    os.rename(out_path + ".tmp", out_path)


# ----------------------------------------------------------------------------------------------------------- main
def worker_env():
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1", MPLBACKEND="Agg",
               MPLCONFIGDIR=os.environ.get("VERIF_SCRATCH", "/tmp"))
    env.pop("PYTHONPATH", None)
    return env


def corpus_files(pid):
    folder = os.path.join(HERE, "corpus", pid)
    if not os.path.isdir(folder):
        return []
    return [os.path.join(folder, n) for n in sorted(os.listdir(folder)) if n.endswith(".json")]


def known_findings(pid):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == pid]


def write_replay(pid, case, message, name=None):
    folder = os.path.join(HERE, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, "%s-%s.json" % (pid, name or digest(canonical(case))))
    with open(path, "w") as f:
        json.dump({"property": pid, "message": message, "case": case}, f, indent=1)
    return path


def write_evidence(pid, data):
    folder = os.path.join(HERE, "evidence")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1)
    os.rename(path + ".tmp", path)


def report(pid, path, message):
    print("property %s does not hold:" % pid)
    print("    " + message.replace("\n", "\n    "))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    sys.stdout.flush()


def main(pid, tier, seed):
    start = time.time()
    scratch_root = tempfile.mkdtemp(prefix="bpmnpbt_")
    os.environ["VERIF_SCRATCH"] = scratch_root
    try:
        return _main(pid, tier, seed, start, scratch_root)
    finally:
        drop_scratch()
        shutil.rmtree(scratch_root, ignore_errors=True)


def _main(pid, tier, seed, start, scratch_root):
    setup_paths()
    module = load(pid)
    evidence = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": module.RULE, "samples": []},
                "assumptions": module.ASSUMPTIONS, "wall_s": 0.0, "violations": 0}

    # 1. saved inputs: minimal inputs of defects that were repaired, and other hand-picked ones
    replayed = 0
    for path in corpus_files(pid):
        with open(path) as f:
            case = json.load(f)["case"]
        replayed += 1
        try:
            run_case(module, case)
        except (Exception, Hang) as exc:
            evidence["violations"] = 1
            evidence["coverage"].update(evaluations=replayed, saved_inputs=replayed)
            evidence["wall_s"] = round(time.time() - start, 2)
            write_evidence(pid, evidence)
            report(pid, write_replay(pid, case, describe(exc)), describe(exc))
            return 1
    # 2. known findings: inputs that are known to fail and are excluded from the generators by construction
    for finding in known_findings(pid):
        try:
            run_case(module, finding["case"])
        except (Exception, Hang):
            print("KNOWN-FINDING: property=%s %s" % (pid, finding["what"]))

    # 3. generated search
    total = module.BUDGET[tier]
    if os.environ.get("VERIF_CASES"):
        total = int(os.environ["VERIF_CASES"])
    workers = min(WORKERS, getattr(module, "WORKERS", WORKERS))
    wall = getattr(module, "WALL", {}).get(tier, 150 if tier == "quick" else 3000)
    per = (total + workers - 1) // workers
    jobs = []
    for i in range(workers):
        out = os.path.join(scratch_root, "w%d.json" % i)
        folder = os.path.join(scratch_root, "s%d" % i)
        os.mkdir(folder)
        env = worker_env()
        env["VERIF_SCRATCH"] = folder
        env["MPLCONFIGDIR"] = folder
        log = open(os.path.join(scratch_root, "w%d.log" % i), "w")
        cmd = [sys.executable, os.path.join(HERE, "check.py"), pid, "--worker", str(i), "--tier", tier,
               "--seed", str(seed), "--cases", str(per), "--wall", str(wall), "--out", out]
        jobs.append((subprocess.Popen(cmd, env=env, cwd=HERE, stdout=log, stderr=log, stdin=subprocess.DEVNULL),
                     out, log))
    failures, errors, hashes, labels, samples = [], [], set(), {}, []
    evaluations = replayed
    stopped = False
    pending = list(jobs)
    deadline = time.time() + wall + CASE_CPU_S + 120
    while pending:
        time.sleep(0.05)
        if time.time() > deadline and not stopped:
            stopped = True
            errors.append("workers did not end in time")
            for proc, _, _ in pending:
                proc.kill()
        for job in list(pending):
            proc, out, log = job
            if proc.poll() is None:
                continue
            pending.remove(job)
            if os.path.exists(out):
                with open(out) as f:
                    stats = json.load(f)
                evaluations += stats["evaluations"]
                hashes.update(stats["hashes"])
                samples += stats["samples"]
                for label, n in stats["labels"].items():
                    labels[label] = labels.get(label, 0) + n
                if stats["failure"]:
                    failures.append(stats["failure"])
                if stats["error"]:
                    errors.append(stats["error"])
            elif not stopped:
                log.flush()
                with open(log.name) as f:
                    errors.append("worker ended with %s\n%s" % (proc.returncode, f.read()[-3000:]))
        if failures and not stopped:
            # one failure decides; give the others no more time
            stopped = True
            for proc, _, _ in pending:
                proc.terminate()
    for _, _, log in jobs:
        log.close()
    evidence["coverage"].update(evaluations=evaluations, distinct_nontrivial=len(hashes), saved_inputs=replayed,
                                samples=samples[:3], labels=dict(sorted(labels.items())), workers=workers)
    evidence["violations"] = len(failures)
    evidence["wall_s"] = round(time.time() - start, 2)
    write_evidence(pid, evidence)
    if failures:
        failures.sort(key=lambda x: len(canonical(x["case"])))
        best = failures[0]
        report(pid, write_replay(pid, best["case"], best["message"]), best["message"])
        return 1
    if errors:
        sys.stderr.write("check %s could not be completed:\n%s\n" % (pid, errors[0]))
        return 2
    print("%s: %d cases, %d distinct non-trivial, %d saved inputs, %.1f s: held" % (
        pid, evaluations, len(hashes), replayed, time.time() - start))
    return 0


def selftest():
    """Everything the checks need is there: Hypothesis, the code under test and all check modules load."""
    setup_paths()
    import hypothesis
    folder = os.path.join(HERE, "harness", "checks")
    names = sorted(n[:-3] for n in os.listdir(folder) if n.startswith("c") and n.endswith(".py"))
    for name in names:
        module = load(name)
        module.strategy()
        for key in ("ID", "RULE", "ASSUMPTIONS", "BUDGET"):
            getattr(module, key)
    print("hypothesis %s, %d checks" % (hypothesis.__version__, len(names)))
    return 0


def replay(pid, path):
    setup_paths()
    module = load(pid)
    with open(path) as f:
        case = json.load(f)["case"]
    try:
        info = run_case(module, case)
    except (Exception, Hang) as exc:
        report(pid, path, describe(exc))
        if os.environ.get("VERIF_TRACE"):
            traceback.print_exc()
        return 1
    finally:
        drop_scratch()
    print("%s: held for %s %s" % (pid, path, info))
    return 0
