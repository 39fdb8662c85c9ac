#!/usr/bin/env python3
"""Development tool: runs planted bugs of seeded/ through build, tests, demo and checks in scratch copies of /repo.

usage: try_seeded.py [--all-checks] [--cases N] [--seed N] [ID ...]   (no ids: all)
"""
import argparse
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))
PY = "/opt/venv/bin/python"


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONUTF8="1", PYTHONHASHSEED="0")
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def tests(copy):
    """Names of the failing tests."""
    report = os.path.join(copy, "..", "report.xml")
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", "--timeout=300",
        "-o", "junit_family=xunit2", "--junitxml=" + report,
        "-o", "python_files=test_*.py *_test.py manually_generated_*.py", "tests"], copy)
    import xml.etree.ElementTree as et
    bad, good = [], 0
    for case in et.parse(report).getroot().iter("testcase"):
        if case.find("failure") is not None or case.find("error") is not None:
            bad.append(case.get("classname") + "::" + case.get("name"))
        else:
            good += 1
    return good, bad


def one(bug, args):
    folder = os.path.join(ROOT, "seeded", bug)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    out = {"bug": bug, "property": meta["property"]}
    try:
        copy = os.path.join(tmp, "repo")
        shutil.copytree("/repo", copy, symlinks=True)
        demo = os.path.join(tmp, "demo")
        shutil.copytree(folder, demo)
        out["clean demo"] = sh(["bash", os.path.join(demo, "demo.sh")], copy, timeout=300)[0]
        rc, text = sh(["git", "apply", os.path.join(folder, "patch.diff")], copy)
        if rc:
            out["error"] = text
            return out
        out["demo"], out["demo text"] = sh(["bash", os.path.join(demo, "demo.sh")], copy, timeout=300)
        good, bad = tests(copy)
        out["tests"] = "%d passed" % good + (", failed: " + " ".join(bad) if bad else "")
        checks = [meta["property"]]
        if args.all_checks:
            checks = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
        verif = os.path.join(tmp, "verif")
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
        out["caught"] = []
        for c in checks:
            env = {"VERIF_REPO": copy, "VERIF_SEED": str(args.seed), "VERIF_TIER": "quick"}
            if args.cases:
                env["VERIF_CASES"] = str(args.cases)
            rc, text = sh([os.path.join(verif, "check.sh"), c, "--tier", "quick"], verif, env)
            if rc == 1 and "VIOLATION property=" + c in text:
                out["caught"].append(c)
            elif rc != 0:
                out.setdefault("strange", []).append((c, rc, text[-500:]))
            if c == meta["property"]:
                out["check text"] = text[-1500:]
        return out
    finally:
        shutil.rmtree(tmp)


def main():
    p = argparse.ArgumentParser()
    p.add_argument("--all-checks", action="store_true")
    p.add_argument("--cases", type=int)
    p.add_argument("--seed", type=int, default=1)
    p.add_argument("--jobs", type=int, default=2)
    p.add_argument("-v", action="store_true")
    p.add_argument("ids", nargs="*")
    args = p.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(args.jobs) as pool:
        for out in pool.map(lambda b: one(b, args), ids):
            ok = out.get("clean demo") == 0 and out.get("demo", 0) != 0 and "failed" not in out.get("tests", "failed")
            caught = out["property"] in out.get("caught", [])
            print("%-34s %s %s  %s %s" % (out["bug"], out["property"], "valid" if ok else "INVALID",
                                        "caught" if caught else "MISSED", ",".join(out.get("caught", []))), flush=True)
            if not ok or args.v:
                print("    ", {k: v for k, v in out.items() if k in ("clean demo", "demo", "demo text", "tests", "error")})
            if out.get("strange"):
                print("    ", out["strange"])
            if args.v:
                print(out.get("check text"))


if __name__ == "__main__":
    sys.exit(main())
