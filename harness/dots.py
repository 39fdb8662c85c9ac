"""DOT files and PNG sources: a stand-in 'dot' that records its input, and reading DOT text with the real Graphviz."""
import os
import stat
import subprocess

from harness import core

GVPR = "/usr/bin/gvpr"
_STUB = None


def stub_dir():
    """Directory with a program 'dot' that copies the file it is asked to draw to dot.source and prints a marker."""
    global _STUB
    if _STUB is None or not os.path.isdir(_STUB):
        _STUB = core.scratch() + "bin"
        os.makedirs(_STUB, exist_ok=True)
        path = os.path.join(_STUB, "dot")
        with open(path, "w") as f:
            # arguments: -Tformat FILE
            f.write("#!/bin/sh\nfor a in \"$@\"; do case \"$a\" in -*) ;; *) f=\"$a\";; esac; done\n"
                    "/bin/cp \"$f\" \"%s/dot.source\"\nprintf 'PICTURE %%s' \"$1\"\n" % _STUB)
        os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
    return _STUB


def png_source(diagram, name):
    """Draws the diagram with the stand-in and returns (DOT source, content of the picture file)."""
    import bpmn_python.bpmn_diagram_visualizer as visualizer
    folder = stub_dir()
    source = os.path.join(folder, "dot.source")
    if os.path.exists(source):
        os.remove(source)
    old = os.environ.get("PATH", "")
    os.environ["PATH"] = folder + os.pathsep + old
    try:
        visualizer.bpmn_diagram_to_png(diagram, core.scratch() + name)
    finally:
        os.environ["PATH"] = old
    if not os.path.exists(source):
        core.fail("no picture was drawn")
    with open(source, "rb") as f:
        text = f.read()
    path = core.scratch() + name + ".png"
    if not os.path.exists(path):
        core.fail("picture file was not written under the given name", name=name)
    with open(path, "rb") as f:
        return text, f.read()


def dot_text(diagram, name):
    import bpmn_python.bpmn_diagram_visualizer as visualizer
    path = core.scratch() + name + ".dot"
    if os.path.exists(path):
        os.remove(path)
    visualizer.bpmn_diagram_to_dot_file(diagram, core.scratch() + name)
    if not os.path.exists(path):
        core.fail("DOT file was not written under the given name", name=name)
    with open(path, "rb") as f:
        return f.read()


# prints every string as its length in bytes and the string itself
_PROGRAM = """
BEGIN { string a; graph_t g; }
BEG_G { printf("G%d\n", $.directed); }
N { printf("N%d %s\n", length($.name), $.name);
    for (a = fstAttr($G, "N"); a != ""; a = nxtAttr($G, "N", a)) {
      printf("A%d %s %d %s\n", length(a), a, length(aget($, a)), aget($, a)); } }
E { printf("E%d %s %d %s\n", length($.tail.name), $.tail.name, length($.head.name), $.head.name);
    for (a = fstAttr($G, "E"); a != ""; a = nxtAttr($G, "E", a)) {
      printf("A%d %s %d %s\n", length(a), a, length(aget($, a)), aget($, a)); } }
"""


class _Scan(object):
    def __init__(self, data):
        self.data, self.at = data, 0

    def number(self, stop):
        end = self.data.index(stop, self.at)
        value = int(self.data[self.at:end])
        self.at = end + 1
        return value

    def text(self):
        length = self.number(b" ")
        value = self.data[self.at:self.at + length].decode("utf-8")
        self.at += length + 1
        return value


def parse(text):
    """What Graphviz understands: {"directed", "nodes": {id: attrs}, "edges": [(source, target, attrs)]}."""
    proc = subprocess.run([GVPR, _PROGRAM], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    errors = proc.stderr.decode("utf-8", "replace")
    if proc.returncode != 0 or "rror" in errors or not proc.stdout:
        core.fail("not valid Graphviz input", error=errors, text=text.decode("utf-8", "replace"))
    scan = _Scan(proc.stdout)
    out = {"directed": None, "nodes": {}, "edges": []}
    attrs = None
    while scan.at < len(scan.data):
        kind = scan.data[scan.at:scan.at + 1]
        scan.at += 1
        if kind == b"G":
            if out["directed"] is not None:
                core.fail("more than one graph", text=text.decode("utf-8", "replace"))
            out["directed"] = bool(scan.number(b"\n"))
        elif kind == b"N":
            attrs = {}
            out["nodes"][scan.text()] = attrs
        elif kind == b"E":
            attrs = {}
            source = scan.text()
            out["edges"].append((source, scan.text(), attrs))
        else:
            key = scan.text()
            value = scan.text()
            if value != "":
                attrs[key] = value
    return out
