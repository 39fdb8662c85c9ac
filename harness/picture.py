"""
What visualize_diagram draws. The installed networkx (2.3) is older than the installed Python and matplotlib, so the
names it misses are put back while it draws; the drawing itself is the real one, looked at when the window is opened.
"""
import collections
import collections.abc
import os

from harness import core

SHAPES = {"s": "square", "d": "diamond", "D": "diamond", "o": "circle"}


class Names(object):
    """Names that networkx 2.3 expects; they are there only inside the with block."""

    def __enter__(self):
        import matplotlib.cbook as cbook
        import numpy
        self.added = []
        for owner, name, value in ((collections, "Iterable", collections.abc.Iterable), (cbook, "iterable", numpy.iterable),
                                   (cbook, "is_numlike", lambda x: isinstance(x, (int, float)))):
            if not hasattr(owner, name):
                setattr(owner, name, value)
                self.added.append((owner, name))
        return self

    def __exit__(self, *args):
        for owner, name in self.added:
            delattr(owner, name)


def kind_of(collection):
    from matplotlib.markers import MarkerStyle
    paths = collection.get_paths()
    if len(paths) != 1:
        return "unknown"
    for marker, name in sorted(SHAPES.items()):
        style = MarkerStyle(marker)
        path = style.get_path().transformed(style.get_transform())
        if path.vertices.shape == paths[0].vertices.shape and abs(path.vertices - paths[0].vertices).max() < 1e-9:
            return name
    return "unknown"


def point(xy):
    return (round(float(xy[0]), 4), round(float(xy[1]), 4))


def read(plt):
    """{"shapes": [(kind, point)], "texts": [(text, point)], "arrows": [(from, to)]} of all open figures, sorted."""
    from matplotlib.patches import FancyArrowPatch
    out = {"shapes": [], "texts": [], "arrows": []}
    for number in plt.get_fignums():
        for axes in plt.figure(number).axes:
            for collection in axes.collections:
                kind = kind_of(collection)
                out["shapes"] += [(kind, point(p)) for p in collection.get_offsets()]
            out["texts"] += [(text.get_text(), point(text.get_position())) for text in axes.texts]
            for patch in axes.patches:
                if isinstance(patch, FancyArrowPatch):
                    start, end = patch._posA_posB
                    out["arrows"].append((point(start), point(end)))
                else:
                    out["shapes"].append((type(patch).__name__, (0, 0)))
    return {key: sorted(value) for key, value in out.items()}


def shown(diagram):
    """What is drawn at the time the window is opened."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    import matplotlib.pyplot as plt
    import bpmn_python.bpmn_diagram_visualizer as visualizer
    windows = []

    def show(*args, **kwargs):
        windows.append(read(plt))
    real = plt.show
    places = [plt] + [visualizer] * (getattr(visualizer, "show", None) is real)
    plt.close("all")
    try:
        for place in places:
            place.show = show
        with Names():
            visualizer.visualize_diagram(diagram)
    finally:
        for place in places:
            place.show = real
        plt.close("all")
    if len(windows) != 1:
        core.fail("the picture was shown %d times" % len(windows))
    return windows[0]
