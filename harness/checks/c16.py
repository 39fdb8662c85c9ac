"""C16: crossing and segment counts match the drawn geometry exactly."""
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st

from harness import model, snap
from harness.core import expect_equal

ID = "C16"
RULE = ("Cases are 0-25 flows with lines of 1-20 points on a coarse grid (so that they touch, overlap and share points) or with "
        "coordinates in eighths up to 1000000, the whole picture also scaled down to 1/1024 and 1/65536, in several number formats, some lines drawn a second time by another flow, also backwards. Counts are compared with a pairwise test in exact rational "
        "arithmetic. Non-trivial: at least 4 segments and one pair that meets without a common endpoint.")
ASSUMPTIONS = ["coordinates are multiples of 1/8 up to 1000000 in size (or such pictures scaled by 1/1024 or 1/65536), for which floating-point arithmetic is exact"]
BUDGET = {"quick": 12000, "thorough": 200000}


def number(value, form, scale=1):
    """value in eighths (of a thousandth, if small), written as text."""
    exact = Fraction(value, 8 * scale)
    if exact.denominator == 1:
        whole = str(exact.numerator)
        return [whole, whole + ".0", whole + ".00", whole, "%de0" % exact.numerator][form % 5]
    text = format(Decimal(exact.numerator) / Decimal(exact.denominator), "f")
    return [text, text + "0", text, "+" + text if value > 0 else text, text + "00"][form % 5]


_COARSE = st.integers(0, 5).map(lambda v: v * 8)
_MEDIUM = st.integers(-12, 12).map(lambda v: v * 4)
_FINE = st.integers(-32000, 32000)
_LARGE = st.one_of(st.integers(-8 * 10 ** 6, 8 * 10 ** 6), st.integers(-10 ** 6, 10 ** 6).map(lambda v: v * 8))


def lines(coordinate, count=8, length=6, least=0):
    point = st.tuples(coordinate, coordinate).map(list)
    return st.lists(st.lists(point, min_size=1 if length > 3 else 2, max_size=length), min_size=least, max_size=count)


@st.composite
def collinear(draw):
    """Lines along one direction, which overlap or touch."""
    dx, dy = draw(st.sampled_from([(8, 0), (0, 8), (8, 8), (8, -16), (24, 8), (4, 12)]))
    out = []
    for _ in range(draw(st.integers(2, 5))):
        off = draw(st.sampled_from([0, 0, 0, 8]))
        ks = draw(st.lists(st.integers(-4, 6), min_size=2, max_size=3))
        out.append([[k * dx + off, k * dy] for k in ks])
    return out


def strategy():
    return st.fixed_dictionaries({"lines": st.one_of(lines(_COARSE), lines(_MEDIUM), lines(_FINE), collinear(), lines(_LARGE),
                                                     lines(_MEDIUM, 25, 3, 9), lines(_COARSE, 3, 20)),
                                  "form": st.integers(0, 4), "twins": st.lists(st.integers(0, 99), max_size=3), "scale": st.sampled_from([1, 1, 1, 1024, 65536]), "moved": st.tuples(st.integers(-40, 40), st.integers(-40, 40)).map(list)})


def side(a, b, c):
    value = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (value > 0) - (value < 0)


def within(a, b, c):
    return min(a[0], b[0]) <= c[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= c[1] <= max(a[1], b[1])


def meet(s, t):
    a, b = s
    c, d = t
    s1, s2, s3, s4 = side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)
    if s1 * s2 < 0 and s3 * s4 < 0:
        return True
    return (s1 == 0 and within(a, b, c)) or (s2 == 0 and within(a, b, d)) or \
        (s3 == 0 and within(c, d, a)) or (s4 == 0 and within(c, d, b))


def run(case):
    import bpmn_python.diagram_layout_metrics as metrics
    count = len(case["lines"])
    nodes = [{"type": "task", "id": "n%d" % i, "name": "", "attrs": {}, "defs": [], "in": [], "out": [], "shape": None}
             for i in range(count + 1)]
    pairs = [(i, (i * 3) % (count + 1)) for i in range(count)]
    drawn = list(case["lines"])
    for k in case.get("twins", []):
        # a second flow, in the other direction or from another node, drawn over the same line
        source, target = pairs[k % count] if count else (0, 0)
        pair = (target, source) if k % 2 else (count, source)
        if count and pair not in pairs:
            pairs.append(pair)
            line = case["lines"][k % count]
            drawn.append(line[::-1] if k % 4 < 2 else line)
    mx, my = case["moved"]
    scale = case.get("scale", 1)
    flows = [{"id": "f%d" % i, "name": "", "source": "n%d" % pairs[i][0], "target": "n%d" % pairs[i][1], "cond": None,
              "waypoints": [[number(8 * mx + x, case["form"] + i, scale), number(8 * my + y, case["form"] + j, scale)]
                            for j, (x, y) in enumerate(line)]}
             for i, line in enumerate(drawn)]
    doc = {"diagram": {"id": "dg", "name": "d"}, "plane": {"id": "pl", "bpmnElement": "pr"}, "collab": None,
           "processes": [{"id": "pr", "name": "p", "isClosed": None, "isExecutable": None, "processType": None,
                          "laneset": None, "nodes": nodes, "flows": flows}]}
    diagram = snap.load_xml(model.render(doc, 0))
    segments = [(tuple(a), tuple(b)) for line in drawn for a, b in zip(line, line[1:])]
    crossings = 0
    for i, s in enumerate(segments):
        for t in segments[:i]:
            if set(s) & set(t):
                continue
            crossings += meet(s, t)
    expect_equal("number of segments", metrics.count_segments(diagram), len(segments))
    expect_equal("number of crossing points", metrics.count_crossing_points(diagram), crossings)
    expect_equal("number of crossing points, asked again", metrics.count_crossing_points(diagram), crossings)
    return {"nontrivial": len(segments) >= 4 and crossings >= 1,
            "labels": ["crossings %s" % ("0" if not crossings else "1-5" if crossings <= 5 else "6+")]}
