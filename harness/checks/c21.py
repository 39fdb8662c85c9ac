"""C21: typed BPMN element objects accept exactly the documented values."""
import importlib
import random
import sys

from hypothesis import strategies as st

from harness.core import fail
from harness.strat import NAME, fraction

ID = "C21"
RULE = ("Cases are histories of constructor and setter calls on up to 12 objects of the 24 element classes, with valid and "
        "invalid values of every kind (texts, numbers, booleans, bytes, tuples, lists with a wrong element, objects of "
        "related and unrelated classes, spelling variants of listed values), and appends to lists got from a getter; others are "
        "mostly about one field of one class, with fitting objects at hand, and a quarter set one field to "
        "every kind of value, with objects of all classes. After "
        "each call every getter of every object is compared with a reference model. One case in eight first imports the "
        "class modules afresh in a random order. Non-trivial: 5 or more calls, one of them accepted and one refused.")
ASSUMPTIONS = ["lists passed to setters are not changed by the caller afterwards"]
BUDGET = {"quick": 12000, "thorough": 300000}

BASE = "bpmn_python.graph.classes."
STR_OPT, STR_REQ, BOOL, BOOL_OPT, STR_LIST = "text or None", "text", "bool", "bool or None", "list of texts"

# class -> (module, parent, {field: (getter, setter, kind, default)})
_ID = {"id": ("get_id", "set_id", STR_OPT, None)}
_NAME = {"name": ("get_name", "set_name", STR_OPT, None)}
_DEFAULT = {"default": ("get_default", "set_default", STR_OPT, None)}
_EVENTS = {"event_definition_list": ("get_event_definition_list", "set_event_definition_list", ["list", "EventDefinition"],
                                     [])}
_LANE_SETS = {"lane_set_list": ("get_lane_set_list", "set_lane_set_list", ["list", "LaneSet"], []),
              "flow_element_list": ("get_flow_element_list", "set_flow_element_list", ["list", "FlowElement"], [])}
_REFS = {"source_ref": ("get_source_ref", "set_source_ref", STR_REQ, None),
         "target_ref": ("get_target_ref", "set_target_ref", STR_REQ, None)}
TABLE = {
    "BaseElement": ("base_element_type", None, _ID),
    "FlowElement": ("flow_element_type", "BaseElement", _NAME),
    "FlowNode": ("flow_node_type", "FlowElement", {"incoming": ("get_incoming", "set_incoming", STR_LIST, []),
                                                   "outgoing": ("get_outgoing", "set_outgoing", STR_LIST, [])}),
    "Activity": ("activities.activity_type", "FlowNode", _DEFAULT),
    "Task": ("activities.task_type", "Activity", {}),
    "SubProcess": ("activities.subprocess_type", "Activity", dict(
        _LANE_SETS, triggered_by_event=("triggered_by_event", "set_triggered_by_event", BOOL, False))),
    "Event": ("events.event_type", "FlowNode", {}),
    "CatchEvent": ("events.catch_event_type", "Event", dict(
        _EVENTS, parallel_multiple=("parallel_multiple", "set_parallel_multiple", BOOL, False))),
    "StartEvent": ("events.start_event_type", "CatchEvent", {}),
    "IntermediateCatchEvent": ("events.intermediate_catch_event_type", "CatchEvent", {}),
    "ThrowEvent": ("events.throw_event_type", "Event", _EVENTS),
    "EndEvent": ("events.end_event_type", "ThrowEvent", {}),
    "IntermediateThrowEvent": ("events.intermediate_throw_event_type", "ThrowEvent", {}),
    "Gateway": ("gateways.gateway_type", "FlowNode", {"gateway_direction": (
        "get_gateway_direction", "set_gateway_direction",
        ["one of", "Unspecified", "Converging", "Diverging", "Mixed"], "Unspecified")}),
    "ExclusiveGateway": ("gateways.exclusive_gateway_type", "Gateway", _DEFAULT),
    "InclusiveGateway": ("gateways.inclusive_gateway_type", "Gateway", _DEFAULT),
    "ParallelGateway": ("gateways.parallel_gateway_type", "Gateway", {}),
    "SequenceFlow": ("sequence_flow_type", "FlowElement", dict(
        _REFS, is_immediate=("is_immediate", "set_is_immediate", BOOL_OPT, None),
        condition_expression=("get_condition_expression", "set_condition_expression",
                              ["object", "ConditionExpression"], None))),
    "MessageFlow": ("message_flow_type", "BaseElement", dict(
        _REFS, name=_NAME["name"], message_ref=("get_message_ref", "set_message_ref", STR_OPT, None))),
    "Participant": ("participant_type", "BaseElement", dict(
        _NAME, process_ref=("get_process_ref", "set_process_ref", STR_OPT, None))),
    "Lane": ("lane_type", "BaseElement", dict(
        _NAME, flow_node_ref_list=("get_flow_node_ref_list", "set_flow_node_ref_list", STR_LIST, []),
        child_lane_set=("get_child_lane_set", "set_child_lane_set", ["object", "LaneSet"], None))),
    "LaneSet": ("lane_set_type", "BaseElement", dict(
        _NAME, lane_list=("get_lane_list", "set_lane_list", ["list", "Lane"], []))),
    "ConditionExpression": ("condition_expression_type", None, {
        "condition": ("get_condition", "set_condition", STR_REQ, None)}),
    "RootElement": ("root_element.root_element_type", "BaseElement", {}),
    "CallableElement": ("root_element.callable_element_type", "RootElement", _NAME),
    "EventDefinition": ("root_element.event_definition_type", "RootElement", {}),
    "Process": ("root_element.process_type", "CallableElement", dict(
        _LANE_SETS, process_type=("get_process_type", "set_process_type", ["one of", "None", "Public", "Private"], "None"),
        is_closed=("is_closed", "set_is_closed", BOOL, False),
        is_executable=("is_executable", "set_is_executable", BOOL, False))),
}
CLASSES = sorted(TABLE)
MODULES = sorted(set(v[0] for v in TABLE.values()))


def lineage(name):
    out = []
    while name is not None:
        out.append(name)
        name = TABLE[name][1]
    return out


def fields_of(name):
    out = {}
    for cls in reversed(lineage(name)):
        out.update(TABLE[cls][2])
    return out


FIELDS = {name: fields_of(name) for name in CLASSES}
PAIRS = sorted((name, field) for name in CLASSES for field in FIELDS[name])
# fields of a class itself more often, those that hold objects most often
PAIRS = [p for p in PAIRS for _ in range((5 if FIELDS[p[0]][p[1]][2][0] in ("list", "object") else 3)
                                         if p[1] in TABLE[p[0]][2] else 1)]



def related(cls, field):
    """Classes that may be mistaken for the one of the field."""
    kind = FIELDS[cls][field][2]
    others = [k[2][1] for k in FIELDS[cls].values() if k[2][0] in ("list", "object")]
    out = [cls] + lineage(kind[1])[1:] + [c for o in others for c in CLASSES if o in lineage(c)]
    return [c for c in out if kind[1] not in lineage(c)] or [cls]


# ------------------------------------------------------------------------------------------------------------ strategy
_WORDS = ["Unspecified", "Converging", "Diverging", "Mixed", "None", "Public", "Private", "mixed", "public ", "", "none",
          "true", "False", "PRIVATE", " Mixed", "Unspecified, Converging"]
_TEXT = st.one_of(st.sampled_from(_WORDS), NAME)
_SCALAR = st.one_of(_TEXT.map(lambda t: ["str", t]), st.just(["none"]), st.booleans().map(lambda b: ["bool", b]),
                    st.integers(-2, 3).map(lambda n: ["int", n]), st.just(["float", 1.0]), st.just(["bytes", "abc"]),
                    st.just(["class"]), st.integers(0, 11).map(lambda n: ["obj", n]))
_ITEMS = st.one_of(st.lists(_TEXT.map(lambda t: ["str", t]), max_size=6), st.lists(_SCALAR, max_size=4),
                   st.lists(st.integers(0, 11).map(lambda n: ["obj", n]), max_size=5))
_VALUE = st.one_of(_SCALAR, _ITEMS.map(lambda v: ["list", v]), _ITEMS.map(lambda v: ["tuple", v]),
                   _ITEMS.map(lambda v: ["dict", v]))


def valid_value(draw, kind, objects):
    """A value that fits the field, if there is one."""
    def of(cls):
        return [i for i, c in enumerate(objects) if cls in lineage(c)]
    if kind in (STR_OPT, STR_REQ):
        return ["none"] if kind == STR_OPT and fraction(draw, 1, 5) else ["str", draw(_TEXT)]
    if kind in (BOOL, BOOL_OPT):
        return ["none"] if kind == BOOL_OPT and fraction(draw, 1, 4) else ["bool", draw(st.booleans())]
    if kind == STR_LIST:
        return ["list", draw(st.lists(_TEXT.map(lambda t: ["str", t]), max_size=6))]
    if kind[0] == "one of":
        return ["str", draw(st.sampled_from(kind[1:]))]
    options = of(kind[1])
    if kind[0] == "object":
        return ["obj", draw(st.sampled_from(options))] if options else ["none"]
    return ["list", draw(st.lists(st.sampled_from(options).map(lambda i: ["obj", i]), max_size=5)) if options else []]


@st.composite
def history(draw):
    objects, ops = [], []
    count = draw(st.integers(1, 12))
    focus = None
    if draw(st.booleans()):
        # mostly about one field, with objects at hand that fit it
        focus = draw(st.sampled_from(PAIRS))
        kind = FIELDS[focus[0]][focus[1]][2]
        first = [focus[0]]
        if kind[0] in ("list", "object"):
            fitting = [c for c in CLASSES if kind[1] in lineage(c)]
            first += draw(st.lists(st.sampled_from(fitting), min_size=1, max_size=3)) \
                + [draw(st.sampled_from(CLASSES)), draw(st.sampled_from(related(*focus)))]
        for cls in draw(st.permutations(first)):
            ops.append(["new", cls, [["str", "a"], ["str", "b"]] if "source_ref" in FIELDS[cls] else []])
            objects.append(cls)
    for _ in range(draw(st.integers(3, 30))):
        if not objects or (len(objects) < count and fraction(draw, 1, 3)):
            cls = draw(st.sampled_from(CLASSES))
            args = []
            if "source_ref" in FIELDS[cls]:
                args = [["str", draw(_TEXT)], ["str", draw(_TEXT)]]
                if fraction(draw, 1, 6):
                    args[draw(st.integers(0, 1))] = draw(_VALUE)
            ops.append(["new", cls, args])
            if all(accepts(STR_REQ, a, []) for a in args):
                objects.append(cls)
            continue
        index = draw(st.integers(0, len(objects) - 1))
        field = draw(st.sampled_from(sorted(FIELDS[objects[index]])))
        if focus is not None and fraction(draw, 2, 3):
            index, field = objects.index(focus[0]), focus[1]
        kind = FIELDS[objects[index]][field][2]
        choice = draw(st.integers(0, 9))
        if choice < 4:
            value = valid_value(draw, kind, objects)
        elif choice < 6:
            # a list of fitting values with one that may not fit
            value = valid_value(draw, kind, objects)
            if value[0] == "list":
                at = draw(st.integers(0, len(value[1])))
                value[1].insert(at, ["obj", draw(st.integers(0, len(objects) - 1))] if draw(st.booleans()) else draw(_SCALAR))
            elif kind[0] == "object" and draw(st.booleans()):
                value = ["obj", draw(st.integers(0, len(objects) - 1))]
            else:
                value = draw(_VALUE)
        elif choice < 7 and (kind == STR_LIST or kind[0] == "list"):
            ops.append(["append", index, field])
            continue
        else:
            value = draw(_VALUE)
        ops.append(["set", index, field, value])
    fresh = draw(st.permutations(MODULES)) if fraction(draw, 1, 8) else None
    return {"ops": ops, "import": fresh}


def sweep_ops(cls, field, seed):
    """Every kind of value for one field, among objects of all classes."""
    rnd = random.Random(seed)
    order = list(CLASSES)
    rnd.shuffle(order)
    ops = [["new", c, [["str", "a"], ["str", "b"]] if "source_ref" in FIELDS[c] else []] for c in order]
    kind = FIELDS[cls][field][2]
    values = [["str", rnd.choice(_WORDS)] for _ in range(4)] + [["str", "x"], ["none"], ["bool", True], ["bool", False],
              ["int", 0], ["int", 1], ["float", 1.0], ["bytes", "abc"], ["class"], ["list", []], ["tuple", []], ["dict", []]]
    values += [["str", w] for w in _WORDS] if kind[0] == "one of" else []
    singles = [["obj", i] for i in range(len(order))]
    values += singles
    fitting = [["obj", i] for i, c in enumerate(order) if kind[0] in ("list", "object") and kind[1] in lineage(c)]
    fitting = fitting or [["str", "s"], ["str", "t"]]
    for item in singles + [["str", "u"], ["none"], ["int", 1], ["bytes", "u"], ["list", []]]:
        row = [rnd.choice(fitting) for _ in range(rnd.choice([0, 0, 1, 2, 3, 6]))]
        row.insert(rnd.randint(0, len(row)), item)
        values.append([rnd.choice(["list", "list", "list", "tuple"]), row])
    rnd.shuffle(values)
    return ops + [["set", order.index(cls), field, v] for v in values]


def strategy():
    sweep = st.tuples(st.sampled_from(PAIRS), st.integers(0, 10 ** 6)).map(
        lambda t: {"sweep": list(t[0]), "seed": t[1], "import": None})
    return st.one_of(history(), history(), history(), sweep)


# -------------------------------------------------------------------------------------------------------------- oracle
def accepts(kind, value, classes):
    """Does the documentation allow the value (as in the case) for a field of this kind?"""
    tag = value[0]
    if kind == STR_OPT:
        return tag in ("none", "str")
    if kind == STR_REQ:
        return tag == "str"
    if kind == BOOL:
        return tag == "bool"
    if kind == BOOL_OPT:
        return tag in ("bool", "none")
    if kind == STR_LIST:
        return tag == "list" and all(v[0] == "str" for v in value[1])
    if kind[0] == "one of":
        return tag == "str" and value[1] in kind[1:]

    def is_a(v):
        return v[0] == "obj" and v[1] < len(classes) and kind[1] in lineage(classes[v[1]])
    if kind[0] == "object":
        return tag == "none" or is_a(value)
    return tag == "list" and all(is_a(v) for v in value[1])


def real(value, objects):
    tag = value[0]
    if tag == "none":
        return None
    if tag == "bytes":
        return value[1].encode("ascii")
    if tag == "class":
        return str
    if tag == "obj":
        return objects[value[1]] if value[1] < len(objects) else object()
    if tag == "list":
        return [real(v, objects) for v in value[1]]
    if tag == "tuple":
        return tuple(real(v, objects) for v in value[1])
    if tag == "dict":
        return {str(i): real(v, objects) for i, v in enumerate(value[1])}
    return value[1]


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or (type(a) is type(b) and a == b)


def load_classes(order):
    if order is not None:
        for name in [n for n in sys.modules if n == BASE[:-1] or n.startswith(BASE)]:
            del sys.modules[name]
        for name in order:
            importlib.import_module(BASE + name)
    return {cls: getattr(importlib.import_module(BASE + TABLE[cls][0]), cls) for cls in CLASSES}


def check_all(what, objects, classes, states):
    for i, (obj, cls, state) in enumerate(zip(objects, classes, states)):
        for field, (getter, _, _, _) in FIELDS[cls].items():
            got = getattr(obj, getter)()
            if not same(got, state[field]):
                fail("field %s of object %d (%s) after %s" % (field, i, cls, what), got=got, expected=state[field])


def run(case):
    types = load_classes(case["import"])
    objects, classes, states = [], [], []
    accepted = refused = 0
    labels = set()
    ops = sweep_ops(case["sweep"][0], case["sweep"][1], case["seed"]) if "sweep" in case else case["ops"]
    for op in ops:
        if op[0] == "new":
            _, cls, args = op
            ok = all(accepts(STR_REQ, a, classes) for a in args)
            values = [real(a, objects) for a in args]
            try:
                obj = types[cls](*values)
            except (TypeError, ValueError) as exc:
                if ok:
                    fail("%s%r was refused" % (cls, tuple(values)), error=str(exc))
                if not isinstance(exc, TypeError):
                    fail("%s%r raised %s, TypeError was expected" % (cls, tuple(values), type(exc).__name__))
                refused += 1
            else:
                if not ok:
                    fail("%s%r was accepted" % (cls, tuple(values)))
                state = {}
                for field, (_, _, _, default) in FIELDS[cls].items():
                    state[field] = list(default) if isinstance(default, list) else default
                if args:
                    state["source_ref"], state["target_ref"] = values
                objects.append(obj)
                classes.append(cls)
                states.append(state)
        elif op[0] == "set":
            _, index, field, value = op
            if index >= len(objects) or field not in FIELDS[classes[index]]:
                continue
            _, setter, kind, _ = FIELDS[classes[index]][field]
            ok = accepts(kind, value, classes)
            actual = real(value, objects)
            call = "%s.%s(%r)" % (classes[index], setter, actual)
            try:
                getattr(objects[index], setter)(actual)
            except (TypeError, ValueError) as exc:
                if ok:
                    fail(call + " was refused", error=str(exc))
                wrong_text = kind[0] == "one of" and value[0] == "str"
                if not isinstance(exc, ValueError if wrong_text else TypeError):
                    fail(call + " raised %s, %s was expected" % (type(exc).__name__,
                                                                 "ValueError" if wrong_text else "TypeError"))
                refused += 1
                labels.add("refused: %s" % (kind if isinstance(kind, str) else " ".join(kind[:2])))
            else:
                if not ok:
                    fail(call + " was accepted")
                accepted += 1
                labels.add("accepted: %s" % (kind if isinstance(kind, str) else " ".join(kind[:2])))
                states[index][field] = list(actual) if isinstance(actual, list) else actual
        else:
            _, index, field = op
            if index >= len(objects) or field not in FIELDS[classes[index]]:
                continue
            getter = FIELDS[classes[index]][field][0]
            got = getattr(objects[index], getter)()
            if not isinstance(got, list):
                continue
            extra = "appended"
            got.append(extra)
            # the object itself may show the new element (live list) or not (copy); no other field may
            now = list(getattr(objects[index], getter)())
            if now and now[-1] is extra and same(now[:-1], states[index][field]):
                states[index][field] = now
            labels.add("append")
        check_all(repr(op), objects, classes, states)
    if case["import"]:
        labels.add("fresh import")
    return {"nontrivial": len(ops) >= 5 and accepted > 0 and refused > 0, "labels": sorted(labels)}
