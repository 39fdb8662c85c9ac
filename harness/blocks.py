"""
Block-structured processes for the CSV format.

Import trees (csv_tree): what a spreadsheet describes; number(tree) gives the rows and the process they describe.
Export trees (api_tree): processes built through the API; build_api builds one, rows_of gives the rows of its export.

seq    = {"items": [item, ...], "end": None | ["end", name] | ["goto", k] | ["stop"] (ends with its last step)}
item   = ["step", name, is_subprocess, condition] | ["block", [branch, ...]]                          (import)
         ["step", name, is_subprocess] | ["block", gateway, [branch, ...], default or None, implicit]  (export)
branch = {"cond": text, "seq": seq, "short": bool}                                                    (import)
         {"name": text, "cond": text or None, "seq": seq or None for a direct flow to the join}       (export)
"""
import csv
import io
import random
import string

from hypothesis import strategies as st

from harness import core
from harness.strat import NAME, fraction

HEADER = ["Order", "Activity", "Condition", "Who", "Subprocess", "Terminated"]


def _plain(text):
    return not text.strip().lower().startswith("goto")


STEP_NAME = st.one_of(st.sampled_from(["A", "B", "Check order", "yes", "NA", "007", "1.0", "True", "Task, big", "go to 1"]),
                      NAME.filter(_plain))
COND = st.one_of(st.just(""), st.sampled_from(["yes", "no", "else", "x > 5", "x, y", "5", "Yes", "yes "]),
                 NAME.filter(lambda t: t.strip() != "" or t == ""))
SPLIT_CONDS = st.one_of(st.just(["", "", ""]), st.just(["yes", "no", ""]), st.just(["no", "yes", ""]),
                        st.just(["a", "else", "b"]), st.just(["else", "b", ""]), st.none(), st.none())


# ------------------------------------------------------------------------------------------------- import: strategy
def step(draw, first_cond=None):
    cond = ""
    if first_cond is None and fraction(draw, 1, 12):
        cond = draw(COND)
    return ["step", draw(STEP_NAME), fraction(draw, 1, 4), cond]


def csv_block(draw, depth, followed, cont, options):
    count = draw(st.sampled_from([2, 2, 2, 3, 3, 4])) if fraction(draw, 24, 25) else draw(st.integers(5, 26))
    conds = draw(SPLIT_CONDS)
    small = count > 4
    forced = draw(st.lists(st.integers(0, count - 1), min_size=options["min_open"], max_size=count, unique=True)) \
        if followed else []
    branches = []
    deep = draw(st.integers(0, count - 1)) if options.get("thin") else None
    for i in range(count):
        if i in forced:
            kind = "open"
        elif not cont:
            kind = "term"
        elif options["min_open"] > 1 and not followed:
            kind = "term"
        else:
            kind = "any"
        inner = depth - 1 if deep == i or (deep is None and not small) else 0
        seq = csv_seq(draw, inner, kind, cont, followed and options["goto"], options)
        single = len(seq["items"]) + (1 if seq["end"] else 0) == 1
        branches.append({"cond": (conds + [""] * count)[i] if conds is not None else draw(COND), "seq": seq,
                         "short": single and options["short"] and fraction(draw, 1, 4)})
    return ["block", branches]


def csv_seq(draw, depth, kind, cont, goto, options):
    """kind: top, open (reaches the join), term (ends before it), any."""
    items = []
    bare = kind in ("term", "any") and fraction(draw, 1, 6)
    if kind == "top":
        if draw(st.booleans()):
            items.append(step(draw))
    elif not bare:
        items.append(step(draw))
    length = draw(st.integers(0, 2)) if kind != "top" else draw(st.integers(0, 4))
    if fraction(draw, 1, 40):
        length = 12
    if not bare:
        for _ in range(length):
            can_block = (items and items[-1][0] == "step") or (kind == "top" and not items)
            if depth > 0 and can_block and fraction(draw, 1, 2):
                items.append(csv_block(draw, depth, True, True, options))
                items.append(step(draw))
            else:
                items.append(step(draw))
    ending = draw(st.integers(0, 3))
    if kind == "open":
        return {"items": items, "end": None}
    if kind == "any" and ending == 0 and not bare:
        return {"items": items, "end": None}
    if kind == "any" and goto and ending == 1:
        return {"items": items, "end": ["goto", draw(st.integers(0, 40))]}
    if depth > 0 and ending == 2 and (items or kind == "top") and not bare and kind != "open":
        items.append(csv_block(draw, depth, False, cont and kind == "any", options))
        return {"items": items, "end": None}
    if items and kind == "top" and depth > 0 and ending == 3:
        items.append(csv_block(draw, depth, True, True, options))
    return {"items": items, "end": ["end", draw(STEP_NAME)]}


@st.composite
def csv_tree(draw, depth=3, goto=True, min_open=1, short=True, midcond=True, thin=False):
    """thin: at most one branch of each split has splits of its own."""
    options = {"goto": goto, "min_open": min_open, "short": short, "thin": thin}
    levels = depth if thin else draw(st.sampled_from([0] + list(range(1, depth + 1)) * 3))
    tree = {"start": draw(STEP_NAME), "seq": csv_seq(draw, levels, "top", False, False, options)}
    if not midcond:
        clear_conditions(tree["seq"])
    return tree


def clear_conditions(seq):
    for item in seq["items"]:
        if item[0] == "step":
            item[3] = ""
        else:
            for branch in item[1]:
                clear_conditions(branch["seq"])


def add_chain(tree, count, mark):
    steps = [["step", "S%d" % i, i % 7 == 3] + mark for i in range(count)]
    return dict(tree, seq=dict(tree["seq"], items=steps + tree["seq"]["items"])) if count else tree


def lengthened(draw_tree, mark):
    """Some trees get a long chain of steps in front."""
    def longer(pair):
        tree, count = pair
        return add_chain(tree, count, mark)
    return st.tuples(draw_tree, st.sampled_from([0] * 40 + [8, 9, 31, 70, 98, 99, 100, 130])).map(longer)


# ------------------------------------------------------------------------------------------- import: reference process
class Process(object):
    def __init__(self, tree):
        self.rows = [["0", tree["start"], "", "", "", ""]]
        self.nodes = {"0": ("startEvent", tree["start"])}
        self.edges = {}       # (source, target) -> condition
        self.gateways = []    # {"type", "preds": set, "succs": {row: condition}}
        self.gotos = []       # (source, condition, k)
        self.depth = 0
        self.kinds = set()
        rest = self.walk(tree["seq"], "", 1, {"preds": ["0"], "type": None}, None, 0)
        if rest:
            raise core.Violation("harness: top-level sequence is left open")
        self.resolve()

    def add_row(self, order, name, cond, kind):
        self.rows.append([order, name, cond, "", "yes" if kind == "subProcess" else "",
                          "yes" if kind == "endEvent" else ""])
        if kind is not None:
            self.nodes[order] = (kind, name)

    def connect(self, source, order, cond):
        if isinstance(source, int):
            self.gateways[source]["succs"][order] = cond
        elif len(source["preds"]) == 1:
            self.edges[(source["preds"][0], order)] = cond
        else:
            self.kinds.add("join")
            self.gateways.append({"type": source["type"], "preds": set(source["preds"]), "succs": {order: cond}})

    def walk(self, seq, prefix, order, source, first_cond, depth, short=False):
        """source: index of a split gateway, or {"preds": rows, "type": type of the join}. Returns the open ends."""
        self.depth = max(self.depth, depth)
        cond = first_cond or ""
        for i, item in enumerate(seq["items"]):
            if item[0] == "step":
                row = prefix if short else prefix + str(order)
                text = first_cond if i == 0 and first_cond is not None else item[3]
                self.add_row(row, item[1], text, "subProcess" if item[2] else "task")
                self.connect(source, row, text)
                source = {"preds": [row], "type": None}
            else:
                source = self.block(item[1], prefix, order, source, depth)
            cond = ""
            order += 1
        end = seq["end"]
        row = prefix if short else prefix + str(order)
        if end is None:
            return source["preds"]
        if end[0] == "end":
            self.add_row(row, end[1], cond, "endEvent")
            self.connect(source, row, cond)
            return []
        self.rows.append([row, None, cond, "", "", ""])
        self.gotos.append((source if isinstance(source, int) else source["preds"][0], cond, end[1], len(self.rows) - 1))
        return []

    def block(self, branches, prefix, order, source, depth):
        conds = [b["cond"] for b in branches]
        if len(conds) == 2 and (set(c.strip() for c in conds) == {"yes", "no"} or "else" in [c.strip() for c in conds]):
            kind = "exclusiveGateway"
        elif not any(conds):
            kind = "parallelGateway"
        else:
            kind = "inclusiveGateway"
        self.kinds.add(kind)
        index = len(self.gateways)
        self.gateways.append({"type": kind, "preds": set(source["preds"]), "succs": {}})
        if len(source["preds"]) != 1:
            raise core.Violation("harness: a split follows a join")
        opens = []
        for letter, branch in zip(string.ascii_lowercase, branches):
            opens += self.walk(branch["seq"], prefix + str(order) + letter, 1, index, branch["cond"], depth + 1,
                               branch["short"])
        return {"preds": opens, "type": kind}

    def resolve(self):
        targets = [r for r in self.nodes if r != "0"]
        for source, cond, k, row in self.gotos:
            for i in range(len(targets)):
                target = targets[(k + i) % len(targets)]
                taken = target in self.gateways[source]["succs"] if isinstance(source, int) \
                    else (source, target) in self.edges
                if not taken:
                    break
            else:
                raise core.Violation("harness: no target for a goto row")
            if isinstance(source, int):
                self.gateways[source]["succs"][target] = cond
            else:
                self.edges[(source, target)] = cond
            self.rows[row][1] = "goto " + target
            self.kinds.add("goto")

    def gateway_list(self):
        return sorted([g["type"], sorted(g["preds"]), sorted(g["succs"].items())] for g in self.gateways)


@st.composite
def csv_rows(draw, **kwargs):
    return Process(draw(csv_tree(**kwargs))).rows


def write_rows(rows, style=0):
    header = list(HEADER)
    out = io.StringIO(newline="")
    rnd = random.Random(style) if style else None
    columns = list(range(6))
    quoting, ending = csv.QUOTE_MINIMAL, "\n"
    if rnd:
        rest = columns[1:]
        if rnd.random() < 0.3:
            rnd.shuffle(rest)
        columns = [0] + rest
        quoting = rnd.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL])
        ending = rnd.choice(["\n", "\r\n"])
    extra = bool(rnd) and rnd.random() < 0.3
    writer = csv.writer(out, quoting=quoting, lineterminator=ending)
    writer.writerow([header[c] for c in columns] + (["Comment"] if extra else []))
    for row in rows:
        row = list(row)
        if rnd:
            row[3] = rnd.choice(["", "", "Bob", "yes", "5", "the boss, himself"])
            if rnd.random() < 0.15:
                row[0] = rnd.choice([" %s", "%s ", " %s "]) % row[0]
            if row[5] == "":
                row[5] = rnd.choice(["", "", "no"])
            if row[4] == "":
                row[4] = rnd.choice(["", "", "no"])
        writer.writerow([row[c] for c in columns] + (["note"] if extra else []))
    return out.getvalue()


# ---------------------------------------------------------------------------------------------------- export: strategy
def api_block(draw, depth, opens, followed, options, last=False):
    """opens: None (any number), 0 (all branches end), followed: a step or an end comes right after the block."""
    count = draw(st.sampled_from([2, 2, 2, 3, 3, 4])) if fraction(draw, 24, 25) else draw(st.integers(5, 26))
    gateway = draw(st.sampled_from(["exclusiveGateway", "exclusiveGateway", "inclusiveGateway", "parallelGateway"]))
    branches = []
    for i in range(count):
        is_open = opens is None and draw(st.integers(0, 3)) < 3
        branches.append({"name": draw(COND), "cond": draw(st.one_of(st.none(), st.none(), COND)),
                         "open": is_open, "seq": None})
    if opens is None and followed and not any(b["open"] for b in branches):
        branches[draw(st.integers(0, count - 1))]["open"] = True
    number = sum(b["open"] for b in branches)
    skips = 0
    small = count > 4
    deep = draw(st.integers(0, count - 1)) if options.get("thin") else None
    for i, branch in enumerate(branches):
        is_open = branch.pop("open")
        if is_open and (followed or last) and number >= 2 and skips == 0 and options["skip"] and fraction(draw, 1, 5):
            skips += 1
            continue
        inner = depth - 1 if deep == i or (deep is None and not small) else 0
        branch["seq"] = api_seq(draw, inner, "open" if is_open else "term", options)
    default = None
    if gateway != "parallelGateway" and fraction(draw, 1, 3):
        default = draw(st.integers(0, count - 1))
    implicit = bool((followed or last) and number >= 2 and fraction(draw, 1, 5))
    return ["block", gateway, branches, default, implicit]


def api_step(draw):
    return ["step", draw(STEP_NAME), fraction(draw, 1, 4)]


def api_seq(draw, depth, kind, options):
    items = []
    bare = kind == "term" and fraction(draw, 1, 6)
    if kind != "top" and not bare:
        items.append(api_step(draw))
    length = 0 if bare else draw(st.integers(0, 2)) if kind != "top" else draw(st.integers(0, 4))
    if fraction(draw, 1, 40) and not bare:
        length = 12
    for _ in range(length):
        adjacent = bool(items) and items[-1][0] == "block"
        if depth > 0 and (not adjacent or options["adjacent"]) and fraction(draw, 1, 2):
            if options["adjacent"] and fraction(draw, 1, 4):
                items.append(api_block(draw, depth, None, False, options))
                items[-1][4] = False
                if count_open(items[-1]) == 0:
                    items.append(None)  # nothing can follow
                    break
            else:
                items.append(api_block(draw, depth, None, True, options))
                items.append(api_step(draw))
        else:
            items.append(api_step(draw))
    if items and items[-1] is None:
        # the last block never reaches its join: the sequence ends there
        items.pop()
        if kind == "open":
            items[-1] = api_step(draw)
            return {"items": items, "end": None}
        return {"items": items, "end": None}
    ending = draw(st.integers(0, 3))
    adjacent = bool(items) and items[-1][0] == "block"
    if kind != "open" and options.get("stop") and items and not adjacent and fraction(draw, 1, 4):
        return {"items": items, "end": ["stop"]}
    if kind == "open":
        if depth > 0 and ending == 0 and (not adjacent or options["adjacent"]):
            block = api_block(draw, depth, None, False, options, True)
            if count_open(block) > 0:
                items.append(block)
        return {"items": items, "end": None}
    if depth > 0 and ending == 1 and not bare and (items or kind == "top") and (not adjacent or options["adjacent"]):
        items.append(api_block(draw, depth, 0, False, options))
        return {"items": items, "end": None}
    if depth > 0 and ending == 2 and not bare and (not adjacent or options["adjacent"]):
        items.append(api_block(draw, depth, None, True, options))
        items[-1][4] = False
    return {"items": items, "end": ["end", draw(STEP_NAME), draw(st.sampled_from([None, None, "message", "terminate"]))]}


def is_open(seq):
    if seq is None:
        return True
    if seq["end"] is not None:
        return False
    if seq["items"] and seq["items"][-1][0] == "block":
        return count_open(seq["items"][-1]) > 0
    return True


def count_open(block):
    return sum(1 for b in block[2] if is_open(b["seq"]))


@st.composite
def api_tree(draw, depth=3, adjacent=True, skip=True, stop=False, thin=False):
    options = {"adjacent": adjacent, "skip": skip, "stop": stop, "thin": thin}
    levels = depth if thin else draw(st.sampled_from([0] + list(range(1, depth + 1)) * 3))
    return {"start": [draw(STEP_NAME), draw(st.sampled_from([None, None, "message", "timer", "signal"]))],
            "seq": api_seq(draw, levels, "top", options)}


# ----------------------------------------------------------------------------------------- export: building, reference
class Builder(object):
    def __init__(self, diagram, tree, ids=None):
        self.d = diagram
        diagram.create_new_diagram_graph(diagram_name="d")
        self.process = diagram.add_process_to_diagram("p")
        self.flows = []      # [source, target holder, name, cond, is_default]
        name, definition = tree["start"]
        start, _ = diagram.add_start_event_to_diagram(self.process, start_event_name=name,
                                                      start_event_definition=definition)
        self.steps = [start]
        self.kinds = {start: ("startEvent", (definition + " " if definition in ("message", "timer") else "") + name)}
        rest = self.walk(tree["seq"]["items"], tree["seq"]["end"], [self.flow(start)])
        if rest:
            raise core.Violation("harness: top-level sequence is left open")
        for source, holder, name, cond, default in self.flows:
            if cond is None and name is None:
                flow_id, view = diagram.add_sequence_flow_to_diagram(self.process, source, holder[0])
            else:
                flow_id, view = diagram.add_sequence_flow_to_diagram(self.process, source, holder[0], name or "")
            if cond is not None:
                view["conditionExpression"] = {"id": flow_id + "_c", "conditionExpression": cond}
            if default:
                diagram.diagram_graph.nodes[source]["default"] = flow_id

    def flow(self, source, name=None, cond=None, default=False):
        holder = [None]
        self.flows.append([source, holder, name, cond, default])
        return holder

    def arrive(self, pending, node):
        for holder in pending:
            holder[0] = node

    def add(self, kind, name, definition=None):
        if kind == "task":
            node, _ = self.d.add_task_to_diagram(self.process, task_name=name)
        elif kind == "subProcess":
            node, _ = self.d.add_subprocess_to_diagram(self.process, subprocess_name=name)
        else:
            node, _ = self.d.add_end_event_to_diagram(self.process, end_event_name=name, end_event_definition=definition)
            name = ("message " if definition == "message" else "") + name
        self.steps.append(node)
        self.kinds[node] = (kind, name)
        return node

    def gateway(self, kind):
        call = {"exclusiveGateway": self.d.add_exclusive_gateway_to_diagram,
                "inclusiveGateway": self.d.add_inclusive_gateway_to_diagram,
                "parallelGateway": self.d.add_parallel_gateway_to_diagram}[kind]
        return call(self.process, gateway_name="")[0]

    def walk(self, items, end, pending):
        for i, item in enumerate(items):
            if item[0] == "step":
                node = self.add("subProcess" if item[2] else "task", item[1])
                self.arrive(pending, node)
                if i + 1 == len(items) and end == ["stop"]:
                    return []
                pending = [self.flow(node)] if i + 1 < len(items) or end is not None else [("open", node)]
            else:
                pending = self.close(pending)
                _, kind, branches, default, implicit = item
                split = self.gateway(kind)
                self.arrive(pending, split)
                opens = []
                for k, branch in enumerate(branches):
                    holder = self.flow(split, branch["name"], branch["cond"], k == default)
                    if branch["seq"] is None:
                        opens.append(holder)
                    else:
                        opens += self.close(self.walk(branch["seq"]["items"], branch["seq"]["end"], [holder]))
                if len(opens) >= 2 and not implicit:
                    join = self.gateway(kind)
                    self.arrive(opens, join)
                    opens = [("open", join)]
                pending = opens
            pending = self.close(pending) if i + 1 < len(items) or end is not None else pending
        if end is not None:
            node = self.add("endEvent", end[1], end[2])
            self.arrive(pending, node)
            return []
        return pending

    def close(self, pending):
        return [self.flow(p[1]) if isinstance(p, tuple) else p for p in pending]


def condition_of(gateway, branch, is_default):
    if gateway == "parallelGateway":
        return ""
    if is_default:
        return "else"
    if branch["name"] != "":
        return branch["name"]
    return branch["cond"] or ""


class Rows(object):
    """Reference of the CSV export."""

    def __init__(self, tree):
        name, definition = tree["start"]
        self.rows = [["0", (definition + " " if definition in ("message", "timer") else "") + name, "", "", "", ""]]
        self.kinds = set()
        self.depth = 0
        self.walk(tree["seq"]["items"], tree["seq"]["end"], "", 1, "", 0, None)

    def walk(self, items, end, prefix, order, cond, depth, outside):
        """outside: order of the row that follows the sequence."""
        self.depth = max(self.depth, depth)
        items = list(items)
        while items:
            item = items.pop(0)
            if item[0] == "step":
                self.rows.append([prefix + str(order), item[1], cond, "", "yes" if item[2] else "", ""])
            else:
                _, gateway, branches, default, implicit = item
                self.kinds.add(gateway)
                opened = count_open(item)
                after = prefix + str(order + 1) if items or end is not None else outside
                if opened >= 2 and not items and end is None:
                    self.kinds.add("join at the end of a branch" if not implicit else "meets at outer join")
                for k, branch in enumerate(branches):
                    inner = prefix + str(order) + string.ascii_lowercase[k]
                    text = condition_of(gateway, branch, k == default)
                    if default == k:
                        self.kinds.add("default")
                    if branch["seq"] is None:
                        self.kinds.add("skip")
                        self.rows.append([inner + "1", "goto " + after, text, "", "", ""])
                    elif opened == 1 and is_open(branch["seq"]):
                        self.kinds.add("single open branch")
                        self.walk(branch["seq"]["items"] + items, end, inner, 1, text, depth + 1, outside)
                    else:
                        self.walk(branch["seq"]["items"], branch["seq"]["end"], inner, 1, text, depth + 1, after)
                if opened >= 2:
                    self.kinds.add("activity join" if implicit else "join")
                if opened < 2:
                    return
            cond = ""
            order += 1
        if end == ["stop"]:
            self.kinds.add("dead end")
        elif end is not None:
            name = ("message " if end[2] == "message" else "") + end[1]
            self.rows.append([prefix + str(order), name, cond, "", "", "yes"])
