#!/usr/bin/env python3
"""Writes the list of planted bugs at the end of DESIGN.md."""
import collections
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
groups = collections.defaultdict(list)
for name in sorted(os.listdir(HERE + "/seeded")):
    with open(HERE + "/seeded/%s/meta.json" % name) as f:
        groups[json.load(f)["property"]].append(name)
with open(HERE + "/DESIGN.md") as f:
    text = f.read()
head = text[:text.index("<!-- planted -->")]
with open(HERE + "/DESIGN.md", "w") as f:
    f.write(head + "<!-- planted -->\n" + "".join("* %s: %s\n" % (k, ", ".join(v)) for k, v in sorted(groups.items())))
