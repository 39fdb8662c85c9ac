_BASE = ("Every generated case of a run is decided against an explicit oracle; strength is that of sampling: "
         "rare inputs outside the generators' size bounds are not covered. Trusts Hypothesis, networkx, pandas, "
         "ElementTree and the oracle in harness/. ")
TECHNIQUE.update({
    "C01": "property-based testing: generated documents vs. independent expectation model",
    "C02": "property-based testing: generated collaborations vs. model, plus round trip",
    "C03": "metamorphic property-based testing: same document in two random XML styles",
    "C04": "differential property-based testing: exporter vs. independent namespace-aware reader",
    "C05": "property-based testing: round trip and byte-stable re-export",
    "C06": "differential property-based testing: layout-free export vs. independent reader",
    "C07": "stateful model-based property testing of builder call histories",
    "C08": "property-based testing: structural invariant over diagrams of all producers and histories",
    "C09": "property-based testing: queries vs. brute-force reference over the model",
    "C10": "stateful property-based testing: full state before/after histories of read-only operations",
    "C11": "property-based testing of generated graphs: totality, frame condition and idempotence of layout",
    "C12": "property-based testing of generated graphs: geometric oracle for the layout",
    "C13": "property-based testing: counting metrics vs. reference counts over the model",
    "C14": "property-based testing: structural metrics vs. reference definitions",
    "C15": "property-based testing: longest paths vs. exhaustive path enumeration",
    "C16": "property-based testing: exact rational-arithmetic reference for segments and crossings",
    "C17": "property-based testing: generated CSV block trees vs. reference process",
    "C18": "property-based testing: generated block-structured processes vs. reference rows",
    "C19": "property-based testing: CSV round trips in both directions",
    "C20": "property-based testing: DOT/PNG source parsed back by Graphviz and compared with the diagram",
    "C21": "model-based property testing of setter/constructor histories over all element classes",
    "C22": "metamorphic property-based testing: same inputs across processes, hash seeds and locations",
    "C23": "stateful property-based testing: interleaved histories vs. each history alone",
    "C24": "property-based testing with injected invalid inputs: refusal and unchanged state",
    "C26": "property-based testing: classification vs. reference computed from the graph's edges",
    "C27": "property-based testing: content of the shown matplotlib figure compared with the diagram",
    "C25": "property-based testing of generated processes: geometric oracle for the rows of branches",
})
for _pid in TECHNIQUE:
    NOTES[_pid] = _BASE
NOTES["C01"] += "At most one sequence flow per ordered pair of nodes (known finding KF1)."
NOTES["C11"] += "Diagrams without pools."
NOTES["C18"] += "Block-structured processes only."
NOTES["C20"] += "Graphviz's own parser decides what a DOT file means; PNG rasterisation itself is trusted."
