#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md, the bounds in specs.py and the explanations below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/tools")
from specs import SPECS
HOW = {
"C01": "IEEE mode: the comparison functions on arbitrary doubles against the definitions by exact subtraction; grid mode: agreement with exact arithmetic, default tolerance.",
"C02": "IEEE mode: result is one of the arguments and none is beyond it; grid mode: |round(x) - x| <= half a unit and halves away from zero, by exact rational arithmetic; idempotence.",
"C03": "Interval arithmetic written in the harness (max(0, min of ends - max of starts) / extent) against the ratios of the code; gaps, offsets, equality relations likewise.",
"C04": "A box rotated explicitly by the harness against the getRot* functions, width and height.",
"C05": "Irreflexivity, asymmetry, transitivity, transitivity of incomparability for three symbolic elements and each of the comparators; the sorted sequence is an ordered permutation.",
"C06": "Reference counts kept by the harness; all queries after every history; exceptions on empty counters.",
"C07": "A reference model (sorted array) run next to the queue through every history of pushes.",
"C08": "A JSON string decoder in the harness: the escaped text contains no raw control character or quote and decodes to the original, for every byte string.",
"C09": "Byte-wise reference definitions; wrap: the output with line breaks and indents removed is the input, each line is indented and maximal; createRandomString: every index of the alphabet is possible.",
"C10": "The documented names are listed in the harness: acceptance, meaning and refusal for any string, and the printed lists are taken apart again.",
"C11": "For any level, filter and page: the output is empty or prefix + message.",
"C12": "Gaps are recomputed by the definition (for every position between elements: nothing but the allowed number crosses); each element of a group lies on its side; the recursion ends at indivisible groups. The cut callbacks choose arbitrary subsets.",
"C13": "Partition and union of boxes; a column split occurs iff the conditions of the statement hold for two symbolic groups.",
"C14": "The overlaps are recomputed per neighbour; no base is a mark of another; union of boxes; classification for every code point.",
"C15": "Partition in order; a boundary is at exactly the positions of the definition; statistics of the word's characters recomputed.",
"C16": "Contiguity and overlap recomputed by definition, consistency of the references in both directions.",
"C17": "Partition; for each pair of words same line <=> definition (baseline / overlap ratios as cross-multiplied inequalities); order along the rotation; figures of the line recomputed.",
"C18": "Parent, siblings and trim box recomputed by definition from the lines' positions.",
"C19": "Definition per character with tolerance; base box recomputed.",
"C20": "Multisets of values recomputed by the harness; modes and averages.",
"C21": "Partition and links; a boundary predicate per neighbouring lines, written from the comments that document the rules, compared with the blocks found; figures of the block recomputed.",
"C22": "Each predicate against its documented definition, for any text or position within the bounds (regex decided by a model of the ECMAScript matcher, validated natively).",
"C23": "Permutation; for each pair of blocks a division of the page that separates them fixes their order; which division comes first follows the documented order.",
"C24": "The chains of parts are recomputed from the texts; exactly the parts refer to the joined word.",
"C25": "The expected text is composed by the harness from the selected blocks and compared byte by byte.",
"C26": "As C25, with prefixes, emphasis marks and page breaks.",
"C27": "A JSON parser in the harness parses each line; values are compared with the elements for any bytes in texts and names.",
"C28": "A model of file system, shell and streams records every effect; the effects must be exactly those of the statement for every path.",
"C29": "A second Type 1 interpreter in the harness, written from the specification; memory safety for arbitrary bytes.",
"C30": "Font files are composed by the harness in every format and encryption from symbolic values, then compared with what the parser found; damaged variants for memory safety and unchanged defaults.",
"C31": "Names, weight and slant recomputed by the documented rules.",
"C32": "The matrices are applied by the harness to the corners of the character; text, color, rotation and font from the (stand-in) graphics state.",
"C33": "Clipping recomputed per point; ownership by clip box; ranks by order of events.",
"C34": "A naive reference encoder in the harness.",
"C35": "The tensors given to the (stub) model are compared with figures recomputed from the document; argmax of any probabilities.",
"C36": "The steps are stand-ins that record their calls; any combination of switches.",
"C37": "main() is called with each command line; the recorded configuration, effects, output and exit status are compared with the documentation.",
"C38": "Poppler's pages and annotations are stand-ins that record what is added; each recorded rectangle is transformed as a viewer does and compared with the element's box.",
"C39": "All modules run one after another on a symbolic page; structure, conservation of characters and order of the output.",
"C40": "Relational: the same symbolic document is processed twice, the second time moved by an offset or behind other pages; text, structure and statistics of both runs must be equal terms on every path.",
"C41": "Relational: the same symbolic document is processed before and after others in one process and must yield the same; of two documents that only differ in the names of their fonts and the number of the page, one shares the names with a document before.",
"C42": "The whole pipeline and all serializers on pages of odd elements; the engine reports out-of-bounds and use-after-free accesses, null dereferences, divisions by zero and uncaught exceptions on every path (replayed under ASan/UBSan), and the structure is checked as in C39.",
"C43": "The engine counts the heap blocks that are allocated; after a document is processed and deleted, the count must be the one before it (a first document warms up caches and static objects); double and stray deletions are reported as in C42, and counterexamples are replayed with a counting allocator under ASan.",
}
t = open(HERE + "/tools/design.md").read()
s = ["## 4. Properties", "", "Per property: how the oracle decides it; bounds of the quick command (thorough in parentheses); entry points in `harness/`; further assumptions. Costs are the wall time of the quick command on 8 cores (compilation included) and its solver time when this file was written.", ""]
cost = json.load(open(HERE + "/tools/cost.json")) if os.path.exists(HERE + "/tools/cost.json") else {}
title = {p["id"]: p["title"] for p in map(json.loads, open(HERE + "/properties.jsonl"))}
for pid in sorted(SPECS):
    p = SPECS[pid]
    s.append(f"**{pid} {title[pid]}.** {HOW[pid]}")
    s.append(f"*Bounds:* {p['bounds']}. *Entries:* " + ", ".join(dict.fromkeys(f"`{r['harness']}.cpp:{r['entry']}`" for r in p["runs"])) + "." + (" *Assumptions:* " + "; ".join(p["assumptions"]) + "." if p.get("assumptions") else "") + (f" *Cost:* {cost[pid]}." if pid in cost else ""))
    s.append("")
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
import glob
for m in sorted(glob.glob(HERE + "/seeded/*/meta.json")):
    j = json.load(open(m)); b = m.split("/")[-2]
    rows.append(f"| {b} | {j['property']} | {j['what_it_breaks']} | {j['needs']} | {j['property']} |")
t = t.replace("GRIDS\n", "\n".join(s)).replace("OBSERVE\n", open(HERE + "/tools/design_tail.md").read()).replace("PLANTED\n", "\n".join(rows) + "\n")
open(HERE + "/DESIGN.md", "w").write(t)
print(len(t.split("\n")), "lines")
