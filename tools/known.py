#!/usr/bin/env python3
"""Writes known_findings.jsonl: repaired defects (status fixed, suppress nothing) and known findings (status known)."""
import json, os
FIXED = [
 ("C09", "59a29e8", "strip(\"\") and strip of a blank text read past the ends of the string"),
 ("C09", "aa68d2b", "createRandomString() never chose the last character of the alphabet"),
 ("C09", "589c0db", "join() dropped the separators behind leading empty strings"),
 ("C09", "a9289bc", "wrap() left lines unindented or longer than the width"),
 ("C06", "4a469c9", "DoubleCounter::max() returned the smallest positive double if all keys were <= 0"),
 ("C15", "955b565", "bounding boxes of elements with only negative coordinates were wrong (initialised with the smallest positive double)"),
 ("C32", "4867c7d", "a stroked path outside the clip box became a shape with an infinite bounding box"),
 ("C16", "d9657db", "a word could become a part of several stacked math symbols"),
 ("C14", "8abc8ec", "a failure of utf8proc to compose a character with its mark led to a null pointer"),
 ("C14", "191301e", "the first of two diacritic marks of a character was lost"),
 ("C13", "ce75cdd", "an empty page segment got an undocumented position"),
 ("C12", "848e10c", "an x-cut was missed or made through an element that extends past the elements after it"),
 ("C17", "8b7dc78", "text lines rotated by 90 or 270 degrees were ordered from bottom to top"),
 ("C17", "3e59919", "overlapping text lines were merged by their unrotated positions whatever their rotation"),
 ("C18", "d116c01", "distances and offsets of text lines were cut off to integers (abs of <stdlib.h>) before comparing"),
]
KNOWN = []
from_extra = os.path.join(os.path.dirname(__file__), "known_extra.json")
if os.path.exists(from_extra):
    e = json.load(open(from_extra)); FIXED += [tuple(x) for x in e["fixed"]]; KNOWN += e["known"]
out = [dict(status="fixed", property=p, commit=c, text=f"fixed: property={p} {c} {t}") for p, c, t in FIXED]
out += [dict(status="known", **k) for k in KNOWN]
with open(os.path.join(os.path.dirname(__file__), "..", "known_findings.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out), "entries")
