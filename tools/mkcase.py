#!/usr/bin/env python3
"""Writes harness/casetable.h: simple case mappings of the characters of Unicode 3.2 below U+3000 (from Python's tables, not from pire)."""
import unicodedata, os
old = unicodedata.ucd_3_2_0
def known(c): return old.category(chr(c)) != 'Cn'
rows = []
for c in range(0x3000):
    if not known(c): continue
    u, l = chr(c).upper(), chr(c).lower()
    if len(u) > 1: u = chr(c).title() if len(chr(c).title()) == 1 else chr(c)
    if len(l) > 1: l = chr(c) if c != 0x130 else 'i'
    if not known(ord(u)): u = chr(c)
    if not known(ord(l)): l = chr(c)
    if ord(u) != c or ord(l) != c: rows.append((c, ord(u), ord(l)))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(root + '/harness/casetable.h', 'w') as f:
    f.write("// Made by tools/mkcase.py. Character, its upper case, its lower case.\n#pragma once\nstatic const unsigned caseTable[][3] = {\n")
    for i in range(0, len(rows), 8): f.write("\t" + " ".join("{0x%x,0x%x,0x%x}," % r for r in rows[i:i + 8]) + "\n")
    f.write("};\n")
