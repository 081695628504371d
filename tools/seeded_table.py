#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 6. Planted bugs"
ALSO = {"far-shift": "D04", "thin-y": "K15, K06", "sgcw-cap": "K06, K10", "thin-write": "K02"}
MISSED = {"static-coeff": "history replays", "expand-shrink": "widening by negative amounts", "scalar-int": "numbers that no int holds",
          "short-stride": "huge index spaces", "pair-left": "forced operator forms, unmasked first statement",
          "dot-dup": "tables of 40 entries", "dot-static": "programs run with several thread counts", "at-4d": "four-dimensional programs", "copy-chunk": "large owning arrays", "memo-dx": "a case repeated with some choices redrawn"}
head = open(os.path.join(V, "DESIGN.md")).read().split(MARK)[0].rstrip().replace("@SEEDED@", "").rstrip()
out = [MARK, "", """Each folder of `seeded/` holds a C++ change that compiles and passes the 105 tests, and a
demonstration. All are caught by the check of their property (column two); the last column
names what was added to the machinery when a change was missed at first.
""", "| change | caught by | needs | missed at first; added |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    out.append("| %s | %s | %s | %s |" % (i, m["property"] + (", " + ALSO[i] if i in ALSO else ""), m["needs"], MISSED.get(i, "")))
out.append("""
Also planted, caught and not kept because they change Fortran sources (`m4/`), which the rules
for planted changes do not count: an offset in the point form of the stencil application (L03), a block
extent (L02), the Robin mesh width (K03), the coarse-fine corner (L04), the node flux mesh width
(L05), a red-black colour in 3-D (L01). Tried and dropped as equivalent: `limit-rt`, `dist-end`;
within rounding: `recip-grad`.

## 7. Mutation campaigns

Beside the planted changes, random mutations (operators, constants, relations, neighbouring
identifiers, deleted statements) of the sources were run against the checks of the file's
routines with small case counts:

| sources | killed | survivors |
|---|---|---|
| m4 (Fortran) | 433 | 10: nine equivalent; `trans` of dgetrs, which the LAPACK stand-in then ignored and now honours |
| C++ kernels | 171 | 13, all equivalent |
| C++ headers | 66 (and 151 that do not compile) | 23: 19 in window_iterator.hpp and plain `bounds`, in code no check then instantiated (now reached by I09's whole-array windows and I10's plain ranges), one default argument (now reached by I07), three equivalent |
""".rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write(head + "\n\n" + "\n".join(out) + "\n")
