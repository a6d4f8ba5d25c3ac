#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (development aid, not a check)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RM, VA, VH = "src/src/rmath.cpp", "src/src/vatti.cpp", "src/src/vatti.h"
TESTS = "The two tests run one fixed scene and compare its SVG; "
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na, state=state))


prop("C01", "Bezier evaluation and subdivision trace the same curve",
     "Evaluating a cubic at t gives the Bernstein value of its four control points. Splitting it at one parameter, or at any list of ascending parameters below 1, yields pieces that trace exactly the corresponding stretches of the original curve, each parametrised over [0,1] and joined end to end, whether or not an output aliases the input.",
     ["inputs"], "every control polygon, every parameter, every number of split parameters",
     TESTS + "they reach a few parameters on a few curves.",
     ["src/include/rmath.h", RM], [("point_at", RM), ("split(t)", RM), ("split(t[],n)", RM)])
prop("C02", "Curves enter the sweep cut exactly at their y turning points",
     "A curve's y break parameters are exactly the interior parameters where its vertical direction reverses, reported in ascending order and at most two (coefficients below 1e-8 count as zero). When a curve is added to the clipper it becomes a chain of at most three pieces that together trace the curve, each piece going only up or only down.",
     ["inputs"], "every cubic: all real control points, including degenerate and nearly degenerate ones up to the stated tolerance",
     TESTS + "they contain a handful of curves and cannot show that no curve yields a non-monotone piece.",
     [RM, VA], [("split_y", RM), ("clipper::read_cubicto", VA)])
prop("C03", "Bounding boxes are tight and box overlap is exact",
     "The box of a curve contains every point of it and each of its four sides touches it; the box of a line segment is spanned by its two ends. Two boxes are reported as overlapping exactly when they share a point (touching counts), and inflating, width, height and centre are the usual box arithmetic.",
     ["inputs"], "all cubics, segments and boxes (coefficients below 1e-8 count as zero)",
     TESTS + "a box that misses part of a curve only matters for inputs whose intersection is then skipped.",
     ["src/include/rmath.h", RM, "src/src/segment.h"], [("bezier_cubic::get_boundary", RM), ("rect::intersect", RM), ("rect::from/inflated", "src/include/rmath.h"), ("segment::get_boundary", "src/src/segment.h")])

exec(open(os.path.join(V, "tools", "more_props.py")).read()) if os.path.exists(os.path.join(V, "tools", "more_props.py")) else None

prop("C90", "Clipping results have the right region",
     "For every subject and clip input, operation and fill rule, a point is inside the output region exactly when the boolean operation applied to its membership in subject and clip says so.",
     ["inputs", "configurations"], "all inputs, four operations, four fill rules",
     TESTS + "membership is never evaluated.",
     [VA], [("clipper::process", VA)],
     na="The whole-program statement needs an invariant over the exact planar arrangement, with every curve intersection found exactly; the code computes in floating point with absolute tolerances and degenerate inputs (coincident intersections, overlapping curves) genuinely leave it. No function contract within reach decides it. The pieces it is made of (winding numbers, contribution, active-edge order, ring ingestion, output assembly) are claimed separately; the random end-to-end harness (harness/e2e.cpp) is only used to replay failed obligations.")
prop("C91", "Path text is parsed as written",
     "Parsing path text yields the moves, lines and curves it spells, in order.",
     ["inputs"], "all well-formed path strings",
     TESTS + "a few fixed strings are parsed.",
     ["src/src/river.cpp"], [("make_path", "src/src/river.cpp")],
     na="The parser is one Boost.Spirit expression template (src/src/river.cpp): its grammar exists only as types, and number parsing happens inside the library. The verifier has no contracts for Spirit, so anything proved about make_path would be assumed.")

TECH = "contract-based deductive verification: VCs generated from the LLVM IR of the real code, discharged by SMT (z3, cvc5) and polynomial normalisation"
NOTE = ("Every obligation is generated on each run from /repo's current sources (clang -O0 + sroa IR) and discharged without bound. "
        "Assumes doubles are reals unless the evidence says otherwise, and trusts clang, the VC generator in rvc/ and the SMT solvers. ")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3-vt rvc/check.py " + p["id"],
                       "thorough_cmd": "python3-vt rvc/check.py %s --thorough" % p["id"],
                       "technique": TECH, "level": "proof", "level_note": NOTE + (p["note"] or "")})
m = {"version": 1, "setup_cmd": "python3-vt rvc/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
