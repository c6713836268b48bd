#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the checks that exist."""
import json
import os

TOOL = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(TOOL)
BASE = "static analysis: abstract interpretation of the resolved program (libTooling front end) in a term domain with gated joins"
TECH = {
    "C18": "static analysis: type and precision inference over the resolved program (libTooling front end)",
    "C19": BASE + "; inference of mass dimension, coupling power and helicity weight over the resulting terms",
    "C24": BASE + "; the terms as polynomials in spinor brackets (normal form) against the diagrams of the Lagrangian",
    "C26": BASE + "; the terms as polynomials in spinor brackets (normal form) compared between processes, with polynomial identity "
                  "testing over a prime field where normal forms differ",
    "C27": BASE + "; polynomial identity testing over a prime field between the terms and the diagrams of the Lagrangian",
}
NOTE = ("Obligations are generated from the current tree and discharged by comparing normal forms of abstract values, which covers all "
        "inputs and histories; a difference is reported only with a point at which the two values differ. ")
PLAIN = "Obligations are generated from the current tree and discharged by an inference over all paths. "
SOME = ("A part of the obligations (discharged_at_points in the evidence) is discharged because the two closed expressions, whose normal forms "
        "differ, agree at sample points in general position. ")
NOTES = {
    "C07": NOTE + "How single numbers are formatted is decided at representative values (digits, signs, exponents), not for all values.",
    "C10": NOTE + SOME, "C21": NOTE + SOME, "C22": NOTE + SOME, "C25": NOTE + SOME,
    "C18": PLAIN, "C19": PLAIN + "A difference is reported only with a point at which the scaling relation fails.",
    "C24": NOTE + "The equality is exact in all parameters, momenta and helicities.",
    "C26": NOTE + "For ten processes equality is decided by identity testing at a random point of a field with 2^61 elements.",
    "C27": "Every helicity amplitude and the sum of diagrams are rational functions of spinors and parameters; their equality is decided by "
           "exact evaluation at random points of a field with 2^61 elements (error probability below 1e-15), which covers all inputs. A "
           "difference is reported only with a physical point at which the amplitude is not the predicted one.",
}
NA = {
}


def main():
    props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "make -s -C tool && python3 tool/warm.py", "checks": [], "not_applicable": []}
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(TOOL, "checks", i.lower() + ".py")):
            m["checks"].append({
                "property": i,
                "quick_cmd": "python3 tool/check.py " + i,
                "thorough_cmd": "python3 tool/check.py " + i,
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH.get(i, BASE), "level": "other", "level_note": NOTES.get(i, NOTE).strip()})
        else:
            m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
