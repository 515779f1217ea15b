#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the table below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
GV = "global value numbering: inlined value graph of the code against the graph of a reference definition"
REL = "relational value numbering: two uses of the code must have the same value graph"
EFF = "abstract interpretation with heap locations: effect and alias analysis"
TECH = {
    "C01": EFF + "; every store is traced to the location it reaches",
    "C02": REL + " after any earlier method call",
    "C03": "dimension (unit) type inference over the inlined value graph",
    "C04": "shift type inference over the inlined value graph; " + REL + " with shifted axes",
    "C05": "homogeneity degree and linearity type inference over the inlined value graph; " + REL + " for scaled and added signals",
    "C08": "reference graphs of the option table and refusal conditions; " + GV,
    "C09": EFF + "; where randomness enters and what seeds it",
    "C10": EFF + "; global state, files and figures",
    "C11": "path-condition comparison: refusal conditions of the code against the documented ones",
    "C12": "symbolic shape inference on the value graph; lint on lengths cut off from rounded quotients",
    "C16": REL + "; " + GV, "C19": REL + "; " + GV, "C20": REL, "C21": REL + "; effect lists of plots",
    "C22": "element-type and rank type inference over the value graph; " + REL, "C30": "effect analysis: drawing calls reached and the value graphs of their arguments", "C31": REL + "; " + GV, "C26": GV + " under the assumption of an empty wave set",
}
NA = {
    "N01": "a bound on the rounding error of floating-point formulas; needs numerical analysis or execution",
    "N02": "numerical identity up to rounding of library transforms (numpy.fft), whose source is outside the repository",
    "N03": "termination and convergence of a floating-point fixed-point iteration over all reals; no static argument in reach bounds it",
    "N04": "a quadrature error bound for all smooth spectra; not a property of the source text",
    "N05": "a statement about random ensembles; statistical, not decidable from the source",
}
NOTE = ("Decided from the source of /repo as parsed on this run; the package is neither imported nor executed. The code of each entry point is "
        "lowered, everything it calls inlined, to a gated value graph. Obligations whose graphs have equal normal forms (or that satisfy a rule "
        "over effects, shapes or dimensions) are discharged for all inputs, up to reordering of floating-point operations and the modelled "
        "semantics of numpy and scipy. Where normal forms differ, an alarm needs a certificate: a valuation of the symbols on which the two "
        "graphs differ; without one the obligation counts as 'not separated' and is reported as such in the evidence, not as proved.")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
            continue
        checks.append({"property": i, "quick_cmd": "python3-vt -m wtcheck %s" % i, "thorough_cmd": "python3-vt -m wtcheck %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "static analysis: " + TECH.get(i, GV), "level": "other", "level_note": NOTE})
    m = {"version": 1, "setup_cmd": "python3-vt -c 'import wtcheck, numpy, scipy'", "checks": checks, "not_applicable": na,
         "notes": "properties.jsonl is written by mkprops.py, this file by mkmanifest.py."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
