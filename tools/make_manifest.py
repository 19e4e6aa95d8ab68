#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist under props/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

T = {
    "P01": ("property-based testing: generated fills against an exact (fsum) reference binning", ""),
    "P02": ("stateful property-based testing: histories of fills and mutations against a model of each histogram", ""),
    "P03": ("property-based testing: generated binnings against exact geometry, round trips and projections", ""),
    "P04": ("property-based testing: generated templates and parameters against the fraction formula, metamorphic scaling", ""),
    "P05": ("stateful property-based testing: histories of systematics against a reference covariance", ""),
    "P06": ("stateful property-based testing: histories of parameter writes against a model of each template", ""),
    "P07": ("stateful property-based testing: histories of accepted and rejected assembly steps against a registry, snapshots around rejections", ""),
    "P08": ("stateful property-based testing: parameter histories against an independent name/position mapping", ""),
    "P09": ("property-based testing: generated models and parameters against the likelihood formula and Poisson probabilities", ""),
    "P10": ("stateful property-based testing: interleaved construction and evaluation against a directly built model and the formula", ""),
    "P11": ("property-based testing against 60-digit decimal arithmetic", ""),
    "P12": ("property-based testing: exact Asimov oracle, toy data against distribution-free bounds over many draws", ""),
    "P13": ("property-based testing: generated fits against independent search for a lower likelihood and closed solutions", ""),
    "P14": ("property-based testing: generated restrictions against the conditional minimum", ""),
    "P15": ("property-based testing: covariance of generated fits against Richardson-extrapolated second differences of an independent likelihood", ""),
    "P16": ("property-based testing: generated scans against independent conditional minimisation", ""),
    "P17": ("property-based testing: generated significances against independent profile likelihood ratios, metamorphic relations", ""),
    "P18": ("property-based testing with fault injection: toy studies against recorded datasets and fits, ensemble bounds", ""),
    "P19": ("property-based testing: algebraic laws and reference formulas", ""),
    "P20": ("property-based testing: statistics against high-precision sums and incomplete gamma functions", ""),
    "P21": ("stateful property-based testing: histories of reads and writes of the parameter container against a dictionary", ""),
    "P22": ("property-based testing: propagated covariance against an analytic Jacobian", ""),
    "P23": ("property-based testing: drawn matplotlib artists against the reference values", ""),
    "P24": ("property-based and stateful testing of the legacy classes against the formulas and the current classes", ""),
    "P25": ("property-based testing: minimizer histories on functions with known minima", ""),
    "P26": ("metamorphic property-based testing: permuted and reformulated models", ""),
    "P27": ("stateful property-based testing: full snapshots around every read and write", ""),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "props", i.lower() + ".py")):
            tech, note = T[i]
            checks.append(dict(
                property=i, quick_cmd="%s check.py %s --tier quick" % (PY, i), thorough_cmd="%s check.py %s --tier thorough" % (PY, i),
                technique=tech, level="exploration",
                level_note=note or "Random search with an explicit oracle over the generated domain (see DESIGN.md): evidence, not proof, "
                "that the property holds; trusts the reference formulas in pbt/ref.py and the numerical libraries."))
        else:
            na.append(dict(property=i, reason="no check built yet"))
    out = dict(version=1, setup_cmd="%s -c \"import sys; sys.path.insert(0, '.'); sys.dont_write_bytecode = True; import pbt.core, pbt.ref\"" % PY,
               checks=checks, not_applicable=na,
               notes="No hooks in /repo: every check uses the public interface. Known findings: known_findings.txt.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
