"""writes MANIFEST.json from the rule modules that exist and properties.jsonl"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
NA = {
    "C30": "convergence of a numerical iteration on floating-point data is a quantitative runtime fact; no sound static bound on contraction of these polynomial iterations over 'realistic' lenses is in reach",
    "C31": "recovery of the true camera by a nonlinear least-squares adjustment depends on the conditioning of runtime data",
    "C32": "completeness of tracking depends on the particle configuration and noise at run time; only the acceptance rules and link bookkeeping (C17-C20) are decidable from source",
    "C33": "the interpolation error depends on the curvature of the refraction map over the runtime grid; the grid bounds, weights and fallback are decided in C24",
}
LEVEL = ("Static decision from the current source: every obligation is derived by an abstract interpreter over the syntax tree "
         "(value graph, guards, heap effects, with callees inlined) and compared with the rule. Sound up to the stated assumptions "
         "(numpy/scipy behave as documented, exact reals, modelled Python subset); obligations that can not be decided are counted as "
         "undecided in the evidence and do not alarm. Loops not of a recognised form are summarised, not unrolled.")
props = [json.loads(l) for l in open(VERIF + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(VERIF + "/sa/rules/%s.py" % i.lower()):
        m = importlib.import_module("sa.rules." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3-vt sa/check.py %s --tier quick" % i,
                       "thorough_cmd": "python3-vt sa/check.py %s --tier thorough" % i,
                       "technique": "static analysis: " + m.TECHNIQUE, "level": "other",
                       "level_note": getattr(m, "NOTE", "") + (" " if getattr(m, "NOTE", "") else "") + LEVEL})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
json.dump({"version": 1, "setup_cmd": "python3-vt -c 'import ast'", "checks": checks, "not_applicable": na,
           "notes": "All checks read /repo/openptv_python as source text on every run; nothing of the package is imported or executed. "
                    "Findings: known-findings.txt. Design: DESIGN.md."}, open(VERIF + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
