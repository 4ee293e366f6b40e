"""writes MANIFEST.json"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import props, meta
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {
 "C28": "convergence is a statement about the limit of iterations on a continuous problem; no static argument in reach bounds it (the algorithmic steps it rests on are decided by C02-C14)",
 "C29": "rounding error of Eigen kernels on run-time data cannot be bounded statically here; the analyses work over the reals with NaN and infinity",
 "C30": "wall-clock time depends on the machine and the data; only termination (C18) is decided statically",
 "C31": "closed-loop stability depends on the plant, the horizon and the tuning of the demo; it is not a property of the source alone",
}
TECH = {"C21": "type-level witnesses (translation units that must type-check), symbol-linkage lint", "C27": "type-level witnesses (static assertions on accessor types and member access)",
        "C19": "path-condition analysis of output calls (three-valued and interval evaluation of guards) on gated value graphs"}
NOTE = "Abstract interpretation to gated value graphs, congruence with reference semantics, random interpretation only to separate non-congruent graphs. Trusts the reference semantics in spec/, the Eigen and std models of the analyser, real arithmetic with NaN and infinity, pure user models; template instances with distinct dimensions stand for all. A congruent output is equal for every input; a non-congruent, non-separated one is equal on the valuations tried."
checks = []
for i in ids:
    if i in NA:
        continue
    note = NOTE
    if i in ("C21", "C27"):
        note = "Decided by the C++ type checker (clang, thorough: also g++ for C21) on /repo's headers. Covers the listed headers, accessors and dimension combinations, not every conceivable program."
    if i == "C19":
        note = "Sound for the modelled output calls (iostream std streams, printf family): the guard of every output site is false at print level 0 for all inputs. Trusts the analyser's path conditions."
    checks.append({"property": i, "quick_cmd": "bin/check %s" % i, "thorough_cmd": "bin/check %s --thorough" % i, "evidence_file": "evidence/%s.json" % i,
                   "technique": TECH.get(i, "value-graph congruence against reference semantics (gated SSA-like graphs from the typed AST), random interpretation to separate" +
                                         (", access-range and call-argument obligations" if props.P[i]["ev"] else "")),
                   "level": "other", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
           "notes": "No hooks in /repo: the analysis reads the source. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
