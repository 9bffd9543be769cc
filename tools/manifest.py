#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json
REF = ("explicit-state model checking: exhaustive enumeration of a bounded input space on an executable reference model, every case replayed on the real code")
NOTE = {
"C01": (REF, "All logical trees up to 4-5 leaves over every kind of condition, all operator/NOT placements, chains to 200 and nestings to 60; classical truth is computed by the model from the values of the parts. Trusts the model and the small-scope bounds."),
"C02": (REF, "All short-circuit situations of trees over true/false/failing conditions of every kind; failures must surface exactly when the operand is needed. Trusts the model and the bounds."),
"C03": (REF, "All pairs of a boundary set of numbers (int/long/decimal limits, scales, signs, 2^53 neighbourhood) x storage types x sides x operators, exact BigDecimal oracle. Infinite and NaN doubles are outside."),
"C04": (REF, "All versions of up to 4 segments over boundary segments (0, 9, 10, limits beyond int) in all pairs, six operators, both sides, membership; oracle compares segments as big integers."),
"C05": (REF, "Every calendar day of 0001..9999 at month boundaries and all 10000-combination neighbourhoods as literals, pairs of boundary dates and times x forms x operators; oracle applies calendar rules itself."),
"C06": (REF, "All pairs of short texts, booleans and mixtures x operators x sides; incompatible orderings must fail."),
"C07": (REF, "All bound/value triples of a boundary set x numeric types, and equivalence with the two comparisons."),
"C08": (REF, "All item lists up to length 3-4 over every kind of item (literals, fields, lists, computed, failing) x field values, IN and NOT IN."),
"C09": (REF, "All collections up to size 3-4 x all item lists up to 3 over mixed element types and container classes, both operators."),
"C10": (REF, "Every sort of presence/absence of a plain or nested path x operand orders x spellings of null; every other operator on a missing field fails."),
"C11": (REF, "All shapes of nested data up to depth 4 with decoy keys x every position of a field."),
"C12": (REF, "All placements of omitted operands in trees of up to 3-4 comparisons x default fields, against the expression written out."),
"C13": (REF, "All operator trees up to 3 operators over boundary numbers of every type; exact rational oracle. ^ is compared with a stated double-precision error bound."),
"C14": (REF, "All operator sequences up to 4-5 operators with all parenthesisations and unary minus. One documented finding (ranks of the grammar) is listed in known_findings.txt; the check still decides every sequence against the grammar's own ranks there."),
"C15": (REF, "All lists up to length 4-5 over boundary numbers of mixed types x seven functions x ways of supplying the arguments."),
"C16": (REF, "LEN/INT/DAYS_ELAPSED over all short texts, lists and boundary numbers, dates around today, zones and forms. Days are compared with the date before and after the call."),
"C17": ("explicit-state model checking: exhaustive enumeration of expressions of the grammar model; every parse tree of the real parser compared with the model's tree", "All expressions up to bounded size over every construct; injectivity follows from equality with the model's tree. Documented don't-cares in DESIGN.md."),
"C18": ("explicit-state model checking: exhaustive enumeration of token strings classified by an independent grammar recogniser; every one replayed on the real parser and evaluators", "All token strings up to length 4-5, all single edits of a corpus; accepted texts must be well-formed by an independently written recogniser and keep every token."),
"C19": (REF, "All spacings of a corpus within bounds, all quoted texts up to 3 characters, numbers, keyword cases, names, eleven locales."),
"C20": ("exhaustive enumeration of bounded texts, data values and argument combinations on the real code with a totality monitor", "Every text up to 4 characters/4 tokens over an alphabet, every UTF-16 unit, ~90 hostile values in every position, nesting to 25600 on three stack sizes: always a result of the promised type."),
"C21": ("explicit-state exploration of call histories on the real code: every history up to a depth against a stateless model", "All histories of length 2 over ~600 calls and of length 3-4 over 14 calls x instances; data and tree snapshots; eleven map and six collection implementations."),
"C22": ("explicit-state exploration of call histories of the caching parser against the plain parser, cache maintenance enumerated", "All histories of 2 over 88 colliding calls and of 3-4 over 9-13 calls x cache sizes 0,1,2,3,100 x maintenance points."),
"C26": (REF, "All contexts x all computed sub-expressions, singly and in pairs, compared with the literal and with a field holding the value."),
}
CONC = {}
try:
    import importlib.util, os
    exec(open(os.path.join(os.path.dirname(__file__), "conc_notes.py")).read())
except FileNotFoundError: pass
NOTE.update(CONC)
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough", "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "no check"})
m = {"version": 1, "setup_cmd": "bin/build.sh", "checks": checks, "not_applicable": na,
     "notes": "bin/check ID [quick|thorough] compiles /repo's src/main/java of the working tree together with mc/src into .work/<hash> and explores; bin/replay FILE runs a counterexample program. No hooks in /repo."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
