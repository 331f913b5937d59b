#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }, ensure_ascii=False) + "\n")

harness = "".join(open(os.path.join(root, "harness", n)).read() for n in sorted(os.listdir(os.path.join(root, "harness"))) if n.endswith(".go"))
checks, na = [], []
for p in PROPS:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if f"\nfunc {p['id']}_" not in harness:
        na.append({"property": p["id"], "reason": "no harness yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run.sh -property {p['id']} -tier quick",
        "thorough_cmd": f"./run.sh -property {p['id']} -tier thorough",
        "technique": "symbolic execution of the real code's go/ssa with z3 deciding path feasibility and assertions (bounded)",
        "level": "model_checking",
        "level_note": "Bounded: every input within the stated bounds, nothing outside. " + p.get("note", "") +
                      " Trusts go/ssa, the executor in engine/ with its models of fmt, sort, sync, os and regexp, and z3 (sampled queries re-decided by cvc5, sampled paths replayed against the native build).",
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "Harnesses in harness/, executor in engine/, driver in cmd/gosym. No hooks in /repo: everything goes through the public interface. Known findings in known_findings.txt.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(PROPS), "properties,", len(checks), "checks")

# DESIGN.md: tables filled in from the harnesses and the planted bugs
MISSED_FIRST = {"c10-far", "c27-deep", "c16-until-window", "c15-blanks-64", "c12-last-result", "c31-endpos-16", "c06-no-memo-when-large", "c02-repeated-label", "c18-peek-cap", "c03-two-digits", "c14-long-literal", "c24-halves", "c19-column-in-runes", "c32-splitn", "c22-recent-keys", "c08-involve-limit", "c23-concat-cycle", "c01-empty-literal-at-eof", "c22-sign", "c32-trim", "c10-success-at-end", "c14-literal-by-runes", "c20-message-slice", "c21-blank-after-underscore", "c24-bisect-overflow", "c19-search-hint", "c22-sorted-fold", "c23-octal", "c34-compiled-once", "c05-same-name", "c30-same-text", "c30-lines-sorted", "c34-nesting-guard", "c07-nil-growth", "c12-shared-stack", "c36-sorted-rules", "c35-mute-sticks", "c03-join-counts", "c28-ampersand-first", "c18-tab-width", "c08-same-value", "c23-empty-text", "c24-blocks", "c33-clear-keeps", "c03-optional-plus", "c11-last-option", "c03-nested-star", "c02-underscore-label", "c14-regex-cache", "c31-ids-byte", "c35-shared-options"}


def section(text, name, body):
    a, b = f"<!-- {name} -->\n", f"<!-- end {name} -->\n"
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + body + text[j:]


rows = []
for n in sorted(os.listdir(os.path.join(root, "seeded"))) if os.path.isdir(os.path.join(root, "seeded")) else []:
    m = json.load(open(os.path.join(root, "seeded", n, "meta.json")))
    star = "*" if n in MISSED_FIRST else ""
    rows.append(f"| {n}{star} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |\n")
bounds = []
pending = None
for l in harness.split("\n"):
    if l.startswith("//verif:bounds "):
        pending = l[len("//verif:bounds "):]
    elif l.startswith("func ") and pending:
        bounds.append((l[5:l.index("(")], pending))
        pending = None
d = open(os.path.join(root, "DESIGN.md")).read()
if rows:
    d = section(d, "seeded", "| bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "".join(rows))
d = section(d, "bounds", "".join(f"* `{n}`: {b}\n" for n, b in sorted(bounds)))
open(os.path.join(root, "DESIGN.md"), "w").write(d)
