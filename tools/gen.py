#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (both are committed)."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TE, QL = "trading-engine/src/", "quantlib/src/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, state=None, observe=None, tech=None, note=None):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                   why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                                observe_at=observe or [], hook_needed=None)), tech, note))


exec(open(os.path.join(ROOT, "tools", "proptable.py")).read())

NA = globals().get("NOT_APPLICABLE", [])


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    sys.path.insert(0, ROOT)
    import props
    checks, na = [], list(NA)
    named = {x["property"] for x in na}
    for p, tech, note in P:
        pid = p["id"]
        if pid in props.PROPS:
            checks.append(dict(property=pid, quick_cmd="python3 run.py %s quick" % pid,
                               thorough_cmd="python3 run.py %s thorough" % pid,
                               technique=tech, level="model_checking", level_note=note))
        elif pid not in named:
            na.append(dict(property=pid, reason="check not built yet"))
    m = dict(version=1, setup_cmd="bash tools/setup.sh",
             hooks=dict(guard="none", enable="the checks need no instrumentation: every projection uses public items", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="Specification language: TLA+ (spec/), checked with TLC; conformance both ways through harness/.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")


main()
