#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
A = "include/fiction/algorithms/"

# id -> property text and, when claimed, the notes of its check
P = {}


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), level_note=None, na=None):
    P[id] = dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None)),
        note=level_note, na=na)


exec(open(os.path.join(ROOT, "props_text.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P.values():
            f.write(json.dumps(p["rec"]) + "\n")
    man = dict(
        version=1, setup_cmd="python3 check.py --setup",
        hooks=dict(guard="FICTION_VERIF_SIM",
                   enable="no hook was needed: every source of nondeterminism is taken over below the unmodified headers "
                          "(compiler instrumentation, pthread/futex/clock/entropy/file calls); the checks define FICTION_VERIF_SIM",
                   source_commits=[]),
        checks=[], not_applicable=[],
        notes="python3 check.py --replay FILE replays a reported violation against the current tree; python3 check.py --determinism ID "
              "re-runs a batch and compares event hashes.")
    for k, p in P.items():
        if p["na"]:
            man["not_applicable"].append(dict(property=k, reason=p["na"]))
        else:
            man["checks"].append(dict(property=k, quick_cmd=f"python3 check.py {k}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {k}",
                                      evidence_file=f"evidence/{k}.json", technique="deterministic simulation with fault injection",
                                      level="exploration", level_note=p["note"]))
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
