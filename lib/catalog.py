#!/usr/bin/env python3
"""The properties, in one place: writes properties.jsonl and MANIFEST.json."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ specification checked with TLC"
PEGNOTE = ("Trusts the specification's reading of PEG semantics, TLC, and the harness's rendering of grammar tables "
           "into rule text; grammars, texts and histories are those generated within the bounds in DESIGN.md.")
P = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note=PEGNOTE, level="model_checking", observe=None):
    anchors = {"files": files.split(),
               "mechanism": [dict(zip(("name", "where"), m.split(" @ "))) for m in mechanism]}
    if observe:
        anchors["observe_at"] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why, anchors=anchors), technique, level, note))


exec(open(os.path.join(VERIF, "lib", "properties.py")).read())


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = [dict(property=p["id"],
                   quick_cmd="python3 check.py %s quick" % p["id"],
                   thorough_cmd="python3 check.py %s thorough" % p["id"],
                   evidence_file="evidence/%s.json" % p["id"],
                   technique=tech, level=level, level_note=note)
              for p, tech, level, note in P if level]
    m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=NOT_APPLICABLE,
             notes="All checks work on the public API and on binaries built from /repo's working tree; /repo carries no hooks. See DESIGN.md.")
    json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
