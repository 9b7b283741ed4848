#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both).
Run by hand after editing; not needed by any check."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PKG = "latex2json/"
P = []


def prop(id, title, statement, over, text, tests, files, mech, observe, technique, note, state=(), hook=None, level="exploration"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, state=state, hook=hook, level=level))


exec(open(os.path.join(ROOT, "tools", "props.py"), encoding="utf-8").read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(ROOT, "properties.jsonl"), "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["tests"],
             "anchors": {"files": [PKG + x for x in p["files"]],
                         "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                         "mechanism": [{"name": n, "where": PKG + w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": p["hook"]}}
        f.write(json.dumps(o, ensure_ascii=False) + "\n")

man = {
    "version": 1,
    "setup_cmd": "./setup",
    "hooks": {"guard": "none", "enable": "no hooks in /repo: monitors wrap the public API, audit events and patched library calls from outside", "source_commits": []},
    "checks": [{"property": p["id"], "quick_cmd": "./check %s --tier quick" % p["id"],
                "thorough_cmd": "./check %s --tier thorough" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
    "not_applicable": [],
    "notes": "Every check runs the code of /repo's working tree in forked workers (python of /opt/venv) and compares what the monitors observe with an oracle that does not use that code. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties")
