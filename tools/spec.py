#!/usr/bin/env python3
"""The properties and how they are checked; the single source of properties.jsonl
and MANIFEST.json. Run this file to rewrite both."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPERTIES = []


def prop(id, title, statement, over, text, why, files, mechanism, package=None, technique="", note="",
         state=(), observe=(), level="exploration", assumptions=(), tools=None, not_applicable=None):
    PROPERTIES.append(dict(
        id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
        why=" ".join(why.split()), files=files, mechanism=mechanism, package=package, technique=technique,
        note=" ".join(note.split()), state=state, observe=observe, level=level,
        assumptions=[" ".join(a.split()) for a in assumptions], tools=tools or {}, not_applicable=not_applicable))


def by_id(pid):
    for p in PROPERTIES:
        if p["id"] == pid:
            return p
    raise SystemExit("no such property: %s" % pid)


import glob  # noqa: E402
for _f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_*.py"))):
    exec(compile(open(_f).read(), _f, "exec"))


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in PROPERTIES:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(
                    files=p["files"],
                    state=[dict(name=n, meaning=m, where=w) for n, m, w in p["state"]],
                    mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                    observe_at=list(p["observe"]), hook_needed=None))) + "\n")
    checks, na = [], []
    for p in PROPERTIES:
        if p["not_applicable"] or not p["package"]:
            na.append(dict(property=p["id"], reason=p["not_applicable"] or "The check has not been built yet."))
            continue
        cmd = "python3 run.py check " + p["id"]
        checks.append(dict(
            property=p["id"], quick_cmd=cmd, thorough_cmd="env VERIF_TIER=thorough " + cmd, evidence_file="evidence/%s.json" % p["id"],
            technique=p["technique"], level=p["level"], level_note=p["note"]))
    manifest = dict(
        version=1, setup_cmd="python3 run.py setup", checks=checks, not_applicable=na,
        notes="No hooks in /repo: the checks use its exported API. run.py reads VERIF_SEED and VERIF_TIER; "
              "VERIF_TIER (quick, unless set to thorough) decides the depth. "
              "'python3 run.py replay FILE' runs a recorded violation again.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
