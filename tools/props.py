"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, state=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
    }
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = state
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": qtext},
            why_tests_cant=why,
            anchors=anchors,
            _tech=technique,
            _note=note,
        )
    )


exec(open(os.path.join(ROOT, "tools", "prop_list.py")).read())

NOT_APPLICABLE = []

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")

man = {
    "version": 1,
    "setup_cmd": "true",
    "hooks": {"guard": "", "enable": "", "source_commits": []},
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": "bin/check %s --quick" % p["id"],
            "thorough_cmd": "bin/check %s --thorough" % p["id"],
            "technique": p["_tech"],
            "level": "model_checking",
            "level_note": p["_note"],
        }
        for p in P
    ],
    "not_applicable": NOT_APPLICABLE,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
