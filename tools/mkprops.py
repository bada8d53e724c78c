#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after an edit)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/simulation/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, hook=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, hook=hook, claimed=claimed))


exec(open(os.path.join(V, "tools", "props_table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                                why_tests_cant=p["why"],
                                anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"],
                                             hook_needed=p["hook"]))) + "\n")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
done = [p for p in P if p["claimed"] and os.path.exists(os.path.join(V, "vp/props", p["id"].lower() + ".py"))]
man = dict(version=1, setup_cmd="./setup.sh",
           hooks=dict(guard="MATTER_VERIF_SPLINEDEG", enable="vp/build.py compiles every variant with -DMATTER_VERIF_SPLINEDEG=2 or 3", source_commits=hook),
           checks=[dict(property=p["id"], quick_cmd="./check.sh %s --tier quick" % p["id"], thorough_cmd="./check.sh %s --tier thorough" % p["id"],
                        evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="exploration", level_note=p["note"]) for p in done],
           not_applicable=[dict(property=p["id"], reason=p["hook"] or "check not built yet") for p in P if p not in done],
           notes="Every check rebuilds the simulator from /repo's working tree (2D/3D, quadratic/cubic) and searches generated inputs; VERIF_SEED selects the cases.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(done), "claimed")
