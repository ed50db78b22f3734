"""Writes MANIFEST.json from the contract files and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import weave
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
files = weave.load_contracts(os.path.join(V, "contracts"))
cnt = {}
for p, fc in files.items():
    for k, fn in fc.fns.items():
        for q in fn.props:
            cnt[q] = cnt.get(q, 0) + (not fn.ext)
checks = []
for d in props:
    i = d["id"]
    n = NOTES.get(i, {})
    lv = n.get("level", "exploration")
    checks.append(dict(property=i, quick_cmd="python3 run.py check " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py check " + i,
                       technique=n.get("technique", "contracts on the real functions, woven into /repo's source and discharged by Verus (%d functions, with lemmas over them); bounded oracle on the real binary beside it" % cnt[i]
                                       if cnt.get(i) else "bounded stand-in: real binary against an independent oracle on generated inputs"),
                       level=lv, level_note=n.get("note", "Bounded: generated inputs against an independent oracle; nothing is proved.")))
json.dump(dict(version=1, setup_cmd="python3 run.py setup", hooks=dict(guard="none (no hooks: contracts are woven into a copy of /repo/src on every run)",
               enable="cargo build --offline --locked (no flag)", source_commits=[]), checks=checks, not_applicable=[],
               notes="See DESIGN.md."), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
