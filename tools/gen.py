"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, level="model_checking", note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=["src/gggears/" + f for f in files],
            mechanism=[dict(name=n, where="src/gggears/" + w) for n, w in mech],
            state=[dict(name=n, meaning=m) for n, m in state],
            observe_at=list(observe), hook_needed=None)))
    for k in ("state", "observe_at"):
        if not PROPS[-1]["anchors"][k]:
            del PROPS[-1]["anchors"][k]
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(
            property=id, quick_cmd=f"bash run.sh {id} quick", thorough_cmd=f"bash run.sh {id} thorough",
            evidence_file=f"evidence/{id}.json", technique=tech, level=level, level_note=note))


CHECKS = []
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
PROPS.sort(key=lambda p: p["id"])
CHECKS.sort(key=lambda p: p["property"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
man = dict(
    version=1, setup_cmd="bash setup.sh", checks=CHECKS, not_applicable=NA,
    notes="Every check explores real objects of /repo/src (pure Python, imported from the working tree, so no build products are "
          "involved and no hooks are needed) with the explorer in mc/engine.py; replay a violation with: bash run.sh <id> --replay <file>.")
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "properties", len(CHECKS), "checks", len(NA), "not applicable")
