#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from harness/meta.py, so that both stay in step."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
from meta import META, NOT_APPLICABLE
import props
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
  for m in META:
    f.write(json.dumps(dict(id=m["id"], title=m["title"], statement=m["statement"],
      quantifier=dict(over=m["over"], text=m["quant"]), why_tests_cant=m["why"],
      anchors=dict(files=m["files"], mechanism=[dict(name=n, where=w) for n, w in m["mech"]],
                   observe_at=m["observe"], hook_needed=None))) + "\n")
ids = [m["id"] for m in META]
assert len(set(ids)) == len(ids)
claimed = [m for m in META if m["id"] in props.PROPS]
na = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()]
assert {m["id"] for m in claimed} | set(NOT_APPLICABLE) == set(ids), "unclaimed"
man = dict(version=1, setup_cmd="python3 bin/setup.py",
  hooks=dict(guard="none", enable="no hooks are needed: the checks compile /repo's headers as they are", source_commits=[]),
  checks=[dict(property=m["id"], quick_cmd=f"python3 bin/vp.py {m['id']} --tier quick",
               thorough_cmd=f"python3 bin/vp.py {m['id']} --tier thorough", technique=m["tech"],
               level="exploration", level_note=m["note"]) for m in claimed], not_applicable=na)
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
  json.dump(man, f, indent=1); f.write("\n")
