"""Regenerate /verif/MANIFEST.json from the registry."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
sys.dont_write_bytecode = True
from vlib import registry  # noqa: E402

NA = {}


def main():
    props = [json.loads(x) for x in
             (ROOT / "properties.jsonl").read_text().splitlines()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        t = registry.describe(i)
        if t is None:
            na.append(dict(property=i, reason=NA.get(
                i, "check not built yet")))
            continue
        checks.append(dict(
            property=i,
            quick_cmd=f"python3-vt check.py --property {i} --tier quick",
            thorough_cmd=f"python3-vt check.py --property {i} "
                         "--tier thorough",
            evidence_file=f"evidence/{i}.json",
            technique=t[0], level="exploration", level_note=t[1]))
    (ROOT / "MANIFEST.json").write_text(json.dumps(dict(
        version=1, setup_cmd="bash setup.sh",
        checks=checks, not_applicable=na,
        notes="All checks are generated-input searches (property-based "
              "testing / fuzzing) against explicit oracles; see DESIGN.md. "
              "No hooks are needed in /repo."), indent=1) + "\n")


main()
