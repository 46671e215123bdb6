"""Run the quick check of each seeded change's property against a scratch copy
of /repo with the change applied; print what each reports.

    runseeds.py [--props C01,C02] [--tier quick] [--seed 1] [-j 2] [id ...]
    runseeds.py --table    write SEEDED.md from the recorded results

Covers seeded/ (changes to Python sources) and asmseeds/ (changes to
microcode.asm).  Results are recorded in seeded-results.json (committed).
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
RES = VERIF / "seeded-results.json"
ap = argparse.ArgumentParser()
ap.add_argument("--props")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", default="1")
ap.add_argument("-j", type=int, default=2)
ap.add_argument("--table", action="store_true")
ap.add_argument("ids", nargs="*")
a = ap.parse_args()


def seeds():
    for top in ("seeded", "asmseeds"):
        for d in sorted((VERIF / top).iterdir()):
            if (not a.ids or d.name in a.ids) and (d / "meta.json").exists():
                yield d


def table():
    res = json.loads(RES.read_text())
    out = ["# Seeded changes", "",
           "Written by `tools/runseeds.py --table`.  \"caught by\" is the "
           "property's own quick check (and any other check that was run on "
           "the change), seed in parentheses.", "",
           "| change | breaks | needs | result |", "|---|---|---|---|"]
    for d in seeds():
        m = json.loads((d / "meta.json").read_text())
        r = res.get(d.name, {})
        txt = ", ".join(f"{p} {v}" for p, v in sorted(r.items())) or "not run"
        out.append(f"| {d.parent.name}/{d.name} | {m['what_it_breaks']} | "
                   f"{m['needs']} | {txt} |")
    (VERIF / "SEEDED.md").write_text("\n".join(out) + "\n")


def one(base, d, n):
    w = base / f"w{n}"
    repo = w / "repo"
    w.mkdir()
    try:
        shutil.copytree(base / "verif", w / "verif")
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        subprocess.run(["git", "apply", str(d / "patch.diff")], cwd=repo,
                       check=True)
        props = a.props.split(",") if a.props else \
            [json.loads((d / "meta.json").read_text())["property"]]
        got = {}
        for p in props:
            t = time.time()
            r = subprocess.run(
                ["python3-vt", "check.py", "--property", p,
                 "--tier", a.tier],
                cwd=w / "verif", capture_output=True, text=True,
                env=dict(os.environ, VERIF_REPO=str(repo), VERIF_SEED=a.seed))
            v = [x for x in r.stdout.splitlines() if "VIOLATION" in x]
            ok = r.returncode == 1 and any(f"property={p} " in x for x in v)
            got[p] = f"{'caught' if ok else 'missed'} ({a.tier})"
            print(f"{d.name:34s} {p} {'CAUGHT' if ok else 'MISSED'} "
                  f"rc={r.returncode} {time.time() - t:.0f}s "
                  f"{(r.stdout + r.stderr)[-300:] if not ok else ''}",
                  flush=True)
        return d.name, got
    finally:
        shutil.rmtree(w, ignore_errors=True)


if a.table:
    table()
    raise SystemExit
base = Path(tempfile.mkdtemp(prefix="seeds-", dir="/tmp"))
try:
    shutil.copytree(VERIF, base / "verif", ignore=shutil.ignore_patterns(
        ".git", "seeded", "asmseeds", "__pycache__"))
    with ThreadPoolExecutor(a.j) as ex:
        rs = list(ex.map(lambda nd: one(base, nd[1], nd[0]),
                         enumerate(seeds())))
    res = json.loads(RES.read_text()) if RES.exists() else {}
    for name, got in rs:
        res.setdefault(name, {}).update(got)
    RES.write_text(json.dumps(res, indent=1, sort_keys=True) + "\n")
finally:
    shutil.rmtree(base, ignore_errors=True)
