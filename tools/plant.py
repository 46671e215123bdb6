"""Build /verif/seeded/<id>/ from a specification and confirm it.

    plant.py SPECFILE [id ...]   create the listed (default: all) plants

A specification file defines PLANTS, a list of dicts: id, property, edits
[(file, old, new)], needs, what_it_breaks, demo (Python source using simlib).
Each plant is kept only when it builds, passes the stable tests and its demo
passes on the unchanged tree and fails on the changed one; everything runs on
a scratch copy of /repo under /tmp.
"""
import json
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
LIB = VERIF / "tools/plantlib"
DEMO = """#!/bin/bash
# Exit 0 when the property holds for this input; run with cwd at the repository.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str),
                          capture_output=True, text=True, **kw)


def redirect(script, repo, out):
    out.write_text(Path(script).read_text().replace("/repo", str(repo)))
    return out


def one(p, base):
    w = base / p["id"]
    repo = w / "repo"
    w.mkdir()
    sh(["cp", "-a", "/repo", str(repo)], "/")
    for f, old, new in p["edits"]:
        path = repo / "src/sentinel" / f
        s = path.read_text()
        n = p.get("count", 1)
        if s.count(old) != n:
            return p["id"], f"edit of {f}: {s.count(old)} matches"
        path.write_text(s.replace(old, new))
    diff = sh(["git", "diff"], repo).stdout
    d = w / "seed"
    d.mkdir()
    (d / "patch.diff").write_text(diff)
    (d / "demo.sh").write_text(DEMO)
    (d / "demo.sh").chmod(0o755)
    (d / "demo.py").write_text("from simlib import *\n" + p["demo"].lstrip())
    (d / "meta.json").write_text(json.dumps(
        {k: p[k] for k in ("property", "needs", "what_it_breaks")}, indent=1)
        + "\n")
    shutil.copy(LIB / "simlib.py", d)
    shutil.copytree(LIB / "amaranth_soc", d / "amaranth_soc",
                    ignore=shutil.ignore_patterns("__pycache__"))
    if p.get("extra"):
        for n, t in p["extra"].items():
            (d / n).write_text(t)
    r = sh(["bash", str(d / "demo.sh")], "/repo", timeout=300)
    if r.returncode:
        return p["id"], "demo fails on clean tree: " + (r.stdout + r.stderr)[-1500:]
    r = sh(["bash", str(d / "demo.sh")], repo, timeout=300)
    if not r.returncode:
        return p["id"], "demo passes on changed tree"
    how = (r.stdout + r.stderr).strip()[-200:]
    r = sh(["bash", str(redirect("/opt/vp/build.sh", repo, w / "b.sh"))], repo)
    if r.returncode:
        return p["id"], "build: " + (r.stdout + r.stderr)[-800:]
    r = sh(["/opt/venv/bin/python", "-c",
            "import sys; sys.path[:0] = [sys.argv[1], 'src']\n"
            "from amaranth.back import rtlil\n"
            "from sentinel.top import Top\n"
            "from sentinel.formal import FormalTop\n"
            "rtlil.convert(Top()); rtlil.convert(FormalTop())", str(d)], repo)
    if r.returncode:
        return p["id"], "doesn't elaborate: " + r.stderr[-500:]
    out = w / "t.json"
    r = sh(["env", f"PYTHONPATH={repo}/src", "bash",
            str(redirect("/opt/vp/test.sh", repo, w / "t.sh")),
            str(out)], repo)
    t = out.read_text()
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    tj = json.loads(t)
    passed = json.dumps(tj.get("passed", tj))
    missing = [s for s in stable if s not in passed]
    if missing:
        return p["id"], "tests: " + t[:500]
    dst = VERIF / "seeded" / p["id"]
    shutil.rmtree(dst, ignore_errors=True)
    shutil.rmtree(d / "__pycache__", ignore_errors=True)
    shutil.rmtree(d / "amaranth_soc/__pycache__", ignore_errors=True)
    shutil.copytree(d, dst)
    return p["id"], "ok  " + how.replace("\n", " | ")


if __name__ == "__main__":
    spec = runpy.run_path(sys.argv[1])["PLANTS"]
    want = sys.argv[2:]
    spec = [p for p in spec if not want or p["id"] in want]
    base = Path(tempfile.mkdtemp(prefix="plant-", dir="/tmp"))
    try:
        with ThreadPoolExecutor(6) as ex:
            for i, m in ex.map(lambda p: one(p, base), spec):
                print(f"{i}: {m}", flush=True)
    finally:
        shutil.rmtree(base, ignore_errors=True)
