"""C30: instruction and CSR views (worker processes run vlib/views.py)."""
import json
import os
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

from . import build, driver

N = {"quick": 60000, "thorough": 3000000}
SECS = {"quick": 60, "thorough": 900}


class Chk:
    id = "C30"
    assumptions = ["Amaranth's simulator is correct",
                   "the table of names and positions in vlib/views.py is "
                   "that of the RISC-V manuals"]
    rule = ("each of 17 instruction fields and 5 CSR structures (read and "
            "written) over all-zeros, all-ones, every single bit set or "
            "clear, and structured random words; all named constants once; "
            "non-trivial: a word that is neither all zeros nor all ones")
    exhaustive_note = None


def script():
    return [build.PY, "-W", "ignore", str(build.VERIF / "vlib/views.py")]


def run(tier, seed, replay=None):
    t0 = time.time()
    chk = Chk()
    work = build.scratch()
    try:
        e = build.env()
        if replay:
            p = subprocess.run(
                script() + ["--replay", os.path.abspath(replay)],
                env=e, cwd=work)
            if p.returncode == 1:
                print(f"VIOLATION property={chk.id} replay={replay}")
            return p.returncode

        def one(k):
            out = work / f"{k}.json"
            p = subprocess.run(
                script() + [str(driver.case_seed(seed, chk.id, k)),
                            str(N[tier]), str(SECS[tier]), str(out)],
                env=e, cwd=work, capture_output=True, text=True,
                timeout=SECS[tier] + 300)
            if not out.exists():
                return dict(err=p.stdout[-2000:] + p.stderr[-4000:])
            return json.loads(out.read_text())
        with ThreadPoolExecutor(driver.WORKERS) as ex:
            rs = list(ex.map(one, range(driver.WORKERS)))
    finally:
        build.cleanup(work)
    viol = next((r["viol"] for r in rs if r.get("viol")), None)
    errs = [r["err"] for r in rs if r["err"]]
    if errs and not viol:
        print(errs[0], file=sys.stderr)
        return 2
    rs = [r for r in rs if "evals" in r]
    hist = Counter()
    for r in rs:
        hist.update(r["hist"])
    for k in ("constants", "fields", "names not present"):
        hist[k] //= len(rs)
    ev, nt = sum(r["evals"] for r in rs), max(r["seen"] for r in rs)
    driver.write_evidence(chk, tier, seed, dict(
        evaluations=ev, distinct_nontrivial=nt, rule=chk.rule,
        samples=[s for r in rs for s in r["samples"]][:4] or ["(none)"],
        workers=driver.WORKERS, distribution=dict(hist)),
        time.time() - t0, 1 if viol else 0, chk.assumptions)
    for k in driver.known_findings(chk.id):
        print(f"KNOWN-FINDING: {k}")
    print(f"{chk.id} {tier}: {ev} words and constants, at least {nt} distinct "
          f"non-trivial, total {time.time() - t0:.1f}s")
    if viol:
        p = driver.write_replay(chk.id, viol)
        print(viol["msg"])
        print(f"VIOLATION property={chk.id} replay={p}")
        return 1
    return 0 if ev else 2
