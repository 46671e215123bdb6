"""C32: the demo command (worker processes run vlib/demo.py)."""
import json
import os
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

from . import build, driver

SECS = {"quick": 60, "thorough": 1500}
CASES = {"quick": 2000, "thorough": 100000}


class Chk:
    id = "C32"
    assumptions = ["the stand-ins for the board definitions (stubs/"
                   "amaranth_boards) have the boards' resource names, "
                   "numbers and directions",
                   "amaranth_soc behaves as the stand-ins in stubs do",
                   "Amaranth's simulator is correct"]
    rule = ("one case: a command line and firmware file of the demo command; "
            "non-trivial: a hex file was compared with the firmware's image, "
            "or the design simulated at the board's pins; distinct by the "
            "whole case")
    exhaustive_note = None


def script():
    return [build.PY, "-W", "ignore", str(build.VERIF / "vlib/demo.py")]


def run(tier, seed, replay=None):
    t0 = time.time()
    chk = Chk()
    work = build.scratch()
    try:
        e = build.env()
        e["PYTHONPATH"] += f":{build.REPO}"
        if replay:
            p = subprocess.run(
                script() + ["--replay", os.path.abspath(replay)],
                env=e, cwd=work)
            if p.returncode == 1:
                print(f"VIOLATION property={chk.id} replay={replay}")
            return p.returncode

        def one(k):
            out = work / f"{k}.json"
            p = subprocess.run(
                script() + [str(driver.case_seed(seed, chk.id, k)),
                            str(SECS[tier]), str(CASES[tier]), str(out)],
                env=e, cwd=work, capture_output=True, text=True,
                timeout=SECS[tier] + 400)
            if not out.exists():
                return dict(err=p.stdout[-2000:] + p.stderr[-4000:])
            return json.loads(out.read_text())
        with ThreadPoolExecutor(driver.WORKERS) as ex:
            rs = list(ex.map(one, range(driver.WORKERS)))
    finally:
        build.cleanup(work)
    viol = next((r["viol"] for r in rs if r.get("viol")), None)
    errs = [r["err"] for r in rs if r["err"]]
    if errs and not viol:
        print(errs[0], file=sys.stderr)
        return 2
    rs = [r for r in rs if "evals" in r]
    hist = Counter()
    for r in rs:
        hist.update(r["hist"])
    ev, nt = sum(r["evals"] for r in rs), sum(r["seen"] for r in rs)
    cyc = sum(r["cycles"] for r in rs)
    driver.write_evidence(chk, tier, seed, dict(
        evaluations=ev, distinct_nontrivial=nt, rule=chk.rule,
        samples=[s for r in rs for s in r["samples"]][:4] or ["(none)"],
        workers=driver.WORKERS, distribution=dict(hist), cycles=cyc),
        time.time() - t0, 1 if viol else 0, chk.assumptions)
    for k in driver.known_findings(chk.id):
        print(f"KNOWN-FINDING: {k}")
    print(f"{chk.id} {tier}: {ev} command lines, {cyc} cycles, {nt} distinct "
          f"non-trivial, total {time.time() - t0:.1f}s")
    if viol:
        p = driver.write_replay(chk.id, viol)
        print(viol["msg"])
        print(f"VIOLATION property={chk.id} replay={p}")
        return 1
    return 0 if ev else 2
