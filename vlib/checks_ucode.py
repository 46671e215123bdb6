"""C22/C23: microcode ROM assembly (worker processes run vlib/ucode.py)."""
import json
import os
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from . import build, driver

ASSUME = ["the case generator's own model of m5meta field placement "
          "(an unplaced field follows the sum of all preceding widths) and "
          "of the microcode language states the source's meaning",
          "m5meta, m5pre and Amaranth's simulator are correct"]
RULE = {
    "C22": "random single-space sources (fields, gaps, origins in any order, "
           "enums, bools, defaults, macros, labels, origins; string, path and "
           "open-file inputs; side files) against the case's own description;"
           " also the supplied microcode against m5meta alone; non-trivial: "
           "two or more fields and programmed words, or the supplied "
           "microcode",
    "C23": "random definitions, three quarters of them made inconsistent in "
           "one stated way; must raise ValueError exactly for those; "
           "non-trivial: inconsistent, or consistent with an enumeration",
}
EX = {"quick": {"C22": 700, "C23": 1200},
      "thorough": {"C22": 60000, "C23": 100000}}
SECS = {"quick": 150, "thorough": 1500}


class Chk:
    def __init__(self, pid):
        self.id, self.rule, self.assumptions = pid, RULE[pid], ASSUME
        self.exhaustive_note = None


def script():
    return [build.PY, "-W", "ignore", str(build.VERIF / "vlib/ucode.py")]


def run(pid, tier, seed, replay=None):
    t0 = time.time()
    work = build.scratch()
    try:
        e = build.env()
        if replay:
            p = subprocess.run(script() + [pid, "--replay",
                                           os.path.abspath(replay)],
                               env=e, cwd=work)
            if p.returncode == 1:
                print(f"VIOLATION property={pid} replay={replay}")
            return p.returncode
        n = EX[tier][pid]

        def one(k):
            out = work / f"{k}.json"
            sd = driver.case_seed(seed, pid, k)
            (work / f"d{k}").mkdir()
            p = subprocess.run(
                script() + [pid, str(sd), str(n), str(SECS[tier]), str(out)],
                env=e, cwd=work / f"d{k}", capture_output=True, text=True,
                timeout=SECS[tier] + 600)
            if not out.exists():
                return dict(err=p.stdout[-2000:] + p.stderr[-4000:])
            return json.loads(out.read_text())

        with ThreadPoolExecutor(driver.WORKERS) as ex:
            rs = list(ex.map(one, range(driver.WORKERS)))
    finally:
        build.cleanup(work)
    errs = [r["err"] for r in rs if r["err"]]
    rs = [r for r in rs if "evals" in r]
    viol = min((r["viol"] for r in rs if r["viol"]),
               key=lambda v: len(json.dumps(v["spec"])), default=None)
    if errs and not viol:
        if any("import" in x and ("sentinel" in x) for x in errs):
            # the module under test cannot even be imported
            print(errs[0], file=sys.stderr)
        print(errs[0], file=sys.stderr)
        return 2
    hist, seen = Counter(), set()
    for r in rs:
        hist.update(r["hist"])
        seen |= set(r["seen"])
    chk = Chk(pid)
    ev = sum(r["evals"] for r in rs)
    driver.write_evidence(chk, tier, seed, dict(
        evaluations=ev, distinct_nontrivial=len(seen), rule=chk.rule,
        samples=[s for r in rs for s in r["samples"]][:4] or ["(none)"],
        workers=driver.WORKERS, examples_per_worker=n,
        distribution=dict(sorted(hist.items()))), time.time() - t0,
        1 if viol else 0, ASSUME)
    for k in driver.known_findings(pid):
        print(f"KNOWN-FINDING: {k}")
    print(f"{pid} {tier}: {ev} cases, {len(seen)} distinct non-trivial, "
          f"total {time.time() - t0:.1f}s")
    if viol:
        p = driver.write_replay(pid, dict(kind="UCODE", msg=viol["msg"],
                                          case=viol["spec"]))
        print(viol["msg"])
        print(f"VIOLATION property={pid} replay={p}")
        return 1
    return 0 if ev else 2
