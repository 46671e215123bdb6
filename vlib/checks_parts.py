"""C31: the core's building blocks (worker processes run vlib/parts.py)."""
import json
import os
import subprocess
import sys
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor

from . import build, driver

SECS = {"quick": 45, "thorough": 1500}
CYCLES = {"quick": 2000000, "thorough": 100000000}


class Chk:
    id = "C31"
    assumptions = ["Amaranth's simulator is correct",
                   "the models in vlib/parts.py say what the components' "
                   "documentation says"]
    rule = ("random input histories of 1 to 120 cycles for each of 14 "
            "components, ALUs of 2 to 64 bits; every documented output "
            "compared in every cycle; non-trivial: more than two cycles, or "
            "a combinational component; distinct by the first four cycles")
    exhaustive_note = None


def script():
    return [build.PY, "-W", "ignore", str(build.VERIF / "vlib/parts.py")]


def run(tier, seed, replay=None):
    t0 = time.time()
    chk = Chk()
    work = build.scratch()
    try:
        e = build.env()
        if replay:
            p = subprocess.run(
                script() + ["--replay", os.path.abspath(replay)],
                env=e, cwd=work)
            if p.returncode == 1:
                print(f"VIOLATION property={chk.id} replay={replay}")
            return p.returncode

        def one(k):
            out = work / f"{k}.json"
            p = subprocess.run(
                script() + [str(driver.case_seed(seed, chk.id, k)),
                            str(SECS[tier]), str(CYCLES[tier]), str(out)],
                env=e, cwd=work, capture_output=True, text=True,
                timeout=SECS[tier] + 300)
            if not out.exists():
                return dict(err=p.stdout[-2000:] + p.stderr[-4000:])
            return json.loads(out.read_text())
        with ThreadPoolExecutor(driver.WORKERS) as ex:
            rs = list(ex.map(one, range(driver.WORKERS)))
    finally:
        build.cleanup(work)
    viol = next((r["viol"] for r in rs if r.get("viol")), None)
    errs = [r["err"] for r in rs if r["err"]]
    if errs and not viol:
        print(errs[0], file=sys.stderr)
        return 2
    rs = [r for r in rs if "evals" in r]
    hist = Counter()
    for r in rs:
        hist.update(r["hist"])
    ev, nt = sum(r["evals"] for r in rs), sum(r["seen"] for r in rs)
    cyc = sum(r["cycles"] for r in rs)
    driver.write_evidence(chk, tier, seed, dict(
        evaluations=ev, distinct_nontrivial=nt, rule=chk.rule,
        samples=[s for r in rs for s in r["samples"]][:4] or ["(none)"],
        workers=driver.WORKERS, distribution=dict(hist),
        cycles=cyc),
        time.time() - t0, 1 if viol else 0, chk.assumptions)
    for k in driver.known_findings(chk.id):
        print(f"KNOWN-FINDING: {k}")
    print(f"{chk.id} {tier}: {ev} histories, {cyc} cycles, {nt} distinct "
          f"non-trivial, total {time.time() - t0:.1f}s")
    if viol:
        p = driver.write_replay(chk.id, viol)
        print(viol["msg"])
        print(f"VIOLATION property={chk.id} replay={p}")
        return 1
    return 0 if ev else 2
