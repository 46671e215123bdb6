"""Parallel generated-input search shared by all engine based checks."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

from . import build
from .eng import Case, Engine, KINDS, CLS, CSRS
from .rv import dis
from .shrink import shrink

VERIF = build.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class V:
    """Verdict of one case."""
    __slots__ = ("bad", "kind", "msg", "incon", "r", "note")

    def __init__(self, bad=False, kind="", msg="", incon=False, r=None,
                 note=None):
        self.bad, self.kind, self.msg = bad, kind, msg
        self.incon, self.r, self.note = incon, r, note


def verdict(r):
    if r.status == 1:
        return V(True, KINDS[r.kind], r.msg.decode(errors="replace"), r=r)
    return V(incon=r.status == 2, r=r)


def case_seed(seed, pid, i):
    h = hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()
    return int.from_bytes(h[:8], "little")


def listing(case):
    out = []
    for s in case.steps:
        t = f"{s[0]:08x} {dis(s[0])}"
        if s[1]:
            t += f" ; data={s[1]:08x}"
        if s[2]:
            t += f" ; irq={s[2]:016x}"
        if s[3] or s[4]:
            t += f" ; waits={s[3]}/{s[4]}"
        if s[6]:
            t += f" ; reset@{s[5]}x{s[6]}"
        if s[7]:
            t += " ; from memory"
        out.append(t)
    for a, v in case.mem:
        out.append(f"[{a:08x}] {v:08x} {dis(v)}")
    return out


_E = {}
_CHECK = None
_SOS = None
_SEED = 1
_TIER = "quick"
_STOP = None


def engines():
    if not _E:
        for k, so in _SOS.items():
            _E[k] = getattr(_CHECK, "engine", Engine)(so)
    return _E


def case_key(case):
    if not isinstance(case, Case):
        return case.key()
    return repr((case.steps, case.xinit, case.csr, case.pc, case.mem))


def lst(case):
    return listing(case) if isinstance(case, Case) else case.listing()


def _minimise(chk, E, case, v):
    def fails(c):
        w = chk.judge(E, c)
        return w.bad and chk.relevant(w)
    small = getattr(chk, "shrink", shrink)(case, fails, chk.shrink_budget)
    w = chk.judge(E, small)
    return small, w


def _task(args):
    start, n, deadline = args
    res = dict(evals=0, nontriv=set(), hist=Counter(), samples=[], viol=None,
               foreign=[], nforeign=0, incon=0, err=None, skipped=0)
    try:
        from .gen import G
        E = engines()
        chk = _CHECK
        shrunk = 0
        for i in range(start, start + n):
            if _STOP.value or time.time() > deadline:
                res["skipped"] += 1
                continue
            g = G(random.Random(case_seed(_SEED, chk.id, i)))
            case = chk.gen(g, i)
            v = chk.judge(E, case)
            res["evals"] += 1
            if v.incon:
                res["incon"] += 1
            if not v.bad:
                nt = chk.nontrivial(case, v)
                chk.classify(case, v, res["hist"])
                if nt:
                    res["nontriv"].add(hash(case_key(case)))
                    if len(res["samples"]) < 2 and i % 7 == 0:
                        res["samples"].append(chk.sample(case, v))
                continue
            if not chk.relevant(v):
                res["nforeign"] += 1
                if len(res["foreign"]) < 2:
                    res["foreign"].append([v.kind, v.msg[:300]])
                continue
            if shrunk >= 12:
                res["nforeign"] += 1
                continue
            shrunk += 1
            small, w = _minimise(chk, E, case, v)
            if chk.scope(E, small, w):
                res["viol"] = dict(kind=w.kind, msg=w.msg,
                                   case=small.to_json(), index=i,
                                   listing=lst(small))
                _STOP.value = 1
                break
            res["nforeign"] += 1
            if len(res["foreign"]) < 3:
                res["foreign"].append([w.kind, w.msg[:300], listing(small)])
    except Exception:
        res["err"] = traceback.format_exc()
    return res


def search(chk, sos, tier, seed, budget_s):
    """Run the generated cases; returns the merged statistics."""
    global _CHECK, _SOS, _SEED, _TIER, _STOP
    _CHECK, _SOS, _SEED, _TIER = chk, sos, seed, tier
    _E.clear()
    ctx = mp.get_context("fork")
    _STOP = ctx.Value("i", 0)
    n = chk.count(tier)
    deadline = time.time() + budget_s
    per = max(1, min(chk.batch, (n + WORKERS - 1) // WORKERS))
    tasks = [(i, min(per, n - i), deadline) for i in range(0, n, per)]
    tot = dict(evals=0, nontriv=set(), hist=Counter(), samples=[], viol=None,
               foreign=[], nforeign=0, incon=0, err=None, skipped=0, planned=n)
    with ProcessPoolExecutor(WORKERS, mp_context=ctx) as pool:
        for f in as_completed([pool.submit(_task, t) for t in tasks]):
            try:
                r = f.result()
            except BrokenProcessPool:
                tot["err"] = tot["err"] or "a worker process died"
                break
            for k in ("evals", "nforeign", "incon", "skipped"):
                tot[k] += r[k]
            if len(tot["nontriv"]) < 4000000:
                tot["nontriv"] |= r["nontriv"]
            tot["hist"] += r["hist"]
            if len(tot["samples"]) < 6:
                tot["samples"] += r["samples"]
            if len(tot["foreign"]) < 6:
                tot["foreign"] += r["foreign"]
            if r["err"] and not tot["err"]:
                tot["err"] = r["err"]
                _STOP.value = 1
            if r["viol"] and (not tot["viol"] or r["viol"]["index"] <
                              tot["viol"]["index"]):
                tot["viol"] = r["viol"]
    return tot


def known_findings(pid):
    out = []
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            if line.startswith(f"open: property={pid} "):
                out.append(line[len("open: "):])
    return out


def write_replay(pid, viol):
    d = VERIF / "replays"
    d.mkdir(exist_ok=True)
    p = d / f"{pid}.json"
    p.write_text(json.dumps(dict(property=pid, **viol), indent=1))
    return p


def write_evidence(chk, tier, seed, cov, wall, nviol, assumptions):
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{chk.id}.json").write_text(json.dumps(dict(
        property=chk.id, tier=tier, seed=seed, level="exploration",
        coverage=cov, assumptions=assumptions, wall_s=round(wall, 2),
        violations=nviol), indent=1))


def main_engine(chk, tier, seed, replay=None):
    """Engine based check: returns the exit code."""
    t0 = time.time()
    work = build.scratch()
    try:
        try:
            sos = chk.build(work)
        except build.BuildError as e:
            if e.stage != getattr(chk, "build_stage", None):
                raise
            p = write_replay(chk.id, dict(kind="BUILD", msg=str(e)))
            write_evidence(chk, tier, seed, dict(
                evaluations=1, distinct_nontrivial=1, rule=chk.rule,
                samples=[str(e)[-400:]]), time.time() - t0, 1,
                chk.assumptions)
            print(e)
            print(f"VIOLATION property={chk.id} replay={p}")
            return 1
        tb = time.time() - t0
        if replay:
            d = json.loads(Path(replay).read_text())
            if "case" not in d:
                print("no failure")
                return 0
            case = getattr(chk, "case_type", Case).from_json(d["case"])
            global _SOS, _CHECK
            _SOS, _CHECK = sos, chk
            v = chk.judge(engines(), case)
            print("\n".join(lst(case)))
            print("verdict:", v.kind, v.msg) if v.bad else print("no failure")
            if v.bad:
                print(f"VIOLATION property={chk.id} replay={replay}")
                return 1
            return 0
        budget = chk.budget[tier]
        tot = search(chk, sos, tier, seed, budget)
    finally:
        build.cleanup(work)
    return finish(chk, tier, seed, tot, t0, tb)


def finish(chk, tier, seed, tot, t0, tb, extra=None, rextra=None):
    """Evidence, report lines and exit code of a finished search."""
    if tot["err"]:
        print(tot["err"], file=sys.stderr)
        return 2
    wall = time.time() - t0
    cov = dict(evaluations=tot["evals"],
               distinct_nontrivial=len(tot["nontriv"]), rule=chk.rule,
               samples=tot["samples"][:4] or ["(none recorded)"],
               planned_cases=tot["planned"], not_run_time_cap=tot["skipped"],
               build_s=round(tb, 1), inconclusive=tot["incon"],
               failures_of_other_properties=tot["nforeign"],
               distribution=dict(sorted(tot["hist"].items())))
    cov.update(extra or {})
    if tot["foreign"]:
        cov["other_property_failures"] = tot["foreign"][:4]
    if chk.exhaustive_note:
        cov["enumerated"] = chk.exhaustive_note
    write_evidence(chk, tier, seed, cov, wall, 1 if tot["viol"] else 0,
                   chk.assumptions)
    for k in known_findings(chk.id):
        print(f"KNOWN-FINDING: {k}")
    print(f"{chk.id} {tier}: {tot['evals']} cases, "
          f"{len(tot['nontriv'])} distinct non-trivial, "
          f"{tot['incon']} inconclusive, {tot['nforeign']} other-property "
          f"failures, build {tb:.1f}s, total {wall:.1f}s")
    if tot["nforeign"]:
        for f in tot["foreign"][:3]:
            print("  other-property failure:", f)
    if tot["viol"]:
        p = write_replay(chk.id, dict(tot["viol"], run_seed=seed,
                                      **(rextra or {})))
        print(tot["viol"]["kind"], tot["viol"]["msg"])
        print("\n".join("  " + x for x in tot["viol"]["listing"][:40]))
        print(f"VIOLATION property={chk.id} replay={p}")
        return 1
    if tot["evals"] == 0:
        print("no cases ran", file=sys.stderr)
        return 2
    return 0
