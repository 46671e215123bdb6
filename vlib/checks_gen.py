"""C21: the Verilog generator."""
import json
import random
import re
import subprocess
import time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

from . import build, driver, vlog
from .checks_cpu import C20, B, fmt
from .driver import V, case_seed
from .eng import *

BASE_PORTS = {"clk": ("input", 1), "rst": ("input", 1), "irq": ("input", 1),
              "bus__adr": ("output", 30), "bus__dat_w": ("output", 32),
              "bus__dat_r": ("input", 32), "bus__sel": ("output", 4),
              "bus__cyc": ("output", 1), "bus__stb": ("output", 1),
              "bus__we": ("output", 1), "bus__ack": ("input", 1)}
RVFI_PORTS = {"valid": 1, "order": 64, "insn": 32, "trap": 1, "halt": 1,
              "intr": 1, "mode": 2, "ixl": 2, "rs1_addr": 5, "rs2_addr": 5,
              "rs1_rdata": 32, "rs2_rdata": 32, "rd_addr": 5, "rd_wdata": 32,
              "pc_rdata": 32, "pc_wdata": 32, "mem_addr": 32, "mem_rmask": 4,
              "mem_wmask": 4, "mem_rdata": 32, "mem_wdata": 32}
WORDCH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"
KEYWORDS = set("""always and assign begin buf case cell config default
deassign defparam design disable edge else end endcase event for force
fork function generate genvar if ifnone incdir include initial inout input
instance integer join large library localparam macromodule medium module nand
negedge nor not notif0 or output parameter posedge primitive pulldown pullup
real realtime reg release repeat scalared signed small specify strong0 supply0
table task time tran tri unsigned use uwire vectored wait wand weak0 while
wire wor xnor xor bit byte logic int do var type string final assert assume
cover property clk rst irq sentinel top""".split())


PARTS = ("alu", "control", "datapath", "decode", "cpu", "regfile", "csrfile",
         "ucoderom", "sequencer", "addr_align", "sentinel.alu", "top",
         "top.alu", "Sentinel", "SENTINEL", "sentinel_")


def name(r):
    if r.random() < .15:    # like a part of the design
        return r.choice(PARTS)
    if r.random() < .35:    # needs escaping in Verilog
        return r.choice(WORDCH) + "".join(
            r.choice(WORDCH) + r.choice(("", r.choice("..--+:$/@~")))
            for _ in range(r.choice((2, 4, 7)))) + r.choice(WORDCH)
    while True:
        n = r.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_")
        n += "".join(r.choice("abcdefghijklmnopqrstuvwxyz_0123456789ABCXYZ")
                     for _ in range(r.choice((1, 3, 6, 12, 30))))
        if n.lower() not in KEYWORDS:
            return n


def plan(seed, n):
    """The generated invocations."""
    out = [dict(entry="module", o=None, n=None, f=False, form=0),
           dict(entry="call", o=None, n=None, f=False, form=0),
           dict(entry="module", o="file", n=None, f=False, form=0, stale=1),
           dict(entry="module", o="file", n=None, f=True, form=0, stale=0)]
    for i in range(n - len(out)):
        r = random.Random(case_seed(seed, "C21-cli", i))
        out.append(dict(
            entry=r.choice(("module", "call")),
            o=r.choice((None, "-", "file", "file", "sub")),
            n=None if r.random() < .3 else name(r),
            f=r.random() < .45, form=r.randrange(1 << 16),
            stale=r.randrange(2)))
    return out[:n]


def argv(inv, path):
    parts = []
    fm = inv["form"]
    if inv["o"]:
        v = "-" if inv["o"] == "-" else path
        parts.append(["-o", v] if fm & 1 or v == "-" else ["-o" + v])
    if inv["n"]:
        parts.append(["-n", inv["n"]] if fm & 2 else ["-n" + inv["n"]])
    if inv["f"]:
        parts.append(["-f"])
    random.Random(fm).shuffle(parts)
    if fm & 8 and ["-f"] in parts and len(parts) > 1:
        parts.remove(["-f"])        # joined: -fn name, -fofile
        parts[0] = ["-f" + parts[0][0][1:], *parts[0][1:]]
    return [x for p in parts for x in p]


def invoke(inv, cwd):
    """Run the generator; (error, text, arguments)."""
    cwd.mkdir(parents=True)
    path = "sub/dir/out.v" if inv["o"] == "sub" else "out file.v"
    (cwd / path).parent.mkdir(parents=True, exist_ok=True)
    if inv["form"] & 4:
        path = str(cwd / path)
    if inv.get("stale") and inv["o"] in ("file", "sub"):
        (cwd / path).write_text("module stale; endmodule\n" * 60000)
    a = argv(inv, path)
    head = ["-m", "sentinel.gen"] if inv["entry"] == "module" else \
        ["-c", "from sentinel.gen import generate; generate()"]
    p = subprocess.run([build.PY, *head, *a], env=build.env(), cwd=cwd,
                       capture_output=True, text=True, timeout=300)
    if p.returncode:
        return f"generator failed: {p.stderr[-600:]}", "", a
    if inv["o"] in ("file", "sub"):
        if p.stdout.strip():
            return f"wrote to standard output although a file was " \
                   f"requested: {p.stdout[:200]!r}", "", a
        if not (cwd / path).exists():
            return "requested output file was not written", "", a
        return None, (cwd / path).read_text(), a
    extra = [x.name for x in cwd.rglob("*") if x.is_file()]
    if extra:
        return f"no file was requested, but {extra} appeared", "", a
    return None, p.stdout, a


def read_back(text, top):
    """(parsed modules, ports, translated design), or an error string."""
    try:
        mods = vlog.parse(text)
        if top not in mods:
            return f"no module named {top}; modules are {sorted(mods)[:6]}"
        il = vlog.to_rtlil(mods, top)
    except vlog.VlogError as e:
        return f"not a self-contained module named {top}: {e}"
    used = {i[0] for m in mods.values() for i in m["inst"]}
    tops = sorted(set(mods) - used)
    if tops != [top]:
        return f"top-level modules {tops}, expected only {top}"
    return mods, vlog.ports(mods, top), il


def il_ports(text):
    """Ports of module sentinel in Amaranth's RTLIL."""
    body = re.search(r"^module \\sentinel\n(.*?)^end$", text,
                     re.S | re.M).group(1)
    return {n: (d, int(w or 1)) for w, d, n in re.findall(
        r"^ *wire (?:width (\d+) )?(input|output) \d+ +\\(\S+)", body, re.M)}


def expect_ports(got, f):
    for k, v in BASE_PORTS.items():
        if got.get(k) != v:
            return f"port {k} is {got.get(k)}, documented {v}"
    rest = {k: v for k, v in got.items() if k not in BASE_PORTS}
    if not f:
        return f"undocumented ports {sorted(rest)[:8]}" if rest else None
    for k, w in RVFI_PORTS.items():
        if rest.get("rvfi__" + k) != ("output", w):
            return f"trace port {k} is {rest.get('rvfi__' + k)}, expected " \
                   f"output of {w}"
    odd = [k for k, v in rest.items() if not k.startswith("rvfi__")
           or v[0] != "output"]
    return f"undocumented ports {odd[:8]}" if odd else None


class GenViolation(Exception):
    def __init__(self, msg, inv, args):
        super().__init__(msg)
        self.msg, self.inv, self.args_ = msg, inv, args


class C21(C20):
    id = "C21"
    n = {"quick": 100000, "thorough": 3000000}
    ninv = {"quick": 36, "thorough": 200}
    tier = "quick"
    seed = 1
    rule = ("each generator invocation (entry point, -o, -n, -f drawn at "
            "random) must deliver a module of the right name and ports, read "
            "back by an independent Verilog reader; each distinct emitted design is compiled and "
            "must drive bus (and, if present, trace) outputs identical in "
            "every clock to the direct elaboration; non-trivial: at least "
            "200 clocks compared with a data access in the body")

    def one(self, work, k, inv):
        err, text, a = invoke(inv, work / f"g{k}")
        if err:
            raise GenViolation(err, inv, a)
        names = [inv["n"]] if inv["n"] else ["sentinel"]
        if not a:
            names.append("top")     # printing without any option
        for nm in names:
            got = read_back(text, nm)
            if not isinstance(got, str):
                break
        else:
            raise GenViolation(got, inv, a)
        mods, ports, il = got
        err = expect_ports(ports, inv["f"])
        if err:
            raise GenViolation(err, inv, a)
        return inv["f"], il, ports, mods, nm

    def build(self, work):
        inv = plan(self.seed, self.ninv[self.tier])
        self.invs = inv
        with ThreadPoolExecutor(8) as ex:
            direct = {k: ex.submit(build.build_design, work, k)
                      for k in ("top", "formal")}
            outs = [ex.submit(self.one, work, k, v)
                    for k, v in enumerate(inv)]
            outs = [o.result() for o in outs]
            sos = {k: d.result() for k, d in direct.items()}
            want = {}
            for k in ("top", "formal"):
                want[k] = il_ports((work / f"{k}.il").read_text())
            for o, v in zip(outs, inv):
                w = want["formal" if o[0] else "top"]
                if w != o[2]:
                    d = sorted(set(w.items()) ^ set(o[2].items()))[:6]
                    raise GenViolation(f"ports differ from the design's: {d}",
                                       v, [])
            self.variants = []
            todo, seen = {}, {}
            for j, (f, t, _, mods, nm) in enumerate(outs):
                if (f, t) in seen:
                    continue
                key = f"v{len(seen)}"
                seen[f, t] = key
                d = work / key
                d.mkdir()
                todo[key] = (j, f, ex.submit(build.build_verilog, d, key,
                                             mods, nm, rvfi=f))
            for key, (j, f, fu) in todo.items():
                try:
                    sos[key] = fu.result()
                except build.BuildError as e:
                    raise GenViolation(f"emitted Verilog does not compile: "
                                       f"{e}"[:900], inv[j], [])
                self.variants.append((key, f, j))
        self.autodict(work)
        return sos

    def gen(self, g, i):
        c = super().gen(g, i)
        c.meta = dict(v=i % len(self.variants))
        return c

    def judge(self, E, case):
        key, f, j = self.variants[case.meta["v"] % len(self.variants)]
        fl = CF_WAVE | (CF_WAVERV if f else 0)
        a, b = E["formal" if f else "top"], E[key]
        ra = a.run(case, fl)
        wa = a.wave()
        b.run(case, fl)
        wb = b.wave()
        if wa == wb:
            return V(r=ra)
        m = next((k for k in range(min(len(wa), len(wb)))
                  if wa[k] != wb[k]), min(len(wa), len(wb)))
        return V(True, "WAVEDIFF", f"clock {m // 2}: design {fmt(wa, m)}; "
                 f"emitted by {self.invs[j]} {fmt(wb, m)}"
                 + (f" trace digests {wa[m & ~1] >> 40:x}/"
                    f"{wb[m & ~1] >> 40:x}" if m < min(len(wa), len(wb))
                    else ""), r=ra)

    def classify(self, case, v, h):
        super().classify(case, v, h)
        f = self.variants[case.meta["v"] % len(self.variants)][1]
        h["emitted with trace port" if f else "emitted plain"] += 1


def run(tier, seed, replay):
    chk = C21()
    chk.tier, chk.seed = tier, seed
    t0 = time.time()
    work = build.scratch()
    only = None
    if replay:
        d = json.loads(Path(replay).read_text())
        if "invocation" in d:
            only = d["invocation"]
        chk.seed = d.get("seed", seed)
        chk.tier = d.get("tier", tier)
    try:
        try:
            if only is not None:
                chk.one(work, 0, only)
                print("no failure")
                return 0
            sos = chk.build(work)
        except GenViolation as e:
            p = driver.write_replay("C21", dict(
                kind="GENERATOR", msg=e.msg, invocation=e.inv, args=e.args_,
                seed=chk.seed, tier=chk.tier)) if not replay else replay
            driver.write_evidence(chk, tier, seed, dict(
                evaluations=len(getattr(chk, "invs", [])) or 1,
                distinct_nontrivial=1, rule=chk.rule,
                samples=[dict(invocation=e.inv, args=e.args_)],
                distribution={}), time.time() - t0, 1, chk.assumptions)
            print("generator arguments:", e.args_, e.inv)
            print(e.msg)
            print(f"VIOLATION property=C21 replay={p}")
            return 1
        tb = time.time() - t0
        if replay:
            driver._SOS = sos
            case = Case.from_json(d["case"])
            v = chk.judge(driver.engines(), case)
            print("verdict:", v.kind, v.msg) if v.bad else print("no failure")
            if v.bad:
                print(f"VIOLATION property=C21 replay={replay}")
            return 1 if v.bad else 0
        tot = driver.search(chk, sos, tier, seed, chk.budget[tier])
    finally:
        build.cleanup(work)
    ic = Counter()
    for v in chk.invs:
        ic[f"{v['entry']} -o {v['o']}" + (" -f" if v["f"] else "")] += 1
    return driver.finish(chk, tier, seed, tot, t0, tb, dict(
        generator_invocations=len(chk.invs),
        invocation_kinds=dict(sorted(ic.items())),
        distinct_emitted_designs=len(chk.variants)),
        dict(seed=seed, tier=tier))
