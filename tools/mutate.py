"""Mutation sweep: single-point changes of /repo/src, each run through every
check's generator (a few hundred to thousand cases per check); reports which
checks notice.  A development aid, not a registered check.

    mutate.py gen OUT.json                 list the mutants
    mutate.py run OUT.json RES.jsonl [-n CASES] [-k START:STOP:STEP] [-j 8]
    mutate.py one ROOT CASES               (internal) run one mutant
"""
import ast
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SRC = Path("/repo/src/sentinel")
FILES = ("align.py alu.py control.py datapath.py decode.py exception.py "
         "top.py csr.py insn.py ucodefields.py formal.py").split()
CMP = {ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="), ast.Lt: ("<", "<="),
       ast.LtE: ("<=", "<"), ast.Gt: (">", ">="), ast.GtE: (">=", ">")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.BitAnd: ("&", "|"),
       ast.BitOr: ("|", "&"), ast.BitXor: ("^", "&"),
       ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<")}


def pymutants(name, text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()))
    raw = text.encode()

    def pos(n):
        return (offs[n.lineno - 1] + n.col_offset,
                offs[n.end_lineno - 1] + n.end_col_offset)

    out = []

    def add(a, b, new, what, n):
        out.append(dict(file=name, line=n.lineno, a=a, b=b, new=new,
                        what=what, old=raw[a:b].decode()))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.ClassDef, ast.FunctionDef)) and \
                n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
    enums = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef):
            ms = [s.targets[0].id for s in n.body
                  if isinstance(s, ast.Assign) and
                  isinstance(s.targets[0], ast.Name) and
                  s.targets[0].id.isupper()]
            if len(ms) > 1:
                enums[n.name] = ms
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in CMP:
            o, w = CMP[type(n.ops[0])]
            a, b = pos(n.left)[1], pos(n.comparators[0])[0]
            s = raw[a:b].decode()
            if o in s:
                add(a, b, s.replace(o, w, 1), f"{o} -> {w}", n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o, w = BIN[type(n.op)]
            a, b = pos(n.left)[1], pos(n.right)[0]
            s = raw[a:b].decode()
            if o in s:
                add(a, b, s.replace(o, w, 1), f"{o} -> {w}", n)
            l, r = pos(n.left), pos(n.right)
            a, b = pos(n)
            if isinstance(n.op, (ast.BitAnd, ast.BitOr)):
                add(a, b, "(" + raw[l[0]:l[1]].decode() + ")", "left only", n)
                add(a, b, "(" + raw[r[0]:r[1]].decode() + ")", "right only",
                    n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Invert,
                                                              ast.Not)):
            a, b = pos(n)
            c, d = pos(n.operand)
            add(a, b, raw[c:d].decode(), "drop negation", n)
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            a, b = pos(n)
            v = n.value
            for w in {v + 1, max(0, v - 1), 0 if v > 1 else v} - {v}:
                add(a, b, str(w), f"{v} -> {w}", n)
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            a, b = pos(n)
            add(a, b, str(not n.value), "flip bool", n)
        elif isinstance(n, ast.Constant) and type(n.value) is str and \
                re.fullmatch(r"[01-]{2,}", n.value):
            a, b = pos(n)
            for k in range(len(n.value)):
                c = {"0": "1", "1": "0", "-": "1"}[n.value[k]]
                add(a, b, repr(n.value[:k] + c + n.value[k + 1:]),
                    f"pattern bit {k}", n)
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) \
                and n.attr.isupper():
            a, b = pos(n)
            for m in ENUMS.get(n.value.id, []):
                if m != n.attr:
                    add(a, b, f"{n.value.id}.{m}", f"{n.attr} -> {m}", n)
        elif isinstance(n, (ast.AugAssign,)) and \
                raw[slice(*pos(n.target))].startswith(b"m.d"):
            a, b = pos(n)
            add(a, b, "pass", "drop statement", n)
            c, d = pos(n.target)
            s = raw[c:d].decode()
            if s in ("m.d.sync", "m.d.comb"):
                add(c, d, "m.d.comb" if s == "m.d.sync" else "m.d.sync",
                    "domain", n)
            if isinstance(n.value, ast.List) and len(n.value.elts) > 1:
                for e in n.value.elts:
                    c, d = pos(e)
                    add(c, d, "Signal(1, name='unused').eq(0)",
                        "drop element", e)
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("If", "Elif") and \
                    n.args:
                c, d = pos(n.args[0])
                s = raw[c:d].decode()
                add(c, d, f"~({s}).bool() if hasattr({s}, 'bool') else "
                    f"not ({s})", "negate condition", n)
                add(c, d, "Const(1)" if False else "1 == 1", "always", n)
            if isinstance(f, ast.Name) and f.id == "Mux" and len(n.args) == 3:
                c, d = pos(n.args[1])
                e, g = pos(n.args[2])
                add(c, g, raw[e:g].decode() + ", " + raw[c:d].decode(),
                    "swap Mux", n)
            if isinstance(f, ast.Name) and f.id == "Cat" and len(n.args) > 1:
                c, _ = pos(n.args[0])
                _, g = pos(n.args[-1])
                add(c, g, ", ".join(raw[slice(*pos(x))].decode()
                                    for x in n.args[::-1]), "reverse Cat", n)
            if isinstance(f, ast.Attribute) and f.attr == "Case" and \
                    len(n.args) > 1:
                for k in range(len(n.args)):
                    c, _ = pos(n.args[0])
                    _, g = pos(n.args[-1])
                    add(c, g, ", ".join(
                        raw[slice(*pos(x))].decode()
                        for j, x in enumerate(n.args) if j != k),
                        f"drop pattern {k}", n)
    return out


ENUMS = {}


def collect_enums():
    for f in FILES:
        tree = ast.parse((SRC / f).read_text())
        for n in ast.walk(tree):
            if isinstance(n, ast.ClassDef) and any(
                    "num" in ast.unparse(b) for b in n.bases):
                ENUMS[n.name] = [s.targets[0].id for s in n.body
                                 if isinstance(s, ast.Assign) and
                                 isinstance(s.targets[0], ast.Name)]


FIELDS = {
    "jmp_type": "cont map direct direct_zero".split(),
    "cond_test": "exception cmp_alu_o_zero mem_valid true".split(),
    "invert_test": ["0", "1"], "pc_action": "hold inc load_alu_o".split(),
    "latch_a": ["0", "1"], "latch_b": ["0", "1"],
    "a_src": "gp imm alu_o zero four neg_one thirty_one".split(),
    "b_src": "gp pc imm one dat_r csr_imm csr mcause_latch".split(),
    "alu_op": "add sub and or xor sll srl sra cmp_ltu".split(),
    "alu_i_mod": "none inv_msb_a_b".split(),
    "alu_o_mod": "none inv_lsb_o clear_lsb_o".split(),
    "reg_read": ["0", "1"], "reg_write": ["0", "1"],
    "reg_r_sel": "insn_rs1 insn_rs2".split(),
    "reg_w_sel": "insn_rd zero".split(),
    "csr_op": "none read_csr write_csr".split(),
    "csr_sel": "insn_csr trg_csr".split(), "mem_req": ["0", "1"],
    "mem_sel": "auto byte hword word".split(),
    "mem_extend": "zero sign".split(), "latch_adr": ["0", "1"],
    "latch_data": ["0", "1"], "write_mem": ["0", "1"],
    "insn_fetch": ["0", "1"],
    "except_ctl": "none latch_decoder latch_jal latch_store_adr "
                  "latch_load_adr enter_int leave_int".split()}


def asmmutants(text):
    """Change, remove or add one field of one microinstruction."""
    r = random.Random(7)
    out = []
    body = text.index("fetch:\n")
    # blank out comments, keeping offsets
    t = re.sub(r"//[^\n]*", lambda m: " " * len(m[0]), text)
    labels = sorted(set(re.findall(r"^(\w+):", t[body:], re.M)) |
                    {"fetch", "save_pc"})
    for m in re.finditer(r"[^;]+;", t[body:]):
        s, a = m[0], m.start() + body
        if "origin" in s or not s.strip():
            continue
        lead = re.match(r"\s*(?:\w+:\s*)*", s).end()
        line = text.count("\n", 0, a + lead) + 1

        def add(x, y, new, what):
            out.append(dict(file="microcode.asm", line=line, a=x, b=y,
                            new=new, what=what, old=text[x:y]))
        have = set()
        for f in re.finditer(r"(\w+)\s*=>\s*(\w+)", s):
            k, v = f[1], f[2]
            have.add(k)
            x, y = a + f.start(2), a + f.end(2)
            if k == "target":
                for w in r.sample(labels, 4):
                    if w != v:
                        add(x, y, w, f"target {v} -> {w}")
                continue
            opts = [w for w in FIELDS[k] if w != v]
            for w in r.sample(opts, min(4, len(opts))):
                add(x, y, w, f"{k} {v} -> {w}")
        for mac in re.finditer(r"\b([A-Z][A-Z_0-9]{3,})\b(\(\w+\))?",
                               s[lead:]):
            if mac[1] in ("MTVEC", "MEPC", "MCAUSE"):
                for w in ("MSCRATCH", "MEPC", "MTVEC", "MCAUSE"):
                    if w != mac[1]:
                        add(a + lead + mac.start(), a + lead + mac.end(), w,
                            f"{mac[1]} -> {w}")
            else:
                add(a + lead + mac.start(), a + lead + mac.end(),
                    "latch_data => 0", f"drop {mac[0]}")
        extra = [(k, w) for k in FIELDS if k not in have
                 for w in FIELDS[k][1:] if k not in ("jmp_type",)]
        for k, w in r.sample(extra, 8):
            add(a + lead, a + lead, f"{k} => {w}, ", f"add {k} => {w}")
    return out


def gen(out):
    collect_enums()
    ms = []
    for f in FILES:
        text = (SRC / f).read_text()
        ms += pymutants(f, text)
    ms += asmmutants((SRC / "microcode.asm").read_text())
    seen, uniq = set(), []
    for m in ms:
        k = (m["file"], m["a"], m["b"], m["new"])
        if k not in seen:
            seen.add(k)
            uniq.append(m)
    for i, m in enumerate(uniq):
        m["id"] = i
    Path(out).write_text(json.dumps(uniq, indent=0))
    from collections import Counter
    print(Counter(m["file"] for m in uniq), len(uniq))


def apply(m, root):
    p = root / "src/sentinel" / m["file"]
    raw = p.read_bytes()
    p.write_bytes(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def norm(cc):
    t = Path(cc).read_text()
    t = re.sub(r'"[^"]*\.py:[^"]*"', '""', t)
    t = re.sub(r"^\s*//.*$", "", t, flags=re.M)
    return hashlib.sha256(t.encode()).hexdigest()


def one(root, n):
    """Build one tree and run every engine check on it; prints JSON."""
    os.environ["VERIF_REPO"] = root
    os.environ["VERIF_WORKERS"] = "1"
    sys.path.insert(0, str(VERIF))
    from vlib import build, driver, registry
    import multiprocessing as mp
    res = dict(viol={}, foreign={}, hash={})
    work = build.scratch()
    try:
        try:
            sos = build.build_all(work, ("top", "formal"))
        except build.BuildError as e:
            res["build"] = e.stage
            print(json.dumps(res))
            return
        for k in sos:
            res["hash"][k] = norm(work / f"{k}.cc")
        base = os.environ.get("BASEHASH", "").split(",")
        if [res["hash"][k] for k in ("top", "formal")] == base:
            res["equivalent"] = True
            print(json.dumps(res))
            return
        registry.ENGINE["C01"]().autodict(work)
        driver._SOS = sos
        for pid, cls in sorted(registry.ENGINE.items()):
            if os.environ.get("ONLY") and pid not in os.environ["ONLY"]:
                continue
            chk = cls()
            if not set(chk.designs) <= set(sos):
                continue
            driver._CHECK = chk
            driver._SEED = int(os.environ.get("VERIF_SEED", "1"))
            driver._STOP = mp.Value("i", 0)
            tot = chk.count("quick")
            r = random.Random(5)
            done, evals = 0, 0
            t0 = time.time()
            # contiguous blocks from all over the index range
            foreign = 0
            while done < n and time.time() - t0 < 60:
                s = r.randrange(max(1, tot - 100))
                x = driver._task((s, 100, time.time() + 60))
                done += 100
                evals += x["evals"]
                foreign += x["nforeign"]
                if x["err"]:
                    res["viol"][pid] = "ERR " + x["err"][-300:]
                    break
                if x["viol"]:
                    res["viol"][pid] = x["viol"]["kind"]
                    break
            if foreign:
                res["foreign"][pid] = foreign
    finally:
        build.cleanup(work)
    print(json.dumps(res))


def run(lst, out, n, sel, jobs):
    ms = json.loads(Path(lst).read_text())
    ms = ms[sel]
    done = set()
    if Path(out).exists():
        done = {json.loads(x)["id"] for x in open(out)}
    ms = [m for m in ms if m["id"] not in done]
    base = Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
    shutil.copytree(VERIF, base / "verif", ignore=shutil.ignore_patterns(
        ".git", "seeded", "evidence", "replays"))

    def do(m):
        root = base / f"m{m['id']}"
        try:
            (root / "src").mkdir(parents=True)
            shutil.copytree(SRC, root / "src/sentinel",
                            ignore=shutil.ignore_patterns("__pycache__"))
            if m.get("new") is not None:
                apply(m, root)
            t = time.time()
            try:
                p = subprocess.run(
                    [sys.executable, str(base / "verif/tools/mutate.py"),
                     "one", str(root), str(n)], capture_output=True,
                    text=True, timeout=900)
                r = json.loads(p.stdout.strip().splitlines()[-1])
            except Exception as e:
                r = dict(error=repr(e)[:300])
            r.update(id=m["id"], file=m["file"], line=m["line"],
                     what=m["what"], old=m.get("old"), new=m.get("new"),
                     t=round(time.time() - t))
            return r
        finally:
            shutil.rmtree(root, ignore_errors=True)
    try:
        if "BASEHASH" not in os.environ:
            r = do(dict(id=-1, file="", line=0, what="base", new=None))
            print("base", r)
            os.environ["BASEHASH"] = ",".join(
                r["hash"][k] for k in ("top", "formal"))
        with ThreadPoolExecutor(jobs) as ex, open(out, "a") as f:
            for r in ex.map(do, ms):
                f.write(json.dumps(r) + "\n")
                f.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "gen":
        gen(sys.argv[2])
    elif cmd == "one":
        one(sys.argv[2], int(sys.argv[3]))
    else:
        a = sys.argv[2:]
        n, sel, j = 800, slice(None), 8
        if "-n" in a:
            n = int(a[a.index("-n") + 1])
        if "-j" in a:
            j = int(a[a.index("-j") + 1])
        if "-k" in a:
            sel = slice(*[int(x) if x else None
                          for x in a[a.index("-k") + 1].split(":")])
        run(a[0], a[1], n, sel, j)
