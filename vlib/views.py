"""C30, run under /opt/venv/bin/python: the instruction and CSR views.

usage: views.py SEED CASES SECONDS OUT.json | views.py --replay FILE

Every field that sentinel.insn and sentinel.csr give for a 32-bit word is
computed by Amaranth's simulator and compared with slices of the word taken
as the RISC-V manuals define them.  Names that a revision doesn't have are
left out (and counted); a name with another meaning is a violation.
"""
import json
import random
import sys
import time
import warnings
from collections import Counter
from pathlib import Path

warnings.simplefilter("ignore")
M32 = 0xFFFFFFFF


def bits(w, hi, lo):
    return w >> lo & (1 << hi - lo + 1) - 1


def sx(v, n):
    return (v - (1 << n) if v >> n - 1 & 1 else v) & M32


# name -> (width, meaning), as in the unprivileged manual
INSN = {
    "raw": (32, lambda w: w), "opcode": (5, lambda w: bits(w, 6, 2)),
    "rd": (5, lambda w: bits(w, 11, 7)),
    "funct3": (3, lambda w: bits(w, 14, 12)),
    "rs1": (5, lambda w: bits(w, 19, 15)),
    "rs2": (5, lambda w: bits(w, 24, 20)),
    "funct7": (7, lambda w: bits(w, 31, 25)),
    "funct12": (12, lambda w: bits(w, 31, 20)),
    "sign": (1, lambda w: w >> 31),
    "imm.I": (32, lambda w: sx(bits(w, 31, 20), 12)),
    "imm.S": (32, lambda w: sx(bits(w, 31, 25) << 5 | bits(w, 11, 7), 12)),
    "imm.B": (32, lambda w: sx(w >> 31 << 12 | bits(w, 7, 7) << 11 |
                               bits(w, 30, 25) << 5 | bits(w, 11, 8) << 1,
                               13)),
    "imm.U": (32, lambda w: w & 0xFFFFF000),
    "imm.J": (32, lambda w: sx(w >> 31 << 20 | bits(w, 19, 12) << 12 |
                               bits(w, 20, 20) << 11 | bits(w, 30, 21) << 1,
                               21)),
    "csr.addr": (12, lambda w: bits(w, 31, 20)),
    "csr.quadrant": (2, lambda w: bits(w, 29, 28)),
    "csr.access": (2, lambda w: bits(w, 31, 30)),
}
# privileged manual: structure -> field -> (high bit, low bit)
CSRS = {
    "MStatus": dict(mie=(3, 3), mpie=(7, 7), mpp=(12, 11)),
    "MTVec": dict(mode=(1, 0), base=(31, 2)),
    "MIP": dict(msip=(3, 3), mtip=(7, 7), meip=(11, 11)),
    "MIE": dict(msie=(3, 3), mtie=(7, 7), meie=(11, 11)),
    "MCause": dict(cause=(30, 0), interrupt=(31, 31)),
}
CONST = {
    "insn.Insn": dict(ECALL=0x73, EBREAK=0x100073, MRET=0x30200073,
                      WFI=0x10500073),
    "insn.Insn.CSR": dict(RW=1, RS=2, RC=3, RWI=5, RSI=6, RCI=7),
    "insn.OpcodeType": dict(OP_IMM=4, LUI=13, AUIPC=5, OP=12, JAL=27, JALR=25,
                            BRANCH=24, LOAD=0, STORE=8, CUSTOM_0=2,
                            MISC_MEM=3, SYSTEM=28),
    "csr.AccessMode": dict(READ_ONLY=3),
    "csr.Quadrant": dict(UNPRIVILEGED=0, SUPERVISOR=1, HYPERVISOR=2,
                         MACHINE=3),
    "csr.MTVec.Mode": dict(DIRECT=0, VECTORED=1),
    "csr.MCause.Cause": dict(
        INSN_MISALIGNED=0, INSN_FAULT=1, ILLEGAL_INSN=2, BREAKPOINT=3,
        LOAD_MISALIGNED=4, LOAD_FAULT=5, STORE_MISALIGNED=6, STORE_FAULT=7,
        ECALL_UMODE=8, ECALL_SMODE=9, ECALL_MMODE=11, INSN_PAGE_FAULT=12,
        LOAD_PAGE_FAULT=13, STORE_PAGE_FAULT=15, MSOFT_INT=3, MTIMER_INT=7,
        MEXT_INT=11),
}


def addresses():
    a = dict(MVENDORID=0xF11, MARCHID=0xF12, MIMPID=0xF13, MHARTID=0xF14,
             MCONFIGPTR=0xF15, MSTATUS=0x300, MISA=0x301, MEDELEG=0x302,
             MIDELEG=0x303, MIE=0x304, MTVEC=0x305, MCOUNTEREN=0x306,
             MSTATUSH=0x310, MSCRATCH=0x340, MEPC=0x341, MCAUSE=0x342,
             MTVAL=0x343, MIP=0x344, MTINST=0x34A, MTVAL2=0x34B,
             MENVCFG=0x30A, MENVCFGH=0x31A, MSECCFG=0x747, MSECCFGH=0x757,
             MCYCLE=0xB00, MINSTRET=0xB02, MCYCLEH=0xB80, MINSTRETH=0xB82,
             MCOUNTINHIBIT=0x320, TSELECT=0x7A0, TDATA1=0x7A1, TDATA2=0x7A2,
             TDATA3=0x7A3, MCONTEXT=0x7A8, DCSR=0x7B0, DPC=0x7B1,
             DSCRATCH0=0x7B2, DSCRATCH1=0x7B3)
    for k in range(16):
        a[f"PMPCFG{k}"] = 0x3A0 + k
    for k in range(64):
        a[f"PMPADDR{k}"] = 0x3B0 + k
    for k in range(3, 32):
        a[f"MHPMCOUNTER{k}"] = 0xB00 + k
        a[f"MHPMCOUNTER{k}H"] = 0xB80 + k
        a[f"MHPMEVENT{k}"] = 0x320 + k
    return a


CONST["csr.MachineAddr"] = addresses()


def walk(o, path):
    for p in path.split("."):
        o = getattr(o, p)
    return o


def constants():
    """Yields (name, value or None if there is no such name, expected)."""
    from sentinel import csr, insn
    for cls, names in CONST.items():
        mod, _, rest = cls.partition(".")
        try:
            c = walk(dict(csr=csr, insn=insn)[mod], rest)
        except AttributeError:
            c = None
        for n, x in names.items():
            v = getattr(c, n, None)
            yield f"{cls}.{n}", None if v is None else \
                int(getattr(v, "value", v)), x


class Bench:
    """One combinational design with all views of one word."""

    def __init__(self):
        from amaranth.hdl import Cat, Module, Signal, Value
        from amaranth.sim import Simulator
        from sentinel import csr, insn
        self.w = w = Signal(32)
        m = Module()
        parts, self.fields, self.missing = [], [], []

        def add(name, v, width, f):
            v = Value.cast(v)
            if len(v) != width:
                raise Wrong(f"{name}: {len(v)} bits instead of {width}")
            parts.append(v)
            self.fields.append((name, width, f))
        i = insn.Insn(w)
        for n, (width, f) in INSN.items():
            try:
                v = walk(i, n)
            except AttributeError:
                self.missing.append(n)
                continue
            add(f"Insn.{n}", v, width, f)
        for s, fs in CSRS.items():
            c = getattr(csr, s, None)
            if c is None:
                self.missing.append(s)
                continue
            view, packed = c(w), Signal(c)
            used = 0
            for n, (hi, lo) in fs.items():
                try:
                    v = getattr(view, n)
                except AttributeError:
                    self.missing.append(f"{s}.{n}")
                    continue
                add(f"{s}.{n}", v, hi - lo + 1,
                    lambda x, hi=hi, lo=lo: bits(x, hi, lo))
                # the other direction: a field set to bits of the word
                m.d.comb += Value.cast(getattr(packed, n)).eq(
                    w[31 - hi:32 - lo])
                used |= (1 << hi + 1) - (1 << lo)
            add(f"{s} set by its fields", packed, 32, lambda x, fs=fs,
                used=used: used & sum(
                    bits(x, 31 - lo, 31 - hi) << lo
                    for hi, lo in fs.values()))
        total = Cat(*parts)
        self.o = o = Signal(len(total))
        m.d.comb += o.eq(total)
        self.sim = Simulator(m)

    def run(self, words, judge):
        async def tb(ctx):
            for w in words:
                ctx.set(self.w, w)
                if judge(w, ctx.get(self.o)):
                    return
        self.sim.reset()
        self.sim.add_testbench(tb)
        self.sim.run()

    def wrong(self, w, v):
        out = []
        for name, width, f in self.fields:
            got, v = v & (1 << width) - 1, v >> width
            if got != f(w):
                out.append((name, got, f(w)))
        return out


class Wrong(Exception):
    pass


def word(r):
    k = r.randrange(8)
    if k == 0:
        w = 1 << r.randrange(32)
        return w if r.randrange(2) else w ^ M32
    if k == 1:      # a few bits
        return sum({1 << r.randrange(32) for _ in range(r.randrange(1, 6))})
    if k == 2:      # a run of ones
        a, b = sorted((r.randrange(33), r.randrange(33)))
        return (1 << b) - (1 << a)
    if k == 3:      # an instruction with an immediate near its limits
        return (r.choice((0, 0x7FF, 0x800, 0xFFF, 0x7FE, 0x801)) << 20 |
                r.getrandbits(20))
    return r.getrandbits(32)


def judge_word(w):
    """Messages for one word in a fresh simulation."""
    res = []
    b = Bench()
    b.run([w], lambda w, v: res.extend(b.wrong(w, v)))
    return res


def text(w, bad):
    n, got, exp = bad
    return f"word {w:08x}: {n} is {got:#x}, must be {exp:#x}"


def shrink(w, name):
    """Clear bits while the field stays wrong."""
    best = w
    for k in range(32):
        c = best & ~(1 << k)
        if c != best and any(b[0] == name for b in judge_word(c)):
            best = c
    return best


def check(seed, cases, secs):
    st = dict(evals=0, hist=Counter(), seen=0, samples=[], viol=None,
              err=None)
    for n, v, x in constants():
        if v is None:
            st["hist"]["names not present"] += 1
            continue
        st["hist"]["constants"] += 1
        st["evals"] += 1
        if v != x:
            st["viol"] = dict(kind="CONST", name=n,
                              msg=f"{n} is {v:#x}, must be {x:#x}")
            return st
    r = random.Random(seed)
    ws = [0, M32] + [1 << k for k in range(32)] + \
        [M32 ^ 1 << k for k in range(32)]
    ws += [word(r) for _ in range(cases)]
    deadline = time.time() + secs
    seen, bad = set(), []
    try:
        b = Bench()
    except Wrong as e:
        st["viol"] = dict(kind="WIDTH", name=str(e), msg=str(e))
        return st
    st["hist"]["names not present"] += len(b.missing)
    st["hist"]["fields"] = len(b.fields)

    def judge(w, v):
        st["evals"] += 1
        x = b.wrong(w, v)
        if x:
            bad.append((w, x[0]))
            return True
        if w not in (0, M32):
            seen.add(w)
        if len(st["samples"]) < 2 and st["evals"] % 97 == 0:
            st["samples"].append({"word": f"{w:08x}", "fields": {
                n: hex(f(w)) for n, _, f in b.fields[:14]}})
        return time.time() > deadline
    b.run(ws, judge)
    st["seen"] = len(seen)
    if bad:
        w, x = bad[0]
        w = shrink(w, x[0])
        x = next(y for y in judge_word(w) if y[0] == x[0])
        st["viol"] = dict(kind="FIELD", name=x[0], word=w, msg=text(w, x))
    return st


def main():
    if sys.argv[1] == "--replay":
        v = json.loads(Path(sys.argv[2]).read_text())
        if v["kind"] == "FIELD":
            msgs = [text(v["word"], x) for x in judge_word(v["word"])
                    if x[0] == v["name"]]
        elif v["kind"] == "CONST":
            msgs = [f"{n} is {g:#x}, must be {x:#x}" for n, g, x in
                    constants() if n == v["name"] and g not in (None, x)]
        else:
            try:
                Bench()
                msgs = []
            except Wrong as e:
                msgs = [str(e)]
        print("verdict:", "; ".join(msgs) or "no failure")
        sys.exit(1 if msgs else 0)
    st = check(int(sys.argv[1]), int(sys.argv[2]), float(sys.argv[3]))
    Path(sys.argv[4]).write_text(json.dumps(st))


if __name__ == "__main__":
    main()
