"""Engine based checks: generators, relevance and attribution per property."""
import zlib

from . import build, cprog
from .driver import V, verdict, listing
from .eng import *
from .gen import *
from .rv import *
from .shrink import shrink

B = {n: 1 << i for i, n in enumerate(CLS)}
SYNC = (B["ecall"] | B["ebreak"] | B["illegal"] | B["csrill"] | B["misjmp"] |
        B["misld"] | B["misst"])
TRAPS = SYNC | B["irq"]
BASE_ASSUME = [
    "the reference model in vlib/engine/iss.h states the RISC-V RV32I/Zicsr "
    "M-mode semantics and Sentinel's documented CSR map correctly",
    "Yosys/CXXRTL and clang translate the elaborated design faithfully",
    "the Wishbone slave acknowledges at least one clock after STB rises "
    "(documented two-clock REQ/ACK handshake)",
    "vlib's stand-in for the missing amaranth_soc package provides the same "
    "Wishbone signature (names, directions, widths)",
]

NOTRAP = table(alu=16, shift=6, branch=6, jal=3, jalr=3, auipc=3, load=8,
               store=8, fence=1, wfi=1)


WRITERS = ("alu", "shift", "lui", "auipc", "jal", "jalr", "load", "csr",
           "csrro")


class Check:
    id = None
    designs = ("top",)
    n = {"quick": 800000, "thorough": 10000000}
    budget = {"quick": 200, "thorough": 1500}
    batch = 1000
    kinds = None            # failure kinds this property is about (None: all)
    target = None           # name of generator method for the instructions
    seen = 0                # classes that make a minimal failure in scope
    tw = 50                 # percentage of target instructions
    maxlen = 48
    ctx = CONTEXT
    irq = 12                # percentage of cases with interrupt activity
    csr_concern = False     # prologue CSR failures count for this property
    dump_csrs = 0
    shrink_budget = 1200
    marathon = 40000        # one case in this many is very long
    assumptions = BASE_ASSUME
    exhaustive_note = None
    extra_flags = CF_NORSTCHK
    rule = ""

    def count(self, tier):
        return self.n[tier]

    def build(self, work):
        sos = build.build_all(work, self.designs)
        self.autodict(work)
        return sos

    def autodict(self, work):
        """Constants of the elaborated netlist feed the value generators."""
        import re
        from . import gen
        vals, imms = set(), set()
        for f in work.glob("top.il"):
            for w, b in re.findall(r"\b(\d+)'([01]+)\b", f.read_text()):
                if 6 <= int(w) <= 32 and len(b) == int(w):
                    v = int(b, 2)
                    vals.add(v)
                    if int(w) < 32 and b[0] == "1":
                        vals.add((v - (1 << int(w))) & M32)
        gen.AUTODICT[:] = sorted(vals)[:400]

    # ---- generation
    def steps(self, g, n):
        out = []
        tgt = getattr(g, self.target) if self.target else None
        for _ in range(n):
            k = g.rr(100)
            if tgt and k < self.tw:
                w = tgt()
                out.append(g.st(w))
                if g.rr(3) == 0:
                    out.append(g.sw(w >> 7 & 31))
            elif k < self.tw + 15:
                out.append(g.lw())
            elif k < self.tw + 20:
                out.append(g.sw())
            else:
                out.append(g.st(g.mix(self.cur_ctx)))
        return out

    def gen(self, g, i):
        self.cur_ctx = self.ctx
        fl = self.extra_flags
        if not self.csr_concern and g.rr(2):
            self.cur_ctx = NOTRAP
            fl |= CF_NOCSRINIT
        if self.irq and g.rr(100) < self.irq:
            g.irqmode = 1
        n = g.rr(1, 5) if g.rr(4) == 0 else g.rr(5, self.maxlen)
        steps = self.steps(g, n)
        k = g.rr(500)
        if k < 50 and len(steps) > 3:
            # few different words, many times: short sequences recur with
            # other data, waits and interrupts
            pool = [g.ch(steps)[0] for _ in range(g.rr(1, 6))]
            steps = [g.lw() if g.rr(8) == 0 else g.st(g.ch(pool))
                     for _ in steps]
        elif k == 50:           # a long life without reset
            while len(steps) < 2500:
                steps += self.steps(g, self.maxlen)
        if i % self.marathon == 77 % self.marathon:
            g.waitmode = g.rr(2)
            steps = []
            while len(steps) < 2500:
                steps += self.steps(g, self.maxlen)
            steps += g.r.choices(steps, k=70000)
        c = g.case(steps)
        if len(steps) > 70000:  # beyond any 16-bit count of instructions
            c.max_cycles = 4000000
        c.flags |= fl
        c.dump_csrs = self.dump_csrs if self.csr_concern else 0
        return c

    # ---- judging
    def judge(self, E, case):
        return verdict(E["top"].run(case))

    def relevant(self, v):
        return self.kinds is None or v.kind in self.kinds

    def body(self, case):
        return [s for s in case.steps if s[0] != NOP] + \
            [m for m in case.mem if m[1] != NOP]

    kl = ()                 # static classes this property is about

    def scope(self, E, case, v):
        return self.basescope(E, case, v) or \
            bool(self.kl) and self.culprit(E, case) in self.kl

    def explicit(self, case):
        """The case with its prologue written out as steps."""
        c = case.copy()
        if case.flags & CF_NOPRO or any(s[6] for s in case.steps):
            return c
        pre = []

        def add(w, ld=0):
            pre.append((w, ld, ALL1 if case.flags & CF_IRQPRO else 0,
                        case.pro_fwait, 0, -1, 0, 0))
        if not case.flags & CF_NOCSRINIT:
            for k, a in ((2, MTVEC), (3, MSCRATCH), (4, MEPC), (5, MCAUSE),
                         (1, MIE), (0, MSTATUS)):
                add(LW(1, 0, 0), case.csr[k])
                add(CSR(1, 0, a, 1))
        add(LW(1, 0, 0), case.pc)
        add(i_type(0x67, 0, 0, 1, 0))
        for i in range(1, 32):
            add(LW(i, 0, 0), case.xinit[i])
        c.steps = pre + case.steps
        c.flags |= CF_NOPRO
        return c

    def culprit(self, E, case):
        """Static class of the instruction that first went wrong: the last
        one if the registers it reads are right, else the one after which a
        register it reads is wrong, as seen both by storing it and by using
        it as an address."""
        c = self.explicit(case)
        v = self.judge(E, c)
        if not v.bad:
            return None
        if len(c.steps) > len(case.steps):
            c = shrink(c, lambda d: (lambda w: w.bad and self.relevant(w))(
                self.judge(E, d)), 500)
            v = self.judge(E, c)
        w = v.r.insn
        k = klass(w)
        if v.kind not in ("DUMPREG", "STDATA", "MEMADDR", "FLOW"):
            return None
        n = v.r.step if v.r.phase == 2 else len(c.steps)
        if v.r.phase == 3 and v.kind != "DUMPREG":
            return k if k == "store" else None

        def bad(d, kinds):
            d.dump_csrs = 0
            x = self.judge(E, d)
            return x.bad and x.kind in kinds

        def wrong(m, r):
            d = c.copy()
            d.steps = c.steps[:m] + [(i_type(0x03, 4, 0, r, 0), 0, 0, 0, 0,
                                      -1, 0, 0)]
            d.flags |= CF_NOEPI
            # a difference in the low address bits may not show
            if not bad(d, ("MEMADDR",)):
                return False
            d = c.copy()
            d.steps = c.steps[:m]
            d.dump_regs = 1 << r
            d.flags &= ~CF_NOEPI
            return bad(d, ("DUMPREG",))

        regs = {r for r in (w >> 15 & 31, w >> 20 & 31) if r}
        if w & 127 in (0x03, 0x67, 0x13):
            regs = {w >> 15 & 31} - {0}
        elif w & 127 not in (0x23, 0x63, 0x33):
            regs = set()
        for r in regs:
            if wrong(n, r):
                for m in range(n + 1):
                    if wrong(m, r):
                        return klass(c.steps[m - 1][0]) if m else None
        return k

    def basescope(self, E, case, v):
        body = self.body(case)
        if not body:
            if self.csr_concern:
                return True
            c = case.copy()
            c.flags |= CF_NOCSRINIT
            c.dump_csrs = 0
            return self.judge(E, c).bad
        return self.inscope(case, v)

    def inscope(self, case, v):
        return bool(v.r.seen & self.seen)

    def nontrivial(self, case, v):
        return bool(v.r.seen & self.seen)

    def classify(self, case, v, h):
        r = v.r
        for i, n in enumerate(CLS):
            if r.clscnt[i]:
                h["insn_" + n] += r.clscnt[i]
        h["clock_cycles"] += r.cycles
        h["bus_transactions"] += r.txns
        h["interrupts_taken"] += r.irqs
        h["traps_taken"] += r.traps
        h["resets"] += r.resets
        h["cases_with_wait_states"] += r.maxwait > 0

    def sample(self, case, v):
        return listing(case)[:12]


class C01(Check):
    id = "C01"
    target = "alu"
    seen = B["alu"] | B["lui"]
    kl = ("alu", "lui", "nop")
    rule = ("a case is a CPU reset, a random register file (boundary, "
            "related and random words), 1-48 instruction slots of which half "
            "are ALU/LUI instructions with random registers (aliased on "
            "purpose) and immediates mixed with context instructions and "
            "stores of the result, then a dump of x0..x31; every bus access "
            "is compared with the reference model; non-trivial: at least one "
            "non-NOP ALU/LUI instruction executed in the body")


class C02(Check):
    id = "C02"
    target = "shift"
    seen = B["shi"] | B["shr"]
    kl = ("shift",)
    rule = ("as C01 with shifts as target (immediate and register, every "
            "amount, amount registers with random upper bits); non-trivial: "
            "at least one shift executed")

    def steps(self, g, n):
        out = []
        for s in super().steps(g, n):
            if klass(s[0]) == "shift" and s[0] & 127 == 0x33 and g.rr(2):
                v = g.rr(32)
                if g.rr(2):
                    v |= g.bits(32) & ~31
                r = s[0] >> 20 & 31
                if r:
                    out.append(g.lw(r, v))
            out.append(s)
        return out


class C03(Check):
    id = "C03"
    tw = 55
    seen = (B["bt"] | B["bnt"] | B["jal"] | B["jalr"] | B["auipc"])
    target = "ctrl"
    kl = ("branch", "jal", "jalr", "auipc")
    rule = ("as C01 with branches, JAL, JALR and AUIPC as target: random "
            "PCs near wrap-around points, biased equal/adjacent operands, "
            "every offset; the fetch address after each instruction and the "
            "link/AUIPC result are compared with the model; non-trivial: at "
            "least one such instruction executed without trapping")


class C04(Check):
    id = "C04"
    target = "load"
    kl = ("load",)
    seen = B["load"]
    rule = ("as C01 with loads as target; junk on unselected lanes; "
            "non-trivial: at least one non-trapping load executed")

    def steps(self, g, n):
        return align_mem(self, g, super().steps(g, n))


class C05(C04):
    id = "C05"
    target = "store"
    kl = ("store",)
    seen = B["store"]
    rule = ("as C01 with stores as target: address, selects and selected "
            "write lanes of every write compared; non-trivial: at least one "
            "non-trapping store executed")


def align_mem(self, g, steps):
    """Make a good share of the loads/stores aligned: set the base register."""
    out = []
    for s in steps:
        w = s[0]
        op = w & 127
        if op in (0x03, 0x23) and g.rr(3):
            rs1 = w >> 15 & 31
            sz = w >> 12 & 3
            imm = sx(w >> 20, 12) if op == 3 else sx(
                (w >> 25) << 5 | (w >> 7 & 31), 12)
            if rs1 and w >> 12 & 7 != 3:
                v = g.val()
                v = ((v + imm) & ~((1 << sz) - 1)) - imm
                out.append(g.lw(rs1, v & M32))
        out.append(s)
    return out


class C06(Check):
    id = "C06"
    csr_concern = True
    dump_csrs = ALLCSRS
    irq = 20
    tw = 0
    extra_flags = 0
    rule = ("random instruction histories over all classes with traps, "
            "interrupts and resets, then a dump of all 32 registers and all "
            "CSRs; a wrong register that no executed instruction names as "
            "destination (or a nonzero x0), or a changed CSR without CSR "
            "instruction or trap, is a violation; non-trivial: at least four "
            "different instruction classes executed")

    def gen(self, g, i):
        c = super().gen(g, i)
        if g.rr(2):
            c.flags |= CF_NORSTCHK
        if g.rr(3) == 0:        # x0 as destination everywhere
            c.steps = [((s[0] & ~0xF80) if klass(s[0]) in (
                "alu", "shift", "lui", "auipc", "jal", "jalr", "load", "csr",
                "csrro") and g.rr(2) else s[0],) + s[1:] for s in c.steps]
        if g.rr(6) == 0:
            k = g.rr(len(c.steps))
            s = list(c.steps[k])
            s[5], s[6] = g.rr(0, 20), g.ch((1, 1, 2, 5))
            c.steps[k] = tuple(s)
        return c

    def later(self, E, case, reg):
        """Was `reg` (CSR: 32 + index) still right after every instruction
        that may change it, and wrong after one that may not?"""
        base = None
        for n in range(len(case.steps) + 1):
            c = case.copy()
            c.steps = case.steps[:n]
            c.dump_regs, c.dump_csrs = (
                (1 << reg, 0) if reg < 32 else (0, 1 << reg - 32))
            c.flags &= ~CF_NOEPI
            v = self.judge(E, c)
            if v.bad:
                if v.kind not in ("DUMPREG", "DUMPCSR") or not n:
                    return False
                w = case.steps[n - 1][0]
                k = klass(w)
                if case.steps[n - 1][6]:
                    return False
                if reg < 32:
                    return k not in WRITERS or w >> 7 & 31 != reg
                return k not in ("csr", "csrro", "csrill", "mret") and \
                    (v.r.traps, v.r.irqs) == base
            base = v.r.traps, v.r.irqs
        return False

    def x0effect(self, E, case):
        """Does the failure vanish with what is written to x0 made zero?
        Such an instruction changed something although it is a NOP."""
        c = case.copy()
        for i, s in enumerate(case.steps):
            w = s[0]
            if w >> 7 & 31 or s[6]:
                continue
            k = klass(w)
            if k in ("alu", "lui") and w != NOP:
                c.steps[i] = (NOP,) + s[1:]
            elif k == "load":
                c.steps[i] = (w, 0) + s[2:]
        return c.steps != case.steps and not self.judge(E, c).bad

    def x0base(self, E, case, v):
        """Wrong address from base x0, right when it is the first
        instruction after reset: x0 has changed since."""
        w = v.r.insn
        if w & 127 not in (0x03, 0x23, 0x67) or w >> 15 & 31 or \
                v.kind not in ("MEMADDR", "FLOW"):
            return False
        c = case.copy()
        c.steps = [(w,) + s[1:6] + (0,) + s[7:] for s in case.steps
                   if s[0] == w][:1] or [(w, 0, 0, 0, 0, -1, 0, 0)]
        c.flags |= CF_NOPRO | CF_NOEPI
        return not self.judge(E, c).bad

    def scope(self, E, case, v):
        if self.x0effect(E, case) or self.x0base(E, case, v):
            return True
        if v.kind not in ("DUMPREG", "DUMPCSR", "STDATA", "RESET",
                          "RESETCSR"):
            return False
        if not self.body(case):
            return super().scope(E, case, v)
        return self.inscope6(E, case, v)

    def inscope6(self, E, case, v):
        dst = set()
        csrw = False
        for s in case.steps:
            k = klass(s[0])
            if k in ("alu", "shift", "lui", "auipc", "jal", "jalr", "load",
                     "csr", "csrro"):
                dst.add(s[0] >> 7 & 31)
            if k in ("csr", "csrro", "csrill", "mret"):
                csrw = True
        if v.r.seen & (TRAPS | B["mret"]):
            csrw = True
        if v.kind == "DUMPREG":
            return v.r.slotreg == 0 or v.r.slotreg not in dst or \
                self.later(E, case, v.r.slotreg)
        if v.kind == "STDATA":
            if v.r.insn & 0x707F != 0x2023:
                return False
            r = v.r.insn >> 20 & 31
            return r == 0 or r not in dst or self.later(E, case, r)
        if v.kind == "DUMPCSR":
            return not csrw or self.later(E, case, v.r.slotreg)
        if v.kind == "RESET" or v.kind == "RESETCSR":
            return "data=" in v.msg and v.r.slotreg == 0
        return False

    def nontrivial(self, case, v):
        return bin(v.r.seen).count("1") >= 4


class C07(Check):
    id = "C07"
    csr_concern = True
    dump_csrs = ALLCSRS
    rule = ("every (opcode, funct3, funct7) combination of the low 7 bits "
            "(2^17 words, other fields random), every SYSTEM funct12, plus "
            "random and bit-flipped words, each executed between known "
            "instructions and compared with the reference model (effect or "
            "illegal-instruction trap with no other effect); non-trivial: "
            "the case contains at least one word outside the ADDI x0 no-op")
    exhaustive_note = ("all 2^17 (opcode, funct3, funct7) combinations and "
                       "all 4096 funct12 x rd{0,nz} x rs1{0,nz} of "
                       "SYSTEM/funct3=0")
    PER = 32
    ENUM = (1 << 17) // PER
    ENUM2 = 4096 * 4 // PER

    def count(self, tier):
        return self.ENUM + self.ENUM2 + (300000 if tier == "quick"
                                         else 10000000)

    def gen(self, g, i):
        if i < self.ENUM:
            ws = []
            for k in range(self.PER):
                j = i * self.PER + k
                ws.append(j & 127 | (j >> 7 & 7) << 12 | (j >> 10) << 25 |
                          (g.bits(32) & 0x01FF8F80))
        elif i < self.ENUM + self.ENUM2:
            ws = []
            for k in range(self.PER):
                j = (i - self.ENUM) * self.PER + k
                rd = g.rr(1, 32) if j & 1 else 0
                rs = g.rr(1, 32) if j & 2 else 0
                ws.append(0x73 | rd << 7 | rs << 15 | (j >> 2) << 20)
        else:
            ws = []
            for _ in range(g.rr(1, 40)):
                k = g.rr(4)
                ws.append(g.illegal() if k < 2 else g.bits(32) if k == 2
                          else g.anyinsn() ^ (1 << g.rr(32)))
        steps = []
        for w in ws:
            steps.append(g.st(w))
            if g.rr(12) == 0:
                steps.append(g.st(g.mix(CONTEXT)))
        c = g.case(steps)
        c.flags |= self.extra_flags
        c.dump_csrs = ALLCSRS
        return c

    def inscope(self, case, v):
        return True

    def nontrivial(self, case, v):
        return any(s[0] != NOP for s in case.steps)


class C08(Check):
    id = "C08"
    csr_concern = True
    dump_csrs = ALLCSRS
    target = "exc"
    tw = 45
    irq = 15
    seen = SYNC
    rule = ("histories with ECALL, EBREAK, illegal words, misaligned loads, "
            "stores, jumps and branches at random PCs and trap vectors, mixed "
            "with CSR writes, MRET and interrupts; handler entry address, "
            "absence of side effects, and all CSRs (read back in the body "
            "and dumped at the end) compared with the model; non-trivial: at "
            "least one synchronous exception taken")


class C09(Check):
    id = "C09"
    csr_concern = True
    dump_csrs = ALLCSRS
    target = "csr"
    tw = 60
    seen = B["csr"] | B["csrro"]
    rule = ("random CSRRW/S/C[I] sequences over the implemented CSRs with "
            "boundary/random operands, rd/rs1 aliasing and x0 forms, mixed "
            "with other instructions, CSRs dumped at the end; non-trivial: "
            "at least two CSR instructions on implemented CSRs executed")

    def inscope(self, case, v):
        return bool(v.r.seen & self.seen) or v.kind == "DUMPCSR"


class C10(Check):
    id = "C10"
    csr_concern = True
    dump_csrs = ALLCSRS
    seen = B["csr"] | B["csrro"] | B["csrill"]
    PER = 32
    ENUM = 4096 * 6 * 4 // PER
    rule = ("every CSR address x every CSR instruction x rs1/imm {zero, "
            "non-zero} x rd {zero, non-zero} with random values, then random "
            "sequences; non-trivial: every case executes a CSR instruction")
    exhaustive_note = "4096 addresses x 6 instructions x rs1{0,nz} x rd{0,nz}"

    def count(self, tier):
        return self.ENUM * 3 + (300000 if tier == "quick" else 8000000)

    def gen(self, g, i):
        reps = 3
        if i < self.ENUM * reps:
            i %= self.ENUM
            ws = []
            for k in range(self.PER):
                j = i * self.PER + k
                f3 = (1, 2, 3, 5, 6, 7)[j % 6]
                j //= 6
                rd = g.rr(1, 32) if j & 1 else 0
                rs = g.rr(1, 32) if j & 2 else 0
                a = j >> 2
                # spread neighbouring addresses over different cases
                a = (a * 1637 + 11) & 4095
                ws.append(CSR(f3, rd, a, rs))
        else:
            ws = [g.ch((g.csrill, g.csrro, g.csr))()
                  for _ in range(g.rr(1, 40))]
        steps = []
        for w in ws:
            if g.rr(6) == 0:
                steps.append(g.lw())
            steps.append(g.st(w))
            if g.rr(8) == 0:
                steps.append(g.sw(w >> 7 & 31))
            if g.rr(20) == 0:
                steps.append(g.st(g.mix(CONTEXT)))
        c = g.case(steps)
        c.flags |= self.extra_flags
        c.dump_csrs = ALLCSRS
        return c

    def nontrivial(self, case, v):
        return bool(v.r.seen & self.seen)


class C11(Check):
    id = "C11"
    csr_concern = True
    dump_csrs = ALLCSRS & ~0x40
    seen = B["irq"]
    irq = 100
    target = "irqctl"
    tw = 35
    rule = ("random histories with interrupt-line waveforms chosen per "
            "instruction slot (low, high, rising, falling, pulses at every "
            "clock offset) and frequent changes of mstatus.MIE, mie.MEIE and "
            "MRET; the model accepts either outcome only where the line "
            "changes inside the sampling window; non-trivial: at least one "
            "interrupt taken, or the line high while masked")

    def gen(self, g, i):
        c = super().gen(g, i)
        # what mip reads is C24's business: only accesses without a result
        c.steps = [(s[0] & ~0xF80,) + s[1:]
                   if s[0] & 127 == 0x73 and s[0] >> 20 == 0x344 else s
                   for s in c.steps]
        if g.rr(8) == 0:
            c.flags |= CF_IRQPRO
        return c

    def inscope(self, case, v):
        return bool(v.r.seen & B["irq"]) or any(s[2] for s in case.steps) or \
            bool(case.flags & CF_IRQPRO)

    def nontrivial(self, case, v):
        return v.r.irqs > 0 or any(s[2] for s in case.steps)

    def classify(self, case, v, h):
        super().classify(case, v, h)
        h["cases_line_high_but_never_taken"] += (
            v.r.irqs == 0 and any(s[2] for s in case.steps))


class C12(Check):
    id = "C12"
    csr_concern = True
    dump_csrs = ALLCSRS & ~0x40
    irq = 60
    target = "traphist"
    tw = 55
    extra_flags = 0
    seen = TRAPS | B["mret"]
    rule = ("histories of interrupts, exceptions, MRET, nested traps and CSR "
            "writes with CSR read-backs in the body and a final CSR dump; "
            "non-trivial: at least two trap events (traps or MRET)")

    def gen(self, g, i):
        c = super().gen(g, i)
        c.flags |= CF_NORSTCHK if g.rr(2) else 0
        if g.rr(12) == 0:
            k = g.rr(len(c.steps))
            s = list(c.steps[k])
            s[5], s[6] = g.rr(0, 20), 1
            c.steps[k] = tuple(s)
        if len({s[2] for s in c.steps}) > 1:   # mip has no definite value
            c.steps = [(s[0] & ~0xF80,) + s[1:]
                       if s[0] & 127 == 0x73 and s[0] >> 20 == 0x344 else s
                       for s in c.steps]
        return c

    def nontrivial(self, case, v):
        return v.r.traps + v.r.irqs + v.r.clscnt[13] >= 2


class C13(Check):
    id = "C13"
    kinds = {"PROTO"}
    irq = 30
    tw = 0
    rule = ("random instruction streams with random wait states (0..70, "
            "sometimes hundreds or more than 65536), junk on the read bus, "
            "interrupts and resets; per-clock monitor of the Wishbone classic "
            "handshake; half the cases run without the reference model so "
            "that only the protocol matters; non-trivial: at least one wait "
            "state and one data access")

    def gen(self, g, i):
        c = super().gen(g, i)
        long_waits(g, c)
        if g.rr(2):
            c.flags |= CF_NOMODEL
        if g.rr(8) == 0:
            k = g.rr(len(c.steps))
            s = list(c.steps[k])
            s[5], s[6] = g.rr(0, 20), g.ch((1, 1, 2, 5))
            c.steps[k] = tuple(s)
        return c

    def scope(self, E, case, v):
        return True

    def nontrivial(self, case, v):
        return v.r.maxwait > 0 and v.r.txns > 80


def long_waits(g, c):
    k = g.rr(40)
    if k < 6 and c.steps:
        for _ in range(g.rr(1, 4)):
            i = g.rr(len(c.steps))
            s = list(c.steps[i])
            s[g.ch((3, 4))] = g.ch((100, 127, 128, 129, 255, 256, 257, 300,
                                    511, 513, 1023, 1025, 2050, 4097))
            c.steps[i] = tuple(s)
    elif k == 6 and c.steps and g.rr(4) == 0:
        i = g.rr(len(c.steps))
        s = list(c.steps[i])
        s[g.ch((3, 4))] = 0xFFF5
        c.steps[i] = tuple(s)
        c.max_cycles = 400000


class C14(Check):
    id = "C14"
    n = {"quick": 240000, "thorough": 5000000}
    tw = 0
    irq = 0
    csr_concern = True
    dump_csrs = ALLCSRS
    rule = ("metamorphic: each random program runs once with zero wait "
            "states and zeros on the idle read bus and once with random wait "
            "states (incl. >65536), random data on the idle bus and "
            "unselected lanes and (half the cases) random acknowledges while "
            "no cycle is in progress; the complete logs of fetches, loads, stores "
            "and dumps must be equal; non-trivial: second run had wait "
            "states and the program made data accesses")
    assumptions = BASE_ASSUME[1:]

    def gen(self, g, i):
        g.waitmode = g.ch((1, 1, 2))
        c = super().gen(g, i)
        if g.rr(3) == 0:
            prog_memory(g, c)
        c.pro_fwait = g.rr(5)
        c.epi_fwait = g.rr(5)
        long_waits(g, c)
        c.flags |= CF_JUNK
        if g.rr(2):
            c.flags |= CF_IDLEACK
        return c

    @staticmethod
    def quiet(case):
        a = case.copy()
        a.steps = [s[:3] + (0, 0) + s[5:] for s in case.steps]
        a.flags &= ~(CF_JUNK | CF_IDLEACK)
        a.pro_fwait = a.epi_fwait = 0
        return a

    def judge(self, E, case):
        e = E["top"]
        # With no model, only the two observed histories are compared. In
        # stream mode word loads look like fetches then, so the slot data
        # would shift; the model run tells them apart.
        ra = e.run(self.quiet(case), CF_LOG)
        la, sa = e.log(), ra.status
        rb = e.run(case, CF_LOG)
        lb, sb = e.log(), rb.status
        if sb == 2 or sa == 2:
            return V(incon=True, r=rb)
        if sa == 1:
            # already wrong without waits: not a wait-state effect unless
            # the two histories differ before the failure
            m = min(len(la), len(lb))
            if la[:m] == lb[:m]:
                return V(incon=True, r=rb)
        if sb == 1 and sa == 0:
            return V(True, "WAITDIFF", "only with wait states/junk: " +
                     rb.msg.decode(), r=rb)
        if la != lb:
            m = next((j for j in range(min(len(la), len(lb)))
                      if la[j] != lb[j]), min(len(la), len(lb)))
            return V(True, "WAITDIFF", f"access logs differ at access "
                     f"{m // 3}: {[hex(x) for x in la[m // 3 * 3:][:3]]} vs "
                     f"{[hex(x) for x in lb[m // 3 * 3:][:3]]}", r=rb)
        return V(r=rb)

    def scope(self, E, case, v):
        return True

    def nontrivial(self, case, v):
        return v.r.maxwait > 0 and bool(v.r.seen & (B["load"] | B["store"]))


TEMPL = [NOP, r_type(0x33, 0, 0, 3, 1, 2), r_type(0x33, 0, 32, 3, 1, 2),
         r_type(0x33, 1, 0, 3, 1, 2), r_type(0x33, 5, 32, 3, 1, 2),
         i_type(0x13, 5, 3, 1, 7), i_type(0x13, 1, 3, 1, 0),
         r_type(0x33, 2, 0, 3, 1, 2), u_type(0x37, 3, 0x12345000),
         u_type(0x17, 3, 0x12345000), j_type(3, 8), i_type(0x67, 0, 3, 4, 0),
         b_type(0, 1, 1, 8), b_type(1, 1, 1, 8), LW(3, 4, 0),
         i_type(3, 0, 3, 4, 1), i_type(3, 5, 3, 4, 2), SW(3, 4, 0),
         s_type(0x23, 0, 4, 3, 1), s_type(0x23, 1, 4, 3, 2), 0x0F, WFI,
         ECALL, EBREAK, MRET, CSR(1, 3, MSTATUS, 1), CSR(2, 3, MIE, 1),
         CSR(3, 3, MTVEC, 1), CSR(1, 3, MEPC, 1), CSR(1, 3, MCAUSE, 1),
         CSR(6, 3, MSCRATCH, 1), CSR(2, 3, MIP, 0), CSR(1, 0, 0xB00, 1),
         CSR(1, 3, 0xF11, 1), 0, 0xFFFFFFFF, j_type(3, 2),
         i_type(0x67, 0, 3, 4, 2), LW(3, 4, 1), SW(3, 4, 2),
         b_type(0, 1, 1, 6)]


class Defined:
    """Which registers and CSRs hold a known value since the last reset.

    Only guides the generator; the engine itself follows undefined values and
    gives no verdict on a case whose behaviour depends on one.
    """

    def __init__(self):
        self.x = 1
        self.c = set()
        self.irq = False        # an interrupt may replace an instruction

    def take(self, w):
        """True (and the effect is noted) if `w` is usable here."""
        f = fields(w)
        rd, rs1, rs2 = f["rd"], f["rs1"], f["rs2"]
        k = klass(w)
        d1, d2 = self.x >> rs1 & 1, self.x >> rs2 & 1
        vec = MTVEC in self.c
        res = 1
        sure = not self.irq
        if k in ("ecall", "ebreak", "illegal", "csrill"):
            return vec
        if k == "mret":
            self.irq |= vec and MEPC in self.c
            return vec and MEPC in self.c
        if k == "alu" or k == "shift":
            res = d1 and (d2 or f["op"] == 0x13)
        elif k in ("load", "store"):
            imm = w >> 20 if k == "load" else f["f7"] << 5 | rd
            if not d1 or not vec and (
                    rs1 or imm & ((1 << (f["f3"] & 3)) - 1)):
                return False
            if k == "store":
                return True
            sure = sure and not rs1 and not imm & ((1 << (f["f3"] & 3)) - 1)
        elif k == "jalr":
            if not d1 or not vec and (rs1 or w >> 20 & 2):
                return False
            sure = sure and not rs1 and not w >> 20 & 2
        elif k == "jal":
            if not vec and w >> 21 & 1:
                return False
            sure = sure and not w >> 21 & 1
        elif k == "branch":
            return d1 and d2 and (vec or not w >> 8 & 1)
        elif k in ("csr", "csrro"):
            a, imm, wr = w >> 20, f["f3"] & 4, (f["f3"] & 3) == 1
            d1 = d1 or imm
            kept = a in (MTVEC, MSCRATCH, MEPC)
            if not d1 and not kept:
                return False
            if a in (MSTATUS, MIE) and (wr or rs1):
                if not vec:
                    return False
                self.irq = True
            res = not kept or a in self.c
            if kept:
                if wr and d1 or res and d1:
                    if sure:
                        self.c.add(a)
                elif wr or rs1:
                    self.c.discard(a)
        elif k not in ("nop", "fence", "wfi", "lui", "auipc"):
            return False
        else:
            if k in ("fence", "wfi"):
                return True
        if rd:
            if not res:
                self.x &= ~(1 << rd)
            elif sure:
                self.x |= 1 << rd
        return True


def free_boot(g, n):
    """A program from the reset vector on, with no fixed beginning."""
    d = Defined()
    out = []
    todo = list(range(1, 32))
    g.r.shuffle(todo)
    todo = todo[:g.ch((4, 16, 31, 31))]
    k = g.rr(5)
    p = g.ch((1, 2, 4, 10))
    early = g.rr(4) == 0
    tries = 0
    while (todo or n > 0) and tries < 600:
        tries += 1
        j = g.rr(12)
        if todo and j < p:
            w = LW(todo.pop(), 0, g.ch((0, 4, 0x7FC, -4)))
        elif j < p + 1:
            a = g.ch((MTVEC, MTVEC, MSCRATCH, MEPC))
            w = CSR(g.ch((1, 1, 5)), g.ch((0, 0, g.rr(32))), a, g.rr(32))
        elif j < p + 2:
            w = CSR(2, g.rr(32), g.ch((MSTATUS, MIE, MCAUSE, MIP, 0xF11)), 0)
            if d.take(w):
                out.append(g.st(w))
                w = SW(w >> 7 & 31)
        elif k == 0:
            w = SW(g.rr(32))
        elif g.rr(8) == 0:
            w = g.irqctl()
        else:
            w = g.mix(CONTEXT)
        if todo and not early and (w == MRET or klass(w) == "csr" and
                                   w >> 20 in (MSTATUS, MIE) and
                                   (w >> 15 & 31 or w >> 12 & 3 == 1)):
            continue
        if d.take(w):
            out.append(g.st(w))
            if not todo:
                n -= 1
    return out


class C15(Check):
    id = "C15"
    csr_concern = True
    dump_csrs = ALLCSRS & ~0x40
    irq = 30
    tw = 0
    extra_flags = 0
    LENS = (1, 2, 3)
    OFFS = 24
    WAITS = ((0, 0), (2, 3))
    rule = ("crash-point enumeration (41 instruction templates x 24 clock "
            "offsets x reset length 1..3 x two wait-state settings x "
            "interrupt line low/high) plus random histories with up to three "
            "resets at random clocks; after each reset the bus must be "
            "silent, the first fetch at 0, x0/mstatus/mie/mcause read as "
            "reset values, and a following random program must match the "
            "model; a third of the random cases have no fixed sequence after "
            "a reset at all: any program can be what follows, and the engine "
            "follows which registers and CSRs are undefined; non-trivial: at "
            "least one reset during the body")
    exhaustive_note = ("41 templates x 24 offsets x 3 lengths x 2 wait "
                       "settings x 2 interrupt settings")

    def enum(self):
        return len(TEMPL) * self.OFFS * len(self.LENS) * len(self.WAITS) * 2

    def count(self, tier):
        return self.enum() + (300000 if tier == "quick" else 8000000)

    def gen(self, g, i):
        if i < self.enum():
            w = TEMPL[i % len(TEMPL)]
            i //= len(TEMPL)
            off = i % self.OFFS
            i //= self.OFFS
            ln = self.LENS[i % 3]
            i //= 3
            fw, mw = self.WAITS[i % 2]
            irq = ALL1 if i // 2 else 0
            g.irqmode = 0
            steps = [(w, g.bits(32), irq, fw, mw, off, ln, 0)]
            # when the offset lies beyond the instruction the following one
            # is the one that gets hit
            for _ in range(g.rr(1, 6)):
                steps.append(g.st(g.mix(CONTEXT)))
            c = g.case(steps)
            c.csr[0] = 8 if irq else c.csr[0]
            c.csr[1] = 0x800 if irq else c.csr[1]
            c.xinit[4] = g.bits(32) & ~3
        elif g.rr(3) == 0:
            return self.free(g)
        else:
            c = super().gen(g, i)
            if not c.steps:
                c.steps = [g.st(NOP)]
            for _ in range(g.rr(1, 4)):
                k = g.rr(len(c.steps))
                s = list(c.steps[k])
                s[5] = g.rr(0, 12) if g.rr(2) else g.rr(0, 40)
                s[6] = g.ch((1, 1, 1, 2, 2, 3, 4, 7, 20))
                c.steps[k] = tuple(s)
            if g.rr(10) == 0:
                c.rst0 = g.ch((0, 0, 2, 3, 9))    # 0: power-on only
        c.flags &= ~CF_NORSTCHK
        c.dump_csrs = self.dump_csrs
        return c

    def free(self, g):
        """Nothing but the reset itself separates two arbitrary programs."""
        if g.rr(3) == 0:
            g.irqmode = 1
        steps = []
        for _ in range(g.ch((1, 1, 2, 2, 3))):
            steps += free_boot(g, g.rr(0, 30))
            if not steps:
                steps = [g.st(SW(0))]
            s = list(steps[-1])
            s[5] = g.rr(0, 8) if g.rr(4) else g.rr(0, 40)
            s[6] = g.ch((1, 1, 1, 2, 2, 3, 4, 7, 20))
            steps[-1] = tuple(s)
        steps += free_boot(g, g.rr(1, 24))
        c = g.case(steps)
        c.flags |= CF_NOPRO | CF_UNDEF
        c.dump_csrs = self.dump_csrs
        if g.rr(10) == 0:
            c.rst0 = g.ch((0, 0, 2, 3, 9))
        return c

    def scope(self, E, case, v):
        if any(s[6] for s in case.steps):
            return True
        if case.flags & CF_UNDEF:
            if case.rst0 != 1:
                return True
            # wrong only as the first program after the reset?
            c = case.copy()
            c.flags &= ~(CF_UNDEF | CF_NOPRO)
            c.pc = -31 * 4 & M32
            if not self.judge(E, c).bad:
                return True
        return v.kind in ("RESET", "RESETCSR") or \
            (v.kind == "PROTO" and v.r.sub == 1)

    def nontrivial(self, case, v):
        return v.r.resets > 1


class C16(Check):
    id = "C16"
    kinds = {"TIMING", "TIMEOUT"}
    tw = 0
    irq = 15
    extra_flags = CF_NORSTCHK | CF_TIMING
    rule = ("random streams of legal and arbitrary words with wait states; "
            "clocks between instruction acknowledges compared with the "
            "documented throughput of the instruction's class (plus inserted "
            "wait states), and no 300 clocks without bus activity for any "
            "word; non-trivial: at least five different classes timed")

    def steps(self, g, n):
        out = []
        for _ in range(n):
            k = g.rr(10)
            if k < 6:
                out.append(g.st(g.anyinsn()))
            elif k < 7:
                out.append(g.st(g.bits(32)))
            elif k < 8:
                out.append(g.st(g.shift()))
            elif k < 9:
                out.append(g.lw())
            else:
                out.append(g.st(g.mix(CONTEXT)))
        return out

    def scope(self, E, case, v):
        return True

    def nontrivial(self, case, v):
        return bin(v.r.seen).count("1") >= 5


def prog_memory(g, c, n=None):
    """Turn a case into a program running from memory."""
    n = n or g.rr(8, 60)
    base = g.ch((0, 0x1000, 0x8000_0000, 0xFFFFFF00, g.bits(32) & ~3))
    data = g.ch(((base + 4 * n + 64) & M32, 0x4000, g.bits(32) & ~3))
    pool = [g.anyinsn() for _ in range(4)]
    cr, dr, lr = 30, 31, 29         # code base, data base, loop counter
    x = [0] + [g.val() for _ in range(31)]
    x[cr], x[dr], x[lr] = base, data, g.rr(1, 6)
    mem = []

    def off(i, j):
        return 4 * (j - i)

    for i in range(n):
        k = g.rr(20)
        rd = g.rr(1, 29)
        if k < 6:
            w = g.alu(rd)
        elif k < 7:
            w = g.shift() & ~0xF80 | rd << 7
        elif k < 9:             # aligned-ish load/store around data
            f3 = g.ch(LOADS)
            im = g.rr(64) & ~((1 << (f3 & 3)) - 1)
            w = i_type(3, f3, rd, dr, im)
        elif k < 12:
            f3 = g.rr(3)
            im = g.rr(64) & ~((1 << f3) - 1)
            w = s_type(0x23, f3, dr, g.rr(32), im)
        elif k < 14:            # store into the code region
            f3 = g.ch((2, 2, 2, 0, 1))
            tgt = g.rr(n) if g.rr(2) else min(n - 1, i + g.rr(1, 4))
            im = 4 * tgt
            if f3 < 2:
                im += g.rr(4) & ~((1 << f3) - 1)
            if im > 2047:
                im = 2044
            w = s_type(0x23, f3, cr, g.rr(1, 29), im)
        elif k < 15:            # fetch an instruction word into a register
            w = LW(rd, cr, min(4 * g.rr(n), 2044))
        elif k < 17:            # branch within the program
            j = g.rr(n)
            if abs(j - i) > 1000:
                j = i + 1
            w = b_type(g.ch((0, 1, 4, 5, 6, 7)), g.rr(32), g.rr(32),
                       off(i, j))
        elif k < 18:
            w = j_type(g.ch((0, 1, rd)), off(i, g.rr(n)))
        elif k < 19:            # call through the code base
            w = i_type(0x67, 0, g.ch((0, 1, rd)), g.ch((cr, cr, 1)),
                       min(4 * g.rr(n), 2044))
        else:
            w = g.anyinsn()
        mem.append(((base + 4 * i) & M32, w))
    for i in range(16):
        mem.append(((data + 4 * i) & M32 & ~3,
                    g.ch(pool) if g.rr(3) == 0 else g.val()))
    c.mem = mem
    c.xinit = x
    for _ in range(3):          # some registers hold instruction words
        c.xinit[g.rr(1, 29)] = g.ch(pool)
    c.pc = base
    c.csr[2] = (base + 4 * g.rr(n)) & M32
    c.csr[4] = (base + 4 * g.rr(n)) & M32
    ns = g.rr(20, 120)
    c.steps = [(0, 0, g.wave() if g.irqmode else 0, g.wait(), g.wait(), -1,
                0, F_MEMFETCH | F_LDMEM) for _ in range(ns)]
    c.flags &= ~CF_NOCSRINIT
    if g.rr(2):
        c.flags |= CF_MEMFILL


class C17(Check):
    id = "C17"
    irq = 15
    n = {"quick": 250000, "thorough": 5000000}
    csr_concern = True
    dump_csrs = ALLCSRS & ~0x40
    rule = ("random programs placed in a memory model (loops, calls, "
            "data-dependent branches, stores into their own code including "
            "the very next instruction, byte patches), 20-120 instructions "
            "executed (some cases 3000); all accesses, final registers and "
            "memory compared with the model; one case in 800 is a random C "
            "program compiled for rv32i or rv32im (-O0..-O3; trap handlers "
            "emulate M instructions and misaligned accesses, and serve "
            "environment calls and interrupts), whose output must also equal "
            "that of the same program run natively on the host; non-trivial: "
            "at least one store and one taken branch or jump executed from "
            "memory")
    COMPILED = 800

    def gen(self, g, i):
        if i % self.COMPILED == 5:
            c = cprog.gen(g)
            if c:
                c.meta["sum"] = self.memsum(c)
                return c
        if self.irq and g.rr(100) < self.irq:
            g.irqmode = 1
        c = g.case([])
        c.flags |= self.extra_flags
        c.dump_csrs = self.dump_csrs
        prog_memory(g, c)
        if g.rr(60) == 0:
            c.steps = (c.steps * 40)[:3000]
            c.max_cycles = 400000
        return c

    @staticmethod
    def memsum(case):
        return zlib.crc32(repr([tuple(m) for m in case.mem]).encode())

    def judge(self, E, case):
        v = verdict(E["top"].run(case))
        if not case.meta or v.bad or v.incon:
            return v
        if self.memsum(case) == case.meta["sum"]:
            got = cprog.result(E["top"], case)
            bad = [k for k, w in enumerate(case.meta["expect"])
                   if w != got[k]]
            if bad:
                k = bad[0]
                return V(True, "HOST", f"compiled program ({case.meta['opt']}"
                         f" {case.meta['march']}): out[{k}] is {got[k]:08x}, "
                         f"on the host {case.meta['expect'][k]:08x}", r=v.r)
        return v

    def classify(self, case, v, h):
        super().classify(case, v, h)
        if case.meta:
            h["compiled_programs"] += 1
            h["compiled_program_instructions"] += v.r.insns

    def sample(self, case, v):
        if case.meta:
            return case.meta["source"].splitlines()[:12]
        return super().sample(case, v)

    def basescope(self, E, case, v):
        return bool(case.meta) or super().basescope(E, case, v)

    def inscope(self, case, v):
        return any(s[7] & F_MEMFETCH for s in case.steps)

    def nontrivial(self, case, v):
        return bool(v.r.seen & B["store"]) and \
            bool(v.r.seen & (B["bt"] | B["jal"] | B["jalr"]))


class C18(Check):
    id = "C18"
    csr_concern = True
    dump_csrs = ALLCSRS
    target = "nopish"
    irq = 40
    tw = 50
    extra_flags = CF_NORSTCHK | CF_TIMING
    seen = B["fence"] | B["wfi"]
    rule = ("streams rich in FENCE (random pred/succ/fm/rd/rs1) and WFI "
            "under all interrupt line/enable settings; non-trivial: at least "
            "one FENCE or WFI executed")


class C24(Check):
    id = "C24"
    csr_concern = True
    dump_csrs = ALLCSRS
    target = "mipacc"
    irq = 85
    tw = 60
    rule = ("random accesses (read, write, set, clear, register and "
            "immediate) to mip under interrupt waveforms and all enable "
            "settings; read value must equal the line whenever the line is "
            "constant during the instruction; non-trivial: at least one mip "
            "access executed with the line high or low throughout")

    def gen(self, g, i):
        c = super().gen(g, i)
        # mostly constant levels: a change inside the sampling window makes
        # both outcomes acceptable
        c.steps = [s if not s[2] or g.rr(4) == 0 else
                   s[:2] + (g.ch((0, ALL1, ALL1)),) + s[3:]
                   for s in c.steps]
        return c

    def scope(self, E, case, v):
        def mip(w):
            return w & 127 == 0x73 and w >> 20 == 0x344
        return any(mip(s[0]) for s in case.steps) or \
            (v.r.phase == 3 and v.r.slotreg == 38)

    def nontrivial(self, case, v):
        return any(s[0] & 127 == 0x73 and s[0] >> 20 == 0x344
                   for s in case.steps)


class C26(Check):
    id = "C26"
    kinds = {"EXTRA", "FLOW", "MEMADDR"}
    irq = 35
    target = "memacc"
    tw = 55
    csr_concern = True
    rule = ("streams of loads/stores (aligned and misaligned) with random "
            "wait states, interrupts at every clock offset and traps; the "
            "sequence of data accesses must be exactly the program's; "
            "non-trivial: at least two data accesses in the body")

    def steps(self, g, n):
        return align_mem(self, g, super().steps(g, n))

    def inscope(self, case, v):
        return v.kind == "EXTRA" or bool(
            v.r.seen & (B["load"] | B["store"] | B["misld"] | B["misst"]))

    def nontrivial(self, case, v):
        return bool(v.r.seen & (B["load"] | B["store"]))


class C20(Check):
    id = "C20"
    designs = ("top", "formal")
    n = {"quick": 300000, "thorough": 4000000}
    irq = 40
    tw = 0
    csr_concern = True
    extra_flags = 0
    rule = ("differential: the plain core and the core with the trace port "
            "run the same random case (programs, waits, interrupts, resets, "
            "junk) and must drive identical bus outputs in every clock; "
            "non-trivial: at least 200 clocks compared and a data access in "
            "the body")
    assumptions = BASE_ASSUME[1:]

    def gen(self, g, i):
        c = super().gen(g, i)
        if g.rr(4) == 0:
            prog_memory(g, c)
        if g.rr(4) == 0 and c.steps:
            k = g.rr(len(c.steps))
            s = list(c.steps[k])
            s[5], s[6] = g.rr(0, 20), g.ch((1, 1, 2, 5))
            c.steps[k] = tuple(s)
        long_waits(g, c)
        if g.rr(5) == 0:
            c.rst0 = g.ch((0, 0, 2))     # 0: power-on without reset
        return c

    other = "formal"
    what = "traced"

    def judge(self, E, case):
        a, b = E["top"], E[self.other]
        ra = a.run(case, CF_WAVE)
        wa = a.wave()
        rb = b.run(case, CF_WAVE)
        wb = b.wave()
        if wa == wb:
            return V(r=ra)
        m = next((j for j in range(min(len(wa), len(wb)))
                  if wa[j] != wb[j]), min(len(wa), len(wb)))
        fa = fmt(wa, m)
        fb = fmt(wb, m)
        return V(True, "WAVEDIFF", f"clock {m // 2}: plain {fa}; {self.what} "
                 f"{fb}", r=ra)

    def scope(self, E, case, v):
        return True

    def nontrivial(self, case, v):
        return v.r.cycles >= 200 and bool(v.r.seen & (B["load"] | B["store"]))


class C27(C20):
    id = "C27"
    designs = ("top", "embed")
    other, what = "embed", "embedded"
    n = {"quick": 160000, "thorough": 2000000}
    build_stage = "elaborate-embed"
    rule = ("differential: a plain core, and a core that sits in a design "
            "with two other busy cores, in a renamed clock domain with its "
            "own reset, under a clock enable that is low for a random number "
            "of clocks (with junk on all inputs) before each enabled clock; "
            "both run the same random case and must drive identical bus "
            "outputs in every enabled clock; non-trivial: at least 200 "
            "clocks compared and a data access in the body")


def fmt(w, m):
    m &= ~1
    if m >= len(w):
        return "(ended)"
    a, d = w[m], w[m + 1]
    return (f"stb={a & 1} cyc={a >> 1 & 1} we={a >> 2 & 1} sel={a >> 4 & 15:x}"
            f" adr={a >> 8:08x} dat={d:08x}")


def li(rd, v):
    """Load a 32-bit constant."""
    lo = sx(v, 12)
    hi = (v - lo) & M32
    out = []
    if hi:
        out.append(u_type(0x37, rd, hi))
        if lo:
            out.append(ADDI(rd, rd, lo))
    else:
        out.append(ADDI(rd, 0, lo))
    return out


class C25(Check):
    id = "C25"
    n = {"quick": 150000, "thorough": 3000000}
    csr_concern = True
    rule = ("metamorphic: a self-contained program (enables interrupts, "
            "random ALU/shift/load/store/branch/loop/CSR body, ECALLs, dumps "
            "its registers, halts in a self loop) runs from memory once with "
            "the interrupt line low and once with random interrupt waveforms "
            "and a handler that saves, scrambles and restores registers; "
            "after removing the handler's own accesses both bus histories "
            "must be equal; non-trivial: at least one interrupt was taken in "
            "the second run")
    assumptions = BASE_ASSUME[1:]
    SAVE = 0x700

    def gen(self, g, i):
        n = g.rr(6, 50)
        base, hbase, data = 0, 0x400, 0x600
        # program and handler anywhere; what they store stays low
        if g.rr(3):
            base = g.ch((0x1000, 0x7FFFFE00, 0x7FFFFFF0, 0x80000000,
                         0xFFFFF000, g.bits(32) & ~3,
                         (g.bits(32) & 0x7FFF0000) + 0x10000 -
                         4 * g.rr(1, 200)))
        if g.rr(3):
            hbase = g.ch((0x2000, 0x7FFFF800, 0xC0000000, 0xFFFFFE00,
                          g.bits(32) & ~3))
        if not self.apart(base, hbase):
            base, hbase = 0, 0x400
        # registers: x31 data base, x30 loop counter
        prog = []
        boot = li(1, base) + [i_type(0x67, 0, 0, 1, 0)] if base else []
        prog += li(1, hbase) + [CSR(1, 0, MTVEC, 1)]
        prog += li(1, 0x800) + [CSR(1, 0, MIE, 1)]
        for r in range(1, 30):
            if g.rr(3) == 0:
                prog += li(r, g.val())
        prog += li(31, data) + li(30, g.rr(1, 6) if g.rr(12) else g.rr(6, 40))
        prog += [CSR(6, 0, MSTATUS, 8)]
        start = len(prog)
        body = []
        g.regs = None
        for k in range(n):
            rd = g.rr(1, 30)
            t = g.rr(28)
            if t > 23:          # traps and CSRs that interrupts also write
                w = self.other(g, rd)
            elif t < 8:
                w = g.alu(rd if g.rr(9) else 0)
            elif t < 11:
                w = g.shift() & ~0xF80 | rd << 7
            elif t < 14:
                f3 = g.ch(LOADS)
                w = i_type(3, f3, rd, 31, g.rr(64) &
                           ~((1 << (f3 & 3)) - 1))
            elif t < 17:
                f3 = g.rr(3)
                w = s_type(0x23, f3, 31, g.rr(32),
                           g.rr(64) & ~((1 << f3) - 1))
            elif t < 19:        # forward branch
                w = b_type(g.ch((0, 1, 4, 5, 6, 7)), g.rr(32), g.rr(32),
                           4 * g.rr(1, min(6, n - k) + 1))
            elif t < 20:
                w = j_type(g.ch((0, rd)), 4 * g.rr(1, min(6, n - k) + 1))
            elif t < 21:
                w = u_type(0x17, rd, g.bits(32))
            elif t < 22:
                w = g.ch((CSR(6, 0, MSTATUS, 8), CSR(7, 0, MSTATUS, 8),
                          CSR(6, 0, MSTATUS, 8), WFI, 0x0F,
                          CSR(1, rd, MSCRATCH, g.rr(32)),
                          CSR(2, rd, MTVEC, 0),
                          CSR(2, rd, MIE, 0), ECALL))
            else:
                w = CSR(g.ch((1, 2, 3, 5, 6, 7)), rd, MSCRATCH, g.rr(32))
            body.append(w)
        body = [w if (w >> 7 & 31) not in (30, 31) or w & 127 in (
            0x23, 0x63, 0x73) else w & ~0xF80 for w in body]
        body.append(ADDI(30, 30, -1))
        body.append(b_type(1, 30, 0, -4 * (len(body))))
        prog += body
        # dump: interrupts may still arrive here
        dump = 0x680
        for r in range(1, 32):
            prog.append(SW(r, 0, dump + 4 * (r - 1)))
        end = len(prog)
        prog.append(j_type(0, 0))
        # handler
        save = 0x740
        use = sorted(g.r.sample(range(1, 32), g.rr(2, 6)))
        h = [SW(r, 0, save + 4 * k) for k, r in enumerate(use)]
        t0, t1 = use[0], use[1]
        sc = []
        for _ in range(g.rr(0, 6)):
            g.regs = use
            sc.append(g.ch((g.alu, g.shift))() & ~0xF80 | g.ch(use) << 7)
        g.regs = None
        for _ in range(g.ch((0, 0, 1, 3))):
            r = g.ch(use)
            sc.append(g.ch((
                CSR(2, r, g.ch((MIP, MSTATUS, MIE, MEPC, MTVEC)), 0),
                LW(r, 0, save + 24), SW(r, 0, save + 28), 0x0F, WFI,
                CSR(2, r, 0xB00, 0), CSR(1, 0, MCAUSE + 1, r))))
        # sc may overwrite t0/t1: recompute the cause afterwards
        h += sc
        h += [CSR(2, t0, MCAUSE, 0), b_type(4, t0, 0, 16),
              CSR(2, t1, MEPC, 0), ADDI(t1, t1, 4), CSR(1, 0, MEPC, t1)]
        h += [LW(r, 0, save + 4 * k) for k, r in enumerate(use)] + [MRET]
        fixed = [(4 * k, w) for k, w in enumerate(boot)]
        mem = fixed + [((base + 4 * k) & M32, w) for k, w in enumerate(prog)]
        fixed = fixed + mem[len(fixed):][:start] + \
            mem[len(fixed):][end - 31:]
        mem += [((hbase + 4 * k) & M32, w) for k, w in enumerate(h)]
        mem += [(data + 4 * k, g.val()) for k in range(16)]
        c = Case([])
        c.mem = mem
        c.flags = CF_NOMODEL | CF_NOPRO | CF_NOEPI | CF_NORSTCHK | CF_JUNK
        c.seed = g.bits(32) | 1
        c.meta = dict(hbase=hbase, hlen=4 * len(h),
                      end=(base + 4 * end) & M32, save=save, fixed=fixed)
        c.flags |= CF_STOPPC | CF_MORE
        c.pc = c.meta["end"]
        rate = g.ch((2, 3, 5, 10, 30))
        budget = 24
        steps = []
        for k in range(g.ch((60, 150, 300, 500))):
            wv = 0
            if budget and k > 4 and g.rr(rate) == 0:
                wv = g.ch((ALL1, (ALL1 << g.rr(16)) & ALL1,
                           (1 << g.rr(1, 16)) - 1,
                           ((1 << g.rr(1, 5)) - 1) << g.rr(16)))
                budget -= 1
            steps.append((0, 0, wv & ALL1, g.wait(), g.wait(), -1, 0,
                          F_MEMFETCH | F_LDMEM))
        c.steps = steps
        c.max_cycles = 400000
        return c

    @staticmethod
    def other(g, rd):
        """An instruction that traps (the handler skips it), or that uses
        a CSR without making an interrupt visible."""
        k = g.rr(8)
        if k == 0:
            return g.ch((ECALL, EBREAK, 0xFFFFFFFF, 0, g.illegal()))
        if k == 1:      # misaligned accesses
            f3, o = g.ch(((1, 1), (5, 1), (2, 1), (2, 2), (2, 3), (5, 3)))
            return i_type(3, f3, rd, 31, 4 * g.rr(16) + o) if g.rr(2) else \
                s_type(0x23, f3 & 3, 31, g.rr(32), 4 * g.rr(16) + o)
        if k == 2:      # misaligned targets; data isn't code
            return g.ch((
                j_type(rd, 2 + 4 * g.rr(8)),
                i_type(0x67, 0, rd, 31, 4 * g.rr(16) + g.ch((2, 3))),
                b_type(g.ch((0, 5, 7)), 0, 0, 2 + 4 * g.rr(8))))
        if k == 3:
            return CSR(1, 0, g.ch((MCAUSE, MEPC, MIP)), g.rr(32))
        if k == 4:      # enable bits are the program's own
            return CSR(g.ch((1, 2, 3)), rd, MIE, g.rr(32))
        if k == 5:
            return CSR(g.ch((2, 6)), rd, g.ch(
                (0xF11, 0xF14, 0x301, 0xB00, 0x343, 0x310)), 0)
        if k == 6:
            return CSR(g.ch((1, 3, 5, 7)), rd, g.ch(
                (0xF11, 0x7C0, 0xC00, 0x3A0, 0x100)), g.rr(1, 32))
        return CSR(g.ch((5, 6, 7)), 0, MSTATUS, 8)

    @staticmethod
    def apart(base, hbase):
        """1 KiB from each start: no overlap, and clear of the data."""
        return abs(base - hbase) & M32 >= 0x400 and \
            (base - hbase) & M32 <= M32 - 0x400 and all(
                b in (0, 0x400) or 0x800 <= b for b in (base, hbase)) and \
            (base != 0 or hbase <= 0xFFFFFC00) and \
            all(b <= 0xFFFFFC00 for b in (base, hbase))

    @staticmethod
    def filt(log, m):
        """Main program's accesses, truncated at its final self loop."""
        out = []
        handler = False
        nh = 0
        for j in range(0, len(log), 3):
            k, adr, dat = log[j], log[j + 1] << 2, log[j + 2]
            rd_full = not k >> 31 and k & 15 == 15
            if rd_full and (adr - m["hbase"]) & M32 < m["hlen"]:
                if not handler:
                    handler = True
                    nh += 1
                continue
            if m["save"] <= adr < m["save"] + 32:
                continue
            if rd_full and handler:
                handler = False
                # back from the handler: an interrupted instruction is
                # fetched a second time
                if out and out[-1] == (k & 0x8000000F, adr, dat):
                    out.pop()
            out.append((k & 0x8000000F, adr, dat))
            if rd_full and adr == m["end"]:
                return out, True, nh
        return out, False, nh

    def judge(self, E, case):
        e = E["top"]
        m = case.meta
        if not set(map(tuple, m["fixed"])) <= set(map(tuple, case.mem)):
            return V(incon=True)        # shrinking may not touch these
        a = case.copy()
        a.steps = []
        ra = e.run(a, CF_LOG)
        la, fa, na = self.filt(e.log(), m)
        if not fa:
            return V(incon=True, r=ra)
        rb = e.run(case, CF_LOG)
        sb, msg = rb.status, rb.msg.decode()
        lb, fb, nb = self.filt(e.log(), m)
        if la == lb:
            return V(r=rb, note=nb - na)
        x = next((j for j in range(min(len(la), len(lb)))
                  if la[j] != lb[j]), min(len(la), len(lb)))
        if not fb and x == len(lb) and ra.cycles > 40000 and \
                rb.cycles >= case.max_cycles:
            return V(incon=True, r=rb)      # slow, not stuck

        def sh(q):
            return [f"{'W' if k >> 31 else 'R'}{k & 15:x}@{ad:x}={d:08x}"
                    for k, ad, d in q[x:x + 2]]
        return V(True, "IRQDIFF", f"main-program access {x} differs: without "
                 f"interrupts {sh(la)}, with interrupts {sh(lb)} "
                 f"(handler entries {nb}) {msg}", r=rb)

    def scope(self, E, case, v):
        return True

    def nontrivial(self, case, v):
        return bool(v.note and v.note > 0)

    def classify(self, case, v, h):
        super().classify(case, v, h)
        if v.note:
            h["handler_entries_by_interrupt"] += max(0, v.note)

    def sample(self, case, v):
        return dict(program=[f"{a:04x}: {w:08x} {dis(w)}"
                             for a, w in case.mem[:14]],
                    interrupts_taken=v.note)


class C19(Check):
    id = "C19"
    designs = ("formal",)
    n = {"quick": 240000, "thorough": 5000000}
    kinds = {"RVFI"}
    irq = 40
    tw = 45
    target = "rvmix"
    csr_concern = True
    dump_csrs = ALLCSRS & ~0x40
    extra_flags = CF_NORSTCHK | CF_RVFI
    rule = ("random histories (all classes, traps, interrupts, wait states, "
            "resets, some programs from memory) on the wrapper with the trace "
            "port; the complete list of trace records is compared field by "
            "field with the reference history confirmed by the bus; "
            "non-trivial: at least 40 records compared and four instruction "
            "classes in the body")
    assumptions = BASE_ASSUME + [
        "a fetched word displaced by an interrupt counts as a trapped record; "
        "record fields of trapped instructions other than word, addresses, "
        "trap flag, memory masks and saved cause and address are "
        "unconstrained; write data of CSR instructions follows "
        "riscv-formal's csrw rule"]

    def judge(self, E, case):
        v = verdict(E["formal"].run(case))
        return v

    def gen(self, g, i):
        c = super().gen(g, i)
        if g.rr(4) == 0:
            prog_memory(g, c)
        if g.rr(10) == 0 and c.steps:
            k = g.rr(len(c.steps))
            s = list(c.steps[k])
            s[5], s[6] = g.rr(0, 20), g.ch((1, 1, 2, 5))
            c.steps[k] = tuple(s)
        # constant level per instruction slot: keeps the history unambiguous
        c.steps = [s[:2] + (g.ch((0, ALL1)) if s[2] else 0,) + s[3:]
                   for s in c.steps]
        if len({s[2] for s in c.steps}) > 1:   # mip has no definite value
            c.steps = [(s[0] & ~0xF80,) + s[1:]
                       if s[0] & 127 == 0x73 and s[0] >> 20 == 0x344 else s
                       for s in c.steps]
        return c

    def scope(self, E, case, v):
        return True

    def nontrivial(self, case, v):
        return v.r.rvfi_records >= 40 and bin(v.r.seen).count("1") >= 4

    def classify(self, case, v, h):
        super().classify(case, v, h)
        h["trace_records_compared"] += v.r.rvfi_records
