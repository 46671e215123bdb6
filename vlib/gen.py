"""Structured generators of test cases for the CPU checks.

Every random choice goes through the `random.Random` handed to G, which the
driver seeds from (VERIF_SEED, property, case index); a case is therefore a
pure function of those three and is stored explicitly when it fails.
"""
from .rv import *
from .eng import (Case, CF_IDLEACK, CF_JUNK, CF_MEMFILL, F_MEMFETCH, F_LDMEM, ALLREGS,
                  ALLCSRS)

ALL1 = (1 << 64) - 1
SPECIAL = [0, 1, 2, 3, 4, 5, 7, 8, 0xF, 0x10, 0x1F, 0x20, 0x7F, 0x80, 0xFF,
           0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xFFFF,
           0x10000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF,
           0xFFFFFFFE, 0xFFFFFFFC, 0xFFFFF800, 0xFFFF8000, 0xFFFF7FFF,
           0x55555555, 0xAAAAAAAA, 0x00FF00FF, 0xFF00FF00, 0x0F0F0F0F,
           0x7FFFFFFE, 0xC0000000, 0x40000000, 0x3FFFFFFF, 0xFFFFFF7F,
           0xFFFFFF80, 0x01020304, 0x807F80FF]
LOADS = (0, 1, 2, 4, 5)
AUTODICT = []        # constants mined from the elaborated netlist


class G:
    def __init__(self, rnd):
        self.r = rnd
        self.bits = rnd.getrandbits
        self.rr = rnd.randrange
        self.ch = rnd.choice
        self.f = rnd.random
        # per-case style knobs
        k = self.rr(10)
        self.waitmode = 0 if k < 5 else (1 if k < 8 else 2)
        self.irqmode = 0
        self.regs = None
        self.recent = []
        if self.rr(3) == 0:     # small register pool: many dependences
            n = self.rr(2, 7)
            self.regs = [self.rr(32) for _ in range(n)]

    # ---- scalars
    def val(self):
        v = self._val()
        if self.recent and self.rr(6) == 0:     # related to an earlier value
            a = self.ch(self.recent)
            v = self.ch((a, a + 1, a - 1, ~a, -a, a ^ 0x80000000,
                         a ^ (1 << self.rr(32)), a >> 1, a << 1,
                         a & 0xFFFF, a & 0xFF)) & M32
        self.remember(v)
        return v

    def remember(self, v):
        self.recent.append(v)
        if len(self.recent) > 12:
            self.recent.pop(0)

    def _val(self):
        k = self.rr(10)
        if k < 3:
            return self.ch(SPECIAL)
        if k == 8 and AUTODICT and self.rr(2):
            return self.ch(AUTODICT)
        if k < 4:
            return 1 << self.rr(32)
        if k < 5:
            return ((1 << self.rr(32)) - 1) & M32
        if k < 6:
            return (~(1 << self.rr(32))) & M32
        if k < 7:
            return self.bits(self.rr(1, 13))
        if k < 8:
            return (-self.bits(self.rr(1, 13))) & M32
        return self.bits(32)

    def reg(self):
        if self.regs and self.rr(8):
            return self.ch(self.regs)
        return self.rr(32)

    def imm12(self):
        v = self._imm12()
        if self.rr(3) == 0:     # later values may relate to it
            self.remember((v ^ 0x800) - 0x800 & M32)
        return v

    def _imm12(self):
        k = self.rr(6)
        if k == 0:
            return self.ch((0, 1, 0xFFF, 0x7FF, 0x800, 0x801, 31, 32, 0x400,
                            0xFFE, 4, 2))
        if k == 1:
            return 1 << self.rr(12)
        if k == 2 and AUTODICT:
            return self.ch(AUTODICT) & 0xFFF
        return self.bits(12)

    def wait(self):
        m = self.waitmode
        if m == 0:
            return 0
        if m == 1:
            return self.ch((0, 0, 0, 1, 1, 2, 3, 5))
        return self.ch((0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31)) \
            if self.rr(12) else self.rr(70)

    def wave(self):
        """Interrupt-line waveform for one slot."""
        k = self.rr(12)
        if k < 3:
            return 0
        if k < 6:
            return ALL1
        if k < 8:       # rises at a
            return (ALL1 << self.rr(20)) & ALL1
        if k < 10:      # falls at a
            return (1 << self.rr(20)) - 1
        if k < 11:      # pulse
            a = self.rr(20)
            return ((1 << self.rr(1, 6)) - 1) << a & ALL1
        return self.bits(64) & ((1 << self.rr(1, 64)) - 1)

    # ---- steps
    def st(self, insn, ld=None, wave=None, fw=None, mw=None, rst=(-1, 0),
           fl=0):
        if wave is None:
            wave = self.wave() if self.irqmode else 0
        if ld is None:      # half the loaded words relate to other values
            ld = self.val() if insn & 0x7F == 3 and self.rr(2) \
                else self.bits(32)
        return (insn & M32, ld, wave,
                self.wait() if fw is None else fw,
                self.wait() if mw is None else mw, rst[0], rst[1], fl)

    def lw(self, rd=None, v=None):
        return self.st(LW(self.reg() if rd is None else rd, 0, 0),
                       self.val() if v is None else v)

    def sw(self, rs2=None):
        return self.st(SW(self.reg() if rs2 is None else rs2, 0, 0))

    def alu(self, rd=None):
        rd = self.reg() if rd is None else rd
        a, b = self.reg(), self.reg()
        k = self.rr(5)
        if k == 0:
            a = rd
        elif k == 1:
            b = rd
        elif k == 2 and self.rr(2):
            a = b
        op = self.rr(20)
        if op < 8:
            f3, f7 = self.ch(((0, 0), (0, 32), (2, 0), (3, 0), (4, 0), (6, 0),
                              (7, 0)))
            return r_type(0x33, f3, f7, rd, a, b)
        if op < 18:
            return i_type(0x13, self.ch((0, 2, 3, 4, 6, 7)), rd, a,
                          self.imm12())
        return u_type(0x37, rd, self.val() if self.rr(2) else self.bits(32))

    def shift(self):
        rd, a, b = self.reg(), self.reg(), self.reg()
        k = self.rr(6)
        if k == 0:
            a = rd
        elif k == 1:
            b = rd
        elif k == 2:
            a = b
        elif k == 3:
            a = b = rd
        f3, f7 = self.ch(((1, 0), (5, 0), (5, 32)))
        if self.rr(2):
            return r_type(0x33, f3, f7, rd, a, b)
        return r_type(0x13, f3, f7, rd, a, self.rr(32))

    def branch(self, align=None):
        a, b = self.reg(), self.reg()
        if self.rr(4) == 0:
            b = a
        imm = self.bits(13) & ~1
        if self.rr(3) == 0:
            imm = self.ch((4, 8, -4, -8, 0, 0xFFC, -4096, 12, 2, 6, -2))
        if align is True or (align is None and self.rr(3)):
            imm &= ~3
        return b_type(self.ch((0, 1, 4, 5, 6, 7)), a, b, imm)

    def jal(self, align=None):
        imm = self.bits(21) & ~1
        if self.rr(3) == 0:
            imm = self.ch((4, 8, -4, 0, 0xFFFFC, -0x100000, 0x800, 2, -2))
        if align is True or (align is None and self.rr(3)):
            imm &= ~3
        return j_type(self.reg(), imm)

    def jalr(self, rs1=None):
        rd = self.reg()
        rs1 = self.reg() if rs1 is None else rs1
        if self.rr(4) == 0:
            rd = rs1
        return i_type(0x67, 0, rd, rs1, self.imm12())

    def auipc(self):
        return u_type(0x17, self.reg(),
                      self.val() if self.rr(2) else self.bits(32))

    def load(self):
        rd, rs1 = self.reg(), self.reg()
        if self.rr(4) == 0:
            rd = rs1
        return i_type(0x03, self.ch(LOADS), rd, rs1, self.imm12())

    def store(self):
        a, b = self.reg(), self.reg()
        if self.rr(4) == 0:
            b = a
        return s_type(0x23, self.rr(3), a, b, self.imm12())

    def csr(self, addr=None, f3=None):
        f3 = self.ch((1, 2, 3, 5, 6, 7)) if f3 is None else f3
        rd, rs1 = self.reg(), self.reg()
        k = self.rr(6)
        if k == 0:
            rd = rs1
        elif k == 1:
            rs1 = 0
        elif k == 2:
            rd = 0
        return CSR(f3, rd, self.ch(IMPL) if addr is None else addr, rs1)

    def csrro(self):
        return self.csr(self.ch(RO_ZERO + RO_TRAP))

    def csrill(self):
        return self.csr(self.bits(12))

    def illegal(self):
        while True:
            k = self.rr(8)
            if k == 0:
                w = self.bits(32)
            elif k == 1:    # legal word with low bits cleared
                w = self.anyinsn() & ~3 | self.rr(3)
            elif k == 2:
                w = self.ch((0, M32, 0x0000100F, 0x10200073, 0x00200073,
                             0x7B200073, 0x12000073, 0x00008067 | 0x1000,
                             0x02000033, 0x0000000B, 0x0000007F, 0x70, 0x71,
                             0x72))
            elif k == 3:    # bad function codes
                op = self.ch((0x03, 0x23, 0x63, 0x67, 0x33, 0x13, 0x0F, 0x73))
                w = self.bits(32) & ~127 | op
            else:           # a legal word with one or two flipped bits
                w = self.anyinsn() ^ (1 << self.rr(32))
                if self.rr(2):
                    w ^= 1 << self.rr(32)
            if klass(w) in ("illegal", "csrill"):
                return w

    def fence(self):
        k = self.rr(4)
        if k == 0:
            return self.ch((0x0FF0000F, 0x0000000F, 0x8330000F, 0x0100000F))
        return self.bits(32) & ~0x707F | 0x0F

    def irqctl(self):
        """Instructions that change interrupt enables."""
        k = self.rr(10)
        if k < 3:
            return CSR(6, self.ch((0, self.reg())), MSTATUS, 8)
        if k < 4:
            return CSR(7, self.ch((0, self.reg())), MSTATUS, 8)
        if k < 5:
            return CSR(self.ch((1, 2, 3)), self.reg(), MIE, self.reg())
        if k < 6:
            return CSR(self.ch((1, 2, 3)), self.reg(), MSTATUS, self.reg())
        if k < 9:
            return MRET
        return CSR(5, 0, MSTATUS, self.bits(5))

    def anyinsn(self):
        return self.mix(MIXALL)

    def mix(self, table):
        k = self.rr(table[0])
        for lim, name in table[1]:
            if k < lim:
                return getattr(self, name)()

    def ecall(self):
        return ECALL

    def ebreak(self):
        return EBREAK

    def mret(self):
        return MRET

    def wfi(self):
        return WFI

    def probe(self):
        """Store a recently interesting register."""
        return SW(self.reg(), 0, 0)

    def refresh(self):
        return LW(self.reg(), 0, 0)

    # ---- compound targets
    def ctrl(self):
        k = self.rr(12)
        return (self.branch() if k < 6 else self.jal() if k < 8 else
                self.jalr() if k < 10 else self.auipc())

    def memacc(self):
        return self.load() if self.rr(2) else self.store()

    def exc(self):
        k = self.rr(12)
        if k < 2:
            return ECALL
        if k < 4:
            return EBREAK
        if k < 6:
            return self.illegal()
        if k < 7:
            return self.csrill()
        if k < 9:
            return self.memacc()
        if k < 10:
            return self.jal(False)
        if k < 11:
            return self.jalr()
        return self.branch(False)

    def traphist(self):
        k = self.rr(10)
        if k < 4:
            return self.exc()
        if k < 6:
            return MRET
        if k < 8:
            return CSR(2, self.rr(32), self.ch((MCAUSE, MEPC, MSTATUS)), 0)
        return self.irqctl() if k < 9 else self.csr()

    def rvmix(self):
        k = self.rr(10)
        return (self.csr() if k < 3 else self.csrro() if k < 4 else
                self.exc() if k < 5 else self.memacc() if k < 8 else
                self.irqctl())

    def nopish(self):
        return self.fence() if self.rr(3) else WFI

    def mipacc(self):
        if self.rr(4) == 0:
            return self.irqctl()
        return self.csr(MIP)

    # ---- cases
    def case(self, steps, **kw):
        c = Case(steps)
        c.xinit = [0] + [self.val() for _ in range(31)]
        if self.rr(3) == 0:     # equal values are rare otherwise
            a = self.val()
            for _ in range(self.rr(1, 8)):
                c.xinit[self.rr(1, 32)] = a
        c.csr = [self.ch((0, 8, 0x80, 0x88, self.bits(32))),
                 self.ch((0, 0x800, 0x800, self.bits(32))), self.vec(),
                 self.val(), self.val() & ~3 if self.rr(2) else self.bits(32),
                 self.val()]
        c.pc = self.pcv()
        c.seed = self.bits(32) | 1
        c.flags = CF_JUNK if self.rr(5) else 0
        if self.rr(4) == 0:
            c.flags |= CF_IDLEACK
        if self.rr(4) == 0:
            c.pro_fwait = self.rr(3)
            c.epi_fwait = self.rr(3)
        for k, v in kw.items():
            setattr(c, k, v)
        return c

    def vec(self):
        return self.ch((0x100, 0x80000000, 0xFFFFFFFC, 0xFFFFFFFF, 0x107,
                        self.bits(32), self.bits(32), self.bits(16)))

    def pcv(self):
        k = self.rr(6)
        if k == 0:
            return self.ch((0, 4, 0xFFFFFFFC, 0xFFFFFFF8, 0x7FFFFFFC,
                            0x80000000, 0xFFFFFF00))
        return self.bits(32) & ~3


def table(**kw):
    acc, out = 0, []
    for n, wgt in kw.items():
        acc += wgt
        out.append((acc, n))
    return acc, out


MIXALL = table(alu=20, shift=8, branch=12, jal=6, jalr=6, auipc=4, load=14,
               store=14, csr=8, csrro=2, fence=2, wfi=2, ecall=2, ebreak=2,
               mret=4)
# context used around the instructions under test
CONTEXT = table(alu=10, shift=4, branch=8, jal=4, jalr=4, auipc=2, load=8,
                store=8, csr=8, csrro=2, csrill=1, fence=2, wfi=2, ecall=2,
                ebreak=2, mret=4, illegal=3)
