PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


P("C01-sltu-difference-sign", "C01",
  [("alu.py", "self.sub = ALU._Unit(width + 1, lambda a, b: a - b)",
    "self.sub = ALU._Unit(width + 1, lambda a, b: (a - b)[:width].as_signed())")],
  "SLTU/SLT-class comparison of operands at least 2^31 apart after the "
  "signed/unsigned adjustment",
  "unsigned and signed less-than use the difference's sign bit instead of "
  "the borrow, so far-apart operands compare the wrong way round", """
v, _ = regs_after(li(1, 1) + li(2, 0x90000000),
                  [r(0, 2, 1, 3, 3), r(0, 1, 2, 3, 4)], [3, 4])
check(v == [1, 0], v)
""")

P("C01-ori-b-one-hot", "C01",
  [("microcode.asm", "or:           alu_op => or, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);",
    "or:           alu_op => or, alu_o_mod => clear_lsb_o, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);")],
  "register-register OR whose result is odd (ORI unaffected)",
  "OR clears the least significant bit of its result", """
v, _ = regs_after(li(1, 0x11) + li(2, 0x20),
                  [r(0, 2, 1, 6, 3), i(0x20, 1, 6, 4)], [3, 4])
check(v == [0x31, 0x31], v)
""")

P("C02-srl-zero-amount", "C02",
  [("microcode.asm", """             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,
                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => srl_loop;
             READ_RS1, jmp_type => direct, target => shift_zero;""",
    """             a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,
                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => srl_loop;
             jmp_type => direct, target => shift_zero;""")],
  "register SRL whose amount has five zero low bits and rs1 != rs2",
  "SRL by a multiple of 32 writes the amount register instead of the value",
  """
v, _ = regs_after(li(1, 0xCAFEF00D) + li(2, 0x40),
                  [r(0, 2, 1, 5, 3), r(0, 2, 1, 1, 4), r(0x20, 2, 1, 5, 5)],
                  [3, 4, 5])
check(v == [0xCAFEF00D] * 3, [hex(x) for x in v])
""")

P("C02-srai-unmasked", "C02",
  [("microcode.asm", """              READ_RS1, a_src => thirty_one, latch_a => 1;
              a_src => gp, latch_a => 1, alu_op => and;
              READ_RS1, a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => sra,
                  jmp_type => direct, cond_test => cmp_alu_o_zero, target => shift_zero;
sra_loop:""",
    """              READ_RS1, a_src => thirty_one, latch_a => 1;
              a_src => gp, latch_a => 1, alu_op => and;
              READ_RS1, a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, alu_op => srl,
                  jmp_type => direct, cond_test => cmp_alu_o_zero, target => shift_zero;
sra_loop:""")],
  "SRAI of a negative value with a non-zero amount",
  "the first step of SRAI shifts in a zero, later steps then replicate it",
  """
v, _ = regs_after(li(1, 0x80000010), [i(0x400 | 4, 1, 5, 3), i(0x400 | 1, 1, 5, 4)], [3, 4])
check(v == [0xF8000001, 0xC0000008], [hex(x) for x in v])
""")

P("C03-beq-msb", "C03",
  [("alu.py", "self.ctrl.zero.eq(self.o == 0)", "self.ctrl.zero.eq(self.o[0:31] == 0)")],
  "BEQ/BNE on operands that differ in nothing but bit 31",
  "BEQ is taken and BNE is not taken for operands differing only in the "
  "most significant bit", """
v, _ = regs_after(li(1, 0x80000005) + li(2, 5) + [addi(3, 0, 0), addi(4, 0, 0)],
                  [br(0, 1, 2, 8), addi(3, 0, 1), br(1, 1, 2, 8), addi(4, 0, 1)],
                  [3, 4])
check(v == [1, 0], v)
""")

P("C03-pc-carry", "C03",
  [("datapath.py", "m.d.sync += self.dat_r.eq(self.dat_r + 1)",
    "m.d.sync += self.dat_r.eq(Cat((self.dat_r[:24] + 1)[:24], self.dat_r[24:]))")],
  "sequential execution across a multiple of 2^26 bytes",
  "incrementing the program counter does not carry into bits 26..31",
  """
B = 0x0C000000
log = run(image((0, [lui(1, (B - 0x1000) >> 12), jalr(0, 1, 0x7FC)]),
                (B - 0x1000 + 0x7FC, [lui(2, B >> 12), jalr(0, 2, -8)]),
                (B - 8, [NOP, NOP, addi(3, 0, 1), HALT])),
          stop={B + 4}, clocks=400)
a = [e[1] for e in log]
check(a[-4:] == [B - 8, B - 4, B, B + 4], [hex(x) for x in a])
""")

P("C03-jalr-link-after-target", "C03",
  [("microcode.asm", """jal: a_src => imm, b_src => pc, latch_a => 1, latch_b => 1;
     alu_op => add;
     except_ctl => latch_jal, jmp_type => direct, cond_test => exception, target => save_pc;
     pc_action => load_alu_o, latch_a => 1, latch_b => 1, a_src => four, b_src => pc;
     INSN_FETCH, alu_op => add, JUMP_TO_OP_END(fast_epilog);""",
    """jal: a_src => imm, b_src => pc, latch_a => 1, latch_b => 1;
     alu_op => add;
     except_ctl => latch_jal, jmp_type => direct, cond_test => exception, target => save_pc;
     pc_action => load_alu_o, latch_a => 1, latch_b => 1, a_src => four, b_src => pc;
     INSN_FETCH, alu_op => or, JUMP_TO_OP_END(fast_epilog);""")],
  "JAL at an address with bit 2 set, destination not x0",
  "the link address is PC|4 instead of PC+4", """
v, _ = regs_after([NOP], [jal(1, 4)], [1])
check(v == [8], v)
""")

P("C04-high-address", "C04",
  [("align.py", "self.wb_adr.eq(self.latched_adr[2:])", "self.wb_adr.eq(self.latched_adr[2:31])")],
  "a load or store at or above 0x80000000",
  "data accesses to the upper half of the address space go to the lower half",
  """
v, log = regs_after(li(1, 0x90000010), [lw(2, 1, 0)], [2])
check(0x90000010 in [e[1] for e in log], "word address")
""")

P("C04-lh-sign-upper", "C04",
  [("align.py", "self.data.eq(selected_dat[0:16].as_signed())",
    "self.data.eq(Cat(selected_dat[0:16], self.wb_dat_r[15].replicate(16)))"),
   ("align.py", "from amaranth import Signal, Module", "from amaranth import Cat, Signal, Module")],
  "LH from the upper half of a word whose halves differ in sign",
  "the sign extension of an upper half-word load comes from the lower half",
  """
log = run(image((0, [lw(9, 0, 0x100), load(1, 3, 0, 0x102), sw(3, 0, 0x200), HALT]),
                (0x100, [0x80017FFF])), stop={12})
check(log.mem[0x200 >> 2] == 0xFFFF8001, hex(log.mem[0x200 >> 2]))
""")

P("C05-sb-lane3", "C05",
  [("align.py", """                with m.Elif(self.latched_adr[0:2] == 2):
                    m.d.comb += self.wb_dat_w[16:24].eq(self.data[0:8])""",
    """                with m.Elif(self.latched_adr[0:2] == 2):
                    m.d.comb += self.wb_dat_w[16:24].eq(self.data[8:16])""")],
  "SB to an address with low bits 2",
  "a byte store to lane 2 carries the source register's second byte", """
log = run(image((0, li(1, 0x11223344) + [store(0, 1, 0, 0x102), HALT])), stop={16}, clocks=300)
w = log.at("W")
check(len(w) == 1 and w[0][2] == 4 and w[0][3] == 0x440000, w)
""")

P("C06-csr-alias", "C06",
  [("datapath.py", "r_port.addr.eq(Cat(self.priv.adr, 1)),", "r_port.addr.eq(Cat(self.priv.adr[0:4], 1)),"),
   ("datapath.py", "w_port.addr.eq(Cat(self.priv.adr, 1)),", "w_port.addr.eq(Cat(self.priv.adr[0:4], 1)),")],
  "use of x21..x26 together with mtvec, mscratch, mepc or mcause",
  "block-RAM CSRs share storage with x16..x31", """
v, _ = regs_after(li(24, 0x1234) + li(5, 0xABCD), [csrrw(0, MSCRATCH, 5)], [24])
check(v == [0x1234], v)
""")

P("C06-x0-write", "C06",
  [("datapath.py",
    "                    w_port.en.eq(self.pub.ctrl.reg_write &\n",
    """                    w_port.en.eq(self.pub.ctrl.reg_write &
                                 (self.pub.adr_w[0:4].any() |
                                  self.pub.ctrl.allow_zero_wr) &
""")],
  "any instruction with destination x16",
  "register x16 cannot be written", """
v, _ = regs_after(li(16, 0x77), [addi(5, 0, 1)], [16])
check(v[0] == 0x77, v)
""")

P("C07-slli-bit25", "C07",
  [("decode.py", """                        with m.If(insn.funct3 == 1):
                            with m.If(insn.funct7 != 0):""",
    """                        with m.If(insn.funct3 == 1):
                            with m.If(insn.funct7[1:] != 0):""")],
  "an SLLI encoding with bit 25 (shift amount bit 5) set",
  "SLLI with a 6-bit amount executes instead of raising illegal instruction",
  """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), i(0x25, 1, 1, 2), HALT]),
                (0x80, [HALT])), stop={0x80, 0x10}, clocks=300)
check(log[-1][1] == 0x80, "no trap")
""")

P("C07-branch-f3", "C07",
  [("decode.py", "with m.If((insn.funct3 == 2) | (insn.funct3 == 3)):",
    "with m.If(insn.funct3 == 2):")],
  "BRANCH opcode with funct3 3",
  "the reserved branch encoding hangs the core in the panic routine instead "
  "of trapping", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), br(3, 0, 0, 8), NOP, HALT]),
                (0x80, [HALT])), stop={0x80}, clocks=300)
check(log.stopped, "no trap")
""")

P("C08-beq-misaligned", "C08",
  [("microcode.asm", """         target => not_taken;
     except_ctl => latch_jal, jmp_type => direct, cond_test => exception, target => save_pc;
     jmp_type => direct, cond_test => true, target => fetch, pc_action => load_alu_o;

origin 0x88;""", """         target => not_taken;
     jmp_type => direct, cond_test => true, target => fetch, pc_action => load_alu_o;

origin 0x88;""")],
  "a taken BEQ whose target is not a multiple of four (other branches keep "
  "their check)",
  "BEQ to a misaligned target jumps to the truncated target instead of "
  "trapping", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), br(0, 0, 0, 10), NOP, NOP, HALT]),
                (0x80, [HALT])), stop={0x80, 20, 24}, clocks=300)
check(log[-1][1] == 0x80, "no trap")
""")

P("C08-ebreak-epc", "C08",
  [("decode.py", """                with m.Case(OpcodeType.JALR):
                    with m.If(insn.funct3 != 0):
                        m.d.sync += self.exception.valid.eq(1)""",
    """                with m.Case(OpcodeType.JALR):
                    with m.If(insn.funct3 != 0):
                        m.d.sync += [
                            self.exception.valid.eq(1),
                            self.exception.e_type.eq(
                                MCause.Cause.INSN_MISALIGNED)
                        ]""")],
  "JALR opcode with a reserved funct3",
  "the trap reports cause 0 instead of illegal instruction", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), jalr(0, 1, 0) | 1 << 12, HALT]),
                (0x80, [csrrs(2, MCAUSE, 0), sw(2, 0, 0x200), HALT])),
          stop={0x88}, clocks=400)
check(log.mem.get(0x200 >> 2) == 2, log.mem.get(0x200 >> 2))
""")

P("C09-mepc-low-bits", "C09",
  [("datapath.py", """        with m.If((self.pub.adr == CSRFile.MTVEC) |
                  (self.pub.adr == CSRFile.MEPC)):""",
    """        with m.If(self.pub.adr == CSRFile.MTVEC):""")],
  "writing mepc with a non-zero low bit pair and reading it back",
  "mepc keeps its low two bits", """
v, _ = regs_after(li(1, 0x1003), [csrrw(0, MEPC, 1), csrrs(2, MEPC, 0)], [2])
check(v == [0x1000], v)
""")

P("C10-mhpmevent31", "C10",
  [("decode.py", "for i in range(CSRM.MHPMEVENT3, CSRM.MHPMEVENT31 + 1):",
    "for i in range(CSRM.MHPMEVENT3, CSRM.MHPMEVENT31):")],
  "an access to CSR 0x33F",
  "mhpmevent31 traps instead of reading zero", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), csrrs(2, 0x33F, 0), HALT]),
                (0x80, [HALT])), stop={0x80, 0x10}, clocks=300)
check(log[-1][1] == 0x10, "trapped")
""")

P("C10-ro-rc-imm", "C10",
  [("decode.py", """            with m.Elif(csr_ro_space & ((csr_op == Insn.CSR.RW) |
                                        (csr_op == Insn.CSR.RWI) |""",
    """            with m.Elif(csr_ro_space & ((csr_op == Insn.CSR.RW) |""")],
  "CSRRWI with immediate 0 to a read-only CSR (mvendorid..mconfigptr)",
  "writing zero by CSRRWI to a read-only register does not trap", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), csr(5, 2, 0xF12, 0), HALT]),
                (0x80, [HALT])), stop={0x80, 0x10}, clocks=300)
check(log[-1][1] == 0x80, "no trap")
""")

P("C10-quadrant", "C10",
  [("decode.py", "with m.Elif(csr_quadrant != Quadrant.MACHINE):",
    "with m.Elif(csr_quadrant == Quadrant.UNPRIVILEGED):")],
  "a supervisor/hypervisor-numbered CSR such as sstatus (0x100) or sscratch "
  "(0x140), which folds onto a machine CSR's table entry",
  "supervisor CSR numbers access the machine CSRs instead of trapping", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), csrrs(2, 0x140, 0), HALT]),
                (0x80, [HALT])), stop={0x80, 0x10}, clocks=300)
check(log[-1][1] == 0x80, "no trap")
""")

P("C11-decode-priority", "C11",
  [("exception.py", """            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                      self.src.csr.mie.meie):""",
    """            with m.Elif(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                        self.src.csr.mie.meie):""")],
  "an enabled interrupt pending at the boundary before an instruction that "
  "itself traps (e.g. ECALL)",
  "the exception is taken first, so the interrupt is not taken before the "
  "instruction", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) +
                 [csrrs(0, MIE, 2), csr(6, 0, MSTATUS, 8), ECALL, HALT]),
                (0x80, [csrrs(3, MCAUSE, 0), sw(3, 0, 0x200), HALT])),
          stop={0x88}, clocks=500,
          irq=lambda c, lg: bool(lg) and lg[-1][1] >= 0x18 or any(e[1] == 0x1C for e in lg))
check(log.mem.get(0x200 >> 2) == 0x8000000B, log.mem.get(0x200 >> 2))
""")

P("C11-mie-late", "C11",
  [("datapath.py", """                m.d.sync += mie.meie.eq(mie_in.meie)""",
    """                with m.If(mie_in.meie | ~mstatus.mie):
                    m.d.sync += mie.meie.eq(mie_in.meie)""")],
  "clearing mie.MEIE while mstatus.MIE is set",
  "the external interrupt enable cannot be cleared while interrupts are "
  "globally enabled, so masked interrupts are still taken", """
v, _ = regs_after(li(2, 0x800) + [csrrs(0, MIE, 2), csr(6, 0, MSTATUS, 8)],
                  [csrrc(0, MIE, 2), csrrs(3, MIE, 0)], [3])
check(v == [0], v)
""")

P("C12-mret-mpie", "C12",
  [("datapath.py", """                mstatus.mie.eq(mstatus.mpie),
                mstatus.mpie.eq(1)""", """                mstatus.mie.eq(mstatus.mpie),
                mstatus.mpie.eq(mstatus.mie)""")],
  "MRET executed with interrupts disabled, then mstatus read or a second MRET",
  "MRET swaps MIE and MPIE instead of setting MPIE", """
v, _ = regs_after([auipc(1, 0), addi(1, 1, 16), csrrw(0, MEPC, 1), MRET],
                  [csrrs(2, MSTATUS, 0)], [2])
check(v[0] & 0x80, hex(v[0]))
""")

P("C12-mcause-latch-held", "C12",
  [("exception.py", """                    mcause_latch.cause.eq(11),
                    mcause_latch.interrupt.eq(1)""",
    """                    mcause_latch.interrupt.eq(1)"""),
   ("exception.py", "mcause_latch = Signal(MCause)",
    'mcause_latch = Signal(MCause, init={"cause": 11})')],
  "an interrupt taken after an earlier exception with another cause",
  "an interrupt reports the cause code left by the previous exception", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) +
                 [csrrs(0, MIE, 2), EBREAK, csr(6, 0, MSTATUS, 8), NOP, HALT]),
                (0x80, [csrrs(3, MCAUSE, 0), sw(3, 0, 0x200), csrrs(4, MEPC, 0),
                        addi(4, 4, 4), csrrw(0, MEPC, 4), MRET])),
          clocks=700, irq=lambda c, lg: any(e[1] == 0x200 for e in lg))
c = [e[3] for e in log if e[0] == "W"]
check(c[0] == 3 and c[1] == 0x8000000B, c)
""")

P("C13-ack-drops-we", "C13",
  [("top.py", "self.bus.we.eq(self.control.mem.write),", "self.bus.we.eq(self.control.mem.write & ~write_seen),"),
   ("top.py", "        mem_ack = Signal()\n", "        mem_ack = Signal()\n        write_seen = Signal()\n        with m.If(self.bus.ack):\n            m.d.sync += write_seen.eq(0)\n        with m.Elif(self.control.mem.write & (wait_cnt == 15)):\n            m.d.sync += write_seen.eq(1)\n        wait_cnt = Signal(4)\n".replace("        wait_cnt = Signal(4)\n", "")),
   ("top.py", "        mem_reset_guard = Signal(init=1)\n", "        mem_reset_guard = Signal(init=1)\n        wait_cnt = Signal(4)\n        with m.If(self.bus.stb & ~self.bus.ack):\n            m.d.sync += wait_cnt.eq(wait_cnt + 1)\n        with m.Else():\n            m.d.sync += wait_cnt.eq(0)\n")],
  "a store that waits sixteen or more clocks for its acknowledge",
  "the write line drops in the middle of a long bus cycle", """
log = run(image((0, [addi(1, 0, 0x55), sw(1, 0, 0x200), HALT])), stop={8}, clocks=300,
          wait=lambda lg, a, we: 20 if a == 0x200 else 0)
check([e for e in log if e[0] == "W"] and log.mem.get(0x80) == 0x55, log)
""")

P("C14-ack-timeout", "C14",
  [("top.py", "            mem_ack.eq(self.bus.ack),\n", "            mem_ack.eq(self.bus.ack | timeout),\n"),
   ("top.py", "        mem_ack = Signal()\n", """        mem_ack = Signal()
        timeout = Signal()
        wait_cnt = Signal(8)
        with m.If(self.control.mem.req & ~mem_ack):
            m.d.sync += wait_cnt.eq(wait_cnt + 1)
        with m.Else():
            m.d.sync += wait_cnt.eq(0)
        m.d.comb += timeout.eq(wait_cnt == 255)
""")],
  "a bus cycle with more than 255 wait states",
  "the core gives up waiting and takes whatever is on the bus", """
kw = dict(stop={8}, clocks=2000)
prog = image((0, [lw(1, 0, 0x200), sw(1, 0, 0x204), HALT]), (0x200, [0x1234]))
a = run(prog, **kw)
b = run(prog, wait=lambda lg, ad, we: 300 if ad == 0x200 else 0, **kw)
check(a.mem.get(0x81) == b.mem.get(0x81) == 0x1234, (a.mem.get(0x81), b.mem.get(0x81)))
""")

P("C15-guard-not-reset", "C15",
  [("top.py", "mem_reset_guard = Signal(init=1)", "mem_reset_guard = Signal(init=1, reset_less=True)")],
  "reset asserted again while an instruction fetch or data access is about "
  "to be issued",
  "after a second reset the bus is driven from the stale microcode word", """
bad = []
prog = image((0, [addi(1, 0, 5), sw(1, 0, 0x200), lw(2, 0, 0x200), jal(0, -8)]))
from amaranth.sim import Simulator
for at in range(20, 44):
    log = run(prog, clocks=at + 14, reset={at})
    after = [e for e in log if e[4] > at]
    # every access seen after the reset clock starts again at zero
    if after and after[0][1:3] != (0, 15):
        bad.append((at, after[0]))
# watch strobe itself: nothing may be requested in the clock after reset
def strobes(at):
    import sentinel.top
    from amaranth import ClockDomain, Module, Signal
    top = sentinel.top.Top()
    rst = Signal()
    m = Module()
    m.domains.sync = cd = ClockDomain()
    m.d.comb += cd.rst.eq(rst)
    m.submodules.top = top
    out = []

    async def tb(ctx):
        ack = 0
        for c in range(at + 4):
            ctx.set(rst, int(c == at))
            stb = ctx.get(top.bus.stb)
            out.append(stb)
            ack = int(stb and not ack and c > 0 and out[-2])
            ctx.set(top.bus.ack, ack)
            ctx.set(top.bus.dat_r, prog.get(ctx.get(top.bus.adr), 0))
            await ctx.tick()
    s = Simulator(m)
    s.add_clock(1e-6)
    s.add_testbench(tb)
    s.run()
    return out
for at in range(20, 44):
    if strobes(at)[at + 1]:
        bad.append(("stb", at))
check(not bad, bad)
""")

P("C15-mie-survives-reset", "C15",
  [("datapath.py", "        mie = Signal(MIE)\n", "        mie = Signal(MIE, reset_less=True)\n")],
  "a reset after mie.MEIE has been set, then enabling mstatus.MIE",
  "the external interrupt enable survives reset", """
prog = image((0, [csrrs(3, MIE, 0), sw(3, 0, 0x200)] + li(2, 0x800) +
              [csrrs(0, MIE, 2), HALT]))
log = run(prog, clocks=300, reset={120})
w = [e[3] for e in log if e[0] == "W"]
check(w == [0, 0], w)
""")

P("C16-xor-overlap", "C16",
  [("microcode.asm", "xor:          alu_op => xor, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);",
    "xor:          alu_op => xor, JUMP_TO_OP_END(fast_epilog);")],
  "register-register XOR",
  "XOR no longer overlaps the next fetch and takes longer than documented",
  """
def t(w):
    log = run(image((0, [NOP, w, NOP, NOP, HALT])), clocks=100, stop={12})
    c = [e[4] for e in log]
    return c[2] - c[1]
check(t(r(0, 2, 1, 4, 3)) == t(r(0, 2, 1, 7, 3)), (t(r(0, 2, 1, 4, 3)), t(r(0, 2, 1, 7, 3))))
""")

P("C16-csr-f3-hang", "C16",
  [("control.py", "with m.Elif((csr_op == Insn.CSR.RCI) & (src_a == 0)):",
    "with m.Elif((csr_op == Insn.CSR.RCI) & (src_a == 0) & (dst != 0)):")],
  "CSRRCI with immediate 0 and rd = x0",
  "the no-operation form of CSRRCI is not mapped and loops on the CSR "
  "trampoline forever", """
log = run(image((0, [csr(7, 0, MSCRATCH, 0), HALT])), stop={4}, clocks=200)
check(log.stopped, "hangs")
""")

P("C18-fence-rd", "C18",
  [("decode.py", """                    with m.If(insn.funct3 != 0):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""",
    """                    with m.If((insn.funct3 != 0) | (insn.rd != 0)):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):""")],
  "FENCE with a non-zero reserved rd field",
  "such a FENCE traps instead of being a no-op", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), FENCE | 3 << 7, HALT]),
                (0x80, [HALT])), stop={0x80, 0x10}, clocks=300)
check(log[-1][1] == 0x10, "trapped")
""")

P("C18-wfi-rdless", "C18",
  [("control.py", """                    with m.Elif(insn.raw == Insn.WFI):
                        m.d.sync += self.requested_op.eq(0x30)""",
    """                    with m.Elif(insn.raw == Insn.WFI):
                        m.d.sync += self.requested_op.eq(0x53)""")],
  "WFI (continues in the ADDI routine without incrementing the PC)",
  "WFI is executed over and over and never completes", """
log = run(image((0, [WFI, addi(1, 0, 1), HALT])), stop={8}, clocks=300)
check(log.stopped, "stuck")
""")

P("C19-rs2-stale", "C19",
  [("formal.py", "rs2_port.addr.eq(self.cpu.rvfi.decode.rs2)", "rs2_port.addr.eq(self.cpu.rvfi.decode.rs1)")],
  "a traced instruction with rs1 != rs2",
  "the trace reports rs1's value as rs2_rdata", """
log = run(image((0, li(1, 5) + li(2, 9) + [r(0, 2, 1, 0, 3), NOP, NOP, HALT])),
          clocks=120, formal=True, rvfi=("pc_rdata", "rs1_rdata", "rs2_rdata"))
t = {e["pc_rdata"]: e for e in log.trace}
check(t[16]["rs2_rdata"] == 9, t.get(16))
""")

P("C19-intr-trap-flag", "C19",
  [("formal.py", """            m.d.sync += [
                self.rvfi.trap.eq(0),
                self.rvfi.insn.eq(self.cpu.rvfi.decode.insn),""",
    """            m.d.sync += [
                self.rvfi.trap.eq(self.rvfi.trap & self.rvfi.intr),
                self.rvfi.insn.eq(self.cpu.rvfi.decode.insn),""")],
  "a trap taken by the first instruction of a trap handler",
  "the record of an instruction after two back-to-back traps is flagged as "
  "trapping although it did not", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), csr(5, 0, MSCRATCH, 0), ECALL, NOP]),
                (0x80, [csrrs(4, MSCRATCH, 0), br(1, 4, 0, 12),
                        csr(5, 0, MSCRATCH, 1), ECALL, NOP, NOP, HALT]),
                ), clocks=400, formal=True, rvfi=("pc_rdata", "trap", "insn"))
bad = [e for e in log.trace if e["trap"] and e["insn"] != ECALL]
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), ECALL, NOP]),
                (0x80, [ECALL])), clocks=120, formal=True, rvfi=("pc_rdata", "trap", "insn"))
n = [(e["pc_rdata"], e["trap"]) for e in log.trace]
m = image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), ECALL, NOP]), (0x80, [ECALL, NOP, NOP]))


class Once(dict):
    k = 0


def irq(c, lg):
    # replace the handler's ECALL once it has run twice
    if sum(e[1] == 0x80 for e in lg) == 2:
        lg.mem[0x20] = NOP
    return 0


log = run(m, clocks=200, formal=True, irq=irq, rvfi=("pc_rdata", "trap", "insn"))
bad += [e for e in log.trace if e["trap"] and e["insn"] != ECALL and e["insn"]]
check(not bad, bad)
""")

P("C20-formal-x0", "C20",
  [("datapath.py", "                    w_port.en.eq(self.pub.ctrl.reg_write &\n",
    "                    w_port.en.eq(self.pub.ctrl.reg_write &\n                                 (self.pub.adr_w != (31 if self.formal else 32)) &\n")],
  "the core built with the trace port and an instruction with destination x31",
  "x31 cannot be written in the traced core only", """
def go(f):
    return run(image((0, li(31, 0x1234) + [sw(31, 0, 0x200), HALT])), stop={12}, formal=f, clocks=200).words()
a = run(image((0, li(31, 0x1234) + [sw(31, 0, 0x200), HALT])), stop={12}, clocks=200)
b = run(image((0, li(31, 0x1234) + [sw(31, 0, 0x200), HALT])), stop={12}, clocks=200, formal=True)
check(a.mem.get(0x80) == b.mem.get(0x80), (a.mem.get(0x80), b.mem.get(0x80)))
""")

P("C24-mip-masked", "C24",
  [("datapath.py", "                    mip_buf.meip.eq(mip.meip)", "                    mip_buf.meip.eq(mip.meip & mie.meie)")],
  "reading mip with the line high and mie.MEIE clear",
  "the pending bit reads zero while the interrupt is masked", """
v, _ = regs_after([], [csrrs(1, MIP, 0)], [1], irq=lambda c, lg: 1)
check(v == [0x800], v)
""")

P("C25-pc-inc-trampoline", "C25",
  [("microcode.asm", "csr_trampoline: READ_RS1, jmp_type => map,", "csr_trampoline: READ_RS1, pc_action => inc, jmp_type => map,"),
   ("microcode.asm", "csrr_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            pc_action => inc, jmp_type", "csrr_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            jmp_type"),
   ("microcode.asm", "csrro0_1: a_src => zero, b_src => one, latch_a => 1, latch_b => 1, pc_action => inc, \\", "csrro0_1: a_src => zero, b_src => one, latch_a => 1, latch_b => 1, \\"),
   ("microcode.asm", "csrw_1: a_src => zero, b_src => gp, latch_a => 1, latch_b => 1, pc_action => inc, \\", "csrw_1: a_src => zero, b_src => gp, latch_a => 1, latch_b => 1, \\"),
   ("microcode.asm", "            b_src => gp, latch_b => 1, pc_action => inc, jmp_type => direct, \\\n            target => csrrwi;", "            b_src => gp, latch_b => 1, jmp_type => direct, \\\n            target => csrrwi;"),
   ("microcode.asm", "csrrs_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            pc_action => inc, jmp_type", "csrrs_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            jmp_type"),
   ("microcode.asm", "csrrc_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            pc_action => inc, jmp_type", "csrrc_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            jmp_type"),
   ("microcode.asm", "csrwi_1: a_src => zero, b_src => csr_imm, latch_a => 1, latch_b => 1, pc_action => inc, \\", "csrwi_1: a_src => zero, b_src => csr_imm, latch_a => 1, latch_b => 1, \\"),
   ("microcode.asm", "            latch_a => 1, latch_b => 1, pc_action => inc, jmp_type => direct, \\\n            target => csrrwi;", "            latch_a => 1, latch_b => 1, jmp_type => direct, \\\n            target => csrrwi;"),
   ("microcode.asm", "csrrsi_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            pc_action => inc, jmp_type", "csrrsi_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            jmp_type"),
   ("microcode.asm", "csrrci_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            pc_action => inc, jmp_type", "csrrci_1: csr_op => read_csr, csr_sel => insn_csr, a_src => zero, latch_a => 1, \\\n            jmp_type")],
  "an interrupt becoming pending in the single clock between dispatch and "
  "the CSR trampoline of a CSR instruction (or an illegal CSR)",
  "the PC has already moved on when the trampoline takes the interrupt, so "
  "the CSR instruction is skipped (illegal CSRs report the wrong mepc)", """
def prog():
    return image((0, li(1, 0x100) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) +
                  [csrrs(0, MIE, 2), csr(6, 0, MSTATUS, 8)] +
                  [csr(6, 5, MSCRATCH, k) for k in (1, 2, 4, 8, 16)] +
                  [csrrs(6, MSCRATCH, 0), sw(6, 0, 0x200), HALT]),
                 (0x100, [MRET]))
bad = []
for at in range(60, 120):
    log = run(prog(), clocks=320, irq=lambda c, lg: at <= c < at + 3)
    w = [e[3] for e in log if e[0] == "W"]
    w0 = [e[3] & 31 for e in log if e[0] == "W"]
    if w0 != [31]:
        bad.append((at, w))
check(not bad, bad)
""")

P("C26-sh-misaligned-request", "C26",
  [("microcode.asm", """    alu_op => add, latch_adr => 1, except_ctl => latch_store_adr, mem_sel => hword, \\
        jmp_type => direct, cond_test => exception, target => save_pc;
    mem_sel => hword, latch_data => 1, pc_action => inc;
sh_wait:  mem_req => 1, invert_test => 1, cond_test => mem_valid, \\
              mem_sel => hword, write_mem => 1, jmp_type => direct, target => sh_wait;
          STOP_MEMREQ_THEN_JUMP_TO_ZERO;""",
    """    alu_op => add, latch_adr => 1;
    mem_sel => hword, latch_data => 1, alu_op => add;
sh_wait:  mem_req => 1, invert_test => 1, cond_test => mem_valid, alu_op => add, \\
              mem_sel => hword, write_mem => 1, jmp_type => direct, target => sh_wait;
    except_ctl => latch_store_adr, mem_sel => hword, alu_op => add, \\
        jmp_type => direct, cond_test => exception, target => save_pc;
    pc_action => inc, JUMP_TO_ZERO;"""),
   ("microcode.asm", "origin 0xB0;\njal:", "origin 0xB2;\njal:"),
   ("control.py", "self.requested_op.eq(0xB0)", "self.requested_op.eq(0xB2)")],
  "a misaligned SH (or any SH, timing)",
  "a misaligned half-word store writes memory before it traps", """
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), store(1, 1, 0, 0x201), HALT]),
                (0x80, [HALT])), stop={0x80}, clocks=300)
check(log.stopped and not log.at("W"), log.at("W"))
""")
