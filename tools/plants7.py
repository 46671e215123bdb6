PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


SIM = """
from amaranth.hdl import ClockDomain, Module, Value
from amaranth.sim import Simulator
def at(o, p):
    for k in p.split("."):
        o = getattr(o, k)
    return Value.cast(o)
def drive(dut, outs, *cycles):
    m = Module()
    m.domains.sync = ClockDomain()
    m.submodules.dut = dut
    s = Simulator(m)
    s.add_clock(1e-6)
    got = []
    async def tb(ctx):
        for c in cycles:
            for k, v in c.items():
                ctx.set(at(dut, k), getattr(v, "value", v))
            got.append([ctx.get(at(dut, o)) for o in outs])
            await ctx.tick()
    s.add_testbench(tb)
    s.run()
    return got
from sentinel.ucodefields import *
"""
P("C31-add-msb", "C31",
  [("alu.py", "        with m.If(self.ctrl.imod == ALUIMod.INV_MSB_A_B):\n",
    "        # Only compares need the operands biased.\n"
    "        with m.If((self.ctrl.imod == ALUIMod.INV_MSB_A_B) &\n"
    "                  (self.ctrl.op == OpType.CMP_LTU)):\n")],
  "microcode that modifies the operands of anything but a comparison",
  "the most significant bits aren't inverted for other operations", SIM + """
from sentinel.alu import ALU
i = {"a": 1, "b": 2, "ctrl.op": OpType.OR, "ctrl.imod": ALUIMod.INV_MSB_A_B}
g = drive(ALU(32), ["o"], i, i)
check(g[1] == [0x80000003], g)
""")
P("C31-mux-fetch", "C31",
  [("datapath.py", "                with m.If(self.insn_fetch):\n",
    "                with m.If(self.insn_fetch &\n"
    "                          (self.reg_w_sel != RegWSel.ZERO)):\n")],
  "a use of the source multiplexer while register 0 is written",
  "the read address during a fetch is that of the previous instruction",
  SIM + """
from sentinel.datapath import DataPathSrcMux
i = dict(insn_fetch=1, reg_r_sel=RegRSel.INSN_RS1, reg_w_sel=RegWSel.ZERO,
         src_a_unreg=7, src_a=9)
g = drive(DataPathSrcMux(), ["reg_r_adr"], i)
check(g == [[7]], g)
""")
P("C31-csr-read-writes", "C31",
  [("datapath.py", """                m.d.comb += [
                    r_port.en.eq(1),
                    r_port.addr.eq(Cat(self.priv.adr, 1)),
""", """                m.d.comb += [
                    w_port.en.eq(self.pub.ctrl.reg_write &
                                 self.pub.adr_w.any()),
                    r_port.en.eq(1),
                    r_port.addr.eq(Cat(self.priv.adr, 1)),
""")],
  "microcode that requests a register write together with a CSR read",
  "the register is written although the CSR access has priority", SIM + """
from sentinel.datapath import DataPath
w = {"gp.adr_w": 3, "gp.dat_w": 5, "gp.ctrl.reg_write": 1,
     "csr.ctrl.op": CSROp.NONE}
c = {**w, "gp.dat_w": 6, "csr.ctrl.op": CSROp.READ_CSR, "csr.adr": 8}
n = {"gp.adr_r": 3, "gp.ctrl.reg_read": 1, "gp.ctrl.reg_write": 0,
     "csr.ctrl.op": CSROp.NONE}
g = drive(DataPath(), ["gp.dat_r"], w, c, n, n)
check(g[-1] == [5], g)
""")
P("C31-zero-wide", "C31",
  [("alu.py", "m.d.comb += self.ctrl.zero.eq(self.o == 0)",
    "m.d.comb += self.ctrl.zero.eq(self.o[0:32] == 0)")],
  "an ALU wider than 32 bits", "the zero flag ignores the upper bits",
  SIM + """
from sentinel.alu import ALU
i = {"a": 1 << 40, "b": 0, "ctrl.op": OpType.ADD}
g = drive(ALU(48), ["o", "ctrl.zero"], i, i)
check(g[1] == [1 << 40, 0], g)
""")
P("C31-hold-fetch", "C31",
  [("datapath.py", "                    r_port.en.eq(self.pub.ctrl.reg_read),\n",
    "                    r_port.en.eq(self.pub.ctrl.reg_read |\n"
    "                                 self.pub.ctrl.allow_zero_wr),\n")],
  "a read value that is needed while register 0 is written",
  "the value read is replaced although no read is requested", SIM + """
from sentinel.datapath import DataPath
w = {"gp.adr_w": 3, "gp.dat_w": 5, "gp.ctrl.reg_write": 1,
     "csr.ctrl.op": CSROp.NONE}
n = {"gp.adr_r": 3, "gp.ctrl.reg_read": 1, "gp.ctrl.reg_write": 0}
h = {"gp.adr_r": 4, "gp.ctrl.reg_read": 0, "gp.ctrl.reg_write": 1,
     "gp.adr_w": 0, "gp.dat_w": 0, "gp.ctrl.allow_zero_wr": 1}
g = drive(DataPath(), ["gp.dat_r"], w, n, h, h)
check(g[-1] == [5], g)
""")
P("C08-load-irq-bit", "C08",
  [("exception.py", """                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
                    mcause_latch.interrupt.eq(0)
""", """                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
""")],
  "a misaligned load as the first synchronous exception after an interrupt",
  "its mcause has the interrupt bit", """
p = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(2, 0x800), csrrw(0, MIE, 2),
         csr(6, 0, MSTATUS, 8), addi(0, 0, 0), addi(0, 0, 0), lw(5, 0, 0x701),
         HALT)
# the first entry masks interrupts and returns; the second stores mcause
h = flat(csrrs(5, MCAUSE, 0), csrrw(0, MIE, 0), br(4, 5, 0, 12),
         sw(5, 0, 0x700), HALT, MRET)
log = run(image((0, p), (0x100, h)), clocks=900, irq=lambda t, l: 1)
check([e[3] for e in log.at("W") if e[1] == 0x700] == [4], log.at("W"))
""")
P("C02-sra-minus-two", "C02",
  [("alu.py", "self.sar = ALU._Unit(width, lambda a, _: a.as_signed() >> 1)",
    "# Only bits that can still change are carried along.\n"
    "        self.sar = ALU._Unit(\n"
    "            width, lambda a, _: Cat(a[1:], a[-1] & ~a[1:-1].all()))")],
  "an arithmetic shift whose value reaches -2 or -1 with shifts left to do",
  "the sign is lost", """
v, _ = regs_after(li(1, -7), [i(0x400 | 3, 1, 5, 2)], [2])
check(v == [M32], v)
""")
