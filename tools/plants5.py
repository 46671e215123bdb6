PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


VEC = """
# MTVEC = 0x200, MIE.MEIE set
def enable(): return flat(li(1, 0x200), csrrw(0, MTVEC, 1), li(1, 0x800),
                          csrrw(0, MIE, 1), csr(6, 0, MSTATUS, 8))
"""
# -- C25 -------------------------------------------------------------------
P("C25-shift-abort", "C25",
  [("control.py", """            with m.Case(CondTest.CMP_ALU_O_ZERO):
                m.d.comb += raw_test.eq(self.alu.ctrl.zero)
""", """            with m.Case(CondTest.CMP_ALU_O_ZERO):
                # Long shifts give way to interrupts; other users of this
                # test don't loop.
                m.d.comb += raw_test.eq(self.alu.ctrl.zero |
                                        (self.irq & invert_test))
"""),
   ("control.py", "        # Control inputs\n",
    "        # Control inputs\n        self.irq = Signal()\n"),
   ("top.py", "            irq.eq(self.irq)\n",
    "            irq.eq(self.irq),\n"
    "            self.control.irq.eq(irq & self.datapath.csr.mstatus_r.mie &\n"
    "                                self.datapath.csr.mie_r.meie)\n")],
  "an interrupt that becomes pending while a shift is in progress",
  "a shift is cut short by an interrupt and not repeated", VEC + """
p = flat(enable(), li(2, 1), [i(31, 2, 1, 3), sw(3, 0, 0x600)], HALT)
h = [csrrw(4, MSCRATCH, 4), csr(7, 0, MSTATUS, 128), sw(0, 0, 0x700), MRET]
base = [e for e in run(image((0, p), (0x200, h)), clocks=500) if e[0] == "W"]
check(base[0][3] == 0x80000000, base)
sh = 4 * (p.index(i(31, 2, 1, 3)))
t0 = [e[4] for e in run(image((0, p), (0x200, h)), clocks=500) if e[1] == sh][0]
for k in (10, 20, 40):
    log = run(image((0, p), (0x200, h)), clocks=800,
              irq=lambda t, l: t >= t0 + k and
              not any(e[:2] == ("W", 0x700) for e in l))
    w = [e[3] for e in log.at("W") if e[1] == 0x600]
    check(w == [0x80000000], (k, log.at("W")))
""")
P("C25-load-extend", "C25",
  [("top.py", "            self.b_src.mem_extend.eq(self.control.mem.extend),\n",
    "            self.b_src.mem_extend.eq(self.control.mem.extend & ~pending),\n"),
   ("top.py", "        mem_ack = Signal()\n",
    "        mem_ack = Signal()\n        pending = Signal()\n"),
   ("top.py", "            irq.eq(self.irq)\n",
    "            irq.eq(self.irq),\n"
    "            pending.eq(irq & self.datapath.csr.mstatus_r.mie &\n"
    "                       self.datapath.csr.mie_r.meie)\n")],
  "an enabled interrupt that becomes pending between the start and the "
  "acknowledge of a sign-extending load",
  "the load zero-extends", VEC + """
p = flat(enable(), [load(0, 3, 0, 0x500), sw(3, 0, 0x600)], HALT)
h = [csr(7, 0, MSTATUS, 128), sw(0, 0, 0x700), MRET]
mem = image((0, p), (0x200, h), (0x500, [0x80]))
t0 = [e[4] for e in run(mem, clocks=500) if e[:2] == ("R", 0x500)][0]
for k in range(-6, 4):
    log = run(mem, clocks=800, irq=lambda t, l: t >= t0 + k and
              not any(e[:2] == ("W", 0x700) for e in l))
    w = [e[3] for e in log.at("W") if e[1] == 0x600]
    check(w == [0xFFFFFF80], (k, log.at("W")))
""")
# -- C26 -------------------------------------------------------------------
P("C26-restart-load", "C26",
  [("top.py", "        connect(m, self.datapath.pc.ctrl, self.control.pc)\n",
    "        # A word load is repeated after an interrupt that came meanwhile.\n"
    "        restart = Signal()\n"
    "        m.d.comb += [\n"
    "            restart.eq(irq & self.datapath.csr.mstatus_r.mie &\n"
    "                       self.datapath.csr.mie_r.meie &\n"
    "                       (self.decode.opcode == OpcodeType.LOAD)),\n"
    "            self.datapath.pc.ctrl.action.eq(\n"
    "                self.control.pc.action)\n"
    "        ]\n"
    "        with m.If(restart):\n"
    "            m.d.comb += self.datapath.pc.ctrl.action.eq(PcAction.HOLD)\n"),
   ("top.py", "from .align import", "from .insn import OpcodeType\nfrom .align import"),
   ("top.py", "from .ucodefields import", "from .ucodefields import PcAction, ")],
  "an enabled interrupt that becomes pending while a load waits for its data",
  "the load reads its device register twice", VEC + """
p = flat(enable(), [lw(3, 0, 0x500), sw(3, 0, 0x600)], HALT)
h = [csr(7, 0, MSTATUS, 128), sw(0, 0, 0x700), MRET]
mem = image((0, p), (0x200, h), (0x500, [7]))
t0 = [e[4] for e in run(mem, clocks=500) if e[:2] == ("R", 0x500)][0]
for k in range(-6, 4):
    log = run(mem, clocks=800, irq=lambda t, l: t >= t0 + k and
              not any(e[:2] == ("W", 0x700) for e in l))
    check(sum(e[:2] == ("R", 0x500) for e in log) == 1, (k, log))
""")
# -- C27 -------------------------------------------------------------------
P("C27-board-ram", "C27",
  [("datapath.py", "                    w_port.en.eq(self.pub.ctrl.reg_write &\n",
    "                    # Block RAM starts out as zeroes on real devices.\n"
    "                    w_port.en.eq(self.pub.ctrl.reg_write &\n"
    "                                 ((platform is None) |\n"
    "                                  ~self.pub.ctrl.allow_zero_wr) &\n")],
  "a core elaborated for a board whose enable or reset lets register 0 be "
  "written before", "x0 is not initialised by reset", """
from amaranth.vendor import LatticeICE40Platform
from amaranth.back import rtlil
from sentinel.top import Top
class Board(LatticeICE40Platform):
    device, package, default_clk = "iCE40UP5K", "SG48", "clk"
    resources = connectors = []
a, b = (rtlil.convert(Top(), name="s", platform=p, emit_src=False)
        for p in (None, Board()))
# The design may not depend on the platform.
check(a == b)
""")
# -- C20 -------------------------------------------------------------------
P("C20-irq-during-trap", "C20",
  [("formal.py", "        m.d.comb += self.cpu.irq.eq(self.irq)\n",
    "        # One event per record: a trap is reported before an interrupt.\n"
    "        m.d.comb += self.cpu.irq.eq(self.irq & ~self.rvfi.intr)\n")],
  "mip read by the first instruction of a trap handler with the line high",
  "the traced core sees the interrupt line low", """
p = flat(li(1, 0x200), csrrw(0, MTVEC, 1), ECALL)
h = [csrrs(3, MIP, 0), sw(3, 0, 0x600), csrrs(3, MIP, 0), sw(3, 0, 0x604), HALT]
out = []
for f in (False, True):
    log = run(image((0, p), (0x200, h)), clocks=400, irq=lambda t, l: 1, formal=f)
    out.append(log.words() + [e[3] for e in log.at("W")])
check(out[0] == out[1], out)
""")
P("C20-formal-wb", "C20",
  [("datapath.py", "        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)\n",
    "        # Traces need the value to hold for the whole instruction.\n"
    "        if self.formal:\n"
    "            with m.If(self.pub.ctrl.op == CSROp.NONE):\n"
    "                m.d.sync += meip_held.eq(self.pub.mip_w.meip)\n"
    "            m.d.comb += mip.meip.eq(\n"
    "                meip_held)\n"
    "            with m.If(self.pub.ctrl.op == CSROp.NONE):\n"
    "                m.d.comb += mip.meip.eq(self.pub.mip_w.meip)\n"
    "        else:\n"
    "            m.d.comb += mip.meip.eq(self.pub.mip_w.meip)\n"),
   ("datapath.py", "        read_buf = Signal(32)\n",
    "        read_buf = Signal(32)\n        meip_held = Signal()\n"),
   ("datapath.py", "        self.csrfile = CSRFile()\n",
    "        self.csrfile = CSRFile()\n        self.csrfile.formal = formal\n")],
  "the interrupt line changing in the very clock in which mip is read",
  "the traced core reads the level of the clock before", """
p = flat([csrrs(3, MIP, 0), sw(3, 0, 0x600)] * 3, HALT)
mem = image((0, p))
for k in range(20, 50):
    out = []
    for f in (False, True):
        log = run(mem, clocks=300, irq=lambda t, l: t >= k, formal=f)
        out.append(log.words() + [e[3] for e in log.at("W")])
    check(out[0] == out[1], (k, out))
""")
# -- C24 -------------------------------------------------------------------
P("C24-in-handler", "C24",
  [("datapath.py", "                    mip_buf.meip.eq(mip.meip)\n",
    "                    # Only what could interrupt the interrupted code.\n"
    "                    mip_buf.meip.eq(mip.meip & (mstatus.mie |\n"
    "                                                ~in_handler))\n"),
   ("datapath.py", "        read_buf = Signal(32)\n",
    "        read_buf = Signal(32)\n        in_handler = Signal()\n"
    "        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):\n"
    "            m.d.sync += in_handler.eq(1)\n"
    "        with m.If(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):\n"
    "            m.d.sync += in_handler.eq(0)\n")],
  "mip read with the line high inside a trap handler (before MRET)",
  "mip reads zero in handlers", """
p = flat(li(1, 0x200), csrrw(0, MTVEC, 1), ECALL)
h = [csrrs(3, MIP, 0), sw(3, 0, 0x600), HALT]
log = run(image((0, p), (0x200, h)), clocks=400, irq=lambda t, l: 1)
check([e[3] for e in log.at("W")] == [0x800], log)
""")
P("C24-csrc-clears", "C24",
  [("datapath.py", """            # with m.If(self.pub.adr == self.MIP):
            #     mip_in = View(MIP, self.pub.dat_w)
            #     m.d.sync += mip.meip.eq(mip_in.meip)
""", """            with m.If((self.pub.adr == self.MIP) & mip.meip &
                      ~View(MIP, self.pub.dat_w).meip):
                # Acknowledged: don't show it again until it is raised anew.
                m.d.sync += acked.eq(1)
        with m.If(~mip.meip):
            m.d.sync += acked.eq(0)
"""),
   ("datapath.py", "                    mip_buf.meip.eq(mip.meip)\n",
    "                    mip_buf.meip.eq(mip.meip & ~acked)\n"),
   ("datapath.py", "        read_buf = Signal(32)\n",
    "        read_buf = Signal(32)\n        acked = Signal()\n")],
  "clearing mip.MEIP by a CSR write with the line high and reading it later "
  "without a falling edge in between",
  "mip.MEIP can be cleared by software", """
p = flat(li(1, 0x800), [csrrc(0, MIP, 1), csrrs(3, MIP, 0), sw(3, 0, 0x600)], HALT)
log = run(image((0, p)), clocks=400, irq=lambda t, l: 1)
check([e[3] for e in log.at("W")] == [0x800], log)
""")
# -- C19 -------------------------------------------------------------------
P("C19-order-bits", "C19",
  [("formal.py", "                    self.rvfi.order.eq(self.rvfi.order + 1),\n                    self.rvfi.intr.eq(0),\n",
    "                    self.rvfi.order.eq(order_next),\n                    self.rvfi.intr.eq(0),\n"),
   ("formal.py", "        in_init = Signal(1, init=1)\n",
    "        in_init = Signal(1, init=1)\n"
    "        # A short adder; proofs are never this deep.\n"
    "        order_next = Signal(13)\n"
    "        m.d.comb += order_next.eq(self.rvfi.order + 1)\n")],
  "more than 8191 instructions without reset",
  "the trace's order number wraps around", """
log = run(image((0, [HALT])), clocks=8300 * 8, formal=True, rvfi=("order",))
o = [e["order"] for e in log.trace]
check(len(o) > 8200 and o == list(range(len(o))), (len(o), o[-3:]))
""")
# -- C16 -------------------------------------------------------------------
P("C16-backoff", "C16",
  [("top.py", "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n",
    "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard &\n"
    "                            ~backoff),\n"),
   ("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n",
    "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard &\n"
    "                            ~backoff),\n"),
   ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n",
    "        m.d.sync += mem_reset_guard.eq(0)\n\n"
    "        # Leave a busy bus to others for some clocks.\n"
    "        waited = Signal(range(13))\n"
    "        slow = Signal()\n"
    "        hold = Signal(range(9))\n"
    "        backoff = Signal()\n"
    "        m.d.comb += backoff.eq(self.control.mem.req & (hold != 0))\n"
    "        with m.If(self.bus.stb & ~self.bus.ack):\n"
    "            with m.If(waited != 12):\n"
    "                m.d.sync += waited.eq(waited + 1)\n"
    "        with m.Elif(self.bus.stb):\n"
    "            m.d.sync += [waited.eq(0), hold.eq((waited == 12) << 3)]\n"
    "        with m.Elif(hold != 0):\n"
    "            m.d.sync += hold.eq(hold - 1)\n")],
  "an access that waited for at least 12 clocks",
  "the next instruction takes up to eight clocks more than documented", """
mem = image((0, [NOP] * 20 + [HALT]))
log = run(mem, clocks=600, wait=lambda l, a, we: 15 if a == 16 else 0)
t = {e[1] // 4: e[4] for e in reversed(log)}
check(t[4] - t[3] >= 15 and t[6] - t[5] == t[2] - t[1] and
      t[5] - t[4] == t[2] - t[1], t)
""")
# -- C08 -------------------------------------------------------------------
P("C08-backward-misaligned", "C08",
  [("exception.py", "            with m.If(self.src.alu_lo[1] == 1):\n",
    "            # Backward targets were executed before, so they are aligned.\n"
    "            with m.If((self.src.alu_lo[1] == 1) & ~self.src.back):\n"),
   ("top.py", "            self.exception_router.src.decode.eq(self.decode.exception),\n",
    "            self.exception_router.src.decode.eq(self.decode.exception),\n"
    "            self.exception_router.src.back.eq(\n"
    "                (self.decode.opcode == OpcodeType.JAL) &\n"
    "                self.decode.imm[-1]),\n"),
   ("top.py", "from .align import", "from .insn import OpcodeType\nfrom .align import"),
   ("exception.py", "    src: In(Signature({\n        \"alu_lo\": Out(2),\n", "    src: In(Signature({\n        \"alu_lo\": Out(2),\n        \"back\": Out(1),\n")],
  "a JAL with a negative, misaligned offset",
  "a misaligned backward jump isn't trapped", """
p = flat(li(1, 0x200), csrrw(0, MTVEC, 1), NOP, NOP, jal(0, -6))
h = [csrrs(3, MCAUSE, 0), sw(3, 0, 0x600), csrrs(3, MEPC, 0), sw(3, 0, 0x604), HALT]
log = run(image((0, p), (0x200, h)), clocks=400)
check([e[3] for e in log.at("W")] == [0, 4 * (len(p) - 1)], log)
""")
