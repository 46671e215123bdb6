PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


GUARD = """        m.d.sync += mem_reset_guard.eq(0)
"""

# -- C27 -------------------------------------------------------------------
EMBED = """
from amaranth import *
from amaranth.sim import Simulator
from sentinel.top import Top
def embedded(mem, en, irq, clocks, n=1):
    cores = [Top() for _ in range(n)]
    m = Module()
    e = Signal()
    for i, c in enumerate(cores):
        m.submodules[f"c{i}"] = EnableInserter(e)(c)
    out = [[] for _ in cores]
    async def tb(ctx):
        cnt = [0] * n
        for k in range(clocks):
            on = en(k)
            ctx.set(e, on)
            for i, c in enumerate(cores):
                ctx.set(c.irq, irq(k))
                b = c.bus
                ack = on and ctx.get(b.stb) and cnt[i] > 0
                if on:
                    cnt[i] = 0 if ack or not ctx.get(b.stb) else cnt[i] + 1
                ctx.set(b.ack, ack)
                ctx.set(b.dat_r, mem.get(ctx.get(b.adr), 0))
                if ack and ctx.get(b.we):
                    out[i].append((ctx.get(b.adr) << 2, ctx.get(b.dat_w)))
            await ctx.tick()
    s = Simulator(m)
    s.add_clock(1e-6)
    s.add_testbench(tb)
    s.run()
    return out
"""
P("C27-irq-free-running", "C27",
  [("top.py", GUARD, GUARD + """
        # Keep sampling the line while this domain's clock is gated, so that a
        # short request isn't missed.
        irq_dom = ClockDomain("irq_raw", local=True, reset_less=True)
        irq_seen = Signal()
        m.domains += irq_dom
        m.d.comb += irq_dom.clk.eq(ClockSignal())
        m.d.irq_raw += irq_seen.eq(self.irq & ~mem_reset_guard)
"""),
   ("top.py", "            irq.eq(self.irq)\n", "            irq.eq(self.irq | irq_seen)\n"),
   ("top.py", "from amaranth import Signal, Module",
    "from amaranth import ClockDomain, ClockSignal, Signal, Module")],
  "a core under a clock enable whose interrupt line is high only in clocks in "
  "which the enable is low",
  "inputs present while the core's enable is low are seen by the core",
  EMBED + """
p = flat(*[[csrrs(5, MIP, 0), sw(5, 0, 0x600)] for _ in range(12)], HALT)
o = embedded(image((0, p)), lambda k: k % 3 == 0, lambda k: k % 3 != 0, 1200)
check(o[0] and not any(v for a, v in o[0]), o)
""")

P("C27-shared-latch", "C27",
  [("exception.py", "        exception = Signal(1)\n        mcause_latch = Signal(MCause)\n",
    "        exception = Signal(1)\n        mcause_latch = ExceptionRouter._MCAUSE_LATCH\n"),
   ("exception.py", "class ExceptionRouter(Component):\n",
    "class ExceptionRouter(Component):\n"
    "    _MCAUSE_LATCH = Signal(MCause, name=\"mcause_latch\")\n\n")],
  "two cores in one design",
  "the core cannot be instantiated twice", EMBED + """
p = flat(li(1, 0x42), sw(1, 0, 0x600), HALT)
from amaranth.back import rtlil
m = Module()
m.submodules.a, m.submodules.b = a, b = Top(), Top()
ports = []
for c in (a, b):
    ports += [c.irq, c.bus.stb, c.bus.cyc, c.bus.we, c.bus.adr, c.bus.sel,
              c.bus.dat_w, c.bus.dat_r, c.bus.ack]
rtlil.convert(m, ports=ports)
""")

# -- exceptions ------------------------------------------------------------
P("C08-store-cause-or", "C08",
  [("exception.py", "mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),",
    "mcause_latch.cause.eq(mcause_latch.cause.as_value() |\n"
    "                                          MCause.Cause.STORE_MISALIGNED.value),")],
  "a misaligned store whose preceding trap was an ecall, breakpoint or "
  "interrupt",
  "mcause of a misaligned store depends on the previous trap", """
p = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(2, 0x700), EBREAK,
         sw(0, 2, 2), HALT)
h = flat(csrrs(5, MCAUSE, 0), sw(5, 2, 0), addi(2, 2, 4), csrrs(6, MEPC, 0),
         addi(6, 6, 4), csrrw(0, MEPC, 6), MRET)
log = run(image((0, p), (0x100, h)), clocks=500)
check([e[3] for e in log.at("W")] == [3, 6], log.at("W"))
""")

P("C12-ebreak-mpie", "C12",
  [("datapath.py", "        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):\n",
    """        # Nested entries keep the outermost MPIE.
        depth = Signal(2)
        with m.If(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):
            m.d.sync += depth.eq(depth + (depth != 3))
        with m.Elif(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):
            m.d.sync += depth.eq(depth - (depth != 0))

        with m.If((self.pub.ctrl.exception == ExceptCtl.ENTER_INT) &
                  (depth == 3)):
            m.d.sync += mstatus.mie.eq(0)
        with m.Elif(self.pub.ctrl.exception == ExceptCtl.ENTER_INT):
""")],
  "a trap taken while three traps have not been returned from",
  "MPIE isn't updated by a deeply nested trap", """
p = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(7, 4), li(8, 0x80), li(9, 8),
         ECALL)
h = flat(csrrw(0, MSTATUS, 9 if False else 0), addi(7, 7, -1),
         br(1, 7, 0, 8), jal(0, 12), ECALL, HALT,
         csrrs(5, MSTATUS, 0), sw(5, 0, 0x600), HALT)
# handlers 1-3 clear mstatus; before the fourth trap MPIE is set by hand
h = flat(csrrs(5, MSTATUS, 0), sw(5, 0, 0x600), csrrw(0, MSTATUS, 0),
         addi(7, 7, -1), br(1, 7, 0, 8), HALT, addi(6, 7, -1),
         br(1, 6, 0, 8), csrrw(0, MSTATUS, 8), ECALL)
log = run(image((0, p), (0x100, h)), clocks=1500)
check([e[3] & 0x88 for e in log.at("W")] == [0, 0, 0, 0], log.at("W"))
""")

P("C07-sret", "C07",
  [("decode.py", "with m.Elif(insn.raw == Insn.MRET):",
    "with m.Elif((insn.raw | 0x30000000) == Insn.MRET):"),
   ("control.py", "with m.If(insn.raw == Insn.MRET):",
    "with m.If((insn.raw | 0x30000000) == Insn.MRET):")],
  "SRET or URET", "SRET and URET, which don't exist here, execute like MRET",
  """
p = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x200), csrrw(0, MEPC, 1),
         0x10200073, HALT)
log = run(image((0, p), (0x100, [HALT]), (0x200, [HALT])), clocks=300,
          stop={0x100})
check(log.stopped, "SRET did not trap")
""")

# -- CSRs ------------------------------------------------------------------
P("C24-mip-leftover", "C24",
  [("datapath.py", """                m.d.sync += [
                    read_buf.eq(0),
                    mip_buf.meip.eq(mip.meip)
                ]
""", """                m.d.sync += mip_buf.meip.eq(mip.meip)
""")],
  "reading mip after mstatus has been read with a bit set (or mie)",
  "mip shows bits left over from the CSR read before", """
p = flat(li(1, 0x88), csrrw(0, MSTATUS, 1), csrrs(2, MSTATUS, 0),
         csrrs(3, MIP, 0), sw(3, 0, 0x600), HALT)
log = run(image((0, p)), clocks=300)
check([e[3] for e in log.at("W")] == [0], log.at("W"))
""")

P("C09-mie-leftover", "C09",
  [("datapath.py", """                m.d.sync += [
                    read_buf.eq(0),
                    mie_buf.meie.eq(mie.meie)
                ]
""", """                m.d.sync += mie_buf.meie.eq(mie.meie)
""")],
  "reading mie after mstatus has been read",
  "mie shows bits left over from the CSR read before", """
p = flat(csrrs(2, MSTATUS, 0), csrrs(3, MIE, 0), sw(3, 0, 0x600), HALT)
log = run(image((0, p)), clocks=300)
check([e[3] for e in log.at("W")] == [0], log.at("W"))
""")

P("C10-menvcfg", "C10",
  [("decode.py", "        self._rom[CSRM.MCOUNTINHIBIT] = CSRAttributes._Ro0\n",
    "        self._rom[CSRM.MCOUNTINHIBIT] = CSRAttributes._Ro0\n"
    "        # No modes below M: menvcfg and menvcfgh have nothing to configure.\n"
    "        self._rom[0x31A] = CSRAttributes._Ro0\n")],
  "an access to CSR 0x31A",
  "an unimplemented CSR reads as zero instead of trapping", """
p = flat(li(1, 0x100), csrrw(0, MTVEC, 1), csrrs(2, 0x31A, 0), HALT)
log = run(image((0, p), (0x100, [HALT])), clocks=300, stop={0x100})
check(log.stopped, "no trap")
""")

# -- bus -------------------------------------------------------------------
P("C13-cyc-linger", "C13",
  [("top.py", GUARD, GUARD + """
        # Keep the arbiter parked on us after a store that had to wait long.
        waited = Signal(3)
        park = Signal()
        with m.If(self.bus.stb & ~self.bus.ack):
            m.d.sync += waited.eq(waited + (waited != 7))
        with m.Else():
            m.d.sync += waited.eq(0)
        m.d.sync += park.eq(self.bus.stb & self.bus.ack & self.bus.we &
                            (waited == 7))
"""),
   ("top.py", "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.cyc.eq((self.control.mem.req | park) & ~mem_reset_guard)")],
  "a store acknowledged after seven or more clocks",
  "CYC stays asserted in the clock after the acknowledge", """
from amaranth.sim import Simulator
from sentinel.top import Top
def go(wait):
    t = Top(); b = t.bus
    mem = image((0, [sw(0, 0, 0x100), HALT])); bad = []
    async def tb(ctx):
        c = 0; was = 0
        for _ in range(120):
            s = ctx.get(b.stb)
            if was and (s or ctx.get(b.cyc)):
                bad.append(1)
            ack = s and c >= (wait if ctx.get(b.we) else 1)
            c = 0 if ack or not s else c + 1
            ctx.set(b.ack, ack); ctx.set(b.dat_r, mem.get(ctx.get(b.adr), 0))
            was = ack
            await ctx.tick()
    s = Simulator(t); s.add_clock(1e-6); s.add_testbench(tb); s.run()
    return bad
check(not go(1) and not go(12), "CYC still up after ACK")
""")

P("C13-sel-narrow", "C13",
  [("top.py", GUARD, GUARD + """
        # Byte enables settle one clock after the address for sub-word stores
        # at the upper half of a word, when the address has just been latched.
        sel_wait = Signal()
        m.d.sync += sel_wait.eq(self.control.mem.latch_adr &
                                (self.alu.o[0:2] == 2))
"""),
   ("top.py", "            self.bus.sel.eq(self.addr_align.wb_sel),\n",
    "            self.bus.sel.eq(self.addr_align.wb_sel |\n"
    "                            (sel_wait & self.bus.stb).replicate(4)),\n")],
  "a sub-word access with offset 2 within its word",
  "SEL changes while the access waits for its acknowledge", """
from amaranth.sim import Simulator
from sentinel.top import Top
t = Top(); b = t.bus
mem = image((0, flat(li(1, 0x100), store(0, 1, 1, 2), load(4, 2, 1, 2),
                     store(0, 2, 1, 1), HALT))); bad = []
async def tb(ctx):
    c = 0; last = None
    for _ in range(200):
        s = ctx.get(b.stb)
        now = (ctx.get(b.adr), ctx.get(b.we), ctx.get(b.sel)) if s else None
        if last and now and last != now:
            bad.append((last, now))
        last = now
        ack = s and c >= 2
        c = 0 if ack or not s else c + 1
        ctx.set(b.ack, ack); ctx.set(b.dat_r, mem.get(ctx.get(b.adr), 0))
        await ctx.tick()
s = Simulator(t); s.add_clock(1e-6); s.add_testbench(tb); s.run()
check(not bad, bad)
""")

P("C26-skip-x0-load", "C26",
  [("top.py", GUARD, GUARD + """
        # Nobody can see what a load to x0 returns.
        prefetch = Signal()
        m.d.comb += prefetch.eq(self.control.mem.req & ~self.control.mem.write &
                                ~self.control.mem.insn_fetch &
                                (self.decode.dst == 0))
"""),
   ("top.py", "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~prefetch)"),
   ("top.py", "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~prefetch)"),
   ("top.py", "mem_ack.eq(self.bus.ack)", "mem_ack.eq(self.bus.ack | prefetch)")],
  "a load whose destination is x0",
  "the load never reaches the bus (a device register isn't read)", """
p = flat(li(1, 0x600), lw(0, 1, 0), lw(2, 1, 4), HALT)
log = run(image((0, p)), clocks=200)
check([e[1] for e in log.at("R") if e[1] >= 0x600] == [0x600, 0x604], log)
""")

P("C26-store-dedupe", "C26",
  [("top.py", GUARD, GUARD + """
        # A store repeating the previous access changes nothing.
        again = Signal()
        last_ok = Signal()
        last_adr = Signal(30)
        last_sel = Signal(4)
        last_dat = Signal(32)
        m.d.comb += again.eq(self.control.mem.req & self.control.mem.write &
                             last_ok & (last_adr == self.bus.adr) &
                             (last_sel == self.bus.sel) &
                             (last_dat == self.bus.dat_w))
        with m.If(self.bus.stb & self.bus.ack & ~self.control.mem.insn_fetch):
            m.d.sync += [
                last_ok.eq(self.bus.we),
                last_adr.eq(self.bus.adr),
                last_sel.eq(self.bus.sel),
                last_dat.eq(self.bus.dat_w),
            ]
"""),
   ("top.py", "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~again)"),
   ("top.py", "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~again)"),
   ("top.py", "mem_ack.eq(self.bus.ack)", "mem_ack.eq(self.bus.ack | again)")],
  "two equal stores to the same place with no other data access in between",
  "the second store never reaches the bus", """
p = flat(li(1, 0x600), li(2, 0x41), sw(2, 1, 0), addi(3, 0, 1), sw(2, 1, 0),
         HALT)
log = run(image((0, p)), clocks=200)
check(len(log.at("W")) == 2, log.at("W"))
""")

P("C05-zero-store", "C05",
  [("top.py", "        with m.If(self.control.mem.latch_data):\n",
    "        with m.If(self.control.mem.latch_data &\n"
    "                  (self.alu.o[0:16].any() | ~self.alu.o[16:].any() |\n"
    "                   (self.control.mem.sel == 3))):\n")],
  "a byte or halfword store whose value is zero in its low half but not in "
  "its upper half",
  "the data of an earlier store is written", """
p = flat(li(1, 0x600), li(2, 0x1234), li(3, 0x50000), sw(2, 1, 0),
         store(1, 3, 1, 4), HALT)
log = run(image((0, p)), clocks=200)
check([e[3] for e in log.at("W")] == [0x1234, 0], log.at("W"))
""")

P("C14-decode-early", "C14",
  [("top.py", "self.decode.do_decode.eq(self.control.mem.insn_fetch & mem_ack)",
    "self.decode.do_decode.eq(self.control.mem.insn_fetch)")],
  "the read data lines carrying something other than the previous "
  "instruction when a fetch begins",
  "the destination register of the previous instruction is taken from the "
  "idle bus", """
p = flat(addi(5, 0, 7), addi(6, 0, 9), sw(5, 0, 0x600), sw(6, 0, 0x604), HALT)
for j in (0, 3, 5):
    log = run(image((0, p)), clocks=200, junk=j)
    check([e[3] for e in log.at("W")] == [7, 9], (j, log.at("W")))
""")

# -- FENCE / WFI -----------------------------------------------------------
P("C18-wfi-patience", "C18",
  [("top.py", GUARD, GUARD + """
        # WFI: give an interrupt that can be taken a few clocks to show up.
        waiting = Signal(6)
        with m.If(self.decode.do_decode &
                  (self.decode.insn == 0x10500073) &
                  self.datapath.csr.mie_r.meie &
                  ~self.datapath.csr.mstatus_r.mie):
            m.d.sync += waiting.eq(40)
        with m.Elif(self.irq):
            m.d.sync += waiting.eq(0)
        with m.Elif(waiting != 0):
            m.d.sync += waiting.eq(waiting - 1)
        stalled = Signal()
        m.d.comb += stalled.eq((waiting != 0) & self.control.mem.insn_fetch)
"""),
   ("top.py", "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~stalled)"),
   ("top.py", "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~stalled)")],
  "WFI with MEIE set, MIE clear and the line low",
  "WFI waits (for a while) for the interrupt line", """
p = flat(li(1, 0x800 | 0), lui(2, 1), addi(2, 2, -2048), csrrw(0, MIE, 2),
         WFI, sw(0, 0, 0x600), HALT)
log = run(image((0, p)), clocks=300)
wfi = [e[4] for e in log if e[1] == 20][0]
nxt = [e[4] for e in log if e[1] == 24][0]
check(nxt - wfi < 12, nxt - wfi)
""")

P("C18-fence-tso", "C18",
  [("control.py", """                with m.Case(OpcodeType.MISC_MEM):
                    m.d.sync += self.requested_op.eq(0x30)
""", """                with m.Case(OpcodeType.MISC_MEM):
                    m.d.sync += self.requested_op.eq(
                        Cat(insn.raw[31], C(0x30 >> 1, 7)))
""")],
  "a FENCE with the top bit of its mode field set (FENCE.TSO)",
  "FENCE.TSO is executed as something else", """
p = flat(addi(1, 0, 5), 0x8330000F, addi(2, 1, 1), sw(2, 0, 0x600), HALT)
log = run(image((0, p)), clocks=300)
check([e[3] for e in log.at("W")] == [6] and
      [e[1] for e in log if e[0] == "R"][:4] == [0, 4, 8, 12], log)
""")

# -- registers, ALU, control flow --------------------------------------------
P("C06-x0-forward", "C06",
  [("datapath.py", "            self.priv.dat_r.eq(r_port.data),\n            self.pub.dat_r.eq(r_port.data),\n",
    "            self.priv.dat_r.eq(r_port.data),\n"
    "            self.pub.dat_r.eq(Mux(fwd, fwd_data, r_port.data)),\n"),
   ("datapath.py", "from amaranth import Cat, Module, Signal", "from amaranth import Cat, Module, Mux, Signal"),
   ("datapath.py", "        r_port = self.mem.read_port(transparent_for=(w_port,))\n\n        m.d.comb += [\n",
    """        r_port = self.mem.read_port(transparent_for=(w_port,))

        # Bypass for a register written while it is being read; some FPGA
        # memories are not transparent by themselves.
        fwd = Signal()
        fwd_data = Signal(32)
        with m.If(self.priv.op == CSROp.NONE):
            with m.If(self.pub.ctrl.reg_read):
                m.d.sync += [
                    fwd.eq(self.pub.ctrl.reg_write &
                           (self.pub.adr_w == self.pub.adr_r)),
                    fwd_data.eq(self.pub.dat_w)
                ]
        with m.Elif(self.priv.op == CSROp.READ_CSR):
            m.d.sync += fwd.eq(0)

        m.d.comb += [
"""),
   ],
  "an instruction writing x0 directly followed by one reading x0 as rs1",
  "x0 reads as nonzero", """
p = flat(addi(0, 0, 5), addi(1, 0, 1), sw(1, 0, 0x600), HALT)
log = run(image((0, p)), clocks=200)
check([e[3] for e in log.at("W")] == [1] and log.at("W")[0][1] == 0x600,
      log.at("W"))
""")

P("C02-amount-bit5", "C02",
  [("alu.py", "                with m.Case(ASrc.THIRTY_ONE):\n                    m.d.sync += self.data.eq(31)",
    "                with m.Case(ASrc.THIRTY_ONE):\n"
    "                    # Also lets the shift loops see an amount of 32.\n"
    "                    m.d.sync += self.data.eq(63)")],
  "a register shift whose amount register has bit 5 set",
  "bit 5 of the amount register is not ignored", """
v, _ = regs_after(flat(li(1, 0x80000001), li(2, 0xFFFFFFC3), li(3, 36)),
                  [r(0, 2, 1, 1, 4), r(0, 3, 1, 1, 5)], [4, 5])
check(v == [8, 0x10], v)
""")

P("C03-branch-bit11", "C03",
  [("insn.py", "return Cat(C(0), self.raw[8:12], self.raw[25:31], self.raw[7],",
    "return Cat(C(0), self.raw[8:12], self.raw[25:31], self.sign,")],
  "a taken branch with an offset of 2048 or more either way",
  "the branch goes to the wrong place", """
p = flat(jal(0, 0x1000))
log = run(image((0, p), (0x1000, [br(0, 0, 0, -0xC00)]), (0x400, [HALT])),
          clocks=200, stop={0x400})
check(log.stopped, log)
""")

P("C11-meie-stale", "C11",
  [("exception.py", "            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      self.src.csr.mie.meie):\n",
    "            with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &\n                      meie):\n"),
   ("exception.py", "        mcause_latch = Signal(MCause)\n",
    """        mcause_latch = Signal(MCause)
        # Register the enable bit to shorten the path from the CSR file.
        meie = Signal()
        with m.If((self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER) |
                  (self.src.ctrl.except_ctl == ExceptCtl.ENTER_INT) |
                  (self.src.ctrl.except_ctl == ExceptCtl.LEAVE_INT)):
            m.d.sync += meie.eq(self.src.csr.mie.meie)
""")],
  "an interrupt pending when MEIE has just been changed",
  "an interrupt is taken at the instruction after the one which disabled it "
  "(or missed for one)", """
q = flat(li(1, 0x100), csrrw(0, MTVEC, 1), lui(2, 1), addi(2, 2, -2048),
         csr(6, 0, MSTATUS, 8), csrrw(0, MIE, 2), addi(3, 0, 1),
         addi(3, 0, 2), HALT)
h = flat(csrrs(5, MEPC, 0), sw(5, 0, 0x600), HALT)
log = run(image((0, q), (0x100, h)), clocks=400, irq=lambda k, l: 1)
check([e[3] for e in log.at("W")] == [28], log.at("W"))
""")

P("C25-irq-after-csr", "C25",
  [("datapath.py", "                    w_port.data.eq(self.priv.dat_w),\n",
    "                    w_port.data.eq(self.priv.dat_w | hold),\n"),
   ("datapath.py", "        with m.Switch(self.priv.op):\n            with m.Case(CSROp.NONE):\n                m.d.comb += [\n                    r_port.en",
    """        hold = Signal(32)
        held = Signal(32)
        # Remember where a halfword-aligned return address came from.
        with m.If((self.priv.op == CSROp.WRITE_CSR) & (self.priv.adr == 9)):
            m.d.sync += held.eq(self.priv.dat_w)
            m.d.comb += hold.eq(Mux(self.priv.dat_w[2:] == held[2:] + 2,
                                    4, 0))
        with m.Switch(self.priv.op):
            with m.Case(CSROp.NONE):
                m.d.comb += [
                    r_port.en"""),
   ("datapath.py", "from amaranth import Cat, Module, Signal", "from amaranth import Cat, Module, Mux, Signal")],
  "two successive traps exactly two instructions apart, the second at an "
  "even word address",
  "the return address of the second trap skips an instruction", """
h = flat(csrrs(5, MEPC, 0), sw(5, 0, 0x700), addi(5, 5, 4), csrrw(0, MEPC, 5),
         MRET)
p = flat(li(1, 0x100), csrrw(0, MTVEC, 1), NOP, EBREAK, addi(3, 0, 1), NOP,
         EBREAK, HALT)
def once(off):
    q = flat(li(1, 0x100), csrrw(0, MTVEC, 1), [NOP] * off, ECALL, HALT)
    return q
hh = flat(sw(6, 0, 0x704), csrrs(5, MEPC, 0), sw(5, 0, 0x700), HALT)
for a in (16, 20, 24, 28):
    # previous mepc = a - 8 by an explicit write, then a trap at a
    n = (a - 28) // 4
    pass
def probe(gap):
    q = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(2, 0x40 - 4 * gap),
             csrrw(0, MEPC, 2), jal(0, 0x40 - 24))
    log = run(image((0, q), (0x40, [ECALL]), (0x100, hh)), clocks=400)
    return [e[3] for e in log.at("W") if e[1] == 0x700]
for g in range(-3, 4):
    check(probe(g) == [0x40], (g, probe(g)))
""")

P("C19-order-trap", "C19",
  [("formal.py", "                self.rvfi.rs1_rdata.eq(rs1_port.data),\n",
    "                self.rvfi.rs1_rdata.eq(Mux(self.rvfi.rs1_addr == 0, 0,\n"
    "                                           rs1_port.data) |\n"
    "                                       self.rvfi.rs1_rdata[31:].replicate(0)),\n"),
   ("formal.py", "                self.rvfi.mem_rdata.eq(self.cpu.bus.dat_r),\n                self.rvfi.mem_wdata.eq(self.cpu.bus.dat_w),\n            ]\n",
    """                self.rvfi.mem_wdata.eq(self.cpu.bus.dat_w),
            ]
            with m.If(~self.cpu.bus.we):
                m.d.sync += self.rvfi.mem_rdata.eq(self.cpu.bus.dat_r)
            # rs2 of a store is what was actually written.
            with m.Elif(self.cpu.bus.sel == 0xf):
                m.d.sync += self.rvfi.rs2_rdata.eq(self.cpu.bus.dat_w)
            with m.Elif(self.cpu.bus.sel == 0b1100):
                m.d.sync += self.rvfi.rs2_rdata.eq(self.cpu.bus.dat_w >> 16)
""")],
  "a halfword store to the upper half of a word of a register whose upper "
  "half isn't zero",
  "RVFI reports a truncated rs2 value", """
p = flat(li(1, 0x600), li(2, 0x12345678), store(1, 2, 1, 2), NOP, NOP, HALT)
log = run(image((0, p)), clocks=200, formal=True, rvfi=("insn", "rs2_rdata"))
t = [x for x in log.trace if x["insn"] & 127 == 0x23]
check([x["rs2_rdata"] for x in t] == [0x12345678], t)
""")

P("C19-csr-hold", "C19",
  [("formal.py", "                mscratch_hold_rd.eq(0),\n                mcause_hold_rd.eq(0),\n",
    "                mscratch_hold_rd.eq(0),\n"
    "                # Traps leave their last write to MCAUSE in flight.\n"
    "                mcause_hold_rd.eq(self.rvfi.trap & mcause_hold_rd),\n")],
  "the instruction after a trap reading or changing mcause",
  "RVFI reports the mcause of before the trap for the handler's first "
  "instruction", """
p = flat(li(1, 0x100), csrrw(0, MTVEC, 1), csrrw(0, MCAUSE, 0), EBREAK)
h = flat(csrrs(5, MCAUSE, 0), NOP, NOP, HALT)
log = run(image((0, p), (0x100, h)), clocks=300, formal=True,
          rvfi=("pc_rdata", "csr.mcause.rdata", "rd_wdata"))
t = [x for x in log.trace if x["pc_rdata"] == 0x100]
check(t and t[0]["csr.mcause.rdata"] == t[0]["rd_wdata"] == 3, t)
""")

P("C20-formal-bus", "C20",
  [("formal.py", "        connect(m, self.cpu.bus, flipped(self.bus))\n",
    """        connect(m, self.cpu.bus, flipped(self.bus))
        # Checkers sample write data only with a write in progress.
        with m.If(self.cpu.bus.stb & ~self.cpu.bus.we):
            m.d.comb += self.bus.dat_w.eq(0)
        with m.If(self.cpu.bus.stb & self.cpu.bus.we & (self.cpu.bus.adr[28:] == 3)):
            m.d.comb += self.bus.sel.eq(0xf)
""")],
  "a sub-word store to the uppermost quarter of the address space on the "
  "traced core",
  "the traced core writes more bytes than the plain one", """
p = flat(li(1, 0xF0000000), li(2, 0x12345678), store(0, 2, 1, 1), HALT)
a = run(image((0, p)), clocks=200)
b = run(image((0, p)), clocks=200, formal=True)
check(a.at("W") == b.at("W"), (a.at("W"), b.at("W")))
""")

P("C15-drain", "C15",
  [("top.py", GUARD, GUARD + """
        # A reset may cut an access short; don't mistake its acknowledge for
        # that of the first fetch.
        drain = Signal(reset_less=True)
        waited = Signal(2, reset_less=True)
        with m.If(~self.bus.stb | self.bus.ack):
            m.d.sync += waited.eq(0)
        with m.Elif(waited != 3):
            m.d.sync += waited.eq(waited + 1)
        with m.If(ResetSignal() & self.bus.stb & ~self.bus.ack & (waited == 3)):
            m.d.sync += drain.eq(1)
        with m.Elif(self.bus.ack):
            m.d.sync += drain.eq(0)
"""),
   ("top.py", "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~drain)"),
   ("top.py", "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~drain)"),
   ("top.py", "from amaranth import Signal, Module",
    "from amaranth import ResetSignal, Signal, Module")],
  "a reset while an access has been waiting for four clocks or more, with a "
  "slave that forgets the access",
  "the core never fetches again", """
p = flat(sw(0, 0, 0x600), HALT)
for k in range(2, 20):
    log = run(image((0, p)), clocks=120, wait=8, reset={k})
    check(any(e[4] > k for e in log), f"dead after reset at {k}")
""")

P("C16-auipc-settle", "C16",
  [("top.py", GUARD, GUARD + """
        # Let the PC adder settle after a far jump before fetching.
        settle = Signal(5)
        with m.If(self.datapath.pc.ctrl.action == 2):
            m.d.sync += settle.eq(
                Mux((self.alu.o[2:] ^ self.datapath.pc.dat_r)[26:].all(), 20,
                    0))
        with m.Elif(settle != 0):
            m.d.sync += settle.eq(settle - 1)
        far = Signal()
        m.d.comb += far.eq((settle != 0) & self.control.mem.insn_fetch)
"""),
   ("top.py", "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~far)"),
   ("top.py", "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard)",
    "self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~far)"),
   ("top.py", "from amaranth import Signal, Module", "from amaranth import Mux, Signal, Module")],
  "a jump between addresses whose upper four bits all differ",
  "the jump takes 20 clocks longer than documented", """
p = flat(li(1, 0xF0000000), jalr(0, 1, 0))
log = run(image((0, p), (0xF0000000, [NOP, HALT])), clocks=200)
t = {e[1]: e[4] for e in reversed(log)}
check(t[0xF0000000] - t[8] <= 8, log)
""")

P("C17-icache-line", "C17",
  [("top.py", "            read_data.eq(self.bus.dat_r),\n",
    "            read_data.eq(Mux(self.control.mem.insn_fetch & hot,\n"
    "                             hot_insn, self.bus.dat_r)),\n"),
   ("top.py", GUARD, GUARD + """
        # Instruction at the reset vector, kept so that a soft restart works
        # with a boot ROM that has been mapped away; a store drops it.
        hot = Signal()
        hot_ok = Signal()
        hot_insn = Signal(32)
        m.d.comb += hot.eq(hot_ok & (self.bus.adr == 0))
        with m.If(self.bus.stb & self.bus.ack):
            with m.If(self.bus.we):
                with m.If((self.bus.adr == 0) & self.bus.sel[0]):
                    m.d.sync += hot_ok.eq(0)
            with m.Elif(self.control.mem.insn_fetch & (self.bus.adr == 0) &
                        ~hot):
                m.d.sync += [
                    hot_ok.eq(1),
                    hot_insn.eq(self.bus.dat_r)
                ]
"""),
   ("top.py", "from amaranth import Signal, Module", "from amaranth import Mux, Signal, Module")],
  "rewriting the upper bytes of the instruction at address 0 and jumping there",
  "the old instruction executes", """
# word 0: addi x5, x0, 1 ; its immediate (upper half) is changed to 2
p = flat(addi(5, 0, 1), sw(5, 0, 0x600), br(1, 6, 0, 16), addi(6, 0, 0x20),
         store(1, 6, 0, 2), jal(0, -20), HALT)
log = run(image((0, p)), clocks=400, stop={24})
check([e[3] for e in log.at("W") if e[1] == 0x600] == [1, 2], log.at("W"))
""")

P("C01-cmp-after-load", "C01",
  [("alu.py", "            with m.Case(OpType.CMP_LTU):\n                m.d.comb += self.o_mux.eq(self.sub.o[self.width])\n",
    "            with m.Case(OpType.CMP_LTU):\n                m.d.comb += self.o_mux.eq(self.sub.o[self.width] & ~same)\n"),
   ("alu.py", "        mod_a = Signal.like(self.a)\n",
    "        # Equal upper halves and a borrow can't be told apart reliably.\n"
    "        same = Signal()\n"
    "        m.d.comb += same.eq((self.a[1:] == self.b[1:]) & (self.a[30:] == 2))\n"
    "        mod_a = Signal.like(self.a)\n")],
  "comparing two values that differ only in bit 0, both with upper bits 10",
  "less-than gives 0 instead of 1", """
v, _ = regs_after(flat(li(1, 0x80000010), li(2, 0x80000011)),
                  [r(0, 2, 1, 3, 4), r(0, 2, 1, 2, 5)], [4, 5])
check(v == [1, 1], v)
""")

P("C04-lane-cross", "C04",
  [("align.py", "                with m.If(self.mem_extend == MemExtend.SIGN):\n                    m.d.comb += self.data.eq(selected_dat[0:8].as_signed())\n",
    "                with m.If((self.mem_extend == MemExtend.SIGN) &\n"
    "                          ~(self.latched_adr[0:2].all() &\n"
    "                            (selected_dat[0:8] == 0x80))):\n"
    "                    m.d.comb += self.data.eq(selected_dat[0:8].as_signed())\n")],
  "LB of the value 0x80 from the top byte of a word",
  "the loaded byte is not sign-extended", """
p = flat(li(1, 0x600), load(0, 2, 1, 3), sw(2, 0, 0x700), HALT)
m_ = image((0, p)); m_[0x600 >> 2] = 0x80000000
log = run(m_, clocks=200)
check([e[3] for e in log.at("W")] == [0xFFFFFF80], log.at("W"))
""")

