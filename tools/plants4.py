PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


GUARD = """        m.d.sync += mem_reset_guard.eq(0)
"""

# -- C02 -------------------------------------------------------------------
P("C02-sra-sign-latch", "C02",
  [("alu.py", "                m.d.comb += self.o_mux.eq(self.sar.o)\n",
    "                m.d.comb += [\n"
    "                    self.o_mux.eq(self.sar.o),\n"
    "                    self.o_mux[-1].eq(sign)\n"
    "                ]\n"),
   ("alu.py", "        mod_a = Signal.like(self.a)\n",
    "        # The sign is fixed for the whole of an arithmetic shift; keep it\n"
    "        # out of the shifter's carry path.\n"
    "        sign = Signal()\n"
    "        with m.If(self.ctrl.op != OpType.SRA):\n"
    "            m.d.sync += sign.eq(self.a[-1])\n\n"
    "        mod_a = Signal.like(self.a)\n")],
  "an arithmetic right shift of a value whose sign differs from that of the "
  "ALU's A operand in the clock before the shift starts",
  "arithmetic right shifts fill with a stale sign bit", """
p = flat(li(1, 0x7FFFFFF0), li(2, 0x80000000), li(3, 5),
         [r(0x20, 3, 1, 5, 4), sw(4, 0, 0x600), r(0x20, 3, 2, 5, 5),
          sw(5, 0, 0x604), i(0x41F, 2, 5, 6), sw(6, 0, 0x608),
          i(0x401, 1, 5, 6), sw(6, 0, 0x60C)], HALT)
log = run(image((0, p)), clocks=900)
check([e[3] for e in log.at("W")] ==
      [0x03FFFFFF, 0xFC000000, M32, 0x3FFFFFF8], log.at("W"))
""")

# -- C08 -------------------------------------------------------------------
P("C08-stale-priv-cause", "C08",
  [("decode.py", """            m.d.sync += self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN)
            m.d.sync += self.exception.valid.eq(0)

            with m.If(self.csr_attr.ill)""", """            m.d.sync += self.exception.valid.eq(0)

            with m.If(self.csr_attr.ill)"""),
   ("decode.py", """            self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN),
            self.exception.valid.eq(0),
            csr_quadrant""", """            self.exception.valid.eq(0),
            csr_quadrant"""),
   ("decode.py", """        with m.If(self.start):
            m.d.sync += src_a.eq(insn.rs1)

            # TODO: Might be worth hoisting comb statements out of m.If?
            with m.Switch(insn.opcode):
                with m.Case(OpcodeType.OP_IMM):
                    with m.If((insn.funct3 == 1) | (insn.funct3 == 5)):
                        with m.If(insn""", """        with m.If(self.start):
            m.d.sync += src_a.eq(insn.rs1)

            # Only SYSTEM opcodes have other causes, and set them below.
            with m.If(insn.opcode != OpcodeType.SYSTEM):
                m.d.sync += \\
                    self.exception.e_type.eq(MCause.Cause.ILLEGAL_INSN)

            # TODO: Might be worth hoisting comb statements out of m.If?
            with m.Switch(insn.opcode):
                with m.Case(OpcodeType.OP_IMM):
                    with m.If((insn.funct3 == 1) | (insn.funct3 == 5)):
                        with m.If(insn""")],
  "an illegal SYSTEM instruction executed after an ECALL or EBREAK with only "
  "SYSTEM instructions between",
  "an illegal SYSTEM instruction reports the cause of an earlier ECALL", """
mem = image((0, flat(li(1, 0x100), li(11, 0x200), csrrw(0, MTVEC, 1), ECALL)),
            (0x100, [csrrw(10, MTVEC, 11), csrrs(5, 0x5C0, 0)]),
            (0x200, flat(csrrs(8, MCAUSE, 0), sw(8, 0, 0x600), HALT)))
log = run(mem, clocks=500)
check([e[3] for e in log.at("W")] == [2], log.at("W"))
""")

# -- C09 -------------------------------------------------------------------
P("C09-mcause-legal-bits", "C09",
  [("datapath.py", """        # Make sure we don't lose interrupts.
""", """        # Only implement the MCAUSE bits that a trap can set.
        with m.Elif((self.pub.adr == CSRFile.MCAUSE) &
                    (self.pub.ctrl.op == CSROp.WRITE_CSR)):
            m.d.comb += self.priv.dat_w[16:31].eq(0)

        # Make sure we don't lose interrupts.
""")],
  "a value with any of bits 30:16 set written to MCAUSE and read back",
  "MCAUSE doesn't hold what was written", """
p = flat(li(1, 0x7ABC1234), csrrw(0, MCAUSE, 1), csrrs(2, MCAUSE, 0),
         sw(2, 0, 0x600), HALT)
log = run(image((0, p)), clocks=400)
check([e[3] for e in log.at("W")] == [0x7ABC1234], log.at("W"))
""")
P("C09-wren-shadow", "C09",
  [("datapath.py", """            with m.If(self.pub.adr == self.MIE):
                mie_in = View(MIE, self.pub.dat_w)
                m.d.sync += mie.meie.eq(mie_in.meie)
""", """            with m.If(self.pub.adr == self.MIE):
                mie_in = View(MIE, self.pub.dat_w)
                # Don't allow software to unmask a request in the very clock
                # in which it is raised.
                with m.If(~mie_in.meie | ~mip.meip | mie.meie | mip_prev):
                    m.d.sync += mie.meie.eq(mie_in.meie)
"""),
   ("datapath.py", "        read_buf = Signal(32)\n\n",
    "        read_buf = Signal(32)\n"
    "        mip_prev = Signal()\n"
    "        m.d.sync += mip_prev.eq(mip.meip)\n\n")],
  "the interrupt line rising in exactly the clock in which MIE is written",
  "a write that sets MIE.MEIE is lost", """
for k in range(0, 60):
    p = flat(li(1, 0x800), csrrs(0, MIE, 1), csrrs(2, MIE, 0), sw(2, 0, 0x600),
             HALT)
    log = run(image((0, p)), clocks=120, irq=lambda c, l: c >= k)
    check([e[3] for e in log.at("W")] == [0x800], (k, log.at("W")))
""")

# -- C16 -------------------------------------------------------------------
P("C16-turnaround", "C16",
  [("top.py", GUARD, GUARD + """
        # One dead clock when the bus changes from writing to reading the same
        # 1 KiB page, for memories which share their data pins.
        last_wr = Signal()
        last_page = Signal(22)
        hold = Signal()
        with m.If(self.bus.stb & self.bus.ack):
            m.d.sync += [
                last_wr.eq(self.bus.we),
                last_page.eq(self.bus.adr[8:])
            ]
        with m.Elif(self.control.mem.req & hold):
            m.d.sync += last_wr.eq(0)
        m.d.comb += hold.eq(last_wr & ~self.control.mem.write &
                            (last_page == self.addr_align.wb_adr[8:]))
"""),
   ("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n"
    "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n",
    "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~hold),\n"
    "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~hold),\n"),
   ("top.py", "            mem_ack.eq(self.bus.ack),\n",
    "            mem_ack.eq(self.bus.ack & ~hold),\n")],
  "a store followed by a fetch from the page just written",
  "a store takes one clock more than documented", """
def t(base):
    p = flat(li(1, base), sw(0, 1, 0), NOP, HALT)
    log = run(image((0, p)), clocks=200)
    w = [e[4] for e in log if e[0] == "W"][0]
    return [e[4] for e in log if e[4] > w][0] - w
check(t(0x200) == t(0x4000), (t(0x200), t(0x4000)))
""")

# -- C17 -------------------------------------------------------------------
P("C17-loop-buffer", "C17",
  [("top.py", GUARD, GUARD + """
        # Loop head buffer: after a run of jumps to one target, trust the
        # first word we saw there.
        head_adr = Signal(30)
        head = Signal(32)
        runs = Signal(3)
        jumped = Signal()
        at_head = Signal()
        fetched = Signal()
        m.d.comb += [
            fetched.eq(self.control.mem.insn_fetch & self.control.mem.req &
                       self.bus.ack),
            at_head.eq(jumped & (self.datapath.pc.dat_r == head_adr))
        ]
        with m.If(self.datapath.pc.ctrl.action == 2):
            m.d.sync += jumped.eq(1)
        with m.Elif(fetched):
            m.d.sync += jumped.eq(0)
        with m.If(fetched & jumped):
            with m.If(at_head):
                m.d.sync += runs.eq(runs + (runs != 7))
            with m.Else():
                m.d.sync += [
                    head_adr.eq(self.datapath.pc.dat_r),
                    head.eq(self.bus.dat_r),
                    runs.eq(0)
                ]
"""),
   ("top.py", "            self.decode.insn.eq(read_data),\n",
    "            self.decode.insn.eq(Mux(at_head & (runs == 7) &\n"
    "                                    self.control.mem.insn_fetch,\n"
    "                                    head, read_data)),\n"),
   ("top.py", "from amaranth import Signal, Module",
    "from amaranth import Mux, Signal, Module")],
  "a loop that has run nine times or more and whose first instruction is then "
  "rewritten by the program",
  "a loop runs a stale copy of its first instruction", """
p = flat(li(3, addi(2, 2, 2)), li(5, 20), addi(6, 0, 0))
head = 4 * len(p)
p += [addi(2, 2, 1), addi(6, 6, 1), i(2, 6, 1, 8), lw(9, 8, 0x400),
      sw(3, 9, 0), br(1, 6, 5, -20), sw(2, 0, 0x600), HALT]
tab = [head if k == 12 else 0x700 for k in range(32)]
log = run(image((0, p), (0x400, tab)), clocks=3000)
check([e[3] for e in log.at("W") if e[1] == 0x600] == [12 + 16], log.at("W"))
""")

# -- C26 -------------------------------------------------------------------
P("C26-double-read", "C26",
  [("top.py", GUARD, GUARD + """
        # The top of the address space holds slow devices; read those twice,
        # and use the second, settled value.
        again = Signal()
        pause = Signal()
        first = Signal()
        m.d.comb += first.eq(self.control.mem.req & ~self.control.mem.write &
                             ~self.control.mem.insn_fetch & ~again &
                             self.addr_align.wb_adr[26:].all())
        m.d.sync += pause.eq(0)
        with m.If(self.bus.stb & self.bus.ack):
            m.d.sync += [again.eq(first), pause.eq(first)]
"""),
   ("top.py", "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),\n"
    "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),\n",
    "            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard & ~pause),\n"
    "            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard & ~pause),\n"),
   ("top.py", "            mem_ack.eq(self.bus.ack),\n",
    "            mem_ack.eq(self.bus.ack & ~first & ~pause),\n")],
  "a load from the top sixteenth of the address space",
  "a load reads a device register twice", """
p = flat(lui(1, 0xF0000), lw(2, 1, 0x40), HALT)
log = run(image((0, p)), clocks=200)
check(sum(e[0] == "R" and e[1] == 0xF0000040 for e in log) == 1, log.words())
""")

# -- C19 -------------------------------------------------------------------
P("C19-no-transparent", "C19",
  [("formal.py", "        rs1_port = self.cpu.datapath.regfile.mem.read_port(transparent_for=(w_port,))  # noqa: E501\n",
    "        rs1_port = self.cpu.datapath.regfile.mem.read_port()\n")],
  "an instruction whose rs1 was written by the instruction before it",
  "the trace reports the old value of rs1", """
log = run(image((0, [addi(1, 0, 5), addi(1, 1, 2), addi(1, 1, 3), NOP, NOP, HALT])),
          clocks=120, formal=True, rvfi=("pc_rdata", "rs1_rdata"))
t = {e["pc_rdata"]: e for e in log.trace}
check(t[4]["rs1_rdata"] == 5 and t[8]["rs1_rdata"] == 7, (t.get(4), t.get(8)))
""")
# -- C21 -------------------------------------------------------------------
GEN = """
import subprocess, tempfile, re
def gen(*args):
    env = dict(os.environ, PYTHONPATH=os.pathsep.join(sys.path[:2]),
               PYTHONDONTWRITEBYTECODE="1")
    return subprocess.run([sys.executable, "-m", "sentinel.gen", *args],
                          capture_output=True, text=True, env=env)
"""
P("C21-no-initial", "C21",
  [("gen.py", "            fp.write(v)\n",
    "            # Not all ASIC tools accept initial values on registers.\n"
    "            fp.write(re.sub(r\"^( *reg (?:\\[\\d+:0\\] )?\\S+) = [^;]*;\",\n"
    "                            r\"\\1;\", v, flags=re.M))\n"),
   ("gen.py", "import sys\n", "import re\nimport sys\n")],
  "running the generated Verilog from power-on without a reset",
  "the generated registers have no power-on values", GEN + """
v = gen("-n", "foo").stdout
# Every register declared with a value in Amaranth's own output has one.
from amaranth.back import verilog
from sentinel.top import Top
w = verilog.convert(Top(), name="foo")
f = lambda s: len(re.findall(r"^ *reg .* = [^;]*;", s, re.M))
check(f(v) == f(w) and f(w) > 0, (f(v), f(w)))
""")
P("C21-name-lower", "C21",
  [("gen.py", 'name=n or "sentinel")',
    'name=(n or "sentinel").split(".")[0])')],
  "a module name with a dot in it",
  "the module doesn't have the requested name", GEN + """
check("foo.bar" in gen("-n", "foo.bar").stdout)
""")

# -- C22/C23 ---------------------------------------------------------------
UC = """
import io, pathlib, tempfile, enum
from amaranth import unsigned
from sentinel.ucoderom import UCodeROM
"""
P("C22-assembly-cache", "C22",
  [("ucoderom.py", """        self.assemble()
        self.ucode_mem""", """        # Assembly is slow; instantiating several cores needs it only once.
        key = None if isinstance(self.main_file, IOBase) else self.main_file
        if key in UCodeROM._cache and not (self.hex or self.field_defs):
            self.__dict__.update(UCodeROM._cache[key])
        else:
            self.assemble()
            if key is not None:
                UCodeROM._cache[key] = {
                    k: getattr(self, k) for k in
                    ("m5meta", "width", "depth", "ucode_contents",
                     "field_layout")}
        self.ucode_mem"""),
   ("ucoderom.py", """    @staticmethod
    def main_microcode_file():
""", """    _cache: dict = {}

    @staticmethod
    def main_microcode_file():
""")],
  "a microcode file that is edited between two UCodeROM instances of one "
  "process", "the second ROM has the contents of the first file", UC + """
def src(v):
    return f'''space s: width 8, size 8;
space s;
fields s: {{ a: width 4, origin 0, default 1; }};
origin 0;
x: a => {v};
'''
with tempfile.TemporaryDirectory() as t:
    f = pathlib.Path(t) / "m.asm"
    out = []
    for v in (5, 9):
        f.write_text(src(v))
        out.append(UCodeROM(main_file=f, field_map={"a": unsigned(4)})
                   .ucode_contents[0])
check(out == [5, 9], out)
""")
