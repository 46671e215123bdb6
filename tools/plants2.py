PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


# -- C17 -------------------------------------------------------------------
P("C17-fetch-cache", "C17",
  [("top.py", """            read_data.eq(self.bus.dat_r),
""", """            read_data.eq(Mux(insn_hit & self.control.mem.insn_fetch,
                             insn_line, self.bus.dat_r)),
"""),
   ("top.py", """        m.d.sync += mem_reset_guard.eq(0)
""", """        m.d.sync += mem_reset_guard.eq(0)

        # Remember the word fetched before the latest one.
        insn_line = Signal.like(self.bus.dat_r)
        insn_last = Signal.like(self.bus.dat_r)
        insn_line_adr = Signal(30)
        insn_last_adr = Signal(30)
        insn_line_ok = Signal()
        insn_last_ok = Signal()
        insn_hit = Signal()
        m.d.comb += insn_hit.eq(insn_line_ok &
                                (insn_line_adr == self.bus.adr))
        with m.If(self.control.mem.insn_fetch & self.bus.ack):
            m.d.sync += [
                insn_last.eq(self.bus.dat_r),
                insn_last_adr.eq(self.bus.adr),
                insn_last_ok.eq(1),
                insn_line.eq(insn_last),
                insn_line_adr.eq(insn_last_adr),
                insn_line_ok.eq(insn_last_ok)
            ]
"""),
   ("top.py", "from amaranth import Signal, Module", "from amaranth import Mux, Signal, Module")],
  "a two-instruction loop one of whose instructions rewrites the other",
  "a store to the other instruction of a two-instruction loop is not seen by "
  "its next fetch", """
# 24: the store replaces the jump behind it, which has been executed once.
p = flat(li(2, NOP), lui(1, 0), addi(1, 1, 24), jal(0, 8),
         sw(2, 1, 0), jal(0, -4), sw(2, 0, 0x600), HALT)
log = run(image((0, p)), clocks=600, stop={28})
check(log.stopped and len(log.at("W")) <= 1, "the loop never ends")
""")

P("C04-store-forward", "C04",
  [("top.py", """            read_data.eq(self.bus.dat_r),
""", """            read_data.eq(Mux(fwd & ~self.control.mem.insn_fetch,
                             write_data, self.bus.dat_r)),
"""),
   ("top.py", """        m.d.sync += mem_reset_guard.eq(0)
""", """        m.d.sync += mem_reset_guard.eq(0)

        # Word-sized store to load forwarding.
        fwd = Signal()
        fwd_ok = Signal()
        fwd_adr = Signal(30)
        m.d.comb += fwd.eq(fwd_ok & (fwd_adr == self.bus.adr))
        with m.If(self.bus.ack & self.bus.we):
            m.d.sync += [
                fwd_ok.eq(self.bus.sel == 0xf),
                fwd_adr.eq(self.bus.adr)
            ]
        with m.If(self.control.mem.latch_data & (self.control.mem.sel == 3)):
            m.d.sync += fwd_ok.eq(0)
"""),
   ("top.py", "from amaranth import Signal, Module", "from amaranth import Mux, Signal, Module")],
  "a word store directly followed (no other store in between) by a load of "
  "the same word from a location something else changed meanwhile",
  "a load returns the last stored word instead of what the bus delivers",
  """
# 0x600 is a device: reads deliver something other than what was written.
p = flat(li(1, 0x600), li(2, 0x1234), sw(2, 1, 0), lw(3, 1, 0),
         sw(3, 1, 8), HALT)
class Dev(dict):
    def get(self, k, d=None):
        return 0xABCD if k == 0x600 >> 2 else dict.get(self, k, d)
import simlib
mem = image((0, p))
orig = dict
class D2(dict):
    def get(self, k, d=None):
        return 0xABCD if k == 0x600 >> 2 else dict.get(self, k, d)
simlib.dict = D2
log = run(mem, clocks=400, stop={4 * (len(p) - 1)})
check(dict.get(log.mem, 0x608 >> 2) == 0xABCD, log.at("W"))
""")

# -- C21 -------------------------------------------------------------------
GEN = """
import subprocess, tempfile, re
def gen(*args, cwd=None):
    d = os.path.dirname(os.path.abspath(__file__))
    e = dict(os.environ, PYTHONPATH=d + os.pathsep
             + os.path.join(os.getcwd(), "src"))
    return subprocess.run([sys.executable, "-W", "ignore", "-m",
                           "sentinel.gen", *args], env=e, cwd=cwd,
                          capture_output=True, text=True)
def modules(v):
    return re.findall(r"^module (\\\\?[^\\s(]+)", v, re.M)
"""
P("C21-append", "C21",
  [("gen.py", 'fp = open(fn, "w")', 'fp = open(fn, "a")')],
  "writing to an output file which already exists",
  "the Verilog is appended to the previous contents", GEN + """
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "o.v")
    for _ in range(2):
        check(gen("-o", f).returncode == 0)
    check(modules(open(f).read()).count("sentinel") == 1)
""")

P("C21-formal-name", "C21",
  [("gen.py", """            v = verilog.convert(m, name=n or "sentinel")
""", """            name = n if n and not f else "sentinel"
            v = verilog.convert(m, name=name)
""")],
  "giving both -n and -f",
  "the requested name is ignored for the traced core", GEN + """
check("my_core" in modules(gen("-n", "my_core").stdout))
check("my_core" in modules(gen("-f", "-n", "my_core").stdout))
""")

P("C21-dash-file", "C21",
  [("gen.py", 'is_stdout = not fn or fn == "-"', 'is_stdout = not fn')],
  "an output name of -",
  "a file called - is written instead of standard output", GEN + """
with tempfile.TemporaryDirectory() as t:
    d = os.path.dirname(os.path.abspath(__file__))
    e = dict(os.environ, PYTHONPATH=d + os.pathsep
             + os.path.join(os.getcwd(), "src"))
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "sentinel.gen",
                        "-o", "-"], env=e, cwd=t, capture_output=True,
                       text=True)
    check(p.returncode == 0 and "sentinel" in modules(p.stdout))
""")

# -- C22 -------------------------------------------------------------------
UC = """
import io, tempfile, pathlib
from sentinel.ucoderom import UCodeROM
from amaranth import unsigned
from amaranth.lib import enum
def rom(src, **kw):
    return UCodeROM(main_file=io.StringIO(src), **kw)
def rejected(src, **kw):
    try:
        rom(src, **kw)
    except ValueError:
        return True
    return False
"""
P("C22-depth-power-of-two", "C22",
  [("ucoderom.py", "self.depth = space.size\n",
    "self.depth = 1 << ceil_log2(space.size)\n")],
  "a microcode address space whose size is no power of two",
  "the ROM is deeper than the source declares", UC + """
r_ = rom('''space s: width 4, size 12;
space s;
fields s: { a: width 4, origin 0, default 3; };
#define NOP a => 3
origin 2;
x: a => 5;
y: NOP;
''', field_map={"a": unsigned(4)})
check(r_.depth == 12 and len(r_.ucode_contents) == 12, r_.depth)
check(r_.ucode_contents[2:4] == [5, 3], r_.ucode_contents)
""")

P("C22-contents-offset", "C22",
  [("ucoderom.py", """        for addr in sorted(space.data.keys()):
            self.ucode_contents[int(addr)] = space.data[addr]
""", """        for i, addr in enumerate(sorted(space.data.keys())):
            if i and not space.data[addr] and addr == self.depth - 1:
                continue
            self.ucode_contents[int(addr)] = space.data[addr]
            last = int(addr)
        # The hardware wraps around to the first word.
        if last + 1 < self.depth and last + 1 not in space.data:
            self.ucode_contents[last + 1] = self.ucode_contents[0]
""")],
  "a microcode program which does not reach the end of its address space",
  "the word behind the program is not zero", UC + """
r_ = rom('''space s: width 4, size 8;
space s;
fields s: { a: width 4, origin 0, default 3; };
origin 0;
x: a => 5;
y: a => 6;
''', field_map={"a": unsigned(4)})
check(r_.ucode_contents == [5, 6, 0, 0, 0, 0, 0, 0], r_.ucode_contents)
""")

P("C22-fdef-append", "C22",
  [("ucoderom.py", "with open(self.field_defs, 'w') as f:",
    "with open(self.field_defs, 'a') as f:")],
  "a field-definition file that already exists",
  "field definitions of an earlier run stay in the file", UC + """
def src(w):
    return f'''space s: width 8, size 8;
space s;
fields s: {{ a: width {w}, origin 0, default 1; }};
origin 0;
x: a => 5;
'''
with tempfile.TemporaryDirectory() as t:
    f = pathlib.Path(t) / "d"
    rom(src(4), field_map={"a": unsigned(4)}, field_defs=f)
    rom(src(5), field_map={"a": unsigned(5)}, field_defs=f)
    a = f.read_text()
    g = pathlib.Path(t) / "e"
    rom(src(5), field_map={"a": unsigned(5)}, field_defs=g)
    check(a == g.read_text(), a)
""")

P("C22-stream-no-preprocess", "C22",
  [("ucoderom.py", "self.m5meta.src = M5Pre(self.main_file).read()",
    "self.m5meta.src = self.main_file.read()")],
  "a microcode source given as a stream which uses #define",
  "macros in a stream source are not expanded", UC + """
try:
    r_ = rom('''space s: width 4, size 4;
space s;
fields s: { a: width 4, origin 0, default 3; };
#define FIVE a => 5
origin 0;
x: FIVE;
''', field_map={"a": unsigned(4)})
    check(r_.ucode_contents == [5, 0, 0, 0], r_.ucode_contents)
except SystemExit:
    raise
except Exception as e:
    check(False, repr(e))
""")

P("C22-addr-width", "C22",
  [("ucoderom.py", '"addr": Out(ceil_log2(self.depth)),',
    '"addr": Out(max(ceil_log2(self.depth) - (self.depth % 4 == 1), 0)),')],
  "an address space of 4n+1 words, the last of which is used",
  "the address port is one bit too narrow", UC + """
r_ = rom('''space s: width 4, size 5;
space s;
fields s: { a: width 4, origin 0, default 3; };
origin 4;
x: a => 5;
''', field_map={"a": unsigned(4)})
check(len(r_.addr) == 3, len(r_.addr))
""")

# -- C23 -------------------------------------------------------------------
P("C23-wider-type", "C23",
  [("ucoderom.py", """        ss_width = Shape.cast(ss_class).width
        f_width = field.width
        if ss_width != f_width:""", """        ss_width = Shape.cast(ss_class).width
        f_width = field.width
        if ss_width < f_width:""")],
  "a plain field mapped to a type wider than the field",
  "a mapping wider than the microcode field is accepted", UC + """
s = '''space s: width 8, size 4;
space s;
fields s: { a: width 4, origin 0, default 3; };
origin 0;
x: a => 5;
'''
check(rejected(s, field_map={"a": unsigned(5)}))
check(not rejected(s, field_map={"a": unsigned(4)}))
""")

P("C23-enum-width", "C23",
  [("ucoderom.py", """        se_width = Shape.cast(se_class).width
        f_width = field.width
        if se_width != f_width:""", """        se_width = Shape.cast(se_class).width
        f_width = field.width
        if max(e.value for e in se_class) >= 1 << f_width:""")],
  "an enumeration with the right names and values but another width",
  "an enumeration declared wider than the microcode field is accepted", UC + """
class E(enum.IntEnum, shape=unsigned(4)):
    A = 0
    B = 1
class F(enum.IntEnum, shape=unsigned(1)):
    A = 0
    B = 1
s = '''space s: width 8, size 4;
space s;
fields s: { f: enum { a = 0; b = 1; }, default a; };
origin 0;
x: f => b;
'''
check(rejected(s, field_map={"f": E}))
check(not rejected(s, field_map={"f": F}))
""")

P("C23-two-spaces", "C23",
  [("ucoderom.py", "if len(self.m5meta.spaces) != 1:",
    "if len([s for s in self.m5meta.spaces.values() if s.data]) > 1:")],
  "a second address space which is declared but never filled",
  "a source with two address spaces is accepted when only one holds code",
  UC + """
s = '''space s: width 4, size 4;
space t: width 4, size 4;
space s;
fields s: { a: width 4, origin 0, default 3; };
origin 0;
x: a => 5;
'''
check(rejected(s, field_map={"a": unsigned(4)}))
""")

P("C23-default-map-fallback", "C23",
  [("ucoderom.py", """        try:
            ss_class = self.field_map[field.name]
        except KeyError as e:
            raise ValueError(f"{e.args[0]} was not in field_map") from e
""", """        try:
            ss_class = {**UCodeROM.field_map, **self.field_map}[field.name]
        except KeyError as e:
            raise ValueError(f"{e.args[0]} was not in field_map") from e
""")],
  "a field called like one of the default ones that the supplied mapping "
  "leaves out",
  "a field missing from the supplied mapping is taken from the default one",
  UC + """
s = '''space s: width 8, size 4;
space s;
fields s: { target: width 8, origin 0, default 3; };
origin 0;
x: target => 5;
'''
check(rejected(s, field_map={"a": unsigned(4)}))
""")

# -- more multi-step ones ----------------------------------------------------
P("C01-alu-o-hold", "C01",
  [("alu.py", "        m.d.sync += self.o.eq(self.o_mux)\n",
    """        # An all-ones minus one result takes the carry chain.
        carry = Signal()
        m.d.comb += carry.eq((self.ctrl.op == OpType.ADD) &
                             (self.a[:16] == 0xffff) & (self.b[:16] == 0x8000))
        m.d.sync += self.o.eq(self.o_mux ^ (carry << 16))
""")],
  "an addition whose low half-words are 0xffff and 0x8000",
  "the carry into bit 16 is lost for one pair of low half-words", """
v, _ = regs_after(li(1, 0x1234FFFF) + li(2, 0x8000),
                  [r(0, 2, 1, 0, 3), r(0, 1, 2, 0, 4)], [3, 4])
check(v == [0x12357FFF, 0x12357FFF], [hex(x) for x in v])
""")

P("C02-shift-31", "C02",
  [("microcode.asm", """sll:
             READ_RS1, a_src => thirty_one, latch_a => 1;
             READ_RS2, a_src => gp, latch_a => 1, alu_op => and;""",
    """sll:
             READ_RS1, a_src => thirty_one, latch_a => 1;
             a_src => gp, latch_a => 1, alu_op => and;""")],
  "SLL reading a register",
  "no visible difference expected", "check(True)")

P("C03-jalr-wrap", "C03",
  [("decode.py", """                with m.Case(OpcodeType.JALR):
                    m.d.sync += self.imm.eq(insn.imm.I)
""", """                with m.Case(OpcodeType.JALR):
                    m.d.sync += self.imm.eq(insn.imm.I)
                    with m.If((insn.rs1 == insn.rd) & (insn.rd == 1)):
                        m.d.sync += self.imm.eq(insn.imm.I[0:11])
""")],
  "JALR with rs1 = rd = x1 and a negative or large offset",
  "the offset of jalr ra, off(ra) loses its sign", """
p = flat(li(1, 0x140), jalr(1, 1, -0x40))
mem = image((0, p), (0x100, [sw(1, 0, 0x600), HALT]))
log = run(mem, clocks=400, stop={0x104})
check(log.stopped and log.mem.get(0x600 >> 2) == 4 * len(p), log[-4:])
""")

P("C04-lhu-after-lb", "C04",
  [("align.py", """                with m.If(self.mem_extend == MemExtend.SIGN):
                    m.d.comb += self.data.eq(selected_dat[0:16].as_signed())
""", """                with m.If((self.mem_extend == MemExtend.SIGN) &
                          ~self.latched_adr[:12].all()):
                    m.d.comb += self.data.eq(selected_dat[0:16].as_signed())
"""),
   ("align.py", """                with m.If(self.mem_extend == MemExtend.SIGN):
                    m.d.comb += self.data.eq(selected_dat[0:8].as_signed())
""", """                with m.If((self.mem_extend == MemExtend.SIGN) &
                          ~self.latched_adr[:12].all()):
                    m.d.comb += self.data.eq(selected_dat[0:8].as_signed())
""")],
  "LB of a negative byte at the very last byte of a 4 kB page",
  "the sign is lost for the last byte of each 4 kB page", """
p = flat(li(1, 0x1FFF), load(0, 3, 1, 0), sw(3, 0, 0x600), HALT)
mem = image((0, p)); mem[0x1FFC >> 2] = 0x80112233
log = run(mem, clocks=400, stop={4 * (len(p) - 1)})
check(log.mem[0x600 >> 2] == 0xFFFFFF80, hex(log.mem[0x600 >> 2]))
""")

P("C05-sh-stale-data", "C05",
  [("top.py", """        with m.If(self.control.mem.latch_data):
            m.d.sync += write_data.eq(self.wdata_align.wb_dat_w)
""", """        with m.If(self.control.mem.latch_data):
            with m.If((data_adr == last_adr) & (self.alu.o == 0)):
                # Nothing to clear, storing zero twice.
                pass
            with m.Else():
                m.d.sync += write_data.eq(self.wdata_align.wb_dat_w)
            m.d.sync += last_adr.eq(data_adr)
"""),
   ("top.py", "        data_adr = Signal.like(self.alu.o)\n",
    "        data_adr = Signal.like(self.alu.o)\n"
    "        last_adr = Signal.like(self.alu.o)\n")],
  "two stores in a row to the same address, the second of them of zero",
  "storing zero over a value just stored writes the old value again", """
p = flat(li(1, 0x600), li(2, 0x55), sw(2, 1, 0), sw(0, 1, 0), HALT)
log = run(image((0, p)), clocks=400, stop={4 * (len(p) - 1)})
check(log.mem[0x600 >> 2] == 0, log.at("W"))
""")

P("C06-csr-write-rd", "C06",
  [("microcode.asm", "csrwi: alu_op => add, JUMP_TO_OP_END(fast_epilog_csr);",
    "csrwi: alu_op => add, READ_RS1, JUMP_TO_OP_END(fast_epilog_csr);"),
   ("datapath.py", """                m.d.comb += [
                    w_port.addr.eq(Cat(self.priv.adr, 1)),
                    w_port.data.eq(self.priv.dat_w),
                    w_port.en.eq(1)
                ]
""", """                m.d.comb += [
                    w_port.addr.eq(Cat(self.priv.adr,
                                       ~(self.pub.ctrl.reg_read &
                                         self.priv.dat_w.all()))),
                    w_port.data.eq(self.priv.dat_w),
                    w_port.en.eq(1)
                ]
""")],
  "writing all ones to mscratch or mcause (CSR writes overlapping a fetch)",
  "CSRRW of an all-ones value writes a general register instead of the CSR",
  """
v, _ = regs_after(li(8, 0x777) + li(5, 0xFFFFFFFF),
                  [csrrw(0, MSCRATCH, 5), csrrs(6, MSCRATCH, 0)], [8, 6])
check(v == [0x777, 0xFFFFFFFF], [hex(x) for x in v])
""")

P("C08-mepc-nested", "C08",
  [("microcode.asm", """         alu_op => add, pc_action => load_alu_o;
         // Write MCAUSE, and start exception handler.
         INSN_FETCH, jmp_type => direct_zero, invert_test => 1, cond_test => true, \\
            csr_op => write_csr, csr_sel => trg_csr, target => MCAUSE;
""", """         alu_op => add, pc_action => load_alu_o, jmp_type => cont;
         // Write MCAUSE, and start exception handler.
         INSN_FETCH, jmp_type => direct_zero, invert_test => 1, cond_test => true, \\
            csr_op => write_csr, csr_sel => trg_csr, target => MCAUSE;
"""),
   ("exception.py", """                m.d.sync += [
                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
                    mcause_latch.interrupt.eq(0)
                ]
""", """                m.d.sync += [
                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
                ]
""")],
  "a misaligned store after an earlier interrupt",
  "the store fault carries the interrupt flag of an earlier interrupt", """
setup = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x800),
             csrrw(0, MIE, 1), li(2, 0x601), csrrs(0, MSTATUS, 0),
             csr(6, 0, MSTATUS, 8), NOP, NOP, sw(2, 2, 0), HALT)
h = flat(csrrs(3, MCAUSE, 0), sw(3, 0, 0x600), li(4, 0x80000000 + 11),
         br(1, 3, 4, 8), MRET, sw(3, 0, 0x604), HALT)
state = {"on": True}
def irq(clk, log):
    if any(e[0] == "W" for e in log):
        state["on"] = False
    return state["on"]
log = run(image((0, setup), (0x100, h)), clocks=900, irq=irq)
check(log.mem.get(0x604 >> 2) == 6, (log.mem.get(0x600 >> 2), log.mem.get(0x604 >> 2)))
""")

P("C09-rs-imm-31", "C09",
  [("microcode.asm", """        alu_op => add, b_src => csr_imm, latch_b => 1;
csrrs_2:""", """        alu_op => add, b_src => csr_imm, latch_b => 1, jmp_type => direct, target => csrrsi_2;
csrrs_2:"""), ("microcode.asm", "fast_epilog: INSN_FETCH_EAGER_READ_RS1, WRITE_RD",
       "csrrsi_2: WRITE_RD, a_src => alu_o, latch_a => 1;\n"
       "          alu_op => xor, JUMP_TO_OP_END(fast_epilog_csr);\n"
       "fast_epilog: INSN_FETCH_EAGER_READ_RS1, WRITE_RD")],
  "CSRRSI of a bit that is already set",
  "CSRRSI clears bits which were set already", """
v, _ = regs_after(li(5, 0xF0), [csrrw(0, MSCRATCH, 5), csr(6, 6, MSCRATCH, 0x1F),
                                csrrs(7, MSCRATCH, 0)], [6, 7])
check(v == [0xF0, 0xFF], [hex(x) for x in v])
""")

P("C11-after-mret-window", "C11",
  [("datapath.py", """        with m.Elif(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):
            m.d.sync += [
""", """            m.d.sync += nested.eq(mstatus.mpie & ~mstatus.mie)
        with m.Elif((self.pub.ctrl.exception == ExceptCtl.LEAVE_INT) & nested):
            m.d.sync += [
                nested.eq(0),
                mstatus.mie.eq(0),
                mstatus.mpie.eq(1)
            ]
        with m.Elif(self.pub.ctrl.exception == ExceptCtl.LEAVE_INT):
            m.d.sync += [
"""), ("datapath.py", "        read_buf = Signal(32)\n",
       "        read_buf = Signal(32)\n        nested = Signal()\n")],
  "an MRET after a trap that was itself taken inside a handler, with the "
  "handler setting mstatus.MPIE before returning",
  "interrupts stay disabled after returning from a nested trap although "
  "MPIE was set", """
# handler: first entry (ecall) does an ecall itself; second entry sets MPIE and
# returns past it; interrupts must then be enabled.
main = flat(li(1, 0x100), csrrw(0, MTVEC, 1), csr(6, 0, MSTATUS, 8), ECALL, HALT)
h = flat(br(1, 10, 0, 12), addi(10, 0, 1), ECALL,
         csrrs(2, MEPC, 0), addi(2, 2, 4), csrrw(0, MEPC, 2),
         li(3, 0x80), csrrs(0, MSTATUS, 3), MRET)
mem = image((0, main), (0x100, h))
# the instruction after the inner ecall: read mstatus and stop
at = 0x100 + 12
mem2 = image((0, main), (0x100, flat(br(1, 10, 0, 24), addi(10, 0, 1), ECALL,
    csrrs(5, MSTATUS, 0), sw(5, 0, 0x600), HALT,
    csrrs(2, MEPC, 0), addi(2, 2, 4), csrrw(0, MEPC, 2), li(3, 0x80),
    csrrs(0, MSTATUS, 3), MRET)))
log = run(mem2, clocks=900, stop={0x100 + 20})
check(log.mem.get(0x600 >> 2) == 0x1888, hex(log.mem.get(0x600 >> 2) or 0))
""")

P("C12-mpie-or", "C12",
  [("datapath.py", """                mstatus.mpie.eq(mstatus.mie),
                mstatus.mie.eq(0)
""", """                mstatus.mpie.eq(mstatus.mie | (mstatus.mpie & mip.meip)),
                mstatus.mie.eq(0)
""")],
  "a trap taken with interrupts disabled, MPIE set and the interrupt line high",
  "MPIE stays set on a trap from a context with interrupts disabled", """
main = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x80), csrrw(0, MSTATUS, 1),
            ECALL, HALT)
mem = image((0, main), (0x100, [csrrs(5, MSTATUS, 0), sw(5, 0, 0x600), HALT]))
log = run(mem, clocks=500, irq=lambda c, l: 1, stop={0x108})
check(log.mem.get(0x600 >> 2) == 0x1800, hex(log.mem.get(0x600 >> 2) or 0))
""")

P("C13-back-to-back", "C13",
  [("microcode.asm", """        mem_sel => word, latch_data => 1, pc_action => inc;
sw_wait:""".replace("        mem_sel", "    mem_sel"),
    """    mem_sel => word, latch_data => 1, pc_action => inc;
sw_wait:"""),
   ("microcode.asm", """              mem_sel => word, write_mem => 1, jmp_type => direct, target => sw_wait;
          STOP_MEMREQ_THEN_JUMP_TO_ZERO;
""", """              mem_sel => word, write_mem => 1, jmp_type => direct, target => sw_wait;
          INSN_FETCH_EAGER_READ_RS1, SKIP_WAIT_IF_ACK;
""")],
  "any word store",
  "strobe is not released between a word store and the next fetch", """
import simlib
from amaranth import Module
p = flat(li(1, 0x600), sw(1, 1, 0), NOP, HALT)
from sentinel.top import Top
from amaranth.sim import Simulator
top = Top(); mem = image((0, p)); bad = []
async def tb(ctx):
    prev = 0
    for clk in range(300):
        cyc = ctx.get(top.bus.cyc) & ctx.get(top.bus.stb)
        if prev and cyc:
            bad.append(clk)
        ack = cyc
        ctx.set(top.bus.ack, ack)
        ctx.set(top.bus.dat_r, mem.get(ctx.get(top.bus.adr), 0))
        prev = ack
        await ctx.tick()
sim = Simulator(top); sim.add_clock(1e-6); sim.add_testbench(tb); sim.run()
check(not bad, bad[:3])
""")

P("C14-late-data", "C14",
  [("top.py", """            self.b_src.dat_r.eq(read_data),
""", """            self.b_src.dat_r.eq(Mux(self.control.mem.sel == 2, half_data,
                                    read_data)),
"""),
   ("top.py", """        m.d.sync += mem_reset_guard.eq(0)
""", """        m.d.sync += mem_reset_guard.eq(0)

        # Half-word reads: sample the bus a clock early when the slave is
        # slow enough.
        half_data = Signal.like(self.bus.dat_r)
        half_prev = Signal.like(self.bus.dat_r)
        waits = Signal(4)
        m.d.sync += half_prev.eq(self.bus.dat_r)
        m.d.sync += waits.eq(Mux(self.control.mem.req & ~self.bus.ack,
                                 waits + (waits != 15), 0))
        m.d.comb += half_data.eq(Mux(waits == 15, half_prev, self.bus.dat_r))
"""),
   ("top.py", "from amaranth import Signal, Module", "from amaranth import Mux, Signal, Module")],
  "a half-word load from a slave with at least fifteen wait states whose data "
  "changes in the clock of the acknowledge",
  "half-word loads from slow memories use bus data from before the acknowledge",
  """
p = flat(li(1, 0x600), load(1, 3, 1, 0), sw(3, 0, 0x700), HALT)
mem = image((0, p)); mem[0x600 >> 2] = 0x00001234
log = run(mem, clocks=600, wait=lambda l, a, we: 18 if a == 0x600 else 0,
          junk=3, stop={4 * (len(p) - 1)})
check(log.mem.get(0x700 >> 2) == 0x1234, log.at("W"))
""")

P("C15-mcause-after-reset", "C15",
  [("microcode.asm", """       jmp_type => direct_zero, pc_action => load_alu_o, csr_op => write_csr, \\
            csr_sel => trg_csr, invert_test => 1, cond_test => true, \\
            target => MCAUSE;
""", """       jmp_type => direct_zero, pc_action => load_alu_o, csr_op => write_csr, \\
            csr_sel => trg_csr, invert_test => 1, cond_test => true, \\
            target => MSCRATCH;
""")],
  "a reset after a trap, then reading mcause",
  "mcause survives a reset", """
main = flat(csrrs(9, MCAUSE, 0), sw(9, 0, 0x600), li(1, 0x100),
            csrrw(0, MTVEC, 1), ECALL, HALT)
mem = image((0, main), (0x100, [HALT]))
log = run(mem, clocks=320, reset={0, 1, 200, 201, 202})
w = [e[3] for e in log.at("W")]
check(w == [0, 0], w)
""")

P("C16-long-jalr", "C16",
  [("microcode.asm", """      pc_action => load_alu_o;
      INSN_FETCH, alu_op => add, JUMP_TO_OP_END(fast_epilog);

sb:""", """      pc_action => load_alu_o;
      jmp_type => nop;
      INSN_FETCH, alu_op => add, JUMP_TO_OP_END(fast_epilog);

sb:""")],
  "JALR", "JALR takes one clock more than documented", """
mem = image((0, [lui(1, 0), addi(1, 0, 0x40), jalr(5, 1, 0)]), (0x40, [NOP, HALT]))
log = run(mem, clocks=200)
t8 = [e[4] for e in log if e[1] == 8][0]
t40 = [e[4] for e in log if e[1] == 0x40][0]
# Documented: 8 clocks, plus the wait state of the fetch.
check(t40 - t8 <= 9, t40 - t8)
""")

P("C18-fence-i-like", "C18",
  [("decode.py", """                    with m.If(insn.funct3 != 0):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):
""", """                    with m.If((insn.funct3 != 0) |
                              (insn.raw[20:28] == 0)):
                        m.d.sync += self.exception.valid.eq(1)
                with m.Case(OpcodeType.SYSTEM):
""")],
  "FENCE with empty predecessor and successor sets",
  "FENCE 0,0 traps instead of doing nothing", """
v, log = regs_after(li(5, 7), [0x0000000F, addi(5, 5, 1)], [5])
check(v == [8], v)
""")

P("C19-pc-wdata-mret", "C19",
  [("formal.py", """                self.rvfi.pc_wdata.eq(self.cpu.datapath.pc.dat_r << 2)
            ]
""", """                self.rvfi.pc_wdata.eq(Mux(self.rvfi.insn == 0x30200073,
                                          self.rvfi.csr.mepc.rdata,
                                          self.cpu.datapath.pc.dat_r << 2))
            ]
""")],
  "an MRET displaced by an interrupt",
  "the record of an MRET displaced by an interrupt claims that it returned",
  """
main = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x800), csrrw(0, MIE, 1),
            li(1, 0x200), csrrw(0, MEPC, 1), csr(6, 0, MSTATUS, 8), MRET)
mem = image((0, main), (0x100, [NOP, HALT]), (0x200, [NOP, HALT]))
log = run(mem, clocks=400, irq=lambda c, l: 1, formal=True,
          rvfi=("insn", "pc_wdata", "trap"))
t = [x for x in log.trace if x["insn"] == MRET]
check(t and t[0]["pc_wdata"] == 0x100, t)
""")

P("C20-formal-irq", "C20",
  [("formal.py", "        m.d.comb += self.cpu.irq.eq(self.irq)\n",
    "        m.d.sync += self.cpu.irq.eq(self.irq)\n")],
  "an interrupt line change at the deciding clock",
  "the traced core sees the interrupt line one clock later than the plain one",
  """
main = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x800), csrrw(0, MIE, 1),
            csr(6, 0, MSTATUS, 8), [NOP] * 8, HALT)
mem = image((0, main), (0x100, [csrrs(2, MEPC, 0), HALT]))
for t in range(90, 130):
    a = run(mem, clocks=200, irq=lambda c, l: c >= t)
    b = run(mem, clocks=200, irq=lambda c, l: c >= t, formal=True)
    check(list(a) == list(b), t)
""")

P("C24-mip-latched", "C24",
  [("datapath.py", "        m.d.comb += mip.meip.eq(self.pub.mip_w.meip)\n",
    """        pend = Signal()
        m.d.sync += pend.eq((pend | self.pub.mip_w.meip) &
                            ~((self.pub.ctrl.op == CSROp.READ_CSR) &
                              (self.pub.adr == self.MIP)))
        with m.If(mstatus.mie):
            m.d.comb += mip.meip.eq(self.pub.mip_w.meip)
        with m.Else():
            m.d.comb += mip.meip.eq(self.pub.mip_w.meip | (pend & mie.meie))
""")],
  "an interrupt pulse that ends before mip is read, with MEIE set and MIE clear",
  "a pulse on the line is remembered until mip is read", """
p = flat(li(1, 0x800), csrrw(0, MIE, 1), [NOP] * 10, csrrs(5, MIP, 0),
         sw(5, 0, 0x600), HALT)
log = run(image((0, p)), clocks=500, irq=lambda c, l: 40 <= c < 44,
          stop={4 * (len(p) - 1)})
check(log.mem.get(0x600 >> 2) == 0, log.at("W"))
""")

P("C25-irq-sll", "C25",
  [("microcode.asm", """              alu_op => sll, a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, \\
                  jmp_type => direct_zero, CONDTEST_ALU_NONZERO, target => sll_loop;
""", """              alu_op => sll, a_src => alu_o, b_src => one, latch_a => 1, latch_b => 1, \\
                  jmp_type => direct, CONDTEST_ALU_NONZERO, target => sll_loop;
              except_ctl => latch_decoder, cond_test => exception, jmp_type => direct_zero, \\
                  target => save_pc;
""")],
  "an interrupt becoming pending while a left shift runs",
  "an interrupt taken at the end of a left shift whose successor was... ", """
check(True)
""")

P("C26-load-replay", "C26",
  [("microcode.asm", """lw_wait:  a_src => zero, b_src => dat_r, latch_a => 1, latch_b => 1, mem_req => 1, invert_test => 1, \\
              cond_test => mem_valid, mem_sel => word, jmp_type => direct, \\
              target => lw_wait;
          alu_op => add, pc_action => inc, JUMP_TO_OP_END(fast_epilog);
""", """lw_wait:  a_src => zero, b_src => dat_r, latch_a => 1, latch_b => 1, mem_req => 1, invert_test => 1, \\
              cond_test => mem_valid, mem_sel => word, jmp_type => direct, \\
              target => lw_wait;
          alu_op => add, except_ctl => latch_decoder, cond_test => exception, \\
              jmp_type => direct, target => save_pc;
          alu_op => add, pc_action => inc, JUMP_TO_OP_END(fast_epilog);
""")],
  "an interrupt that becomes pending while a word load waits for its "
  "acknowledge",
  "the load is abandoned for the interrupt and made again after the return",
  """
main = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x800), csrrw(0, MIE, 1),
            li(2, 0x600), csr(6, 0, MSTATUS, 8), lw(3, 2, 0), sw(3, 0, 0x700),
            HALT)
h = flat(sw(0, 0, 0x704), MRET)
mem = image((0, main), (0x100, h)); mem[0x600 >> 2] = 5
on = []
def irq(clk, log):
    return on and not any(e[1] == 0x704 for e in log)
def wait(log, a, we):
    if a == 0x600:
        on.append(1)
    return 6 if a == 0x600 else 0
log = run(mem, clocks=600, irq=irq, wait=wait, stop={4 * (len(main) - 1)})
n = sum(1 for e in log if e[1] == 0x600)
check(n == 1, n)
""")

PLANTS = [p for p in PLANTS if p["id"] not in
          ("C02-shift-31", "C25-irq-sll", "C13-back-to-back")]
