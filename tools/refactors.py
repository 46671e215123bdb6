"""Edits of /repo that keep its behaviour; every check must stay quiet on them.

    refactors.py [-j N] [--props C01,...] [--seed N] [name ...]
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
R = {}

R["regfile"] = [
    ("datapath.py", """                    w_port.en.eq(self.pub.ctrl.reg_write &
                                 ((self.pub.adr_w != 0) |
                                  self.pub.ctrl.allow_zero_wr))
""", """                    w_port.en.eq(self.pub.ctrl.reg_write & may_write)
"""),
    ("datapath.py", """        with m.Switch(self.priv.op):
            with m.Case(CSROp.NONE):
                m.d.comb += [
                    r_port.en""", """        # x0 is only written on behalf of the microcode.
        may_write = Signal()
        m.d.comb += may_write.eq((self.pub.adr_w[0:5] != 0) |
                                 self.pub.ctrl.allow_zero_wr)

        with m.Switch(self.priv.op):
            with m.Case(CSROp.NONE):
                m.d.comb += [
                    r_port.en"""),
    ("datapath.py", """            with m.If(self.pub.adr == self.MIE):
                mie_in = View(MIE, self.pub.dat_w)
                m.d.sync += mie.meie.eq(mie_in.meie)
""", """            with m.Elif(self.pub.adr == self.MIE):
                m.d.sync += mie.meie.eq(View(MIE, self.pub.dat_w).meie)
"""),
]
R["guard"] = [
    ("top.py", "        mem_reset_guard = Signal(init=1)\n",
     "        bus_usable = Signal()\n"),
    ("top.py", "        m.d.sync += mem_reset_guard.eq(0)\n",
     "        m.d.sync += bus_usable.eq(1)\n"),
    ("top.py", """            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),
            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),
""", """            bus_active.eq(self.control.mem.req & bus_usable),
            self.bus.stb.eq(bus_active),
            self.bus.cyc.eq(bus_active),
"""),
    ("top.py", "        mem_ack = Signal()\n",
     "        mem_ack = Signal()\n        bus_active = Signal()\n"),
]
R["alu"] = [
    ("alu.py", """        for submod in [self.add, self.sub, self.and_, self.or_, self.xor,
                       self.sll, self.srl, self.sar]:
            m.d.comb += [
                submod.a.eq(mod_a),
                submod.b.eq(mod_b),
            ]
""", """        def operands(unit):
            return [unit.a.eq(mod_a), unit.b.eq(mod_b)]

        for unit in (self.sar, self.srl, self.sll, self.xor, self.or_,
                     self.and_, self.sub, self.add):
            m.d.comb += operands(unit)
"""),
    ("alu.py", """        m.d.sync += self.o.eq(self.o_mux)
        with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
            m.d.sync += self.o[0].eq(~self.o_mux[0])
        with m.Elif(self.ctrl.omod == ALUOMod.CLEAR_LSB_O):
            m.d.sync += self.o[0].eq(0)
""", """        result = Signal.like(self.o)
        m.d.comb += result.eq(self.o_mux)
        with m.Switch(self.ctrl.omod):
            with m.Case(ALUOMod.INV_LSB_O):
                m.d.comb += result[0].eq(~self.o_mux[0])
            with m.Case(ALUOMod.CLEAR_LSB_O):
                m.d.comb += result[0].eq(0)
        m.d.sync += self.o.eq(result)
"""),
    ("alu.py", "            m.d.comb += [\n                mod_a[-1].eq(~self.a[-1]),\n"
     "                mod_b[-1].eq(~self.b[-1]),\n            ]\n",
     "            m.d.comb += [\n                mod_b.eq(self.b ^ 1 << self.width - 1),\n"
     "                mod_a.eq(self.a ^ 1 << self.width - 1),\n            ]\n"),
]
R["exception"] = [
    ("exception.py", """        exception = Signal(1)
""", """        misaligned = Signal()
        with m.Switch(self.src.ctrl.mem_sel):
            with m.Case(MemSel.HWORD):
                m.d.comb += misaligned.eq(self.src.alu_lo[0])
            with m.Case(MemSel.WORD):
                m.d.comb += misaligned.eq(self.src.alu_lo.any())

        def trap(cause, interrupt=0):
            m.d.comb += exception.eq(1)
            m.d.sync += [
                mcause_latch.interrupt.eq(interrupt),
                mcause_latch.cause.eq(cause),
            ]

        exception = Signal(1)
"""),
] + [("exception.py", f"""            with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                        self.src.alu_lo[0] == 1)) |
                      ((self.src.ctrl.mem_sel == MemSel.WORD) &
                      ((self.src.alu_lo[0] == 1) |
                       (self.src.alu_lo[1] == 1)))):
                m.d.comb += exception.eq(1)
                m.d.sync += [
                    mcause_latch.cause.eq(MCause.Cause.{c}),
                    mcause_latch.interrupt.eq(0)
                ]
""", f"""            with m.If(misaligned):
                trap(MCause.Cause.{c})
""") for c in ("STORE_MISALIGNED", "LOAD_MISALIGNED")]
R["decode"] = [
    ("decode.py", """                with m.Case(OpcodeType.OP):
                    with m.If((insn.funct3 == 0) | (insn.funct3 == 5)):
                        with m.If((insn.funct7 != 0) &
                                  (insn.funct7 != 0b0100000)):
                            m.d.sync += self.exception.valid.eq(1)
                    with m.Else():
                        with m.If(insn.funct7 != 0):
                            m.d.sync += self.exception.valid.eq(1)
""", """                with m.Case(OpcodeType.OP):
                    m.d.sync += self.exception.valid.eq(
                        (insn.funct7 & 0b1011111).any() |
                        (insn.funct7[5] & (insn.funct3 != 0) &
                         (insn.funct3 != 5)))
"""),
    ("decode.py", """                with m.Case(OpcodeType.LUI):
                    pass
                with m.Case(OpcodeType.AUIPC):
                    pass
                with m.Case(OpcodeType.OP):""",
     """                with m.Case(OpcodeType.LUI, OpcodeType.AUIPC):
                    pass
                with m.Case(OpcodeType.OP):"""),
    ("decode.py", """                with m.Case(OpcodeType.OP_IMM):
                    m.d.sync += self.imm.eq(insn.imm.I)
                with m.Case(OpcodeType.JALR):
                    m.d.sync += self.imm.eq(insn.imm.I)
                with m.Case(OpcodeType.LOAD):
                    m.d.sync += self.imm.eq(insn.imm.I)
                with m.Case(OpcodeType.LUI):
                    m.d.sync += self.imm.eq(insn.imm.U)
                with m.Case(OpcodeType.AUIPC):
                    m.d.sync += self.imm.eq(insn.imm.U)
""", """                with m.Case(OpcodeType.LUI, OpcodeType.AUIPC):
                    m.d.sync += self.imm.eq(insn.imm.U)
                with m.Case(OpcodeType.LOAD, OpcodeType.OP_IMM,
                            OpcodeType.JALR):
                    m.d.sync += self.imm.eq(insn.imm.I)
"""),
]
R["control"] = [
    ("control.py", """                with m.If((csr_op == Insn.CSR.RW) & (dst == 0)):
                    m.d.sync += self.requested_op.eq(0x26)  # csrw
                with m.Elif((csr_op == Insn.CSR.RW) & (dst != 0)):
                    m.d.sync += self.requested_op.eq(0x27)  # csrrw
""", """                with m.If(csr_op == Insn.CSR.RW):
                    m.d.sync += self.requested_op.eq(0x26 + (dst != 0))
"""),
    ("control.py", """                with m.Elif((csr_op == Insn.CSR.RS) & (src_a == 0)):
                    m.d.sync += self.requested_op.eq(0x28)  # csrr
""", """                with m.Elif(((csr_op == Insn.CSR.RS) |
                             (csr_op == Insn.CSR.RC) |
                             (csr_op == Insn.CSR.RSI) |
                             (csr_op == Insn.CSR.RCI)) & (src_a == 0)):
                    m.d.sync += self.requested_op.eq(0x28)  # csrr
"""),
    ("control.py", """        with m.If(invert_test):
            m.d.comb += test.eq(~raw_test)
        with m.Else():
            m.d.comb += test.eq(raw_test)
""", """        m.d.comb += test.eq(raw_test ^ invert_test)
"""),
    ("control.py", """                with m.If(self.test):
                    m.d.comb += self.adr.eq(self.target)
                with m.Else():
                    m.d.comb += self.adr.eq(self.opcode_adr)
""", """                m.d.comb += self.adr.eq(Mux(self.test, self.target,
                                            self.opcode_adr))
"""),
    ("control.py", "from amaranth import Signal, Elaboratable, Module, Cat, C, unsigned",
     "from amaranth import Signal, Elaboratable, Module, Cat, C, Mux, unsigned"),
]
R["formal"] = [
    ("formal.py", """            with m.If(in_init):
                # There is nothing to pipeline/interleave, so wait for first
                # insn to be fetched, and then process it before declaring
                # valid.
                m.d.sync += in_init.eq(0)
            with m.Elif(self.rvfi.trap):
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(1),
                ]
            with m.Else():
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(0),
                ]
""", """            m.d.sync += in_init.eq(0)
            with m.If(~in_init):
                m.d.comb += self.rvfi.valid.eq(1)
                m.d.sync += [
                    self.rvfi.order.eq(self.rvfi.order + 1),
                    self.rvfi.intr.eq(self.rvfi.trap),
                ]
"""),
]
R["align"] = [
    ("align.py", """                with m.Switch(self.mem_sel):
                    with m.Case(MemSel.BYTE):
                        with m.If(self.latched_adr[0:2] == 0):
                            m.d.comb += self.wb_sel.eq(1)
                        with m.Elif(self.latched_adr[0:2] == 1):
                            m.d.comb += self.wb_sel.eq(2)
                        with m.Elif(self.latched_adr[0:2] == 2):
                            m.d.comb += self.wb_sel.eq(4)
                        with m.Else():
                            m.d.comb += self.wb_sel.eq(8)
                    with m.Case(MemSel.HWORD):
                        with m.If(self.latched_adr[1] == 0):
                            m.d.comb += self.wb_sel.eq(3)
                        with m.Else():
                            m.d.comb += self.wb_sel.eq(0xc)
""", """                with m.Switch(self.mem_sel):
                    with m.Case(MemSel.BYTE):
                        m.d.comb += self.wb_sel.eq(1 << self.latched_adr[0:2])
                    with m.Case(MemSel.HWORD):
                        m.d.comb += self.wb_sel.eq(
                            0b11 << (self.latched_adr[1] << 1))
"""),
    ("align.py", """                with m.If(self.latched_adr[0:2] == 0):
                    m.d.comb += selected_dat.eq(self.wb_dat_r[0:8])
                with m.Elif(self.latched_adr[0:2] == 1):
                    m.d.comb += selected_dat.eq(self.wb_dat_r[8:16])
                with m.Elif(self.latched_adr[0:2] == 2):
                    m.d.comb += selected_dat.eq(self.wb_dat_r[16:24])
                with m.Else():
                    m.d.comb += selected_dat.eq(self.wb_dat_r[24:])
""", """                m.d.comb += selected_dat.eq(
                    self.wb_dat_r.word_select(self.latched_adr[0:2], 8))
"""),
]
R["ucoderom"] = [
    ("ucoderom.py", """        if isinstance(self.main_file, IOBase):
            self.m5meta = M5Meta(self.main_file, obj_base_fn="anonymous")
            self.m5meta.src = M5Pre(self.main_file).read()
        else:
            with open(self.main_file) as mfp:
                self.m5meta = M5Meta(mfp, obj_base_fn=self.main_file.stem)
                self.m5meta.src = M5Pre(mfp).read()

        passes = [None,
                  self.m5meta.pass12,
                  self.m5meta.pass12]

        for p in range(1, len(passes)):
            self.m5meta.pass_num = p
            passes[p]()
""", """        def parse(fp, base):
            asm = M5Meta(fp, obj_base_fn=base)
            asm.src = M5Pre(fp).read()
            return asm

        if isinstance(self.main_file, IOBase):
            self.m5meta = parse(self.main_file, "anonymous")
        else:
            with open(self.main_file) as mfp:
                self.m5meta = parse(mfp, self.main_file.stem)

        for p in (1, 2):
            self.m5meta.pass_num = p
            self.m5meta.pass12()
"""),
    ("ucoderom.py", """        for addr in sorted(space.data.keys()):
            self.ucode_contents[int(addr)] = space.data[addr]
""", """        for addr, word in space.data.items():
            self.ucode_contents[int(addr)] = word
"""),
]
R["gen"] = [
    ("gen.py", """    is_stdout = not fn or fn == "-"

    if not is_stdout:
        fp = open(fn, "w")
    else:
        fp = sys.stdout

    try:
        yield fp
    finally:
        if not is_stdout:
            fp.close()
""", """    if fn in (None, "", "-"):
        yield sys.stdout
        return

    with open(fn, "w") as fp:
        yield fp
"""),
    ("gen.py", """            if f:
                m = FormalTop()
            else:
                m = Top()
            v = verilog.convert(m, name=n or "sentinel")
            fp.write(v)
""", """            top = FormalTop() if f else Top()
            fp.write(verilog.convert(top, name=n if n else "sentinel"))
"""),
]


R["csrfile"] = [
    ("datapath.py", """        with m.If(~((prev_csr_adr == CSRFile.MSTATUS) |
                  (prev_csr_adr == CSRFile.MIP) |
                  (prev_csr_adr == CSRFile.MIE))):
            m.d.comb += self.pub.dat_r.eq(self.priv.dat_r)
""", """        with m.Switch(prev_csr_adr):
            with m.Case(CSRFile.MIE, CSRFile.MIP, CSRFile.MSTATUS):
                pass
            with m.Default():
                m.d.comb += self.pub.dat_r.eq(self.priv.dat_r)
"""),
    ("datapath.py", """            self.pub.mstatus_r.eq(mstatus),
            self.pub.mip_r.eq(mip),
""", """            self.pub.mip_r.eq(mip),
            self.pub.mstatus_r.eq(mstatus),
"""),
    ("datapath.py", """        with m.If((self.pub.adr == CSRFile.MTVEC) |
                  (self.pub.adr == CSRFile.MEPC)):
            m.d.comb += self.priv.dat_w[0:2].eq(0)
""", """        warl = (self.pub.adr == CSRFile.MEPC) | \\
            (self.pub.adr == CSRFile.MTVEC)
        with m.If(warl):
            m.d.comb += self.priv.dat_w.eq(Cat(C0, self.pub.dat_w[2:]))
"""),
    ("datapath.py", "        prev_csr_adr = Signal.like(self.pub.adr)\n",
     "        prev_csr_adr = Signal(5)\n        C0 = Signal(2)\n"),
]
R["topmux"] = [
    ("top.py", """        with m.Switch(self.control.gp.route.reg_w_sel):
            with m.Case(RegWSel.INSN_RD):
                m.d.comb += reg_w_adr.eq(self.decode.dst)
            with m.Case(RegWSel.ZERO):
                m.d.comb += [
                    reg_w_adr.eq(0),
                    self.datapath.gp.ctrl.allow_zero_wr.eq(1)
                ]
""", """        to_zero = self.control.gp.route.reg_w_sel == RegWSel.ZERO
        m.d.comb += self.datapath.gp.ctrl.allow_zero_wr.eq(to_zero)
        with m.If(~to_zero):
            m.d.comb += reg_w_adr.eq(self.decode.dst)
"""),
    ("top.py", """        m.d.sync += mem_reset_guard.eq(0)

        # Bus conns
        read_data = Signal.like(self.bus.dat_r)
        mem_ack = Signal()
""", """        with m.If(mem_reset_guard):
            m.d.sync += mem_reset_guard.eq(0)
        want_bus = Signal()
        m.d.comb += want_bus.eq(self.control.mem.req & ~mem_reset_guard)

        # Bus conns
        mem_ack = Signal()
        read_data = Signal.like(self.bus.dat_r)
"""),
    ("top.py", """            self.bus.cyc.eq(self.control.mem.req & ~mem_reset_guard),
            self.bus.stb.eq(self.control.mem.req & ~mem_reset_guard),
""", """            *(s.eq(want_bus) for s in (self.bus.stb, self.bus.cyc)),
"""),
]
R["microcode"] = [      # same routines at other addresses
    ("microcode.asm", """addi:         alu_op => add, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);
slti:         CMP_LT, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);
""", """slti:         CMP_LT, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);
addi:         alu_op => add, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);
"""),
    ("microcode.asm", """add:          alu_op => add, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);
slt:          CMP_LT""", """plus:         alu_op => add, INSN_FETCH, JUMP_TO_OP_END(fast_epilog);
slt:          CMP_LT"""),
    ("microcode.asm", "pc_action => inc, jmp_type => direct, \\\n"
     "                    target => add;",
     "pc_action => inc, jmp_type => direct, \\\n"
     "                    target => plus;"),
    ("microcode.asm", """lb: alu_op => add;
    latch_adr => 1;
lb_wait:  a_src => zero, b_src => dat_r, latch_a => 1, latch_b => 1, mem_req => 1, invert_test => 1, \\
              cond_test => mem_valid, mem_sel => byte, mem_extend => sign, jmp_type => direct, \\
              target => lb_wait;
          alu_op => add, JUMP_TO_OP_END(fast_epilog);

""", ""),
    ("microcode.asm", """           alu_op => add, JUMP_TO_OP_END(fast_epilog);

lhu: alu_op""", """           alu_op => add, JUMP_TO_OP_END(fast_epilog);

lb: alu_op => add;
    latch_adr => 1;
lb_wait:  a_src => zero, b_src => dat_r, latch_a => 1, latch_b => 1, mem_req => 1, invert_test => 1, \\
              cond_test => mem_valid, mem_sel => byte, mem_extend => sign, jmp_type => direct, \\
              target => lb_wait;
          alu_op => add, JUMP_TO_OP_END(fast_epilog);

lhu: alu_op"""),
]
R["idle"] = [           # values nobody may look at
    ("align.py", """        with m.If(self.mem_req):
            with m.If(self.insn_fetch):""", """        with m.If(1):
            with m.If(self.insn_fetch):"""),
]


def one(a):
    name, base, props, seed = a
    work = Path(tempfile.mkdtemp(prefix="refac-"))
    out = []
    try:
        repo = work / "repo"
        shutil.copytree("/repo", repo, symlinks=True)
        for n in ([name] if name != "all" else list(R)):
            for f, old, new in R[n]:
                p = repo / "src/sentinel" / f
                s = p.read_text()
                if s.count(old) != 1:
                    if name == "all":       # overlaps an earlier one
                        continue
                    return name, [f"{n}: {f}: found {s.count(old)}: {old[:50]!r}"]
                p.write_text(s.replace(old, new))
        for pid in props:
            r = subprocess.run(
                ["python3-vt", "check.py", "--property", pid, "--tier",
                 "quick"], cwd=base, capture_output=True, text=True,
                env={**os.environ, "VERIF_REPO": str(repo),
                     "VERIF_SEED": str(seed)})
            if r.returncode:
                out.append(f"{pid}: rc {r.returncode} "
                           + (r.stdout + r.stderr)[-600:])
    finally:
        shutil.rmtree(work)
    return name, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("--props")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    props = a.props.split(",") if a.props else [
        c["property"] for c in json.loads(
            (VERIF / "MANIFEST.json").read_text())["checks"]]
    bad = 0
    with ThreadPoolExecutor(a.j) as ex:
        for name, out in ex.map(one, [(n, VERIF, props, a.seed)
                                      for n in a.names or ["all", *R]]):
            print(name, "quiet" if not out else "\n  ".join(["ALARM", *out]),
                  flush=True)
            bad |= bool(out)
    sys.exit(bad)


if __name__ == "__main__":
    main()
