"""C31, run under /opt/venv/bin/python: the core's building blocks.

usage: parts.py SEED SECONDS CYCLES OUT.json | parts.py --replay FILE

Each documented component of the core is driven on its own, in Amaranth's
simulator, with random histories of its inputs (all values of the microcode
fields, whether or not the shipped microcode uses them) and compared in every
cycle with a model written from its documentation.  Whatever the
documentation leaves open is not compared.  Components that a revision
doesn't have are left out (and counted).
"""
import io
import json
import random
import re
import sys
import time
import warnings
from collections import Counter
from pathlib import Path

import rv

warnings.simplefilter("ignore")
M32 = 0xFFFFFFFF
CORNERS = [0, 1, 2, 3, 4, M32, M32 - 1, 1 << 31, (1 << 31) - 1, 0x80, 0x7F,
           0xFF, 0x8000, 0x7FFF, 0xFFFF, 0xFFFF8000, 0x55555555, 0xAAAAAAAA]


def word(r, width=32):
    k = r.randrange(5)
    if k == 0:
        v = r.choice(CORNERS)
    elif k == 1:
        v = 1 << r.randrange(width)
    elif k == 2:
        v = ~(1 << r.randrange(width))
    elif k == 3:
        lo = r.randrange(width)
        v = (1 << r.randrange(width + 1)) - (1 << lo)
    else:
        v = r.getrandbits(width)
    return v & (1 << width) - 1


class Part:
    """A component, its inputs, and a model of what is documented."""
    comb = False        # has no clocked behaviour

    def __init__(self, cfg):
        self.cfg = cfg

    @classmethod
    def config(cls, r):
        return {}

    def enums(self):
        """input name -> (enumeration, names of values to use)"""
        return {}

    def reset(self):
        pass

    def expect(self, i):
        return {}

    def clock(self, i):
        pass


def path(o, p):
    for k in p.split("."):
        o = getattr(o, k)
    return o


class ALU(Part):
    ops = ("ADD SUB AND OR XOR SLL SRL SRA CMP_LTU").split()

    @classmethod
    def config(cls, r):
        return dict(width=r.choice((32, 32, 8, 16, 64, r.randrange(2, 65))))

    def make(self):
        from sentinel.alu import ALU
        return ALU(self.cfg["width"])
    ins = ("a", "b", "ctrl.op", "ctrl.imod", "ctrl.omod")
    outs = ("o", "ctrl.zero")

    def enums(self):
        from sentinel import ucodefields as u
        return {"ctrl.op": (u.OpType, self.ops),
                "ctrl.imod": (u.ALUIMod, ("NONE", "INV_MSB_A_B")),
                "ctrl.omod": (u.ALUOMod, ("NONE", "INV_LSB_O",
                                          "CLEAR_LSB_O"))}

    def gen(self, r, _):
        n = self.cfg["width"]
        a = word(r, n)
        b = r.choice((word(r, n), word(r, n), a, a + 1 & (1 << n) - 1,
                      a ^ 1 << n - 1, ~a & (1 << n) - 1))
        return {"a": a, "b": b, "ctrl.op": r.choice(self.ops),
                "ctrl.imod": r.choice(("NONE", "NONE", "INV_MSB_A_B")),
                "ctrl.omod": r.choice(("NONE", "NONE", "INV_LSB_O",
                                       "CLEAR_LSB_O"))}

    def reset(self):
        self.o = None

    def expect(self, i):
        if self.o is None:
            return {}
        return {"o": self.o, "ctrl.zero": int(self.o == 0)}

    def clock(self, i):
        n = self.cfg["width"]
        a, b, top = i["a"], i["b"], 1 << n - 1
        if i["ctrl.imod"] == "INV_MSB_A_B":
            a, b = a ^ top, b ^ top
        sa = a - 2 * top if a & top else a
        o = {"ADD": a + b, "SUB": a - b, "AND": a & b, "OR": a | b,
             "XOR": a ^ b, "SLL": a << 1, "SRL": a >> 1, "SRA": sa >> 1,
             "CMP_LTU": int(a < b)}[i["ctrl.op"]] & 2 * top - 1
        if i["ctrl.omod"] == "INV_LSB_O":
            o ^= 1
        elif i["ctrl.omod"] == "CLEAR_LSB_O":
            o &= ~1
        self.o = o


class ASrcMux(Part):
    ins = ("latch", "sel", "gp", "imm", "alu")
    outs = ("data",)
    sels = "GP IMM ALU_O ZERO FOUR NEG_ONE THIRTY_ONE".split()

    def make(self):
        from sentinel.alu import ASrcMux
        return ASrcMux()

    def enums(self):
        from sentinel import ucodefields as u
        return {"sel": (u.ASrc, self.sels)}

    def gen(self, r, _):
        return {"latch": int(r.random() < .6), "sel": r.choice(self.sels),
                "gp": word(r), "imm": word(r), "alu": word(r)}

    def reset(self):
        self.d = None

    def expect(self, i):
        return {} if self.d is None else {"data": self.d}

    def value(self, i):
        return {"GP": i["gp"], "IMM": i["imm"], "ALU_O": i["alu"], "ZERO": 0,
                "FOUR": 4, "NEG_ONE": M32, "THIRTY_ONE": 31}[i["sel"]]

    def clock(self, i):
        if i["latch"]:
            self.d = self.value(i)


def aligned(sel, adr):
    return sel == "BYTE" or sel == "HWORD" and not adr & 1 or \
        sel == "WORD" and not adr & 3


def read_align(i, dat, adr):
    s = i["mem_sel"]
    if not aligned(s, adr):
        return None
    if s == "WORD":
        return dat
    n = 8 if s == "BYTE" else 16
    v = dat >> 8 * (adr & 3) & (1 << n) - 1
    return rv.sx(v, n) & M32 if i["mem_extend"] == "SIGN" else v


SELS = ("BYTE", "HWORD", "WORD", "AUTO")


def adr(r, sel):
    a = word(r)
    if r.random() < .85:
        a &= {"BYTE": M32, "HWORD": ~1}.get(sel, ~3) & M32
    return a


class BSrcMux(ASrcMux):
    ins = ("latch", "sel", "mem_sel", "mem_extend", "data_adr", "gp", "imm",
           "pc", "dat_r", "csr_imm", "csr", "mcause")
    sels = "GP PC IMM ONE DAT_R CSR_IMM CSR MCAUSE_LATCH".split()

    def make(self):
        from sentinel.alu import BSrcMux
        return BSrcMux()

    def enums(self):
        from sentinel import ucodefields as u
        return {"sel": (u.BSrc, self.sels), "mem_sel": (u.MemSel, SELS),
                "mem_extend": (u.MemExtend, ("ZERO", "SIGN"))}

    def gen(self, r, _):
        s = r.choice(SELS)
        return {"latch": int(r.random() < .6),
                "sel": r.choice(self.sels + ["DAT_R"] * 5),
                "mem_sel": s, "mem_extend": r.choice(("ZERO", "SIGN")),
                "data_adr": adr(r, s), "gp": word(r), "imm": word(r),
                "pc": word(r, 30), "dat_r": word(r), "csr_imm": word(r, 5),
                "csr": word(r), "mcause": word(r)}

    def value(self, i):
        if i["sel"] == "DAT_R":
            return read_align(i, i["dat_r"], i["data_adr"])
        return {"GP": i["gp"], "PC": i["pc"] << 2, "IMM": i["imm"], "ONE": 1,
                "CSR_IMM": i["csr_imm"], "CSR": i["csr"],
                "MCAUSE_LATCH": i["mcause"]}[i["sel"]]


class AddressAlign(Part):
    comb = True
    ins = ("mem_req", "mem_sel", "insn_fetch", "pc", "latched_adr")
    outs = ("wb_adr", "wb_sel")

    def make(self):
        from sentinel.align import AddressAlign
        return AddressAlign()

    def enums(self):
        from sentinel import ucodefields as u
        return {"mem_sel": (u.MemSel, SELS)}

    def gen(self, r, _):
        s = r.choice(SELS)
        return {"mem_req": int(r.random() < .9), "mem_sel": s,
                "insn_fetch": int(r.random() < .3), "pc": word(r, 30),
                "latched_adr": adr(r, s)}

    def expect(self, i):
        if not i["mem_req"]:
            return {}
        if i["insn_fetch"]:
            return {"wb_adr": i["pc"], "wb_sel": 15}
        a, s = i["latched_adr"], i["mem_sel"]
        x = {"wb_adr": a >> 2}
        if aligned(s, a):
            x["wb_sel"] = {"BYTE": 1, "HWORD": 3, "WORD": 15}[s] << (a & 3)
        return x


class ReadDataAlign(Part):
    comb = True
    ins = ("mem_sel", "mem_extend", "latched_adr", "wb_dat_r")
    outs = ("data",)

    def make(self):
        from sentinel.align import ReadDataAlign
        return ReadDataAlign()

    def enums(self):
        from sentinel import ucodefields as u
        return {"mem_sel": (u.MemSel, SELS),
                "mem_extend": (u.MemExtend, ("ZERO", "SIGN"))}

    def gen(self, r, _):
        s = r.choice(SELS)
        return {"mem_sel": s, "mem_extend": r.choice(("ZERO", "SIGN")),
                "latched_adr": adr(r, s), "wb_dat_r": word(r)}

    def expect(self, i):
        v = read_align(i, i["wb_dat_r"], i["latched_adr"])
        return {} if v is None else {"data": v}


class WriteDataAlign(Part):
    comb = True
    ins = ("mem_sel", "latched_adr", "data")
    outs = ("wb_dat_w",)

    def make(self):
        from sentinel.align import WriteDataAlign
        return WriteDataAlign()

    def enums(self):
        from sentinel import ucodefields as u
        return {"mem_sel": (u.MemSel, SELS)}

    def gen(self, r, _):
        s = r.choice(SELS)
        return {"mem_sel": s, "latched_adr": adr(r, s), "data": word(r)}

    def expect(self, i):
        a, s = i["latched_adr"], i["mem_sel"]
        if not aligned(s, a):
            return {}
        n = {"BYTE": 8, "HWORD": 16, "WORD": 32}[s]
        m = (1 << n) - 1 << 8 * (a & 3)
        return {"wb_dat_w": ((i["data"] & (1 << n) - 1) << 8 * (a & 3), m)}


class SrcMux(Part):
    comb = True
    ins = ("insn_fetch", "reg_r_sel", "reg_w_sel", "csr_sel", "src_a_unreg",
           "src_a", "src_b", "dst", "csr_encoding", "csr_target")
    outs = ("reg_r_adr", "reg_w_adr", "allow_zero_wr", "csr_adr")

    def make(self):
        from sentinel.datapath import DataPathSrcMux
        return DataPathSrcMux()

    def enums(self):
        from sentinel import ucodefields as u
        return {"reg_r_sel": (u.RegRSel, ("INSN_RS1", "INSN_RS2")),
                "reg_w_sel": (u.RegWSel, ("INSN_RD", "ZERO")),
                "csr_sel": (u.CSRSel, ("INSN_CSR", "TRG_CSR"))}

    def gen(self, r, _):
        x = {k: word(r, 5) for k in ("src_a_unreg", "src_a", "src_b", "dst")}
        x |= {k: word(r, 4) for k in ("csr_encoding", "csr_target")}
        return x | {"insn_fetch": r.getrandbits(1),
                    "reg_r_sel": r.choice(("INSN_RS1", "INSN_RS2")),
                    "reg_w_sel": r.choice(("INSN_RD", "ZERO")),
                    "csr_sel": r.choice(("INSN_CSR", "TRG_CSR"))}

    def expect(self, i):
        z = i["reg_w_sel"] == "ZERO"
        return {"reg_r_adr": i["src_b"] if i["reg_r_sel"] == "INSN_RS2" else
                i["src_a_unreg" if i["insn_fetch"] else "src_a"],
                "reg_w_adr": 0 if z else i["dst"], "allow_zero_wr": int(z),
                "csr_adr": i["csr_encoding" if i["csr_sel"] == "INSN_CSR"
                             else "csr_target"]}


class DataPath(Part):
    """Registers, CSRs and program counter, sharing one memory."""
    ins = ("gp.adr_r", "gp.adr_w", "gp.dat_w", "gp.ctrl.reg_read",
           "gp.ctrl.reg_write", "gp.ctrl.allow_zero_wr", "csr.adr",
           "csr.dat_w", "csr.ctrl.op", "csr.ctrl.exception",
           "csr.mip_w.meip", "pc.dat_w", "pc.ctrl.action")
    outs = ("gp.dat_r", "csr.dat_r", "csr.mstatus_r.mie",
            "csr.mstatus_r.mpie", "csr.mstatus_r.mpp", "csr.mie_r.meie",
            "csr.mip_r.meip", "pc.dat_r")
    names = "MSTATUS MIE MTVEC MSCRATCH MEPC MCAUSE MIP".split()
    ctl = ("NONE LATCH_DECODER LATCH_JAL LATCH_STORE_ADR LATCH_LOAD_ADR "
           "ENTER_INT LEAVE_INT").split()

    def make(self):
        from sentinel.datapath import CSRFile, DataPath
        self.adr = {n: int(getattr(CSRFile, n)) for n in self.names}
        return DataPath()

    def enums(self):
        from sentinel import ucodefields as u
        return {"csr.ctrl.op": (u.CSROp, ("NONE", "READ_CSR", "WRITE_CSR")),
                "csr.ctrl.exception": (u.ExceptCtl, self.ctl),
                "csr.adr": (self.adr, self.names),
                "pc.ctrl.action": (u.PcAction, ("HOLD", "INC",
                                                "LOAD_ALU_O"))}

    def gen(self, r, _):
        regs = self.regs
        return {"gp.adr_r": r.choice(regs), "gp.adr_w": r.choice(regs),
                "gp.dat_w": word(r),
                "gp.ctrl.reg_read": int(r.random() < .6),
                "gp.ctrl.reg_write": int(r.random() < .5),
                "gp.ctrl.allow_zero_wr": int(r.random() < .2),
                "csr.adr": r.choice(self.names), "csr.dat_w": word(r),
                "csr.ctrl.op": r.choice(("NONE",) * 4 + (
                    "READ_CSR", "READ_CSR", "WRITE_CSR", "WRITE_CSR")),
                "csr.ctrl.exception": r.choice(self.ctl + ["NONE"] * 8),
                "csr.mip_w.meip": r.getrandbits(1),
                "pc.dat_w": word(r, 30),
                "pc.ctrl.action": r.choice(("HOLD", "INC", "LOAD_ALU_O"))}

    def case(self, r):
        self.regs = r.choice((range(32), (0, 0, 1, 2), (
            r.randrange(32), r.randrange(32), 0)))

    def reset(self):
        self.x = {}                     # registers with known contents
        self.c = {}                     # CSRs in memory, likewise
        self.gp = self.rd = self.pc = None
        self.mie = self.mpie = self.meie = None
        self.first = True

    def expect(self, i):
        # reset itself is what C15 is about, on the complete core
        x = {"csr.mip_r.meip": i["csr.mip_w.meip"], "csr.mstatus_r.mpp": 3,
             "gp.dat_r": self.gp, "csr.dat_r": self.rd, "pc.dat_r": self.pc,
             "csr.mstatus_r.mie": self.mie, "csr.mstatus_r.mpie": self.mpie,
             "csr.mie_r.meie": self.meie}
        return {k: v for k, v in x.items() if v is not None}

    def clock(self, i):
        op, csr = i["csr.ctrl.op"], i["csr.adr"]
        m, exc = i["csr.dat_w"], i["csr.ctrl.exception"]
        self.rd = None
        if op == "NONE":
            ar, aw = i["gp.adr_r"], i["gp.adr_w"]
            wr = i["gp.ctrl.reg_write"] and (
                aw or i["gp.ctrl.allow_zero_wr"])
            if wr:
                self.x[aw] = i["gp.dat_w"]
            if i["gp.ctrl.reg_read"]:
                self.gp, self.last = self.x.get(ar), ar
            elif wr and self.gp is not None and aw == self.last:
                self.gp = None          # documented as not known
        else:
            self.gp = None
        if op == "READ_CSR":
            if csr == "MSTATUS":
                self.rd = None if self.mie is None or self.mpie is None \
                    else 3 << 11 | self.mie << 3 | self.mpie << 7
            elif csr == "MIE":
                self.rd = None if self.meie is None else self.meie << 11
            elif csr == "MIP":
                self.rd = i["csr.mip_w.meip"] << 11
            else:
                self.rd = self.c.get(csr)
        mie, mpie = self.mie, self.mpie
        if exc == "ENTER_INT":
            self.mie, self.mpie = 0, mie
        elif exc == "LEAVE_INT":
            self.mie, self.mpie = mpie, 1
        if op == "WRITE_CSR":
            if csr == "MSTATUS":
                self.mie, self.mpie = m >> 3 & 1, m >> 7 & 1
                if exc in ("ENTER_INT", "LEAVE_INT"):
                    self.mie = self.mpie = None     # not documented
            elif csr == "MIE":
                self.meie = m >> 11 & 1
            elif csr in ("MTVEC", "MEPC"):
                self.c[csr] = m & ~3
            elif csr != "MIP":
                self.c[csr] = m
        act = i["pc.ctrl.action"]
        if act == "LOAD_ALU_O":
            self.pc = i["pc.dat_w"]
        elif act == "INC" and self.pc is not None:
            self.pc = self.pc + 1 & (1 << 30) - 1


class Counter30(Part):
    """The program counter on its own (much faster than all of DataPath)."""
    ins = ("dat_w", "ctrl.action")
    outs = ("dat_r",)

    def make(self):
        from sentinel.datapath import ProgramCounter
        return ProgramCounter()

    def enums(self):
        from sentinel import ucodefields as u
        return {"ctrl.action": (u.PcAction, ("HOLD", "INC", "LOAD_ALU_O"))}

    def gen(self, r, _):
        return {"dat_w": word(r, 30), "ctrl.action": r.choice(
            ("HOLD", "INC", "INC", "LOAD_ALU_O"))}

    def reset(self):
        self.pc = None

    def expect(self, i):
        return {} if self.pc is None else {"dat_r": self.pc}

    def clock(self, i):
        if i["ctrl.action"] == "LOAD_ALU_O":
            self.pc = i["dat_w"]
        elif i["ctrl.action"] == "INC" and self.pc is not None:
            self.pc = self.pc + 1 & (1 << 30) - 1


class Router(Part):
    ins = ("src.alu_lo", "src.csr.mstatus.mie", "src.csr.mip.meip",
           "src.csr.mie.meie", "src.ctrl.mem_sel", "src.ctrl.except_ctl",
           "src.decode.valid", "src.decode.e_type")
    outs = ("out.exception", "out.mcause", "src.ctrl.exception")
    ctl = DataPath.ctl
    types = {"ILLEGAL_INSN": 2, "BREAKPOINT": 3, "ECALL_MMODE": 11}

    def make(self):
        from sentinel.exception import ExceptionRouter
        return ExceptionRouter()

    def enums(self):
        from sentinel import ucodefields as u
        from sentinel.csr import MCause
        return {"src.ctrl.mem_sel": (u.MemSel, SELS),
                "src.ctrl.except_ctl": (u.ExceptCtl, self.ctl),
                "src.decode.e_type": (MCause.Cause, tuple(self.types))}

    def gen(self, r, _):
        # 1 and 3 can't come from a JAL; the documentation is about JALs
        ctl = r.choice(self.ctl[:5])
        return {"src.alu_lo": r.randrange(4),
                "src.csr.mstatus.mie": int(r.random() < .7),
                "src.csr.mip.meip": int(r.random() < .6),
                "src.csr.mie.meie": int(r.random() < .7),
                "src.ctrl.mem_sel": r.choice(SELS),
                "src.ctrl.except_ctl": r.choice((ctl, ctl, ctl,
                                                 r.choice(self.ctl))),
                "src.decode.valid": int(r.random() < .5),
                "src.decode.e_type": r.choice(list(self.types))}

    def reset(self):
        self.cause = None

    def judge(self, i):
        """None: open; 0: no exception; (cause,): exception"""
        c, lo = i["src.ctrl.except_ctl"], i["src.alu_lo"]
        if c == "LATCH_DECODER":
            if i["src.csr.mstatus.mie"] and i["src.csr.mip.meip"] and \
                    i["src.csr.mie.meie"]:
                return (1 << 31 | 11,)
            return (self.types[i["src.decode.e_type"]],) \
                if i["src.decode.valid"] else 0
        if c == "LATCH_JAL":
            return None if lo & 1 else (0,) if lo else 0
        if c in ("LATCH_STORE_ADR", "LATCH_LOAD_ADR"):
            s = i["src.ctrl.mem_sel"]
            if s == "AUTO":
                return None
            return 0 if aligned(s, lo) else (
                6 if c == "LATCH_STORE_ADR" else 4,)
        return 0

    def expect(self, i):
        j, x = self.judge(i), {}
        if j is not None:
            x = {"out.exception": int(j != 0),
                 "src.ctrl.exception": int(j != 0)}
        if self.cause is not None:
            x["out.mcause"] = self.cause
        return x

    def clock(self, i):
        j = self.judge(i)
        if i["src.ctrl.except_ctl"] in ("NONE", "ENTER_INT", "LEAVE_INT"):
            return                      # "latched": stays until the next one
        self.cause = j[0] if j else None


def insn_word(r):
    k = r.randrange(8)
    if k == 0:
        return r.choice((rv.ECALL, rv.EBREAK, rv.MRET, rv.WFI, 0, M32,
                         rv.NOP)) ^ (1 << r.randrange(32) if
                                     r.random() < .4 else 0)
    if k == 1:
        a = r.choice(rv.IMPL + rv.RO_ZERO + rv.RO_TRAP)
        if r.random() < .4:
            a ^= 1 << r.randrange(12)
        return a << 20 | r.choice((0, r.randrange(32))) << 15 | \
            r.randrange(1, 8) << 12 | r.choice((0, r.randrange(32))) << 7 | \
            0x73
    w = word(r) & ~127 | r.choice((0x13, 0x37, 0x17, 0x33, 0x6F, 0x67, 0x63,
                                   3, 0x23, 0xF, 0x73))
    if r.random() < .5:
        w = w & ~(127 << 25) | r.choice((0, 0, 32, 1, 64)) << 25
    if r.random() < .1:
        w ^= 1 << r.randrange(32)
    return w


def imm(w):
    op = w & 127
    if op in (0x13, 0x67, 3):
        return rv.sx(w >> 20, 12) & M32
    if op in (0x37, 0x17):
        return w & 0xFFFFF000
    if op == 0x6F:
        return rv.sx(w >> 31 << 20 | (w >> 12 & 255) << 12 |
                     (w >> 20 & 1) << 11 | (w >> 21 & 1023) << 1, 21) & M32
    if op == 0x63:
        return rv.sx(w >> 31 << 12 | (w >> 7 & 1) << 11 |
                     (w >> 25 & 63) << 5 | (w >> 8 & 15) << 1, 13) & M32
    if op == 0x23:
        return rv.sx(w >> 25 << 5 | w >> 7 & 31, 12) & M32
    return None


class Immediates(Part):
    ins = ("enable", "insn")
    outs = ("imm",)

    def make(self):
        from sentinel.decode import ImmediateGenerator
        return ImmediateGenerator()

    def gen(self, r, _):
        return {"enable": int(r.random() < .6), "insn": insn_word(r)}

    def reset(self):
        self.v = None

    def expect(self, i):
        return {} if self.v is None else {"imm": self.v}

    def clock(self, i):
        if i["enable"]:
            self.v = imm(i["insn"])


class Decode(Part):
    ins = ("do_decode", "insn")
    outs = ("src_a_unreg", "src_a", "src_b", "imm", "dst", "opcode",
            "exception.valid", "exception.e_type")

    def make(self):
        from sentinel.decode import Decode
        return Decode()

    def gen(self, r, prev):
        # at least two cycles between decodes, as a fetch makes sure
        p = [k.get("do_decode", 0) for k in prev[-2:]]
        return {"do_decode": int(not any(p) and r.random() < .6),
                "insn": insn_word(r)}

    def reset(self):
        self.w, self.age = None, 0

    def expect(self, i):
        x = {"src_a_unreg": i["insn"] >> 15 & 31}
        if i["insn"] & 3 == 3:
            x["opcode"] = i["insn"] >> 2 & 31
        w = self.w
        if w is None:
            return x
        k = rv.klass(w)
        x |= {"src_a": w >> 15 & 31, "src_b": w >> 20 & 31,
              "dst": w >> 7 & 31}
        if k not in ("illegal", "csrill") and imm(w) is not None:
            x["imm"] = imm(w)
        late = w & 127 == 0x73 and w >> 12 & 3 != 0
        if self.age == 1 + late:
            ill = k in ("illegal", "csrill")
            x["exception.valid"] = int(ill or k in ("ecall", "ebreak"))
            if x["exception.valid"]:
                x["exception.e_type"] = 2 if ill else \
                    11 if k == "ecall" else 3
        return x

    def clock(self, i):
        if i["do_decode"]:
            if self.w is not None and self.age < 2:
                self.w = None           # too soon: nothing is promised
                self.age = -10 ** 9
                return
            self.w, self.age = i["insn"], 1
        else:
            self.age += 1


class Sequencer(Part):
    ins = ("target", "jmp_type", "opcode_adr", "test")
    outs = ("adr",)

    def make(self):
        from sentinel.control import Sequencer
        from sentinel.ucoderom import UCodeROM
        return Sequencer(UCodeROM())

    def enums(self):
        from sentinel import ucodefields as u
        return {"jmp_type": (u.JmpType, ("CONT", "NOP", "DIRECT",
                                         "DIRECT_ZERO"))}

    def gen(self, r, _):
        return {"target": word(r, 8), "opcode_adr": word(r, 8),
                "test": r.getrandbits(1),
                "jmp_type": r.choice(("CONT", "NOP", "DIRECT", "DIRECT",
                                      "DIRECT_ZERO"))}

    def reset(self):
        self.n, self.now = 2, True

    def expect(self, i):
        if self.now:                    # the cycle after reset
            return {}
        j = i["jmp_type"]
        if j in ("CONT", "NOP"):
            a = self.n
        elif i["test"]:
            a = i["target"]
        else:
            a = self.n if j == "DIRECT" else 0
        return {} if a is None else {"adr": a}

    def clock(self, i):
        a = 2 if self.now else self.expect(i).get("adr")
        # after reset the program starts at 2, whatever comes in
        self.n = None if a is None else a + 1 & 255
        self.now = False


class Control(Part):
    """The control unit with a random microprogram of its own."""
    ports = {
        "target": ["csr.route.target"], "pc_action": ["pc.action"],
        "latch_a": ["alu.route.latch_a"], "latch_b": ["alu.route.latch_b"],
        "a_src": ["alu.route.a_src"], "b_src": ["alu.route.b_src"],
        "alu_op": ["alu.ctrl.op"], "alu_i_mod": ["alu.ctrl.imod"],
        "alu_o_mod": ["alu.ctrl.omod"], "reg_read": ["gp.ctrl.reg_read"],
        "reg_write": ["gp.ctrl.reg_write"],
        "reg_r_sel": ["gp.route.reg_r_sel"],
        "reg_w_sel": ["gp.route.reg_w_sel"], "csr_op": ["csr.ctrl.op"],
        "csr_sel": ["csr.route.csr_sel"], "mem_req": ["mem.req"],
        "mem_sel": ["mem.sel", "exception.mem_sel"],
        "mem_extend": ["mem.extend"], "latch_adr": ["mem.latch_adr"],
        "latch_data": ["mem.latch_data"], "write_mem": ["mem.write"],
        "insn_fetch": ["mem.insn_fetch"],
        "except_ctl": ["csr.ctrl.exception", "exception.except_ctl"]}
    ins = ("decode.requested_op", "exception.exception", "alu.ctrl.zero",
           "mem.valid")
    outs = tuple(o for k in ports.values() for o in k)

    @classmethod
    def config(cls, r):
        return dict(program=r.getrandbits(32))

    def make(self):
        from sentinel.control import Control
        from sentinel.ucoderom import UCodeROM
        src = UCodeROM.main_microcode_file().read_text()
        head = re.match(r".*?\bfields\b[^{]*\{.*?\n\s*\};", src, re.S)
        fm = UCodeROM.field_map
        if not head or set(fm) != set(self.ports) | {
                "jmp_type", "cond_test", "invert_test"}:
            raise Absent("other microcode fields")
        r = random.Random(self.cfg["program"])
        self.prog, lines = [], []
        for k in range(256):
            w, t = {}, []
            for n, f in fm.items():
                if hasattr(f, "__members__"):
                    v = r.choice(list(f.__members__))
                    if n == "jmp_type" and r.randrange(4) == 0:
                        v = "DIRECT"
                    w[n] = f[v].value
                    t.append(f"{n} => {v.lower()}")
                else:
                    w[n] = r.getrandbits(f.width)
                    t.append(f"{n} => {w[n]}")
                if n in ("jmp_type", "cond_test"):
                    w[n] = v
            r.shuffle(t)
            self.prog.append(w)
            lines.append(", ".join(t) + ";")
        return Control(io.StringIO(head[0] + "\norigin 0;\n"
                                   + "\n".join(lines) + "\n"))

    def gen(self, r, _):
        return {"decode.requested_op": self.w["target"] if self.w
                else word(r, 8), "exception.exception": r.getrandbits(1),
                "alu.ctrl.zero": r.getrandbits(1),
                "mem.valid": r.getrandbits(1)}

    def reset(self):
        self.w, self.n, self.first = None, None, True

    def expect(self, i):
        w = self.w
        if not w:
            return {}
        # fields without effect in this microinstruction are left out
        off = {n for n, c in (
            ("a_src", w["latch_a"]), ("b_src", w["latch_b"]),
            ("reg_r_sel", w["reg_read"] and not w["csr_op"]),
            ("reg_w_sel", w["reg_write"] and not w["csr_op"]),
            ("csr_sel", w["csr_op"]), ("target", w["csr_op"] and
                                       w["csr_sel"]),
            ("write_mem", w["mem_req"]),
            ("mem_extend", w["mem_sel"] in (1, 2))) if not c}
        return {o: w[n] for n, k in self.ports.items() if n not in off
                for o in k}

    def clock(self, i):
        a = None
        if self.first:
            a = 2
        elif self.w:
            w = self.w
            test = {"EXCEPTION": i["exception.exception"],
                    "CMP_ALU_O_ZERO": i["alu.ctrl.zero"],
                    "MEM_VALID": i["mem.valid"],
                    "TRUE": 1}[w["cond_test"]] ^ w["invert_test"]
            j = w["jmp_type"]
            if j in ("CONT", "NOP"):
                a = self.n
            elif j == "MAP":        # whichever way the test goes
                if i["decode.requested_op"] == w["target"]:
                    a = w["target"]
            else:
                a = w["target"] if test else self.n if j == "DIRECT" else 0
        self.first = False
        self.w = None if a is None else self.prog[a]
        self.n = None if a is None else a + 1 & 255


class Absent(Exception):
    pass


PARTS = [ALU, ASrcMux, BSrcMux, AddressAlign, ReadDataAlign, WriteDataAlign,
         SrcMux, DataPath, Counter30, Router, Immediates, Decode, Sequencer,
         Control]


class Bench:
    """One component in the simulator."""

    def __init__(self, cls, cfg):
        from amaranth.hdl import ClockDomain, Module, ResetInserter, Signal, \
            Value
        from amaranth.sim import Simulator
        self.part = p = cls(cfg)
        try:
            dut = p.make()
            self.i = {n: Value.cast(path(dut, n)) for n in p.ins}
            self.o = {n: Value.cast(path(dut, n)) for n in p.outs}
            self.en = {}
            for n, (e, names) in p.enums().items():
                self.en[n] = {k: int(getattr(e[k], "value", e[k]))
                              for k in names}
        except (ImportError, AttributeError, KeyError) as e:
            raise Absent(str(e)) from e
        except TypeError as e:
            if e.__traceback__.tb_next.tb_next is None:
                raise Absent(str(e)) from e     # other parameters
            raise
        m = Module()
        self.rst = Signal()
        m.domains.sync = ClockDomain()
        m.submodules.dut = ResetInserter(self.rst)(dut)
        self.sim = Simulator(m)
        self.sim.add_clock(1e-6)

    def run(self, next_case, report):
        """next_case() -> (list of cycles | generator function) or None."""
        p = self.part

        async def tb(ctx):
            while (case := next_case()) is not None:
                ctx.set(self.rst, 1)
                await ctx.tick()
                ctx.set(self.rst, 0)
                p.reset()
                done, bad = [], None
                for i in case(done):
                    done.append(i)
                    for n, v in i.items():
                        ctx.set(self.i[n], self.en[n][v] if n in self.en
                                else v)
                    for n, v in p.expect(i).items():
                        mask = M32 << 32 | M32
                        if isinstance(v, tuple):
                            v, mask = v
                        g = ctx.get(self.o[n]) & mask
                        if g != v:
                            bad = dict(cycle=len(done) - 1, output=n, got=g,
                                       want=v)
                            break
                    if bad:
                        break
                    p.clock(i)
                    await ctx.tick()
                if report(done, bad):
                    return
        self.sim.reset()
        self.sim.add_testbench(tb)
        self.sim.run()


def attempt(cls, cfg, cycles):
    """The failure of one history, or None."""
    out, todo = [], [cycles]

    def nxt():
        return (lambda _: iter(todo.pop())) if todo else None
    Bench(cls, cfg).run(nxt, lambda d, b: out.append(b) or True)
    return out[0] if out else None


def shrink(cls, cfg, cycles, bad):
    deadline = time.time() + 40
    cycles = cycles[:bad["cycle"] + 1]

    def fails(c):
        if time.time() > deadline or not c:
            return None
        b = attempt(cls, cfg, c)
        return b if b and b["output"] == bad["output"] else None
    step = max(1, len(cycles) // 2)
    while step:
        k = 0
        while k < len(cycles):
            c = cycles[:k] + cycles[k + step:]
            b = fails(c)
            if b:
                cycles, bad = c[:b["cycle"] + 1], b
            else:
                k += step
        step //= 2
    for k in range(len(cycles)):
        for n in list(cycles[k]):
            v = cycles[k][n]
            for t in ([0, 1] if isinstance(v, int) else ["NONE"]):
                if isinstance(v, int) and v <= t or isinstance(v, str) and (
                        v == t or n not in ("ctrl.imod", "ctrl.omod",
                                            "csr.ctrl.op",
                                            "csr.ctrl.exception")):
                    continue
                c = [dict(x) for x in cycles]
                c[k][n] = t
                b = fails(c)
                if b:
                    cycles, bad = c, b
                    break
    return cycles, bad


def text(cls, cfg, cycles, bad):
    def h(v):
        return hex(v) if isinstance(v, int) else v
    lines = [f"{cls.__name__}{cfg or ''}: {bad['output']} is "
             f"{bad['got']:#x}, must be {bad['want']:#x} in the last of "
             "these cycles after reset"]
    for k, i in enumerate(cycles):
        lines.append(f"  {k}: " + " ".join(
            f"{n}={h(v)}" for n, v in i.items()))
    return "\n".join(lines)


def broken(cls, cfg, e):
    return (f"{cls.__name__}{cfg or ''} can't be built: "
            f"{type(e).__name__}: {e}")


def check(seed, secs, limit):
    st = dict(evals=0, cycles=0, seen=0, viol=None, err=None, samples=[],
              hist=Counter())
    r = random.Random(seed)
    end, order = time.time() + secs, PARTS[:]
    r.shuffle(order)
    todo, absent, seen = order[:], set(), set()
    while time.time() < end and st["cycles"] < limit:
        if not todo:
            todo = [c for c in order + [DataPath] * 4 + [Decode, ALU]
                    if c not in absent]
            if not todo:
                break
        cls = todo.pop()
        cfg = cls.config(r)
        try:
            b = Bench(cls, cfg)
        except Absent as e:
            absent.add(cls)
            st["hist"][f"{cls.__name__} not present"] += 1
            print(cls.__name__, e, file=sys.stderr)
            continue
        except Exception as e:
            st["viol"] = dict(kind="BUILD", part=cls.__name__, cfg=cfg,
                              msg=broken(cls, cfg, e))
            return st
        stop = time.time() + min(1.5, secs / 12)
        fail = []

        def nxt():
            if time.time() > stop or fail:
                return None
            n = r.choice((1, 3, 10, 40, 120))
            if hasattr(b.part, "case"):
                b.part.case(r)

            def gen(done):
                for _ in range(n):
                    yield b.part.gen(r, done)
            return gen

        def report(done, bad):
            st["evals"] += 1
            st["cycles"] += len(done)
            st["hist"][cls.__name__] += len(done)
            if len(done) > 2 or cls.comb:
                seen.add(hash(str(done[:4])))
            if len(st["samples"]) < 2 and st["evals"] % 37 == 0:
                st["samples"].append({"component": cls.__name__, "config":
                                      cfg, "first cycles": done[:3]})
            if bad:
                fail.append((done, bad))
        b.run(nxt, report)
        if fail:
            done, bad = shrink(cls, cfg, *fail[0])
            st["viol"] = dict(kind="CYCLES", part=cls.__name__, cfg=cfg,
                              cycles=done, msg=text(cls, cfg, done, bad))
            break
    st["seen"] = len(seen)
    return st


def main():
    if sys.argv[1] == "--replay":
        v = json.loads(Path(sys.argv[2]).read_text())
        cls = next(c for c in PARTS if c.__name__ == v["part"])
        msg = None
        try:
            if v["kind"] == "CYCLES":
                bad = attempt(cls, v["cfg"], v["cycles"])
                msg = bad and text(cls, v["cfg"], v["cycles"], bad)
            else:
                Bench(cls, v["cfg"])
        except Absent:
            pass
        except Exception as e:
            msg = broken(cls, v["cfg"], e)
        print("verdict:", msg or "no failure")
        sys.exit(1 if msg else 0)
    st = check(int(sys.argv[1]), float(sys.argv[2]), int(sys.argv[3]))
    Path(sys.argv[4]).write_text(json.dumps(st))


if __name__ == "__main__":
    main()
