"""RV32 encoders, a small disassembler for reports, and classifiers."""

M32 = 0xFFFFFFFF


def r_type(op, f3, f7, rd, rs1, rs2):
    return op | rd << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 | f7 << 25


def i_type(op, f3, rd, rs1, imm):
    return op | rd << 7 | f3 << 12 | rs1 << 15 | (imm & 0xFFF) << 20


def s_type(op, f3, rs1, rs2, imm):
    return (op | (imm & 31) << 7 | f3 << 12 | rs1 << 15 | rs2 << 20 |
            ((imm >> 5) & 0x7F) << 25)


def b_type(f3, rs1, rs2, imm):
    return (0x63 | ((imm >> 11) & 1) << 7 | ((imm >> 1) & 15) << 8 |
            f3 << 12 | rs1 << 15 | rs2 << 20 | ((imm >> 5) & 63) << 25 |
            ((imm >> 12) & 1) << 31)


def u_type(op, rd, imm):
    return op | rd << 7 | (imm & 0xFFFFF000)


def j_type(rd, imm):
    return (0x6F | rd << 7 | ((imm >> 12) & 0xFF) << 12 |
            ((imm >> 11) & 1) << 20 | ((imm >> 1) & 0x3FF) << 21 |
            ((imm >> 20) & 1) << 31)


def LW(rd, rs1=0, imm=0):
    return i_type(0x03, 2, rd, rs1, imm)


def SW(rs2, rs1=0, imm=0):
    return s_type(0x23, 2, rs1, rs2, imm)


def ADDI(rd, rs1, imm):
    return i_type(0x13, 0, rd, rs1, imm)


def CSR(f3, rd, csr, rs1):
    return 0x73 | rd << 7 | f3 << 12 | rs1 << 15 | csr << 20


NOP = 0x13
ECALL, EBREAK, MRET, WFI = 0x73, 0x100073, 0x30200073, 0x10500073
MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = (
    0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344)
IMPL = (MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP)
RO_TRAP = tuple(range(0xF11, 0xF16))
RO_ZERO = ((0x301, 0x310, 0x320, 0x343, 0xB00, 0xB02, 0xB80, 0xB82) +
           tuple(range(0xB03, 0xB20)) + tuple(range(0xB83, 0xBA0)) +
           tuple(range(0x323, 0x340)))


def sx(v, b):
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


def fields(w):
    return dict(op=w & 127, rd=w >> 7 & 31, f3=w >> 12 & 7, rs1=w >> 15 & 31,
                rs2=w >> 20 & 31, f7=w >> 25)


def klass(w):
    """Static instruction class (operand-independent)."""
    op, f3, f7 = w & 127, w >> 12 & 7, w >> 25
    if w == NOP:
        return "nop"
    if op == 0x37:
        return "lui"
    if op == 0x17:
        return "auipc"
    if op == 0x6F:
        return "jal"
    if op == 0x67:
        return "jalr" if f3 == 0 else "illegal"
    if op == 0x63:
        return "branch" if f3 not in (2, 3) else "illegal"
    if op == 0x03:
        return "load" if f3 in (0, 1, 2, 4, 5) else "illegal"
    if op == 0x23:
        return "store" if f3 <= 2 else "illegal"
    if op == 0x13:
        if f3 == 1:
            return "shift" if f7 == 0 else "illegal"
        if f3 == 5:
            return "shift" if f7 in (0, 32) else "illegal"
        return "alu"
    if op == 0x33:
        if f7 == 0 or (f7 == 32 and f3 in (0, 5)):
            return "shift" if f3 in (1, 5) else "alu"
        return "illegal"
    if op == 0x0F:
        return "fence" if f3 == 0 else "illegal"
    if op == 0x73:
        if w == ECALL:
            return "ecall"
        if w == EBREAK:
            return "ebreak"
        if w == MRET:
            return "mret"
        if w == WFI:
            return "wfi"
        if f3 in (0, 4):
            return "illegal"
        a = w >> 20
        wr = (f3 & 3) == 1 or (w >> 15 & 31) != 0
        if a in IMPL:
            return "csr"
        if a in RO_ZERO:
            return "csrro"
        if a in RO_TRAP:
            return "csrill" if wr else "csrro"
        return "csrill"
    return "illegal"


def dis(w):
    f = fields(w)
    k = klass(w)
    rd, rs1, rs2 = f["rd"], f["rs1"], f["rs2"]
    imm = sx(w >> 20, 12)
    if k == "nop":
        return "nop"
    if k in ("lui", "auipc"):
        return f"{k} x{rd},0x{w >> 12:x}"
    if k == "jal":
        o = sx((w >> 31) << 20 | (w >> 12 & 255) << 12 | (w >> 20 & 1) << 11 |
               (w >> 21 & 1023) << 1, 21)
        return f"jal x{rd},{o:+d}"
    if k == "jalr":
        return f"jalr x{rd},{imm}(x{rs1})"
    if k == "branch":
        o = sx((w >> 31) << 12 | (w >> 7 & 1) << 11 | (w >> 25 & 63) << 5 |
               (w >> 8 & 15) << 1, 13)
        n = ["beq", "bne", "", "", "blt", "bge", "bltu", "bgeu"][f["f3"]]
        return f"{n} x{rs1},x{rs2},{o:+d}"
    if k == "load":
        n = ["lb", "lh", "lw", "", "lbu", "lhu"][f["f3"]]
        return f"{n} x{rd},{imm}(x{rs1})"
    if k == "store":
        n = ["sb", "sh", "sw"][f["f3"]]
        return f"{n} x{rs2},{sx(f['f7'] << 5 | rd, 12)}(x{rs1})"
    if k in ("alu", "shift"):
        n = ["add", "sll", "slt", "sltu", "xor", "srl", "or", "and"][f["f3"]]
        if f["op"] == 0x13:
            if n == "srl" and f["f7"]:
                n = "sra"
            if k == "shift":
                return f"{n}i x{rd},x{rs1},{rs2}"
            return f"{n}i x{rd},x{rs1},{imm}"
        if f["f7"]:
            n = {"add": "sub", "srl": "sra"}[n]
        return f"{n} x{rd},x{rs1},x{rs2}"
    if k in ("csr", "csrro", "csrill"):
        n = ["", "csrrw", "csrrs", "csrrc", "", "csrrwi", "csrrsi",
             "csrrci"][f["f3"]]
        s = f"x{rs1}" if f["f3"] < 4 else str(rs1)
        return f"{n} x{rd},0x{w >> 20:03x},{s}"
    if k == "illegal":
        return f".word 0x{w:08x}"
    return k
