"""Run small programs on Sentinel under Amaranth's simulator."""
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__)),
                os.path.join(os.getcwd(), "src")]

M32 = 0xFFFFFFFF


# -- a tiny assembler --------------------------------------------------------
def r(f7, rs2, rs1, f3, rd, op=0x33):
    return f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def i(imm, rs1, f3, rd, op=0x13):
    return (imm & 0xFFF) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op


def addi(rd, rs1, imm): return i(imm, rs1, 0, rd)
def lui(rd, imm): return (imm & 0xFFFFF) << 12 | rd << 7 | 0x37
def auipc(rd, imm): return (imm & 0xFFFFF) << 12 | rd << 7 | 0x17


def li(rd, v):
    v &= M32
    lo = (v & 0xFFF) - (0x1000 if v & 0x800 else 0)
    return [lui(rd, (v - lo & M32) >> 12), addi(rd, rd, lo)]


def load(f3, rd, rs1, off): return i(off, rs1, f3, rd, 0x03)


def store(f3, rs2, rs1, off):
    off &= 0xFFF
    return (off >> 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 \
        | (off & 31) << 7 | 0x23


def lw(rd, rs1, off): return load(2, rd, rs1, off)
def sw(rs2, rs1, off): return store(2, rs2, rs1, off)


def br(f3, rs1, rs2, off):
    o = off & 0x1FFF
    return (o >> 12) << 31 | (o >> 5 & 63) << 25 | rs2 << 20 | rs1 << 15 \
        | f3 << 12 | (o >> 1 & 15) << 8 | (o >> 11 & 1) << 7 | 0x63


def jal(rd, off):
    o = off & 0x1FFFFF
    return (o >> 20) << 31 | (o >> 1 & 0x3FF) << 21 | (o >> 11 & 1) << 20 \
        | (o >> 12 & 0xFF) << 12 | rd << 7 | 0x6F


def jalr(rd, rs1, off): return i(off, rs1, 0, rd, 0x67)
def csr(f3, rd, addr, rs1): return i(addr, rs1, f3, rd, 0x73)
def csrrw(rd, a, rs1): return csr(1, rd, a, rs1)
def csrrs(rd, a, rs1): return csr(2, rd, a, rs1)
def csrrc(rd, a, rs1): return csr(3, rd, a, rs1)


MRET, WFI, ECALL, EBREAK, FENCE = (0x30200073, 0x10500073, 0x73, 0x100073,
                                   0x0FF0000F)
NOP, HALT = addi(0, 0, 0), jal(0, 0)
MSTATUS, MIE, MTVEC, MSCRATCH, MEPC, MCAUSE, MIP = (
    0x300, 0x304, 0x305, 0x340, 0x341, 0x342, 0x344)


def flat(*xs):
    out = []
    for x in xs:
        out += flat(*x) if isinstance(x, (list, tuple)) else [x]
    return out


def image(*parts):
    """image((addr, [insns...]), ...) -> word memory."""
    mem = {}
    for addr, insns in parts:
        for k, w in enumerate(flat(insns)):
            mem[(addr + 4 * k & M32) >> 2] = w
    return mem


# -- the simulation ----------------------------------------------------------
class Log(list):
    """Acknowledged accesses (kind, byte address, sel, data, clock), kind one
    of F(etch) is not visible on the bus, so R(ead) or W(rite)."""
    mem = None
    clocks = 0
    trace = ()
    stopped = False

    def at(self, kind=None):
        return [e for e in self if kind is None or e[0] == kind]

    def words(self):
        return [(e[0], e[1]) for e in self]


def run(mem, clocks=2000, irq=None, wait=0, junk=0, reset=(), formal=False,
        stop=None, rvfi=()):
    """Run from reset.  `irq`(clock, log) -> 0/1; `wait`(log, addr, we) or int
    gives extra clocks before an acknowledge (always at least one clock after
    strobe); `reset` is a set of clocks at which reset is high; stops when a
    word address in `stop` is read."""
    from amaranth import ClockDomain, Module, Signal
    from amaranth.sim import Simulator
    if formal:
        from sentinel.formal import FormalTop
        top = FormalTop()
    else:
        from sentinel.top import Top
        top = Top()
    rst = Signal()
    m = Module()
    m.domains.sync = cd = ClockDomain()
    m.d.comb += cd.rst.eq(rst)
    m.submodules.top = top
    log = Log()
    log.mem = mem = dict(mem)
    log.trace = trace = []
    b = top.bus

    async def tb(ctx):
        cnt = 0
        for clk in range(clocks):
            ctx.set(rst, int(clk in reset))
            ctx.set(top.irq, int(bool(irq(clk, log))) if irq else 0)
            ack = 0
            if ctx.get(b.cyc) and ctx.get(b.stb):
                adr, we = ctx.get(b.adr), ctx.get(b.we)
                w = wait(log, adr << 2, we) if callable(wait) else wait
                if cnt > w:
                    ack = 1
                    cnt = 0
                else:
                    cnt += 1
            else:
                cnt = 0
            ctx.set(b.ack, ack)
            d = mem.get(adr, 0) if ack and not we else \
                (junk * 0x9E3779B1 + clk * junk) & M32
            if ack and not we and not ctx.get(b.sel) == 15:
                lanes = sum(255 << 8 * k for k in range(4)
                            if ctx.get(b.sel) >> k & 1)
                d = (d & lanes) | (junk * 0x85EBCA6B & M32 & ~lanes)
            ctx.set(b.dat_r, d)
            if ack:
                sel = ctx.get(b.sel)
                if we:
                    dw = ctx.get(b.dat_w)
                    lanes = sum(255 << 8 * k for k in range(4)
                                if sel >> k & 1)
                    mem[adr] = (mem.get(adr, 0) & ~lanes) | (dw & lanes)
                    log.append(("W", adr << 2, sel, dw & lanes, clk))
                else:
                    log.append(("R", adr << 2, sel, d, clk))
            if formal:
                f = top.rvfi
                if ctx.get(f.valid):
                    row = {}
                    for n in rvfi:
                        s = f
                        for p in n.split("."):
                            s = getattr(s, p)
                        row[n] = ctx.get(s)
                    trace.append(row)
            log.clocks = clk
            hit = ack and not we and stop is not None and adr << 2 in stop
            await ctx.tick()
            if hit:
                log.stopped = True
                return

    sim = Simulator(m)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return log


def regs_after(setup, insns, dump, **kw):
    """Run setup+insns, then store the registers in `dump`; returns values."""
    p = flat(setup, insns)
    end = 4 * (len(p) + len(dump))
    prog = p + [sw(x, 0, 0x600 + 4 * k) for k, x in enumerate(dump)] + [HALT]
    log = run(image((0, prog)), stop={end}, **kw)
    return [log.mem.get((0x600 >> 2) + k) for k in range(len(dump))], log


def check(cond, msg="behaviour differs"):
    if not cond:
        print("FAIL:", msg)
        sys.exit(1)
