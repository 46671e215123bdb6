"""ctypes binding for the compiled test engine."""
import ctypes as C

u32, u64, u16, u8, i16, i32 = (C.c_uint32, C.c_uint64, C.c_uint16, C.c_uint8,
                               C.c_int16, C.c_int32)


class Step(C.Structure):
    _fields_ = [("insn", u32), ("ldata", u32), ("irq_wave", u64),
                ("fwait", u16), ("mwait", u16), ("rst_at", i16),
                ("rst_len", u8), ("flags", u8), ("pad", u32)]


class Hdr(C.Structure):
    _fields_ = [("nsteps", u32), ("nmem", u32), ("flags", u32), ("seed", u32),
                ("xinit", u32 * 32), ("csr_init", u32 * 6),
                ("start_pc", u32), ("dump_regs", u32), ("dump_csrs", u32),
                ("rst0_len", u32), ("max_cycles", u32), ("max_amb", u32),
                ("pro_fwait", u32), ("epi_fwait", u32)]


class Result(C.Structure):
    _fields_ = [("status", i32), ("kind", i32), ("sub", u32), ("step", i32),
                ("phase", u32), ("insn", u32), ("slotreg", u32), ("cls", u32),
                ("seen", u32), ("pad", u32), ("cycles", u64), ("insns", u32), ("fetches", u32),
                ("loads", u32), ("stores", u32), ("irqs", u32),
                ("traps", u32), ("resets", u32), ("forks", u32),
                ("maxwait", u32), ("txns", u32), ("clscnt", u32 * 32),
                ("rvfi_records", u32), ("nlog", u32), ("nwave", u32),
                ("nret", u32), ("msg", C.c_char * 900)]


F_MEMFETCH, F_LDMEM = 1, 2
(CF_JUNK, CF_MEMFILL, CF_NOPRO, CF_NOEPI, CF_LOG, CF_WAVE, CF_RVFI,
 CF_TIMING, CF_NOMODEL, CF_RETLOG, _, CF_NORSTCHK, CF_NOCSRINIT,
 CF_IRQPRO, CF_STOPPC, CF_MORE, CF_WAVERV,
 CF_IDLEACK, CF_UNDEF) = (1 << i for i in range(19))

KINDS = {0: "none", 1: "FLOW", 2: "MEMADDR", 3: "STDATA", 4: "DUMPREG",
         5: "DUMPCSR", 6: "EXTRA", 7: "PROTO", 8: "TIMEOUT", 9: "TIMING",
         10: "RVFI", 11: "RESET", 12: "RESETCSR"}
CLS = ["alu", "lui", "auipc", "shi", "shr", "jal", "jalr", "bnt", "bt",
       "load", "store", "fence", "wfi", "mret", "csr", "csrro", "ecall",
       "ebreak", "illegal", "csrill", "misjmp", "misld", "misst", "irq"]
CSRS = ["mstatus", "mie", "mtvec", "mscratch", "mepc", "mcause", "mip"]
ALLREGS = 0xFFFFFFFF
ALLCSRS = 0x7F


class Case:
    """One generated test case (fully explicit, JSON round-trippable)."""
    __slots__ = ("steps", "xinit", "csr", "pc", "flags", "seed", "dump_regs",
                 "dump_csrs", "rst0", "mem", "max_cycles", "pro_fwait",
                 "epi_fwait", "meta")
    DEF = dict(flags=CF_JUNK, seed=1, dump_regs=ALLREGS, dump_csrs=ALLCSRS,
               rst0=1, max_cycles=200000, pro_fwait=0, epi_fwait=0)

    def __init__(self, steps=None, **kw):
        self.steps = steps or []
        self.xinit = [0] * 32
        self.csr = [0x1800, 0, 0x100, 0, 0, 0]
        self.pc = 0x1000
        self.mem = []
        self.meta = None
        for k, v in self.DEF.items():
            setattr(self, k, v)
        for k, v in kw.items():
            setattr(self, k, v)

    # step tuple: (insn, ldata, irq_wave, fwait, mwait, rst_at, rst_len, flags)
    def to_json(self):
        d = {k: getattr(self, k) for k in self.__slots__}
        d["steps"] = [{"insn": f"{s[0]:08x}", "ldata": f"{s[1]:08x}",
                       "irq_wave": f"{s[2]:016x}", "fwait": s[3],
                       "mwait": s[4], "rst_at": s[5], "rst_len": s[6],
                       "flags": s[7]} for s in self.steps]
        return d

    @classmethod
    def from_json(cls, d):
        c = cls()
        for k, v in d.items():
            if k != "steps":
                setattr(c, k, v)
        c.mem = [tuple(m) for m in d.get("mem", [])]
        c.steps = [(int(s["insn"], 16), int(s["ldata"], 16),
                    int(s["irq_wave"], 16), s["fwait"], s["mwait"],
                    s["rst_at"], s["rst_len"], s["flags"])
                   for s in d["steps"]]
        return c

    def copy(self):
        c = Case()
        for k in self.__slots__:
            v = getattr(self, k)
            setattr(c, k, list(v) if isinstance(v, list) else v)
        return c


class Engine:
    def __init__(self, so):
        self.lib = C.CDLL(str(so))
        self.lib.eng_log.restype = C.POINTER(u32)
        self.lib.eng_wave.restype = C.POINTER(u64)
        self.lib.eng_memget.restype = u32
        self.lib.eng_memget.argtypes = [u32]
        assert self.lib.eng_sizes(0) == C.sizeof(Hdr)
        assert self.lib.eng_sizes(1) == C.sizeof(Step)
        assert self.lib.eng_sizes(2) == C.sizeof(Result)
        self.cap = -1
        self.h = Hdr()
        self.r = Result()

    def run(self, c, extra_flags=0):
        n = len(c.steps)
        if n > self.cap:
            self.cap = max(256, 2 * n)
            self.buf = (Step * self.cap)()
        b = self.buf
        for i, s in enumerate(c.steps):
            e = b[i]
            (e.insn, e.ldata, e.irq_wave, e.fwait, e.mwait, e.rst_at,
             e.rst_len, e.flags) = s
        h = self.h
        h.nsteps = n
        h.nmem = len(c.mem)
        h.flags = c.flags | extra_flags
        h.seed = c.seed & 0xFFFFFFFF
        for i in range(32):
            h.xinit[i] = c.xinit[i]
        for i in range(6):
            h.csr_init[i] = c.csr[i]
        h.start_pc = c.pc
        h.dump_regs = c.dump_regs
        h.dump_csrs = c.dump_csrs
        h.rst0_len = c.rst0
        h.max_cycles = c.max_cycles
        h.max_amb = 32
        h.pro_fwait = c.pro_fwait
        h.epi_fwait = c.epi_fwait
        m = (u32 * (2 * max(1, len(c.mem))))(*[v for p in c.mem for v in p])
        self.lib.eng_run(C.byref(h), b, m, C.byref(self.r))
        return self.r

    def log(self):
        n = self.r.nlog
        return list(self.lib.eng_log()[0:n]) if n else []

    def wave(self):
        n = self.r.nwave
        return list(self.lib.eng_wave()[0:n]) if n else []
