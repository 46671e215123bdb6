"""C28/C29: the example SoC (examples/attosoc.py).

C28: its memory and peripherals against a reference model.

The harness plays the CPU (vlib/engine/soc.cc) and records every transaction
and every change of an output; `oracle` decides afterwards, by time windows,
whether what happened is what the documentation of the SoC promises.
C29: random programs on the complete SoC, every bus transaction compared with
the ISA model (soc_run_real in soc.cc).
"""
import bisect
import ctypes as C
import random

from . import build
from .driver import V, case_seed, known_findings
from .gen import G
from .rv import (ADDI, CSR, ECALL, LW, MCAUSE, MEPC, MIE, MIP, MRET, MSCRATCH,
                 MSTATUS, MTVEC, NOP, SW, WFI, b_type, dis, i_type, j_type, s_type, u_type)

WAIT, XFER, RST, GPIO, RX, MOD, IRQ = range(7)
(S_IRQ, S_TIRQ, S_SIRQ, S_LEDS, S_GPO, S_GPOE, S_TX, S_STRAY,
 S_ORIRQ) = range(9)
SIGN = ["irq", "timer irq", "serial irq", "leds", "gpio o", "gpio oe", "tx",
        "stray ack", "irq==timer|serial"]
DIV = 1250                  # 12 MHz, 9600 baud
MAXCLK = 400000
MAP = {"wb": dict(ram=0, gpio=0x0200_0000, timer=0x4000_0000,
                  serial=0x8000_0000),
       "csr": dict(ram=0, gpio=0x0200_0000, timer=0x0280_0000,
                   serial=0x0300_0000)}
NBYTES = [0x100, 0x300, 0x400, 0x1000, 0x1400, 0x2000]


class Op(C.Structure):
    _fields_ = [("kind", C.c_uint32), ("a", C.c_uint32), ("b", C.c_uint32),
                ("c", C.c_uint32)]


class Quad(C.Structure):
    _fields_ = [("a", C.c_uint32), ("b", C.c_uint32), ("c", C.c_uint32),
                ("d", C.c_uint32)]


class SCase:
    """bus, seed, harness operations and, for C29, a program."""
    __slots__ = ("bus", "seed", "ops", "prog", "clocks")

    def __init__(self, bus, seed, ops, prog=(), clocks=0):
        self.bus, self.seed, self.ops = bus, seed, ops
        self.prog, self.clocks = prog, clocks

    def to_json(self):
        return dict(bus=self.bus, seed=self.seed, ops=self.ops,
                    prog=[f"{w:08x}" for w in self.prog], clocks=self.clocks)

    @classmethod
    def from_json(cls, d):
        return cls(d["bus"], d["seed"], [tuple(o) for o in d["ops"]],
                   [int(w, 16) for w in d["prog"]], d["clocks"])

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return SCase(**d)

    def key(self):
        return repr((self.bus, self.ops, self.prog))

    def listing(self):
        return [self.bus] + [show(o, MAP[self.bus]) for o in self.ops] + \
            [f"{4 * i:04x}: {w:08x} {dis(w)}"
             for i, w in enumerate(self.prog) if w != NOP]


def x(addr, we, sel, data=0, rst=0):
    return (XFER, addr >> 2 | we << 31, data, sel | rst << 8)


def show(o, m):
    k, a, b, c = o
    if k == XFER:
        adr = (a & 0x3FFFFFFF) << 2
        n, base = max(((n, v) for n, v in m.items() if v <= adr),
                      key=lambda p: p[1])
        return (f"{'write' if a >> 31 else 'read '} {n}+{adr - base:#x} "
                f"sel={c & 15:04b}" + (f" data={b:08x}" if a >> 31 else "") +
                (f" ; reset in clock {c >> 8}" if c >> 8 else ""))
    return {WAIT: f"wait {a}", RST: f"reset {a}", GPIO: f"gpio inputs {a:02x}",
            RX: f"receive byte {a:02x}, {b} clocks per bit",
            MOD: f"wait until clock % {a} == {b % a if a else 0}",
            IRQ: f"wait for irq, at most {a}"}[k]


class Eng:
    def __init__(self, so):
        lib = self.lib = C.CDLL(str(so))
        lib.soc_run.restype = C.c_uint32
        lib.soc_ev.restype = lib.soc_tx.restype = C.POINTER(Quad)

    def run(self, case):
        n = len(case.ops)
        ops = (Op * max(1, n))(*[Op(*o) for o in case.ops])
        beg = (C.c_uint32 * max(1, n))()
        end = self.lib.soc_run(ops, n, case.seed & 0xFFFFFFFF, MAXCLK, beg)
        e, t = self.lib.soc_ev(), self.lib.soc_tx()
        evs = [(e[i].a, e[i].b, e[i].c) for i in range(self.lib.soc_nev())]
        txs = [(t[i].a, t[i].b, t[i].c, t[i].d)
               for i in range(self.lib.soc_ntx())]
        return end, list(beg), evs, txs


class Fail(Exception):
    pass


class Stop(Exception):
    """Behaviour beyond this point is not specified."""


class Sig:
    """Level of an output over time."""
    def __init__(self, evs, s):
        self.t = [e[0] for e in evs if e[1] == s]
        self.v = [e[2] for e in evs if e[1] == s]

    def at(self, t):
        return self.v[bisect.bisect_right(self.t, t) - 1]

    def changes(self, lo, hi):
        """Changes taking effect in clocks lo..hi."""
        i, j = bisect.bisect_left(self.t, lo), bisect.bisect_right(self.t, hi)
        return list(zip(self.t[i:j], self.v[i:j]))


class Oracle:
    known = bool(known_findings("C28"))

    def __init__(self, case, cfg, run):
        self.case, self.cfg = case, cfg
        self.end, self.beg, evs, txs = run
        self.sig = [Sig(evs, s) for s in range(9)]
        self.map = MAP[case.bus]
        self.stats = {}
        self.tx = {t[0]: t[1:] for t in txs}
        self.evs = evs

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def quiet(self, s, lo, hi, val, why):
        """Output s has level val in all clocks lo..hi."""
        if hi < lo:
            return
        hi = min(hi, self.limit)
        if hi < lo:
            return
        v = self.sig[s].at(lo)
        if v != val:
            raise Fail(f"{SIGN[s]} is {v:#x} in clock {lo}, expected "
                       f"{val:#x} ({why})")
        c = self.sig[s].changes(lo + 1, hi)
        if c:
            raise Fail(f"{SIGN[s]} changes to {c[0][1]:#x} in clock "
                       f"{c[0][0]}, expected {val:#x} ({why})")

    def run(self):
        self.limit = self.end - 1
        for s, want in ((S_STRAY, 0), (S_ORIRQ, 1)):
            for t, v in self.sig[s].changes(0, self.end):
                if v != want:
                    raise Fail(f"{SIGN[s]} is {v} in clock {t}")
        # split at resets
        acc, segs, start = [], [], 0
        for i, (k, a, b, c) in enumerate(self.case.ops):
            t = self.beg[i]
            if k == XFER and i in self.tx:
                s, ack, data = self.tx[i]
                if ack == 0xFFFFFFFF:
                    raise Fail(f"op {i} ({show(self.case.ops[i], self.map)}) "
                               "is not acknowledged")
                adr = (a & 0x3FFFFFFF) << 2
                if ack == 0xFFFFFFFE:       # reset in clock s + n - 1
                    r = s + (c >> 8) - 1
                    acc.append(("abort", s, r, adr, a >> 31, c & 15, b, 0))
                    segs.append((start, r, acc))
                    acc, start = [], r + 1
                else:
                    acc.append(("x", s, ack, adr, a >> 31, c & 15, b, data))
            elif k == RST and a and t < self.end - 8:
                segs.append((start, t, acc))
                acc, start = [], min(t + a, self.end)
            elif k == RX:
                acc.append(("rx", t, t, 0, 0, 0, a, b))
            elif k == GPIO:
                acc.append(("gpio", t, t, 0, 0, 0, a, 0))
        segs.append((start, self.end, acc))
        self.ram = {}
        self.gpi = 0
        self.count("resets", len(segs) - 1)
        try:
            for k, (t0, t1, acc) in enumerate(segs):
                self.segment(t0, t1, acc, k > 0)
        except Stop as e:
            self.count("stopped: " + str(e))
        return self.stats

    def segment(self, t0, t1, acc, after_reset):
        # state is the reset state from t0 (first clock without reset), and a
        # clock of reset at t1 ends it
        self.limit = min(t1, self.end - 1)
        m = self.map
        self.memory(acc)
        per = [a for a in acc if a[0] != "abort"]
        for a in acc:
            if a[0] == "abort":
                self.limit = min(self.limit, a[1])
        self.gpio(t0, [a for a in per if a[0] == "gpio" or a[0] == "x" and
                       m["gpio"] <= a[3] < m["gpio"] + 16])
        self.timer(t0, [a for a in per if a[0] == "x" and
                        m["timer"] <= a[3] < m["timer"] + 16])
        self.serial(t0, [a for a in per if a[0] == "rx" or a[0] == "x" and
                         m["serial"] <= a[3] < m["serial"] + 16])

    # -- memory
    def memory(self, acc):
        rom = self.cfg["words"]
        for kind, s, a, adr, we, sel, dw, dr in acc:
            if kind not in ("x", "abort") or adr >= self.cfg["nbytes"]:
                continue
            w = adr >> 2
            if w not in self.ram:
                v = rom[w] if w < len(rom) else 0
                self.ram[w] = [v >> 8 * k & 255 for k in range(4)]
            cell = self.ram[w]
            for k in range(4):
                if not sel >> k & 1:
                    continue
                b = dw >> 8 * k & 255
                if we:
                    cell[k] = None if kind == "abort" and cell[k] != b else b
                elif kind == "x" and cell[k] is not None and \
                        dr >> 8 * k & 255 != cell[k]:
                    raise Fail(f"RAM read of {adr:#x} in clock {s}: byte {k} "
                               f"is {dr >> 8 * k & 255:#04x}, expected "
                               f"{cell[k]:#04x}")
            self.count("ram write" if we else "ram read")

    # -- LEDs and GPIO
    def gpio(self, t0, acc):
        exp = {0: 0, 1: 0, 2: 0}
        since = {0: t0, 1: t0, 2: t0}
        out = {0: S_LEDS, 1: S_GPO, 2: S_GPOE}
        for kind, s, a, adr, we, sel, dw, dr in acc:
            if kind == "gpio":
                self.gpi = dw
                continue
            r = adr >> 2 & 3
            if not sel & 1:
                self.count("gpio other lane")
                continue
            if we and r < 3:
                self.quiet(out[r], since[r], s, exp[r], "before a write")
                for t, v in self.sig[out[r]].changes(s + 1,
                                                     min(a + 2, self.limit)):
                    if v != dw & 255:
                        raise Fail(f"{SIGN[out[r]]} becomes {v:#x} in clock "
                                   f"{t}, {dw & 255:#x} was written")
                exp[r], since[r] = dw & 255, a + 2
                self.count("gpio write")
            elif not we and r == 1:
                if dr & 255 != self.gpi:
                    raise Fail(f"GPIO read in clock {s} returns "
                               f"{dr & 255:#x}, inputs are {self.gpi:#x}")
                self.count("gpio read")
        for r in range(3):
            self.quiet(out[r], since[r], self.limit, exp[r],
                       "nothing written since")

    # -- timer
    def timer(self, t0, acc):
        bit, since, wrap = 0, t0, t0 + 16384
        reads = [(s, a, dr & 1) for _, s, a, adr, we, sel, _, dr in acc
                 if not we and sel & 1 and not adr & 12]
        for s, a, v in reads + [(self.limit + 1, None, 0)]:
            while wrap <= s - 1:
                self.quiet(S_TIRQ, since, wrap - 1, bit, "timer counts")
                bit, since, wrap = bit ^ 1, wrap, wrap + 16384
                self.count("timer wrap")
            self.quiet(S_TIRQ, since, s - 1, bit, "timer counts")
            if a is None:
                break
            self.count(f"timer read {v}")
            if not s <= wrap <= a + 1:
                if v != bit:
                    raise Fail(f"timer read in clock {s} returns {v}, the "
                               f"interrupt bit is {bit}")
                bit = 0
            else:
                self.count(f"timer read {v} as bit 14 changes from {bit}")
                wrap += 16384
                if bit and v:
                    bit = self.sig[S_TIRQ].at(a + 2)
                elif not bit:
                    bit = 1 - v     # not seen, so it must stay pending
                    if (self.known and bit and self.case.bus == "wb" and
                            wrap - 16384 == a and
                            self.sig[S_TIRQ].at(a) == 1 and
                            self.sig[S_TIRQ].at(a + 1) == 0):
                        bit = 0     # exactly what known_findings.txt lists
                        self.count("known finding: lost timer tick")
                else:
                    bit = 0
            since = a + 2

    # -- serial port
    def serial(self, t0, acc):
        lim = self.limit
        rises = []                  # (earliest, latest, bit) of irq events
        # transmitter
        ch = [c for c in self.sig[S_TX].changes(t0 + 1, lim)]
        if self.sig[S_TX].at(t0) != 1 and t0 <= lim:
            raise Fail(f"tx is low after reset in clock {t0}")
        if self.case.bus == "wb":
            rises.append((t0, t0 + 3, 1))
        ci, busy = 0, t0 - 100
        for kind, s, a, adr, we, sel, dw, dr in acc:
            if kind != "x" or not we or not sel & 1 or adr & 12:
                continue
            if ci < len(ch) and ch[ci][0] <= s:
                raise Fail(f"tx changes in clock {ch[ci][0]} without a write")
            if a + 2 < busy:
                self.count("serial write while busy")
                continue
            start = ci < len(ch) and ch[ci][0] <= a + 3
            if not start:
                if a + 4 > lim:
                    break
                if s <= busy + 3:
                    self.count("serial write dropped at end of frame")
                    continue
                raise Fail(f"byte written to the serial port in clock {s} is "
                           "not sent")
            f = ch[ci][0]
            bits = [0] + [dw >> k & 1 for k in range(8)] + [1]
            exp = [(f + DIV * k, b) for k, b in enumerate(bits)
                   if b != ([1] + bits)[k]]
            exp = [e for e in exp if e[0] <= lim]
            got = [c for c in ch[ci:] if c[0] < f + 10 * DIV]
            if got != exp:
                raise Fail(f"sending {dw & 255:#04x} from clock {f}: tx "
                           f"changes {[(t - f, v) for t, v in got]}, expected "
                           f"{[(t - f, v) for t, v in exp]}")
            ci += len(got)
            busy = f + 10 * DIV
            rises.append((busy, busy + 3, 1))
            self.count("byte sent")
        if ci < len(ch):
            raise Fail(f"tx changes in clock {ch[ci][0]} without a write")
        # receiver
        full, byte, frame, over, stop = 0, None, None, (-9, -9), None
        for kind, s, a, adr, we, sel, dw, dr in acc:
            if kind == "x" and (we or not sel & 1 or adr & 12):
                continue
            if frame and s > frame[0] + 11881:
                full, byte, frame = 1, frame[1], None
            if kind == "rx":
                if full is None or frame:
                    stop = s
                    break
                if full:
                    self.count("overrun")
                    over = (s, s + 10 * dr + 10)
                else:
                    frame = (s, dw)
                    rises.append((s + 11875, s + 11881, 0))
                continue
            if over[0] - 1 <= a and s <= over[1]:
                stop = s            # reading in the middle of a lost byte
                break
            if frame:
                if frame[0] + 11875 <= a + 2:
                    full, frame = None, None    # as the byte arrives
                else:
                    self.count("serial read while receiving")
                continue
            if full:
                self.count("byte received")
                if dr & 255 != byte:
                    raise Fail(f"serial read in clock {s} returns "
                               f"{dr & 255:#04x}, received {byte:#04x}")
            full = 0
        if stop is not None:
            self.count("unspecified use of the receiver")
            self.limit = min(lim, stop - 1)
        # interrupt register
        lim = self.limit
        irqr = [(s, a, dr & 3) for kind, s, a, adr, we, sel, _, dr in acc
                if kind == "x" and not we and sel & 1 and adr & 12 == 4]
        items = [(lo, hi, b, None) for lo, hi, b in rises] + \
                [(s, a + 2, None, v) for s, a, v in irqr]
        items.sort(key=lambda i: i[:2])
        pend = [0, 0]
        done_to = t0
        i = 0
        while i <= len(items):
            if i == len(items):
                lo, grp = lim + 1, []
            else:
                # a group: overlapping windows
                grp, lo, hi = [items[i]], items[i][0], items[i][1]
                while i + len(grp) < len(items) and \
                        items[i + len(grp)][0] <= hi:
                    g = items[i + len(grp)]
                    grp.append(g)
                    hi = max(hi, g[1])
            # stable before the group
            if done_to <= min(lo, lim + 1) - 1:
                if 1 in pend:
                    self.quiet(S_SIRQ, done_to, lo - 1, 1, "event pending")
                elif None not in pend:
                    self.quiet(S_SIRQ, done_to, lo - 1, 0, "no event pending")
                else:
                    v = self.sig[S_SIRQ].at(done_to)
                    self.quiet(S_SIRQ, done_to, lo - 1, v, "no event")
                    if v == 0:
                        pend = [0, 0]
                    elif pend.count(None) == 1:
                        pend[pend.index(None)] = 1
            if not grp or lo > lim:
                break
            if hi > lim:
                break
            rd = [g for g in grp if g[3] is not None]
            for b in (0, 1):
                ev = [g for g in grp if g[2] == b]
                p = pend[b]
                if not rd:
                    pend[b] = 1 if ev else p
                    continue
                if not ev:
                    for g in rd:
                        v = g[3] >> b & 1
                        if p is not None and v != p:
                            raise Fail(
                                f"serial interrupt register read in clock "
                                f"{g[0]}: bit {b} is {v}, expected {p}")
                        p = 0
                    pend[b] = p
                    continue
                if len(ev) > 1 or len(rd) > 1:
                    pend[b] = None
                    continue
                v = rd[0][3] >> b & 1
                self.count("event during read of the interrupt register")
                if p == 1:
                    if not v:
                        raise Fail(f"serial interrupt register read in clock "
                                   f"{rd[0][0]}: bit {b} is 0, expected 1")
                    pend[b] = None
                elif p == 0:
                    pend[b] = 1 - v
                else:
                    pend[b] = None if v else 1
            if rd:
                self.count("serial irq read")
            done_to = hi + 1
            i += len(grp)


# ---------------------------------------------------------------- generator
class Gen:
    def __init__(self, rng, cfg):
        self.r, self.cfg, self.m = rng, cfg, MAP[cfg["bus"]]
        self.ops = []

    def word(self):
        r = self.r
        return r.choice((r.getrandbits(32), 0, 0xFFFFFFFF, 1 << r.randrange(32),
                         r.getrandbits(8), r.getrandbits(8) * 0x01010101))

    def ramaddr(self):
        r, n = self.r, self.cfg["nbytes"] // 4
        return 4 * r.choice((r.randrange(n), self.near % n, r.randrange(4),
                             n - 1 - r.randrange(4),
                             (1 << r.randrange(12)) % n,
                             (self.near ^ 1 << r.randrange(11)) % n))

    def sel(self):
        return self.r.choice((1, 2, 4, 8, 3, 12, 15, 15))

    def psel(self):
        return self.r.choice((1, 15, 3, 1, 15, 3, 2, 4, 8, 12))

    def xf(self, addr, we, sel, data=0):
        rst = self.r.randrange(1, 9) if self.r.random() < self.prst else 0
        self.ops.append(x(addr, we, sel, data, rst))
        if self.r.random() < .3:
            self.ops.append((WAIT, self.r.choice((1, 1, 2, 3, 5, 17)), 0, 0))

    def ram(self, n):
        for _ in range(n):
            we = self.r.random() < .5
            a = self.ramaddr()
            self.xf(a, we, self.sel(), self.word())
            self.near = a // 4

    def gpio(self, n):
        r = self.r
        for _ in range(n):
            k = r.randrange(8)
            if k == 0:
                self.ops.append((GPIO, r.getrandbits(8), 0, 0))
            else:
                reg = r.choice((0, 1, 1, 2))
                self.xf(self.m["gpio"] + 4 * reg, r.random() < .6,
                        self.psel(), self.word())

    def timer_read(self):
        self.xf(self.m["timer"], self.r.random() < .08,
                self.r.choice((1, 15, 15, 3, 1, 15, 2)), self.word())

    def irq_read(self):
        self.xf(self.m["serial"] + 4, self.r.random() < .05,
                self.r.choice((1, 15, 15, 3, 1, 15, 2)), self.word())

    def timer(self, n):
        r = self.r
        for _ in range(n):
            self.ops.append((MOD, 16384, (r.choice((-8, -7, -6, -5, -4, -3, -2,
                             -2, -1, -1, 0, 1, 2, r.randrange(16384)))) %
                             16384, 0))
            for _ in range(r.choice((1, 1, 1, 2, 3))):
                self.timer_read()
            if r.random() < .3:
                self.any()

    def send(self):
        self.xf(self.m["serial"], True, self.r.choice((1, 15, 15, 3, 1, 2)),
                self.word())

    def recv(self):
        self.xf(self.m["serial"], False, self.r.choice((1, 15, 15, 3)))

    def any(self):
        self.r.choice((lambda: self.ram(1), lambda: self.gpio(1),
                       self.timer_read, self.irq_read, self.send))()

    def serial(self, n):
        r = self.r
        for _ in range(n):
            k = r.randrange(10)
            if k < 3:                       # send, then meet the frame's end
                self.send()
                for _ in range(r.choice((0, 0, 1, 2))):
                    self.ops.append((WAIT, r.randrange(1, 3000), 0, 0))
                    r.choice((self.send, self.any, self.irq_read))()
                    if r.random() < .5:
                        break
                else:
                    self.ops.append((WAIT, 12500 - r.choice(
                        (-40, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 9, 40)),
                        0, 0))
                r.choice((self.irq_read, self.irq_read, self.send,
                          self.any))()
            elif k < 7:                     # receive
                self.ops.append((RX, r.choice((r.getrandbits(8), 0, 255, 0x55,
                                 1 << r.randrange(8))), r.choice(
                                 (1250, 1250, 1225, 1275,
                                  r.randrange(1225, 1276))), 0))
                if r.random() < .3:
                    self.ops.append((WAIT, r.randrange(1, 9000), 0, 0))
                    self.any()
                    self.ops.append((WAIT, 3000, 0, 0))
                j = r.randrange(8)
                if j < 3:
                    self.ops.append((WAIT, 11878 - r.choice(
                        (-20, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 20)),
                        0, 0))
                    r.choice((self.irq_read, self.irq_read, self.recv))()
                elif j < 5:
                    self.ops.append((IRQ, 13000, 0, 0))
                self.ops.append((WAIT, 12800, 0, 0))
                if r.random() < .8:
                    if r.random() < .7:
                        self.irq_read()
                    self.recv()
            elif k == 7:
                self.irq_read()
            elif k == 8:
                self.any()
            else:
                self.ops.append((WAIT, r.randrange(1, 14000), 0, 0))

    def case(self):
        r = self.r
        self.prst = r.choice((0, 0, 0, .05, .2))
        self.near = r.randrange(1024)
        mode = r.randrange(8)
        if r.random() < .8:
            self.ops.append((RST, r.choice((1, 2, 5)), 0, 0))
        for _ in range(r.randrange(1, 4)):
            if mode <= 1:
                self.ram(r.randrange(5, 60))
            elif mode == 2:
                self.gpio(r.randrange(3, 30))
            elif mode == 3:
                self.timer(r.randrange(1, 5))
            elif mode <= 5:
                self.serial(r.randrange(1, 6))
            else:
                r.choice((lambda: self.ram(r.randrange(1, 9)),
                          lambda: self.gpio(r.randrange(1, 9)),
                          lambda: self.timer(r.randrange(1, 3)),
                          lambda: self.serial(r.randrange(1, 3))))()
            if r.random() < .15:
                self.ops.append((RST, r.choice((1, 2, 5)), 0, 0))
        return SCase(self.cfg["bus"], r.getrandbits(31) | 1, self.ops)


# -------------------------------------------------------------------- checks
def shrink_soc(case, fails, budget):
    left = [budget]

    def attempt(c):
        nonlocal case
        left[0] -= 1
        if left[0] >= 0 and fails(c):
            case = c
            return True
        return False

    def chunks(field, gone):
        """Remove (or blank) parts of a list."""
        size = max(1, len(getattr(case, field)) // 2)
        while left[0] > 0:
            i = 0
            while i < len(getattr(case, field)):
                cur = list(getattr(case, field))
                new = cur[:i] + gone(cur[i:i + size]) + cur[i + size:]
                if new == cur or not attempt(case.but(**{field: new})):
                    i += size
                elif len(new) == len(cur):
                    i += size
            if size == 1:
                break
            size //= 2

    for _ in range(3):
        before = case
        chunks("ops", lambda part: [])
        chunks("prog", lambda part: [NOP] * len(part))
        for i in range(len(case.ops)):
            k, a, b, c = case.ops[i]
            alts = []
            if k == WAIT:
                alts = [(k, v, b, c) for v in (1, a // 2, a - 1) if 0 < v < a]
            elif k == XFER:
                if c >> 8:
                    alts.append((k, a, b, c & 15))
                alts += [(k, a, v, c) for v in (0, b & 255) if v != b]
            for o in alts:
                if attempt(case.but(ops=case.ops[:i] + [o] +
                                    case.ops[i + 1:])):
                    break
        if case is before:
            break
    return case


class C28:
    id = "C28"
    n = {"quick": 30000, "thorough": 3000000}
    budget = {"quick": 200, "thorough": 1500}
    batch = 100
    shrink_budget = 400
    exhaustive_note = None
    engine = Eng
    case_type = SCase
    shrink = staticmethod(shrink_soc)
    rule = ("random bus histories, serial frames, GPIO inputs and resets on "
            "both variants of the SoC (the harness plays the CPU), with reads "
            "and writes aimed at timer ticks and at the ends of serial "
            "frames, RAM size and form of the ROM image chosen per run; "
            "non-trivial: at least three accesses whose result or effect was "
            "decided by the oracle")
    assumptions = [
        "the stand-ins for amaranth_soc (address decoder, CSR registers, "
        "bridge) behave like the package",
        "Yosys/CXXRTL and clang translate the elaborated design faithfully",
        "a receiver that is read in the middle of a lost byte and addresses "
        "without a device are unspecified",
    ]

    def count(self, tier):
        return self.n[tier]

    def config(self, seed, bus):
        """RAM size and ROM image, per run and variant."""
        r = random.Random(case_seed(seed, "C28cfg", bus == "csr"))
        n = r.choice(NBYTES)
        kind = r.choice(("list", "bytes", "bytearray", "str", "none"))
        k = r.choice((n // 4, r.randrange(1, n // 4)))
        words = [r.getrandbits(32) for _ in range(k)]
        rom = dict(kind=kind, words=words)
        if kind == "none":
            words = []
        elif kind == "str":
            src, words = ["start:"], []
            for i in range(min(k, 40)):
                rd, rs, im = r.randrange(32), r.randrange(32), r.randrange(99)
                src.append(f"    addi x{rd}, x{rs}, {im}")
                words.append(ADDI(rd, rs, im))
            src.append("    jal x0, start")
            words.append(j_type(0, -4 * len(words)))
            rom = dict(kind=kind, source="\n".join(src), words=[])
        elif kind != "list" and r.random() < .5:    # a partial last word
            cut = r.randrange(1, 4)
            rom["nbytes"] = 4 * k - cut
            words = words[:-1] + [words[-1] & (1 << 32 - 8 * cut) - 1]
        return dict(bus=bus, nbytes=n, words=words, rom=rom)

    def build(self, work):
        import os
        seed = int(os.environ.get("VERIF_SEED", "1"))
        self.cfg = {b: self.config(seed, b) for b in ("wb", "csr")}
        sos = {}
        for b, c in self.cfg.items():
            sos[b], amap = build.build_soc(work, "fake", b, c["nbytes"],
                                           c["rom"])
        return sos

    def gen(self, g, i):
        bus = ("wb", "csr")[i & 1]
        if i < 2:       # a tick in the clock that acknowledges a read
            return SCase(bus, 1, [(RST, 2, 0, 0), (MOD, 16384, 16383, 0),
                                  x(MAP[bus]["timer"], 0, 15),
                                  (WAIT, 9, 0, 0),
                                  x(MAP[bus]["timer"], 0, 15)])
        return Gen(g.r, self.cfg[bus]).case()

    def judge(self, E, case):
        cfg = self.cfg[case.bus]
        o = Oracle(case, cfg, E[case.bus].run(case))
        try:
            st = o.run()
        except Fail as e:
            return V(True, "SOC", f"{case.bus}: {e} (RAM {cfg['nbytes']} "
                     f"bytes, image as {cfg['rom']['kind']})", note={})
        st["clock_cycles"] = o.end
        return V(note=st)

    def relevant(self, v):
        return True

    def scope(self, E, case, v):
        return True

    def nontrivial(self, case, v):
        n = v.note
        return sum(n.get(k, 0) for k in n if k != "clock_cycles" and
                   not k.startswith(("unspec", "resets", "timer wrap"))) >= 3

    def classify(self, case, v, h):
        h["cases_" + case.bus] += 1
        for k, n in v.note.items():
            h[k] += n

    def sample(self, case, v):
        return case.listing()[:12]


class Res(C.Structure):
    _fields_ = [(n, C.c_uint32) for n in (
        "status", "insns", "irqs", "traps", "loads", "stores", "io",
        "resets", "clocks", "seen")] + [("msg", C.c_char * 600)]


class RealEng:
    def __init__(self, so):
        self.lib = C.CDLL(str(so))

    def run(self, case, nbytes):
        n = len(case.ops)
        ops = (Op * max(1, n))(*[Op(*o) for o in case.ops])
        pr = (C.c_uint32 * len(case.prog))(*case.prog)
        r = Res()
        self.lib.soc_run_real(pr, len(case.prog), nbytes, ops, n,
                              case.seed & 0xFFFFFFFF, case.clocks,
                              int(case.bus == "wb"), C.byref(r))
        return r


def li(rd, v):
    lo = (v & 0xFFF) - ((v & 0x800) << 1)
    hi = (v - lo) & 0xFFFFFFFF
    if not hi:
        return [ADDI(rd, 0, lo)]
    return [u_type(0x37, rd, hi)] + ([ADDI(rd, rd, lo)] if lo else [])


class C29(C28):
    id = "C29"
    n = {"quick": 60000, "thorough": 1000000}
    batch = 40
    nbytes = 0x800
    HANDLER, DATA, SAVE = 0x500, 0x600, 0x7C0
    engine = RealEng
    rule = ("random looping programs with an interrupt handler, placed in the "
            "RAM of both variants of the SoC and run by its own CPU under "
            "timer and serial interrupts, received bytes, changing GPIO "
            "inputs and resets; every bus transaction compared with the ISA "
            "model, every RAM read with what was written; non-trivial: 200 "
            "or more instructions, a peripheral access and an interrupt taken")
    assumptions = C28.assumptions[:2] + [
        "the reference model in vlib/engine/iss.h states the RISC-V "
        "RV32I/Zicsr M-mode semantics correctly"]

    def build(self, work):
        mark = dict(kind="list", words=[0x5EC0DE13, 0x1234ABCD])
        return {b: build.build_soc(work, "real", b, self.nbytes, mark)[0]
                for b in ("wb", "csr")}

    def gen(self, g, i):
        bus = ("wb", "csr")[i & 1]
        m = MAP[bus]
        per = [(29, m["gpio"], (0, 4, 8)), (28, m["timer"], (0,)),
               (27, m["serial"], (0, 4))]
        p = li(1, self.HANDLER) + [CSR(1, 0, MTVEC, 1)]
        p += [CSR(5, 0, MSCRATCH, g.rr(32)), CSR(5, 0, MCAUSE, 0),
              CSR(5, 0, MEPC, 0)]
        if g.rr(8):
            p += li(1, 0x800) + [CSR(1, 0, MIE, 1)]
        else:
            p += [CSR(5, 0, MIE, 0)]
        for r in range(1, 27):
            p += li(r, g.val() if g.rr(3) == 0 else g.rr(64))
        for r, base, _ in per:
            p += li(r, base)
        p += li(31, self.DATA) + li(30, g.rr(1, 30))
        p += [CSR(6, 0, MSTATUS, 8)]
        loop = len(p)
        n = g.rr(4, 70)
        g.regs = [g.rr(27) for _ in range(g.rr(2, 9))] if g.rr(2) else \
            list(range(27))
        body = []
        for k in range(n):
            rd, t = g.rr(27), g.rr(30)
            fwd = 4 * g.rr(1, min(6, n - k) + 1)
            if t < 8:
                w = g.alu(rd)
            elif t < 11:
                w = g.shift() & ~0xF80 | rd << 7
            elif t < 14:
                f3 = g.ch((0, 1, 2, 4, 5))
                w = i_type(3, f3, rd, 31, g.rr(128) & -(1 << (f3 & 3)))
            elif t < 17:
                f3 = g.rr(3)
                w = s_type(0x23, f3, 31, g.rr(27), g.rr(128) & -(1 << f3))
            elif t < 20:
                w = b_type(g.ch((0, 1, 4, 5, 6, 7)), g.rr(27), g.rr(27), fwd)
            elif t < 21:
                w = j_type(g.ch((0, rd)), fwd)
            elif t < 22:
                w = u_type(0x17, rd, g.bits(32))
            elif t < 26:        # a peripheral
                r, _, regs = g.ch(per)
                o = g.ch(regs)
                if r == 29 and o != 4 or r != 28 and g.rr(2):
                    f3 = g.rr(3)
                    w = s_type(0x23, f3, r, g.rr(27), o)
                else:
                    f3 = g.ch((0, 1, 2, 4, 5))
                    w = i_type(3, f3, rd, r, o)
            elif t < 28:
                w = g.ch((CSR(6, 0, MSTATUS, 8), CSR(7, 0, MSTATUS, 8),
                          CSR(6, 0, MSTATUS, 8), WFI, 0x0F,
                          CSR(1, rd, MSCRATCH, g.rr(27)),
                          CSR(2, rd, MTVEC, 0), CSR(2, rd, MIP, 0),
                          CSR(2, rd, MIE, 0), CSR(2, rd, MEPC, 0),
                          CSR(2, rd, MSTATUS, 0), ECALL))
            else:
                w = CSR(g.ch((1, 2, 3, 5, 6, 7)), rd, MSCRATCH, g.rr(27))
            body.append(w)
        body += [ADDI(30, 30, -1)]
        body += [b_type(1, 30, 0, -4 * len(body))]
        body += li(30, g.rr(1, 60)) + [CSR(6, 0, MSTATUS, 8)]
        p += body
        p.append(j_type(0, 4 * (loop - len(p))))
        p = p[:self.HANDLER // 4]
        use = sorted(g.r.sample(range(1, 27), g.rr(3, 7)))
        t0, t1, t2 = use[:3]
        h = [SW(r, 0, self.SAVE + 4 * k) for k, r in enumerate(use)]
        h += [CSR(2, t0, MCAUSE, 0), b_type(4, t0, 0, 20),
              CSR(2, t1, MEPC, 0), ADDI(t1, t1, 4), CSR(1, 0, MEPC, t1),
              j_type(0, 0)]
        fix = len(h) - 1
        if g.rr(8):             # acknowledge the sources
            h += [LW(t0, 28, 0), LW(t1, 27, 4)]
            h += [ADDI(t2, 0, 1), 0x33 | t2 << 7 | 7 << 12 | t2 << 15 |
                  t1 << 20, b_type(0, t2, 0, 12), LW(t2, 27, 0),
                  SW(t2, 31, 124)]
            if g.rr(2):
                h += [LW(t2, 31, 120), ADDI(t2, t2, 1), SW(t2, 31, 120),
                      SW(t2, 29, g.ch((0, 4, 8)))]
            if g.rr(3) == 0:
                h += [SW(t2, 27, 0)]
        else:                   # give up on interrupts
            h += li(t0, 0x80) + [CSR(3, 0, MSTATUS, t0)]
        h[fix] = j_type(0, 4 * (len(h) - fix))
        h[fix - 4] = b_type(4, t0, 0, 20)
        h += [LW(r, 0, self.SAVE + 4 * k) for k, r in enumerate(use)] + [MRET]
        img = p + [NOP] * (self.HANDLER // 4 - len(p)) + h
        img += [NOP] * (self.DATA // 4 - len(img))
        img += [g.val() for _ in range(32)]
        ops = []
        for _ in range(g.rr(12)):
            k = g.rr(8)
            if k < 4:
                ops.append((RX, g.bits(8), 1250, 0))
            elif k < 6:
                ops.append((GPIO, g.bits(8), 0, 0))
            elif k < 7 and g.rr(2):
                ops.append((RST, g.rr(1, 4), 0, 0))
            ops.append((WAIT, g.ch((g.rr(1, 200), g.rr(1, 20000))), 0, 0))
        clocks = g.ch((3000, 9000, 20000, 40000, 80000))
        return SCase(bus, g.bits(31) | 1, ops, img, clocks)

    def judge(self, E, case):
        r = E[case.bus].run(case, self.nbytes)
        if r.status == 1:
            return V(True, "SOCRUN",
                     f"{case.bus}: {r.msg.decode(errors='replace')}", note={})
        note = {k: getattr(r, k) for k in (
            "insns", "irqs", "traps", "loads", "stores", "io", "resets",
            "clocks")}
        return V(incon=r.status == 2, note=note)

    def nontrivial(self, case, v):
        n = v.note
        return n["insns"] >= 200 and n["io"] > 0 and n["irqs"] > 0
