"""C32, run under /opt/venv/bin/python: the demo command of the example SoC.

usage: demo.py SEED SECONDS CASES OUT.json | demo.py --replay FILE

Runs examples/attosoc.py's command line with generated options and firmware
(ELF files made here, random fill, built-in), with stand-ins for the board
definitions (stubs/amaranth_boards) that record what is to be built, and
simulates the recorded design at its pins.
"""
import contextlib
import io
import json
import os
import random
import shutil
import struct
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from pathlib import Path

import rv

warnings.simplefilter("ignore")
BOARDS = {"cmod_s7": "CmodS7_Platform", "icebreaker": "ICEBreakerPlatform",
          "icestick": "ICEStickPlatform", "arty_a7": "ArtyA7_35Platform",
          "ice40_hx8k_b_evn": "ICE40HX8KBEVNPlatform"}
RAM = 0x1000
PRIMES = [p for p in range(2, 256) if all(p % d for d in range(2, p))]
_maps = {}
KNOWN = any(x.startswith("open: property=C32 ") for x in (
    Path(__file__).parent.parent / "known_findings.txt").read_text()
    .splitlines())
known = [0]


def ports(bus):
    """Register addresses of the SoC's peripherals."""
    if bus not in _maps:
        from amaranth.hdl import Fragment
        s = soc(bus, [0])
        with contextlib.redirect_stdout(io.StringIO()):
            Fragment.get(s, None)
        a = sorted({r.start & ~3 for r in
                    s.decoder.bus.memory_map.all_resources()
                    if r.start >= RAM})
        # LEDs, pins and output enables come first, in consecutive words
        _maps[bus] = [a[0], a[0] + 4, a[0] + 8] + [
            x for x in a if x > a[0] + 8]
    return _maps[bus]


def soc(bus, words):
    from examples import attosoc
    s = attosoc.AttoSoC(num_bytes=RAM, bus_type=getattr(
        attosoc.BusType, {"wishbone": "WB", "csr": "CSR"}[bus]))
    s.rom = words
    return s


def quick_m5meta():
    """Assemble the same microcode source only once per process."""
    import copy

    from m5meta import M5Meta
    old, cache = M5Meta.pass12, {}

    def pass12(self):
        if self.src in cache:
            if self.pass_num == 2:
                self.spaces = copy.deepcopy(cache[self.src])
            return
        old(self)
        if self.pass_num == 2:
            cache[self.src] = copy.deepcopy(self.spaces)
    M5Meta.pass12 = pass12


# ---- firmware -------------------------------------------------------------

def program(c):
    """Machine code of a case's list of actions; data is at the end."""
    out, pt = [], ports(c["i"])

    def li(rd, v):
        out.append(rv.u_type(0x37, rd, v + 0x800 & 0xFFFFF000))
        out.append(rv.i_type(0x13, 0, rd, rd, v & 0xFFF))

    for op, a, b in c["prog"]:
        if op == "out":
            li(5, pt[a % len(pt)])
            li(6, b)
            out.append(rv.s_type(0x23, 0, 5, 6, 0))
        elif op == "copy":              # register -> LEDs
            li(5, pt[a % len(pt)])
            out.append(rv.i_type(0x03, 4, 6, 5, 0))
            li(5, pt[0])
            out.append(rv.s_type(0x23, 0, 5, 6, 0))
        elif op == "ram":               # through RAM -> LEDs
            li(5, RAM - 4 - a % 64)
            li(6, b)
            out.append(rv.s_type(0x23, 0, 5, 6, 0))
            out.append(rv.i_type(0x03, 4, 7, 5, 0))
            li(5, pt[0])
            out.append(rv.s_type(0x23, 0, 5, 7, 0))
        else:                           # byte of the image -> LEDs
            li(5, c["base"] + a)
            out.append(rv.i_type(0x03, 4, 7, 5, 0))
            li(5, pt[0])
            out.append(rv.s_type(0x23, 0, 5, 7, 0))
    out.append(rv.j_type(0, 0))
    return b"".join(w.to_bytes(4, "little") for w in out)


def segments(c):
    """[(data, memory size, type, flags)], as a linker lays them out."""
    c["base"] = 0
    n = len(program(c))
    c["base"] = n
    text = program(c) + bytes.fromhex(c["rodata"])
    data = bytes.fromhex(c["data"])
    segs = [(text, len(text), 1, 5)]
    if c["two"]:
        segs.append((data, len(data) + c["bss"], 1, 6))
    if c["two"] and c["bss"] and c["tail"] & 1:
        segs.append((b"", c["bss"], 1, 6))
    if c["tail"] & 2 or not c["two"]:
        segs.append((b"", 0, 0x6474E551, 6))
    if c["two"] and c["tail"] & 4:
        att = b"A\x0f\0\0\0riscv\0\x01\x05\0\0\0"
        segs.append((att, len(att), 0x70000003, 4))
    return segs


def elf(segs):
    off, adr = 52 + 32 * len(segs), 0
    ph, body = b"", b""
    for data, mem, typ, flags in segs:
        ph += struct.pack("<8I", typ, off + len(body), adr, adr, len(data),
                          mem, flags, 4)
        body += data
        if typ == 1:
            adr += mem
    return struct.pack("<16sHHIIIIIHHHHHH", b"\x7fELF\1\1\1" + b"\0" * 9, 2,
                       243, 1, 0, 52, 0, 0, 52, 32, len(segs), 40, 0, 0) \
        + ph + body


def image(raw):
    raw = raw.ljust(RAM, b"\0")
    return [int.from_bytes(raw[k:k + 4], "little") for k in range(0, RAM, 4)]


def leds_of(words, limit=3000000):
    """Bytes a program writes to the first LED register, by a small ISS."""
    mem = dict(enumerate(b"".join(w.to_bytes(4, "little") for w in words)))
    x, pc, out = [0] * 32, 0, []
    m = 0xFFFFFFFF

    def s(v, b=32):
        return (v & (1 << b) - 1) - (v >> b - 1 & 1) * (1 << b)
    while limit and len(out) < 120:
        limit -= 1
        if pc > RAM - 4:
            return out
        w = words[pc >> 2]
        f3, rd, r1, r2 = w >> 12 & 7, w >> 7 & 31, w >> 15 & 31, w >> 20 & 31
        a, b, nx, op = x[r1], x[r2], pc + 4, w & 127
        v = None
        if op in (0x13, 0x33):
            if op == 0x13:
                b = s(w >> 20, 12) & m
            sh = b & 31
            v = (a - b if op == 0x33 and w >> 30 & 1 else a + b,
                 a << sh, s(a) < s(b), a < b, a ^ b,
                 s(a) >> sh if w >> 30 & 1 else a >> sh, a | b, a & b)[f3]
        elif op == 0x37:
            v = w & ~0xFFF
        elif op == 0x17:
            v = pc + (w & ~0xFFF)
        elif op == 0x6F:
            v = nx
            nx = pc + s((w >> 31) << 20 | (w >> 12 & 255) << 12 |
                        (w >> 20 & 1) << 11 | (w >> 21 & 1023) << 1, 21)
        elif op == 0x67:
            v, nx = nx, a + s(w >> 20, 12) & ~1
        elif op == 0x63:
            t = (a == b, None, None, None, s(a) < s(b), None, a < b)[f3 & 6]
            off = s((w >> 31) << 12 | (w >> 7 & 1) << 11 |
                    (w >> 25 & 63) << 5 | (w >> 8 & 15) << 1, 13)
            if t != bool(f3 & 1):
                prev = words[(pc >> 2) - 1]
                if off == -4 and f3 == 1 and not r2 and prev == \
                        rv.i_type(0x13, 0, r1, r1, -1 & 0xFFF):
                    x[r1] = 0           # skip the countdown
                else:
                    nx = pc + off
        elif op == 0x23:
            ad = a + s((w >> 25) << 5 | rd, 12) & m
            if ad == 0x2000000:
                out.append(b & 255)
            elif ad < RAM:
                for k in range(1 << f3):
                    mem[ad + k] = b >> 8 * k & 255
        elif op == 0x03:
            ad = a + s(w >> 20, 12) & m
            n = 1 << (f3 & 3)
            v = sum(mem.get(ad + k, 0) << 8 * k for k in range(n))
            v = v if f3 & 4 else s(v, 8 * n)
        else:
            return out
        if v is not None and rd:
            x[rd] = int(v) & m
        pc = nx & m
    return out


# ---- one case -------------------------------------------------------------

def make(r):
    c = dict(p=r.choice(sorted(BOARDS)), i=r.choice(("wishbone", "csr")),
             n=r.random() < .5, x=None, b=None, fw="elf", prog=[],
             defaults=r.random() < .2)
    if r.random() < .7:
        c["x"] = r.choice(("fw", "rom.hex", "a_b", "image.txt"))
    if r.random() < .6:
        c["b"] = r.choice(("out", "build-x", "deep/er"))
    k = r.random()
    if k < .08:
        c["fw"] = "rand"
    elif k < .12:
        c["fw"] = "built in"
    if c["fw"] != "elf":
        c["x"] = c["x"] or "fw"
    if r.random() < .2:
        c["s"] = r.choice(("there", "box2"))
    for _ in range(r.choice((1, 3, 6, 10))):
        op = r.choice(("out", "out", "copy", "ram", "byte"))
        a = r.randrange(256)
        if op in ("out", "copy") and r.random() < .7:
            a = r.randrange(3)          # LEDs, GPIO pins, output enables
        c["prog"].append([op, a, r.getrandbits(8)])
    c["rodata"] = r.randbytes(r.choice((0, 1, 2, 3, 4, 60, 1024))).hex()
    c["data"] = r.randbytes(r.choice((0, 1, 2, 4, 7, 64, 900))).hex()
    c["two"] = r.random() < .7
    c["bss"] = r.choice((0, 0, 4, 256))
    c["tail"] = r.randrange(8)
    c["cycles"] = r.choice((0, 0, 300, 600, 1500)) \
        if r.random() < .97 else 14000
    if c["p"] == "arty_a7":             # nine times slower
        c["cycles"] = min(c["cycles"], 600)
    c["pins"] = sorted([r.randrange(c["cycles"]), r.getrandbits(8)]
                       for _ in range(r.choice((0, 2, 6)))) \
        if c["cycles"] else []
    c["rx"] = sorted(r.randrange(c["cycles"]) for _ in range(
        r.choice((0, 1, 4)))) if c["cycles"] else []
    if c["cycles"] > 13000:             # a frame on the serial line
        bits = [1, 0] + [r.getrandbits(1) for _ in range(8)] + [1]
        c["rx"] = [1 + 1250 * k for k in range(10) if bits[k] != bits[k + 1]]
    c["gpi"] = r.getrandbits(8)
    return c


def args(c):
    a = []
    if not (c["defaults"] and c["p"] == "icestick"):
        a += ["-p", c["p"]]
    if not (c["defaults"] and c["i"] == "wishbone"):
        a += ["-i", c["i"]]
    if c["n"]:
        a += ["-n"]
    for k in "bxs":
        if c.get(k):
            a += [f"-{k}", c[k]]
    if c["fw"] == "elf":
        a += ["-g", "fw.elf"]
    elif c["fw"] == "rand":
        a += ["-r"]
    return a


def run_case(c, root):
    """None or a message."""
    d = Path(tempfile.mkdtemp(dir=root))
    old = os.getcwd(), sys.argv, os.environ.get("HOME", "/")
    try:
        os.chdir(d)
        return inside(c, d)
    finally:
        os.chdir(old[0])
        sys.argv = old[1]
        os.environ["HOME"] = old[2]
        shutil.rmtree(d)


def inside(c, d):
    from amaranth_boards import _fake
    from examples import attosoc
    segs = None
    if c["fw"] == "elf":
        segs = segments(c)
        (d / "fw.elf").write_bytes(elf(segs))
    _fake.log.clear()
    sys.argv = ["attosoc.py", *args(c)]
    if c.get("s"):
        sys.modules["paramiko"] = paramiko()
        sys.modules["paramiko.config"] = sys.modules["paramiko"].config
        (d / "home/.ssh").mkdir(parents=True)
        (d / "home/.ssh/config").write_text(
            "".join(f"Host {h}\n  HostName {n}\n  User {u}\n"
                    for h, (n, u) in HOSTS.items()))
        os.environ["HOME"] = str(d / "home")
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            attosoc.main()
    except (Exception, SystemExit) as e:
        if KNOWN and c["p"] == "arty_a7" and c["x"] and isinstance(
                e, AttributeError) and _fake.log and "'rom'" in str(e):
            # exactly what known_findings.txt lists: all but the hex file
            c = dict(c, x=None)
            known[0] += 1
            if c["fw"] != "elf":
                c["cycles"] = 0
            return judge(c, d, segs, list(_fake.log))
        where = traceback.extract_tb(e.__traceback__)[-1]
        return (f"the command fails: {type(e).__name__}: {e} "
                f"({Path(where.filename).name}:{where.lineno})\n"
                + out.getvalue()[-300:])
    return judge(c, d, segs, list(_fake.log))


HOSTS = {"box2": ("10.1.2.3", "me"), "there": ("far.example", "you"),
         "other": ("10.9.9.9", "they")}


def paramiko():
    """As much of the SSH library as reads ~/.ssh/config."""
    from types import SimpleNamespace as N

    class SSHConfig:
        @classmethod
        def from_path(cls, path):
            self = cls()
            with open(path) as f:
                self.parse(f)
            return self

        def parse(self, file):
            self.hosts = {}
            for line in file:
                k, v = line.split()
                if k == "Host":
                    h = self.hosts[v] = {"hostname": v}
                else:
                    h[k.lower()] = v

        def lookup(self, host):
            return dict(self.hosts.get(host, {"hostname": host}))
    c = N(SSHConfig=SSHConfig)
    return N(config=c, SSHConfig=SSHConfig)


def remote(c, d, log):
    """A message about a remote build, or the directory with its files."""
    entry = [e for e in log if e[0] not in ("build", "extract")]
    if len(entry) != 1 or entry[0][0] != "remote":
        return f"{[e[0] for e in entry]} instead of one remote build"
    _, root, ran, to = entry[0]
    if Path(root) != Path(c["b"] or "/tmp/build-remote"):
        return f"remote directory is {root}, -b {c['b']}"
    if bool(ran) == c["n"]:
        return f"the tools are {'' if ran else 'not '}run, -n is {c['n']}"
    if (to.get("hostname"), to.get("username")) != HOSTS[c["s"]]:
        return f"connects to {to}, must be {HOSTS[c['s']]}"
    got = {p.suffix: p for p in d.rglob("*") if p.is_file()
           and p.suffix in (".bin", ".bit", ".asc")}
    if c["n"]:
        return f"{sorted(got)} copied though not made" if got else None
    need = ".bit" if c["p"] in ("cmod_s7", "arty_a7") else ".bin"
    if need not in got:
        return f"no {need} file is left here, only {sorted(got)}"
    for p in got.values():
        if p.read_text() != f"{root}/{p.name}":
            return f"{p.name} has the contents of {p.read_text()}"
    return None


def judge(c, d, segs, log):
    builds = [e for e in log if e[0] == "build"]
    if len(builds) != 1:
        return f"{len(builds)} builds requested, must be 1"
    plat, design = builds[0][1:3]
    if type(plat).__name__ != BOARDS[c["p"]]:
        return f"built for {type(plat).__name__}, -p {c['p']}"
    bdir = c["b"] or "build"
    want = "extract" if c["n"] else "execute"
    if c.get("s"):
        msg = remote(c, d, log)
        if msg:
            return msg
        hexes = [p for p in d.rglob("*.hex")]
        bdir = hexes[0].parent.relative_to(d) if hexes else "."
        log, want = [("remote",)], "remote"
    for what, where in (e for e in log if e[0] not in ("build", "remote")):
        if what != want:
            return (f"the tools are {'run' if what == 'execute' else 'not run'}"
                    f" ({'' if c['n'] else 'no '}-n)")
        if Path(where) != Path(bdir):
            return f"build directory is {where}, must be {bdir}"
    if not any(e[0] == want for e in log):
        return f"nothing was put in {bdir}"
    if segs:
        flat = b"".join(s[0] for s in segs if s[2] == 1)
        words = image(flat)
    else:
        words = None
    if c["x"]:
        f = d / bdir / Path(c["x"]).with_suffix(".hex")
        if not f.exists():
            return f"no {f.relative_to(d)} written"
        lines = f.read_text().split("\n")
        if lines[-1:] != [""] or any(
                len(w) != 8 or set(w) - set("0123456789abcdefABCDEF")
                for w in lines[:-1]):
            return "hex file is not one 8-digit word per line"
        got = [int(w, 16) for w in lines[:-1]]
        if len(got) != RAM // 4:
            return f"hex file has {len(got)} words, the RAM {RAM // 4}"
        if words is None:
            words = got
            if c["fw"] == "rand" and (len(set(got)) < 1000 or not got[-1]):
                return (f"-r: only {len(set(got))} different words, the "
                        f"last {got[-1]:#x}")
            if c["fw"] == "built in":
                seq = leds_of(got)
                n = len(PRIMES)
                k = PRIMES.index(seq[0]) if seq[:1] and seq[0] in PRIMES \
                    else 0
                ok = [PRIMES[(k + j) % n] for j in range(len(seq))]
                if len(seq) < n + 1 or seq != ok:
                    return f"built-in firmware shows {seq}, must be primes"
        for k, (a, b) in enumerate(zip(got, words)):
            if a != b:
                return (f"hex file, word {k}: {a:08x}, firmware has "
                        f"{b:08x}")
    if c["cycles"]:
        return simulate(c, plat, design, words)
    return None


def simulate(c, plat, design, words):
    from amaranth.hdl import ClockDomain, Fragment, Module, Value
    from amaranth.sim import Simulator
    ref = soc(c["i"], words)
    arty = c["p"] == "arty_a7"
    m = Module()
    m.domains.sync = ClockDomain()
    with contextlib.redirect_stdout(io.StringIO()):
        m.submodules.board = Fragment.get(design, plat)
        m.submodules.ref = Fragment.get(ref, None)
    outs, ins = [], []
    pins = plat.pins
    for (name, k), p in sorted(pins.items()):
        if name == "led" and k < 8:
            outs.append((f"led {k}", p.o, ref.leds.leds[k]))
        elif name == "gpio" and k < 8:
            g = ref.leds.gpio[k]
            outs += [(f"gpio {k} o", p.o, g.o), (f"gpio {k} oe", p.oe, g.oe)]
            ins.append((k, p.i, g.i))
    # documented: 8 LEDs/GPIO pins as far as the board has them, one UART
    for name in ("led", "gpio"):
        have = {k for n, k in plat.resources if n == name and k < 8}
        lost = sorted(have - {k for n, k in pins if n == name})
        if lost:
            return f"{name} {lost[0]} of the board isn't connected"
    if ("uart", 0) not in pins:
        return "the UART of the board isn't connected"
    if not ins:
        return "no GPIO pins"
    u = pins["uart", 0]
    outs.append(("uart tx", u.tx.o, ref.serial.tx))
    outs = [(n, Value.cast(a), Value.cast(b)) for n, a, b in outs]
    ins = [(k, Value.cast(a), Value.cast(b)) for k, a, b in ins]
    rx = Value.cast(ref.serial.rx)
    bad = []
    n = c["cycles"]
    hist = [[], []]

    async def tb(ctx):
        gpi, level, ev = c["gpi"], 1, {}
        if not arty:
            for t, v in c["pins"]:
                ev.setdefault(t, []).append(v)
        toggles = set(() if arty else c["rx"])
        for t in range(n * 9 if arty else n):
            if t == 0 or t in ev:
                gpi = ev.get(t, [gpi])[-1]
                for k, a, b in ins:
                    ctx.set(a, gpi >> k & 1)
                    ctx.set(b, gpi >> k & 1)
            if t == 0 or t in toggles:
                level ^= t in toggles
                ctx.set(u.rx.i, level)
                ctx.set(rx, level)
            await ctx.tick()
            if arty:
                hist[0].append([ctx.get(a) for _, a, _ in outs])
                if t < n:
                    hist[1].append([ctx.get(b) for _, _, b in outs])
                continue
            for name, a, b in outs:
                ga, gb = ctx.get(a), ctx.get(b)
                if ga != gb:
                    bad.append(f"cycle {t}: {name} is {ga} at the board's "
                               f"pin, {gb} at the SoC's port")
                    return
    s = Simulator(m)
    s.add_clock(1e-6)
    s.add_testbench(tb)
    s.run()
    if bad or not arty:
        return bad[0] if bad else None
    return clocked(hist, [o[0] for o in outs])


def clocked(hist, names):
    """Board at 100 MHz, SoC at around 12 MHz: same history, slower."""
    ev = []
    for h in hist:
        e = [(0, h[0])]
        for t, v in enumerate(h):
            if v != e[-1][1]:
                e.append((t + 1, v))
        ev.append(e)
    b, r = ev
    # what the reference does after the board's run isn't seen, and vice versa
    end = len(hist[1])
    for j in range(max(len(b), len(r))):
        tb = b[j][0] if j < len(b) else None
        tr = r[j][0] if j < len(r) else None
        if tb is None:
            if tr * 26 / 3 + 60 < len(hist[0]):
                return (f"Arty: the change of the SoC in its cycle {tr} "
                        "isn't seen at the board's pins")
            continue
        if tr is None:
            if tb * 13 / 100 + 8 < end:
                return (f"Arty: a change at the pins in cycle {tb}, none in "
                        "the SoC")
            continue
        if b[j][1] != r[j][1]:
            k = next(k for k in range(len(names)) if b[j][1][k] != r[j][1][k])
            return (f"Arty: {names[k]} is {b[j][1][k]} at the board's pin in "
                    f"cycle {tb}, {r[j][1][k]} at the SoC's port in {tr}")
        if not tr * 100 / 13 - 60 <= tb <= tr * 100 / 11 + 60:
            return (f"Arty: the SoC's cycle {tr} is the board's {tb}, not "
                    "around 12 MHz")
    return None


# ---- shrinking, driver ----------------------------------------------------

def smaller(c):
    for k in range(len(c["prog"])):
        yield dict(c, prog=c["prog"][:k] + c["prog"][k + 1:])
    for k, v in (("x", None), ("b", None), ("s", None), ("n", True), ("two", False),
                 ("bss", 0), ("tail", 0), ("rodata", ""), ("data", ""),
                 ("pins", []), ("rx", []), ("i", "wishbone"),
                 ("p", "icestick"), ("cycles", 0), ("defaults", False)):
        if c.get(k) != v and not (k == "x" and c["fw"] != "elf"):
            yield dict(c, **{k: v})
            if k in ("rodata", "data") and len(c[k]) > 2:
                yield dict(c, **{k: c[k][:len(c[k]) // 4 * 2]})
            if k == "cycles" and c[k] > 300:
                yield dict(c, cycles=c[k] // 2, pins=[], rx=[])


def kind(msg):
    return " ".join(msg.split("\n")[0].split()[:3])


def shrink(c, msg, root):
    end, again = time.time() + 60, True
    while again:
        again = False
        for d in smaller(c):
            if time.time() > end:
                return c, msg
            m = run_case(d, root)
            if m and kind(m) == kind(msg):
                c, msg, again = d, m, True
                break
    return c, msg


def text(c, msg):
    return f"attosoc.py {' '.join(args(c))}: {msg}"


def check(seed, secs, limit, root):
    r = random.Random(seed)
    st = dict(evals=0, seen=0, cycles=0, viol=None, err=None, samples=[],
              hist=Counter())
    seen = set()
    end = time.time() + secs
    while time.time() < end and st["evals"] < limit:
        c = make(r)
        msg = run_case(c, root)
        st["evals"] += 1
        st["cycles"] += c["cycles"]
        h = st["hist"]
        h[c["p"]] += 1
        h[c["i"]] += 1
        h["firmware " + c["fw"]] += 1
        h["simulated"] += bool(c["cycles"])
        h["hex file"] += bool(c["x"])
        h["remote"] += bool(c.get("s"))
        if c["x"] or c["cycles"]:
            seen.add(json.dumps(c, sort_keys=True))
        if len(st["samples"]) < 2:
            st["samples"].append({"command": args(c), "program": c["prog"],
                                  "cycles": c["cycles"]})
        if msg:
            c, msg = shrink(c, msg, root)
            st["viol"] = dict(case=c, msg=text(c, msg))
            break
    st["seen"] = len(seen)
    st["hist"]["known finding: -x with -p arty_a7"] = known[0]
    return st


def main():
    quick_m5meta()
    with tempfile.TemporaryDirectory() as root:
        if sys.argv[1] == "--replay":
            c = json.loads(Path(sys.argv[2]).read_text())["case"]
            msg = run_case(c, root)
            print("verdict:", text(c, msg) if msg else "no failure")
            sys.exit(1 if msg else 0)
        a = sys.argv[:]
        st = check(int(a[1]), float(a[2]), int(a[3]), root)
        Path(a[4]).write_text(json.dumps(st))


if __name__ == "__main__":
    main()
