"""Run under /opt/venv/bin/python: elaborate the example SoC.

usage: elab_soc.py fake|real wb|csr NUM_BYTES ROM.json OUT.il

ROM.json: {"kind": "list"|"bytes"|"bytearray"|"str"|"none", "words": [...],
           "source": "...", "nbytes": n}.  Prints the address map as JSON.
"fake": the CPU is replaced by top-level ports (the harness plays the CPU).
"real": the CPU stays; its bus is brought out for observation.
"""
import contextlib
import io
import json
import sys
import warnings

warnings.simplefilter("ignore")


def main():
    how, bus, nbytes, romf, out = sys.argv[1:6]
    from amaranth.back import rtlil
    from amaranth.hdl import ClockDomain, Module
    from amaranth.lib.wiring import Component, In, Out
    from examples.attosoc import AttoSoC, BusType
    rom = json.load(open(romf))
    soc = AttoSoC(num_bytes=int(nbytes), bus_type=BusType[bus.upper()])
    raw = b"".join(w.to_bytes(4, "little") for w in rom.get("words", []))
    raw = raw[:rom.get("nbytes", len(raw))]
    match rom["kind"]:
        case "list":
            soc.rom = rom["words"]
        case "bytes":
            soc.rom = raw
        case "bytearray":
            soc.rom = bytearray(raw)
        case "str":
            soc.rom = rom["source"]
    sig = soc.cpu.bus.signature

    class FakeCPU(Component):
        def __init__(self):
            super().__init__({"bus": Out(sig), "irq": In(1)})

        def elaborate(self, platform):
            return Module()

    if how == "fake":
        soc.cpu = FakeCPU()
    cpu = soc.cpu

    class SoC(Component):
        def __init__(self):
            super().__init__({
                "clk": In(1), "rst": In(1), "rx": In(1), "gpi": In(8),
                "tx": Out(1), "irq": Out(1), "tirq": Out(1), "sirq": Out(1),
                "leds": Out(8), "gpo": Out(8), "gpoe": Out(8),
                "adr": (In if how == "fake" else Out)(30),
                "dat_w": (In if how == "fake" else Out)(32),
                "sel": (In if how == "fake" else Out)(4),
                "stb": (In if how == "fake" else Out)(1),
                "cyc": (In if how == "fake" else Out)(1),
                "we": (In if how == "fake" else Out)(1),
                "dat_r": Out(32), "ack": Out(1)})

        def elaborate(self, platform):
            m = Module()
            m.domains.sync = cd = ClockDomain()
            m.d.comb += [cd.clk.eq(self.clk), cd.rst.eq(self.rst)]
            m.submodules.soc = soc
            for n in ("adr", "dat_w", "sel", "stb", "cyc", "we"):
                a, b = getattr(self, n), getattr(cpu.bus, n)
                m.d.comb += b.eq(a) if how == "fake" else a.eq(b)
            m.d.comb += [
                self.dat_r.eq(cpu.bus.dat_r), self.ack.eq(cpu.bus.ack),
                self.irq.eq(cpu.irq), self.tirq.eq(soc.timer.irq),
                self.sirq.eq(soc.serial.irq), self.tx.eq(soc.serial.tx),
                soc.serial.rx.eq(self.rx), self.leds.eq(soc.leds.leds)]
            for i in range(8):
                g = soc.leds.gpio[i]
                m.d.comb += [g.i.eq(self.gpi[i]), self.gpo[i].eq(g.o),
                             self.gpoe[i].eq(g.oe)]
            return m

    with contextlib.redirect_stdout(io.StringIO()):
        text = rtlil.convert(SoC(), name="sentinel")
    with open(out, "w") as f:
        f.write(text)
    print(json.dumps([["/".join(map(str, sum((
        [p] if isinstance(p, str) else list(p) for p in flat(r.path)), []))),
        r.start, r.end]
        for r in soc.decoder.bus.memory_map.all_resources()]))


def flat(path):
    for p in path:
        if isinstance(p, str):
            yield p
        else:
            yield from flat(p)


if __name__ == "__main__":
    main()
