"""Run under /opt/venv/bin/python: elaborate a design from the repository.

usage: elab.py top|formal|embed OUT.il
"""
import sys
import warnings

warnings.simplefilter("ignore")


def embed():
    """A core in a foreign clock domain with its own reset, under clock-enable
    gating, next to other cores that are busy with junk, for a board."""
    from amaranth.hdl import (ClockDomain, DomainRenamer, EnableInserter,
                              Module, Signal)
    from amaranth.lib.wiring import Component, In, Out
    from sentinel.top import Top
    from amaranth.back import rtlil
    rtlil.convert(Top(), name="sentinel")       # an earlier one, thrown away
    first, cpu, last = Top(), Top(), Top()

    class Embed(Component):
        def __init__(self):
            super().__init__({"clk": In(1), "rst": In(1), "en": In(1),
                              "irq": In(1), "bus": Out(cpu.bus.signature)})

        def elaborate(self, platform):
            m = Module()
            m.domains.sync = sd = ClockDomain(reset_less=True)
            m.domains.cpu = cd = ClockDomain()
            m.d.comb += [sd.clk.eq(self.clk), cd.clk.eq(self.clk),
                         cd.rst.eq(self.rst)]
            m.submodules.first = first
            m.submodules.cpu = EnableInserter({"cpu": self.en})(
                DomainRenamer("cpu")(cpu))
            m.submodules.last = last
            m.d.comb += cpu.irq.eq(self.irq)
            for n, mem in cpu.bus.signature.members.items():
                a, b = getattr(self.bus, n), getattr(cpu.bus, n)
                m.d.comb += a.eq(b) if mem.flow == Out else b.eq(a)
            lfsr = Signal(48, init=0xACE1)
            m.d.sync += lfsr.eq(
                lfsr << 1 | (lfsr[47] ^ lfsr[46] ^ lfsr[20] ^ lfsr[19]))
            for k, o in enumerate((first, last)):
                m.d.sync += o.bus.ack.eq(o.bus.stb & ~o.bus.ack & lfsr[k])
                m.d.comb += [o.bus.dat_r.eq(lfsr[3 + k:35 + k]),
                             o.irq.eq(lfsr[40 + k])]
            return m
    return Embed()


def board():
    """A real FPGA platform, as used by the repository's examples."""
    from amaranth.vendor import LatticeICE40Platform

    class Board(LatticeICE40Platform):
        device, package, default_clk = "iCE40UP5K", "SG48", "clk"
        resources = connectors = []
    return Board()


def main():
    kind, out = sys.argv[1:3]
    from amaranth.back import rtlil
    if kind == "top":
        from sentinel.top import Top
        m = Top()
    elif kind == "formal":
        from sentinel.formal import FormalTop
        m = FormalTop()
    elif kind == "embed":
        m = embed()
    else:
        raise SystemExit(f"unknown design {kind}")
    text = rtlil.convert(m, name="sentinel",
                         platform=board() if kind == "embed" else None)
    with open(out, "w") as f:
        f.write(text)


if __name__ == "__main__":
    main()
