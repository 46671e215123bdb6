"""Stand-in for amaranth_soc.csr.wishbone: Wishbone to CSR bus bridge, one
CSR access per byte lane, then the acknowledge."""
from amaranth.hdl import Cat, Module, Signal
from amaranth.lib import wiring
from amaranth.lib.wiring import In

from .. import wishbone
from ..memory import MemoryMap, _log2

__all__ = ["WishboneCSRBridge"]


class WishboneCSRBridge(wiring.Component):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        data_width = data_width or csr_bus.data_width
        ratio = data_width // csr_bus.data_width
        self._csr = csr_bus
        super().__init__({"wb_bus": In(wishbone.Signature(
            addr_width=max(0, csr_bus.addr_width - _log2(ratio)),
            data_width=data_width, granularity=csr_bus.data_width))})
        self.wb_bus.memory_map = MemoryMap(addr_width=csr_bus.addr_width,
                                           data_width=csr_bus.data_width)
        self.wb_bus.memory_map.add_window(csr_bus.memory_map, name=name)

    def elaborate(self, platform):
        m = Module()
        wb, bus = self.wb_bus, self._csr
        n, g = len(wb.sel), wb.granularity
        cycle = Signal(range(n + 1))
        m.d.comb += bus.addr.eq(Cat(cycle[:_log2(n)], wb.adr))
        with m.If(wb.cyc & wb.stb):
            with m.Switch(cycle):
                for i in range(n):
                    with m.Case(i):
                        if i:
                            m.d.sync += wb.dat_r[(i - 1) * g:i * g].eq(
                                bus.r_data)
                        m.d.comb += [
                            bus.r_stb.eq(wb.sel[i] & ~wb.we),
                            bus.w_data.eq(wb.dat_w[i * g:(i + 1) * g]),
                            bus.w_stb.eq(wb.sel[i] & wb.we)]
                        m.d.sync += cycle.eq(i + 1)
                with m.Default():
                    m.d.sync += [wb.dat_r[(n - 1) * g:].eq(bus.r_data),
                                 wb.ack.eq(1)]
        with m.If(wb.ack):
            m.d.sync += [cycle.eq(0), wb.ack.eq(0)]
        return m
