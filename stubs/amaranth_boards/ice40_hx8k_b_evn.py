"""Stand-in: board definitions are not available offline."""
from amaranth.vendor import LatticeICE40Platform

from ._fake import Board, Connector, clock, leds, uart


class ICE40HX8KBEVNPlatform(Board, LatticeICE40Platform):
    default_clk = "clk12"
    resources = [clock("clk12", 12), *leds(8), uart()]
    connectors = [Connector("j", n, " ".join(
        f"J{n}{k}" for k in range(1, 41))) for n in (1, 2, 3)]
