"""Stand-in: board definitions are not available offline."""
from amaranth.vendor import LatticeICE40Platform

from ._fake import Board, clock, leds, pmods, uart


class ICEStickPlatform(Board, LatticeICE40Platform):
    default_clk = "clk12"
    resources = [clock("clk12", 12), *leds(5), uart()]
    connectors = pmods(1)
