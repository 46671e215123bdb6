"""Stand-in: board definitions are not available offline."""
from amaranth.vendor import LatticeICE40Platform

from ._fake import Board, Pins, Resource, button, clock, pmods, uart


class ICEBreakerPlatform(Board, LatticeICE40Platform):
    default_clk = "clk12"
    resources = [clock("clk12", 12), button(),
                 Resource("led", 0, Pins("L0", dir="o")),
                 Resource("led", 1, Pins("L1", dir="o")), uart()]
    connectors = pmods(3)
    break_off_pmod = [Resource("led", 2 + i, Pins(p, dir="o",
                                                  conn=("pmod", 2)))
                      for i, p in enumerate("7 1 2 8 3".split())]
