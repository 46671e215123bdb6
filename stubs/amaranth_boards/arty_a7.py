"""Stand-in: board definitions are not available offline."""
from amaranth.vendor import XilinxPlatform

from ._fake import Board, clock, leds, pmods, uart


class ArtyA7_35Platform(Board, XilinxPlatform):
    device, package = "xc7a35ti", "csg324"
    default_clk = "clk100"
    resources = [clock("clk100", 100), *leds(4), uart()]
    connectors = pmods(4)
