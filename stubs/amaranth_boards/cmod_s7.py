"""Stand-in: board definitions are not available offline."""
from amaranth.vendor import XilinxPlatform

from ._fake import Board, button, clock, leds, pmods, uart


class CmodS7_Platform(Board, XilinxPlatform):
    device, package = "xc7s25", "csga225"
    default_clk = "clk12"
    resources = [clock("clk12", 12), button(), *leds(4), uart()]
    connectors = pmods(1)
