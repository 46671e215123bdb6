from simlib import *
v, _ = regs_after(li(1, 0x11) + li(2, 0x20),
                  [r(0, 2, 1, 6, 3), i(0x20, 1, 6, 4)], [3, 4])
check(v == [0x31, 0x31], v)
