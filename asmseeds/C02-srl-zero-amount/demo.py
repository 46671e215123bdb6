from simlib import *
v, _ = regs_after(li(1, 0xCAFEF00D) + li(2, 0x40),
                  [r(0, 2, 1, 5, 3), r(0, 2, 1, 1, 4), r(0x20, 2, 1, 5, 5)],
                  [3, 4, 5])
check(v == [0xCAFEF00D] * 3, [hex(x) for x in v])
