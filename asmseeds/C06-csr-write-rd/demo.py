from simlib import *
v, _ = regs_after(li(8, 0x777) + li(5, 0xFFFFFFFF),
                  [csrrw(0, MSCRATCH, 5), csrrs(6, MSCRATCH, 0)], [8, 6])
check(v == [0x777, 0xFFFFFFFF], [hex(x) for x in v])
