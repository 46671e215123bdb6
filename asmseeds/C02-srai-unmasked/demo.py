from simlib import *
v, _ = regs_after(li(1, 0x80000010), [i(0x400 | 4, 1, 5, 3), i(0x400 | 1, 1, 5, 4)], [3, 4])
check(v == [0xF8000001, 0xC0000008], [hex(x) for x in v])
