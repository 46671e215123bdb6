from simlib import *
v, _ = regs_after(li(5, 0xF0), [csrrw(0, MSCRATCH, 5), csr(6, 6, MSCRATCH, 0x1F),
                                csrrs(7, MSCRATCH, 0)], [6, 7])
check(v == [0xF0, 0xFF], [hex(x) for x in v])
