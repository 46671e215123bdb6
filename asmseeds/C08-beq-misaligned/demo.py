from simlib import *
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), br(0, 0, 0, 10), NOP, NOP, HALT]),
                (0x80, [HALT])), stop={0x80, 20, 24}, clocks=300)
check(log[-1][1] == 0x80, "no trap")
