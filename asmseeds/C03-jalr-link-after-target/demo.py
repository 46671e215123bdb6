from simlib import *
v, _ = regs_after([NOP], [jal(1, 4)], [1])
check(v == [8], v)
