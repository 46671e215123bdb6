from simlib import *
log = run(image((0, li(1, 0x80) + [csrrw(0, MTVEC, 1), store(1, 1, 0, 0x201), HALT]),
                (0x80, [HALT])), stop={0x80}, clocks=300)
check(log.stopped and not log.at("W"), log.at("W"))
