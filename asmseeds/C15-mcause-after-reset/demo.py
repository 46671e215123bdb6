from simlib import *
main = flat(csrrs(9, MCAUSE, 0), sw(9, 0, 0x600), li(1, 0x100),
            csrrw(0, MTVEC, 1), ECALL, HALT)
mem = image((0, main), (0x100, [HALT]))
log = run(mem, clocks=320, reset={0, 1, 200, 201, 202})
w = [e[3] for e in log.at("W")]
check(w == [0, 0], w)
