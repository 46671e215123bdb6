from simlib import *
def prog():
    return image((0, li(1, 0x100) + [csrrw(0, MTVEC, 1)] + li(2, 0x800) +
                  [csrrs(0, MIE, 2), csr(6, 0, MSTATUS, 8)] +
                  [csr(6, 5, MSCRATCH, k) for k in (1, 2, 4, 8, 16)] +
                  [csrrs(6, MSCRATCH, 0), sw(6, 0, 0x200), HALT]),
                 (0x100, [MRET]))
bad = []
for at in range(60, 120):
    log = run(prog(), clocks=320, irq=lambda c, lg: at <= c < at + 3)
    w = [e[3] for e in log if e[0] == "W"]
    w0 = [e[3] & 31 for e in log if e[0] == "W"]
    if w0 != [31]:
        bad.append((at, w))
check(not bad, bad)
