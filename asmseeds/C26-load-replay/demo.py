from simlib import *
main = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x800), csrrw(0, MIE, 1),
            li(2, 0x600), csr(6, 0, MSTATUS, 8), lw(3, 2, 0), sw(3, 0, 0x700),
            HALT)
h = flat(sw(0, 0, 0x704), MRET)
mem = image((0, main), (0x100, h)); mem[0x600 >> 2] = 5
on = []
def irq(clk, log):
    return on and not any(e[1] == 0x704 for e in log)
def wait(log, a, we):
    if a == 0x600:
        on.append(1)
    return 6 if a == 0x600 else 0
log = run(mem, clocks=600, irq=irq, wait=wait, stop={4 * (len(main) - 1)})
n = sum(1 for e in log if e[1] == 0x600)
check(n == 1, n)
