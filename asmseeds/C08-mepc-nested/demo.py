from simlib import *
setup = flat(li(1, 0x100), csrrw(0, MTVEC, 1), li(1, 0x800),
             csrrw(0, MIE, 1), li(2, 0x601), csrrs(0, MSTATUS, 0),
             csr(6, 0, MSTATUS, 8), NOP, NOP, sw(2, 2, 0), HALT)
h = flat(csrrs(3, MCAUSE, 0), sw(3, 0, 0x600), li(4, 0x80000000 + 11),
         br(1, 3, 4, 8), MRET, sw(3, 0, 0x604), HALT)
state = {"on": True}
def irq(clk, log):
    if any(e[0] == "W" for e in log):
        state["on"] = False
    return state["on"]
log = run(image((0, setup), (0x100, h)), clocks=900, irq=irq)
check(log.mem.get(0x604 >> 2) == 6, (log.mem.get(0x600 >> 2), log.mem.get(0x604 >> 2)))
