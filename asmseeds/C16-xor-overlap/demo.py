from simlib import *
def t(w):
    log = run(image((0, [NOP, w, NOP, NOP, HALT])), clocks=100, stop={12})
    c = [e[4] for e in log]
    return c[2] - c[1]
check(t(r(0, 2, 1, 4, 3)) == t(r(0, 2, 1, 7, 3)), (t(r(0, 2, 1, 4, 3)), t(r(0, 2, 1, 7, 3))))
