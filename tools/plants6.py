PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


SIM = """
from amaranth.hdl import Module, Signal, Value
from amaranth.sim import Simulator
def field(f, word):
    w, m = Signal(32), Module()
    v = Value.cast(f(w)); o = Signal(len(v)); m.d.comb += o.eq(v)
    s = Simulator(m); out = []
    async def tb(ctx):
        ctx.set(w, word); out.append(ctx.get(o))
    s.add_testbench(tb); s.run()
    return out[0]
"""
P("C30-mtip-bit", "C30",
  [("csr.py", """    #: Machine Sofware Interrupt Pending bit. Not implemented.
    msip: unsigned(1)
    _padding1: unsigned(3)
    #: Machine Timer Interrupt Pending bit. Not implemented.
    mtip: unsigned(1)
    _padding2: unsigned(3)
""", """    #: Machine Sofware Interrupt Pending bit. Not implemented.
    msip: unsigned(1)
    _padding1: unsigned(2)
    #: Machine Timer Interrupt Pending bit. Not implemented.
    mtip: unsigned(1)
    _padding2: unsigned(4)
""")],
  "a use of the timer pending bit, which the core doesn't have",
  "MIP.mtip is bit 6", SIM + """
from sentinel.csr import MIP
check(field(lambda w: MIP(w).mtip, 0x80) == 1, "mtip")
check(field(lambda w: MIP(w).mtip, 0x7F) == 0, "mtip")
""")
P("C30-hpm-high", "C30",
  [("csr.py", """    MHPMCOUNTER16H = 0xB90
    MHPMCOUNTER17H = 0xB91
    MHPMCOUNTER18H = 0xB92
""", """    MHPMCOUNTER16H = 0xB90
    MHPMCOUNTER17H = 0xB92
    MHPMCOUNTER18H = 0xB91
""")],
  "the address of one of two neighbouring counters",
  "the upper halves of counters 17 and 18 are swapped", """
from sentinel.csr import MachineAddr as A
for k in range(3, 32):
    check(A[f"MHPMCOUNTER{k}H"] == A[f"MHPMCOUNTER{k}"] + 0x80, k)
""")
P("C30-store-page-fault", "C30",
  [("csr.py", "        STORE_PAGE_FAULT = 15\n",
    "        STORE_PAGE_FAULT = 14\n")],
  "a use of the cause that the core never raises",
  "the store page fault has the reserved cause 14", """
from sentinel.csr import MCause
check(MCause.Cause.STORE_PAGE_FAULT.value == 15, "cause")
""")
