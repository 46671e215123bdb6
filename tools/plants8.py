"""Seeded changes, part 8: the control unit (see plant.py)."""
PLANTS = []


def P(id, prop, edits, needs, breaks, demo, **kw):
    PLANTS.append(dict(id=id, property=prop, edits=edits, needs=needs,
                       what_it_breaks=breaks, demo=demo, **kw))


CTL = r"""
import io
import re
from amaranth.hdl import ClockDomain, Module, Value
from amaranth.sim import Simulator
from sentinel.control import Control
from sentinel.ucoderom import UCodeROM


def walk(lines, port, cycles):
    "Values of the port after reset, one per cycle."
    s = UCodeROM.main_microcode_file().read_text()
    s = re.match(r".*?\bfields\b[^{]*\{.*?\n\s*\};", s, re.S)[0]
    dut = Control(io.StringIO(s + "\norigin 0;\n"
                              + "".join(x + ";\n" for x in lines)))
    m = Module()
    m.domains.sync = ClockDomain()
    m.submodules.dut = dut
    got = []

    def at(p):
        o = dut
        for k in p.split("."):
            o = getattr(o, k)
        return Value.cast(o)

    async def tb(ctx):
        for c in cycles:
            for n, v in c.items():
                ctx.set(at(n), v)
            got.append(ctx.get(at(port)))
            await ctx.tick()
    sim = Simulator(m)
    sim.add_clock(1e-6)
    sim.add_testbench(tb)
    sim.run()
    return got


"""
A = "a_src => %s, latch_a => 1"
P("C31-exception-invert", "C31",
  [("control.py", "        with m.If(invert_test):\n",
    "        # Exceptions can't be ignored: there is no inverted test of them.\n"
    "        with m.If(invert_test & (cond_test != CondTest.EXCEPTION)):\n")],
  "microcode that jumps when no exception occurred",
  "the inverted exception test jumps on exceptions instead", CTL + """
p = [A % "gp", A % "imm", A % "zero" + ", jmp_type => direct, invert_test => 1"
     ", cond_test => exception, target => 5", A % "four", A % "neg_one",
     A % "thirty_one"]
for e in (0, 1):
    g = walk(p, "alu.route.a_src", [{"exception.exception": e}] * 3)
    check(g[1:] == [3, 4 if e else 6], (e, g))
""".replace("A %", "'a_src => %s, latch_a => 1' %"))
P("C31-valid-request", "C31",
  [("control.py", "m.d.comb += raw_test.eq(self.mem.valid)",
    "m.d.comb += raw_test.eq(self.mem.valid & self.mem.req)")],
  "microcode that tests the end of a transfer in a microinstruction that "
  "doesn't keep requesting it",
  "the test fails though the bus is valid", CTL + """
p = [A % "gp", A % "imm", A % "zero" + ", jmp_type => direct"
     ", cond_test => mem_valid, target => 5", A % "four", A % "neg_one",
     A % "thirty_one"]
for e in (0, 1):
    g = walk(p, "alu.route.a_src", [{"mem.valid": e}] * 3)
    check(g[1:] == [3, 6 if e else 4], (e, g))
""".replace("A %", "'a_src => %s, latch_a => 1' %"))
