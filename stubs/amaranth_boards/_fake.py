"""Stand-ins for the board definitions, which are not available offline.

Resources have the boards' names, numbers and directions (pin numbers are
placeholders).  Requested pins are plain signals, and build() records what
it was asked to build instead of running tools.
"""
from types import SimpleNamespace

from amaranth.build import (Attrs, Clock, Connector, Pins, PinsN, Resource,
                            Subsignal)
from amaranth.build.run import BuildPlan, BuildProducts, LocalBuildProducts
from amaranth.hdl import Signal

__all__ = ["Attrs", "Board", "Clock", "Connector", "Pins", "PinsN",
           "Resource", "Subsignal", "button", "clock", "leds", "log", "pmods",
           "uart"]
log = []        # what build(), execute_local() and extract() were asked


def clock(name, mhz):
    return Resource(name, 0, Pins("C0", dir="i"), Clock(mhz * 1e6))


def button():
    return Resource("button", 0, Pins("B0", dir="i"))


def leds(n, inv=False):
    return [Resource("led", i, (PinsN if inv else Pins)(f"L{i}", dir="o"))
            for i in range(n)]


def uart():
    return Resource("uart", 0, Subsignal("rx", Pins("U0", dir="i")),
                    Subsignal("tx", Pins("U1", dir="o")))


def pmods(n):
    return [Connector("pmod", i, " ".join(
        f"P{i}{k}" if k % 6 not in (5, 0) else "-" for k in range(1, 13)))
        for i in range(n)]


def pin(d):
    s = SimpleNamespace()
    if d in ("i", "io"):
        s.i = Signal(name="i")
    if d in ("o", "io", "oe"):
        s.o = Signal(name="o")
    if d in ("oe", "io"):
        s.oe = Signal(name="oe")
    return s


class Remote(BuildProducts):
    """What a remote build leaves behind; files name their origin."""

    def __init__(self, plan, root, ran):
        self.files = set(plan.files)
        self.root, self.name = root, plan.script[len("build_"):]
        if ran:
            self.files |= {self.name + x for x in (".bin", ".asc", ".bit")}

    def get(self, filename, mode="b"):
        if filename not in self.files:
            raise FileNotFoundError(filename)
        s = f"{self.root}/{filename}"
        return s if mode == "t" else s.encode()


class Plan(BuildPlan):
    def execute_local(self, root="build", *, run_script=None, env=None):
        if run_script is None:
            run_script = True
        log.append(("execute" if run_script else "extract", str(root)))
        return LocalBuildProducts(str(self.extract_(root)))

    def extract(self, root="build"):
        log.append(("extract", str(root)))
        return self.extract_(root)

    extract_ = BuildPlan.extract

    def execute_remote_ssh(self, *, connect_to={}, root, run_script=True):
        log.append(("remote", str(root), run_script, dict(connect_to)))
        return Remote(self, str(root), run_script)

    def execute_local_docker(self, *a, **k):
        raise AssertionError("docker build not requested")


class Board:
    device = package = "none"
    speed = "1"
    connectors = pmods(2)
    default_rst = None

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.pins = {}

    def request(self, name, number=0, *, dir=None, xdr=None):
        r = self.lookup(name, number)       # may raise ResourceError
        super().request(name, number, dir="-")
        if isinstance(r.ios[0], Subsignal):
            p = SimpleNamespace(**{s.name: pin(s.ios[0].dir) for s in r.ios})
        else:
            p = pin(r.ios[0].dir)
        self.pins[name, number] = p
        return p

    def build(self, elaboratable, name="top", build_dir="build",
              do_build=True, program_opts=None, do_program=False, **kwargs):
        log.append(("build", self, elaboratable, name))
        plan = Plan(script=f"build_{name}")
        plan.add_file(f"{name}.il", "(recorded)\n")
        if not do_build:
            return plan
        return plan.execute_local(build_dir)
