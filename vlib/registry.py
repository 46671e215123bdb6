"""Property id -> check."""
from . import checks_cpu as C
from . import checks_soc as S
from .driver import main_engine

ENGINE = {c.id: c for c in vars(C).values()
          if isinstance(c, type) and issubclass(c, C.Check) and c.id}
ENGINE.update(C28=S.C28, C29=S.C29)


def run(pid, tier, seed, replay=None):
    if pid in ENGINE:
        return main_engine(ENGINE[pid](), tier, seed, replay)
    if pid == "C21":
        from . import checks_gen
        return checks_gen.run(tier, seed, replay)
    if pid in ("C22", "C23"):
        from . import checks_ucode
        return checks_ucode.run(pid, tier, seed, replay)
    if pid == "C30":
        from . import checks_views
        return checks_views.run(tier, seed, replay)
    if pid == "C31":
        from . import checks_parts
        return checks_parts.run(tier, seed, replay)
    if pid == "C32":
        from . import checks_demo
        return checks_demo.run(tier, seed, replay)
    raise SystemExit(f"unknown property {pid}")


TECH = {
    "C14": "metamorphic property-based testing: same program with and "
           "without wait states and idle-bus junk, logs compared",
    "C20": "differential property-based testing: plain and traced core, "
           "per-clock bus comparison",
    "C27": "differential property-based testing: plain core and core "
           "embedded among others under clock gating, per-clock bus "
           "comparison",
    "C15": "fault enumeration plus random testing: reset at enumerated and "
           "random clocks, lock-step reference model afterwards",
    "C07": "exhaustive opcode enumeration plus fuzzing against a reference "
           "model in lock-step",
    "C10": "exhaustive CSR address enumeration plus random sequences "
           "against a reference model in lock-step",
    "C13": "random stimulus with a per-clock Wishbone protocol monitor",
    "C28": "model-based testing of random bus, serial, GPIO and reset "
           "histories against a time-windowed reference model",
    "C29": "random programs on the whole SoC, lock-step comparison of every "
           "bus transaction with an ISA model",
    "C16": "random stimulus with per-instruction cycle-count oracle",
}
NOTE = ("Sampled search (counts in evidence) over the real design compiled "
        "from /repo's working tree to a cycle-accurate simulator, driven at "
        "its top-level ports. Trusts the reference oracle in /verif, Yosys "
        "CXXRTL, clang and the stand-in for amaranth_soc; establishes no "
        "absence of defects beyond the explored cases.")


GNOTE = (" The emitted Verilog is read by vlib/vlog.py, since the installed "
         "Yosys has no Verilog front end.")
UNOTE = ("Sampled search (counts in evidence) over generated microcode "
         "sources and field maps given to the real UCodeROM class. Trusts "
         "the generator's model of the assembler language, m5meta and "
         "Amaranth's simulator; establishes no absence of defects beyond "
         "the explored cases.")

VNOTE = ("Sampled search over the 2^32 words (each field is a wiring of the "
         "word's bits, and every single bit is tried both ways), exhaustive "
         "over the named constants. Trusts Amaranth's simulator and the "
         "table of the manuals' positions in vlib/views.py.")

DNOTE = ("Sampled search over command lines, firmware files and inputs. "
         "Board definitions and amaranth_soc are stand-ins, so boards' "
         "resource names are trusted and no tool is run; trusts Amaranth's "
         "simulator.")
PNOTE = ("Sampled search over input histories of each component on its own. "
         "Trusts Amaranth's simulator and the models in vlib/parts.py; what "
         "the documentation leaves open (misaligned lanes, AUTO width, "
         "simultaneous trap entry and mstatus write, JmpType.MAP) is not "
         "compared.")


def describe(pid):
    """(technique, level note) of a registered check, or None."""
    if pid == "C22":
        return ("property-based testing (Hypothesis): generated sources, "
                "ROM compared with the generator's own description and "
                "simulated reads"), UNOTE
    if pid == "C23":
        return ("property-based testing (Hypothesis): definitions with "
                "generated inconsistencies must raise ValueError, "
                "consistent ones must not"), UNOTE
    if pid == "C30":
        return ("property-based testing: structured random 32-bit words, "
                "every field of the instruction and CSR views simulated and "
                "compared with the manuals' bit positions; all named "
                "constants"), VNOTE
    if pid == "C31":
        return ("stateful property-based testing: random input histories of "
                "each documented component, cycle-by-cycle comparison with "
                "models written from its documentation, delta-debugging "
                "shrinker"), PNOTE
    if pid == "C32":
        return ("property-based testing: generated command lines and ELF "
                "files; hex file compared with the firmware's image, "
                "differential simulation of the recorded design's pins "
                "against the SoC on its own"), DNOTE
    if pid == "C21":
        return ("differential property-based testing: random generator "
                "invocations; emitted Verilog read back, compiled and "
                "compared per clock with the direct elaboration under "
                "random programs"), NOTE + GNOTE
    if pid in ENGINE:
        return TECH.get(pid, "property-based testing: structured random "
                        "instruction histories, lock-step comparison of "
                        "every bus access with an independent RISC-V "
                        "reference model, delta-debugging shrinker"), NOTE
    return None
