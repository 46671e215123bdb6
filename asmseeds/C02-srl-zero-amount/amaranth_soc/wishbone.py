"""Minimal stand-in for amaranth_soc.wishbone (amaranth-soc is not installable
offline).  Only the public interface description is provided: the member names,
directions and widths of the Wishbone signature as amaranth-soc defines them.
"""
from amaranth.lib import enum, wiring
from amaranth.lib.wiring import In, Out

__all__ = ["CycleType", "BurstTypeExt", "Feature", "Signature", "Interface"]


class CycleType(enum.Enum):
    CLASSIC = 0b000
    CONST_BURST = 0b001
    INCR_BURST = 0b010
    END_OF_BURST = 0b111


class BurstTypeExt(enum.Enum):
    LINEAR = 0b00
    WRAP_4 = 0b01
    WRAP_8 = 0b10
    WRAP_16 = 0b11


class Feature(enum.Enum):
    ERR = "err"
    RTY = "rty"
    STALL = "stall"
    LOCK = "lock"
    CTI = "cti"
    BTE = "bte"


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset()):
        granularity = data_width if granularity is None else granularity
        self._addr_width = addr_width
        self._data_width = data_width
        self._granularity = granularity
        self._features = frozenset(Feature(f) for f in features)
        members = {
            "adr": Out(addr_width),
            "dat_w": Out(data_width),
            "dat_r": In(data_width),
            "sel": Out(data_width // granularity),
            "cyc": Out(1),
            "stb": Out(1),
            "we": Out(1),
            "ack": In(1),
        }
        if Feature.ERR in self._features:
            members["err"] = In(1)
        if Feature.RTY in self._features:
            members["rty"] = In(1)
        if Feature.STALL in self._features:
            members["stall"] = In(1)
        if Feature.LOCK in self._features:
            members["lock"] = Out(1)
        if Feature.CTI in self._features:
            members["cti"] = Out(CycleType)
        if Feature.BTE in self._features:
            members["bte"] = Out(BurstTypeExt)
        super().__init__(members)

    addr_width = property(lambda self: self._addr_width)
    data_width = property(lambda self: self._data_width)
    granularity = property(lambda self: self._granularity)
    features = property(lambda self: self._features)

    def create(self, *, path=None, src_loc_at=0):
        return Interface(addr_width=self.addr_width,
                         data_width=self.data_width,
                         granularity=self.granularity,
                         features=self.features, path=path,
                         src_loc_at=1 + src_loc_at)

    def __eq__(self, other):
        return (isinstance(other, Signature) and
                self.addr_width == other.addr_width and
                self.data_width == other.data_width and
                self.granularity == other.granularity and
                self.features == other.features)

    def __repr__(self):
        return f"wishbone.Signature({self.members!r})"


class Interface(wiring.PureInterface):
    def __init__(self, *, addr_width, data_width, granularity=None,
                 features=frozenset(), path=None, src_loc_at=0):
        super().__init__(Signature(addr_width=addr_width,
                                   data_width=data_width,
                                   granularity=granularity,
                                   features=features),
                         path=path, src_loc_at=1 + src_loc_at)
        self.memory_map = None

    addr_width = property(lambda self: self.signature.addr_width)
    data_width = property(lambda self: self.signature.data_width)
    granularity = property(lambda self: self.signature.granularity)
    features = property(lambda self: self.signature.features)
