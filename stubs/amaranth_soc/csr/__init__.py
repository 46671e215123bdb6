"""Minimal stand-in for amaranth_soc.csr (amaranth-soc is not installable
offline), following its documented behaviour: reads are registered (data one
clock after the strobe, zero otherwise), writes strobe the register one clock
later.  Only registers no wider than the bus are supported."""
from amaranth.hdl import Cat, Module, Shape, Signal
from amaranth.lib import enum, wiring
from amaranth.lib.wiring import In, Out, connect, flipped

from ..memory import MemoryMap, _log2

__all__ = ["Signature", "Interface", "Element", "FieldPort", "FieldAction",
           "Field", "Register", "Builder", "Bridge", "Decoder", "action"]


class Signature(wiring.Signature):
    def __init__(self, *, addr_width, data_width):
        self.addr_width, self.data_width = addr_width, data_width
        super().__init__({"addr": Out(addr_width), "r_data": In(data_width),
                          "r_stb": Out(1), "w_data": Out(data_width),
                          "w_stb": Out(1)})

    def create(self, *, path=None, src_loc_at=0):
        return Interface(addr_width=self.addr_width,
                         data_width=self.data_width, path=path,
                         src_loc_at=1 + src_loc_at)

    def __eq__(self, other):
        return isinstance(other, Signature) and \
            (self.addr_width, self.data_width) == \
            (other.addr_width, other.data_width)


class Interface(wiring.PureInterface):
    def __init__(self, *, addr_width, data_width, path=None, src_loc_at=0):
        super().__init__(Signature(addr_width=addr_width,
                                   data_width=data_width), path=path,
                         src_loc_at=1 + src_loc_at)
        self.memory_map = None

    addr_width = property(lambda self: self.signature.addr_width)
    data_width = property(lambda self: self.signature.data_width)


class _Access(enum.Enum):
    R = "r"
    W = "w"
    RW = "rw"

    def readable(self):
        return "r" in self.value

    def writable(self):
        return "w" in self.value


class Element:
    Access = _Access

    class Signature(wiring.Signature):
        def __init__(self, width, access):
            self.width, self.access = width, Element.Access(access)
            m = {}
            if self.access.readable():
                m.update(r_data=In(width), r_stb=Out(1))
            if self.access.writable():
                m.update(w_data=Out(width), w_stb=Out(1))
            super().__init__(m)


class FieldPort:
    class Access(enum.Enum):
        R = "r"
        W = "w"
        RW = "rw"
        NC = "nc"

        def readable(self):
            return self.value in ("r", "rw")

        def writable(self):
            return self.value in ("w", "rw")

    class Signature(wiring.Signature):
        def __init__(self, shape, access):
            self.shape = Shape.cast(shape)
            self.access = FieldPort.Access(access)
            super().__init__({"r_data": In(shape), "r_stb": Out(1),
                              "w_data": Out(shape), "w_stb": Out(1)})


class FieldAction(wiring.Component):
    def __init__(self, shape, access, members=()):
        members = dict(members)
        members["port"] = In(FieldPort.Signature(shape, access))
        super().__init__(members)


class action:
    class R(FieldAction):
        def __init__(self, shape):
            super().__init__(shape, access="r", members={
                "r_data": In(shape), "r_stb": Out(1)})

        def elaborate(self, platform):
            m = Module()
            m.d.comb += [self.port.r_data.eq(self.r_data),
                         self.r_stb.eq(self.port.r_stb)]
            return m

    class W(FieldAction):
        def __init__(self, shape):
            super().__init__(shape, access="w", members={
                "w_data": Out(shape), "w_stb": Out(1)})

        def elaborate(self, platform):
            m = Module()
            m.d.comb += [self.w_data.eq(self.port.w_data),
                         self.w_stb.eq(self.port.w_stb)]
            return m

    class RW(FieldAction):
        def __init__(self, shape, *, init=0):
            self._init = init
            super().__init__(shape, access="rw", members={
                "data": Out(shape)})

        def elaborate(self, platform):
            m = Module()
            s = Signal.like(self.data, init=self._init)
            m.d.comb += [self.port.r_data.eq(s), self.data.eq(s)]
            with m.If(self.port.w_stb):
                m.d.sync += s.eq(self.port.w_data)
            return m


class Field:
    def __init__(self, action_cls, *args, **kwargs):
        self._make = lambda: action_cls(*args, **kwargs)

    def create(self):
        return self._make()


class _Fields:
    pass


class Register(wiring.Component):
    def __init_subclass__(cls, *, access=None, **kwargs):
        if access is not None:
            cls._access = Element.Access(access)
        super().__init_subclass__(**kwargs)

    def __init__(self):
        self.f = _Fields()
        self._fields = []
        width = 0
        for name, fld in type(self).__annotations__.items():
            act = fld.create()
            setattr(self.f, name, act)
            w = act.port.signature.shape.width
            self._fields.append((name, act, width, w))
            width += w
        super().__init__({"element": In(Element.Signature(width,
                                                          self._access))})
        self.width, self.access = width, self._access

    def elaborate(self, platform):
        m = Module()
        for name, act, o, w in self._fields:
            m.submodules[name] = act
            if self.access.readable() and \
                    act.port.signature.access.readable():
                m.d.comb += [self.element.r_data[o:o + w].eq(
                                 act.port.r_data),
                             act.port.r_stb.eq(self.element.r_stb)]
            if self.access.writable() and \
                    act.port.signature.access.writable():
                m.d.comb += [act.port.w_data.eq(
                                 self.element.w_data[o:o + w]),
                             act.port.w_stb.eq(self.element.w_stb)]
        return m


class Builder:
    def __init__(self, *, addr_width, data_width, granularity=8):
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width)
        self._gran = granularity

    def add(self, name, reg, *, offset=None):
        size = -(-reg.width // self._map.data_width)
        self._map.add_resource(reg, name=(name,), size=size, addr=offset,
                               alignment=_log2(size))
        return reg

    def as_memory_map(self):
        return self._map


class Bridge(wiring.Component):
    def __init__(self, memory_map):
        self._map = memory_map
        super().__init__({"bus": In(Signature(
            addr_width=memory_map.addr_width,
            data_width=memory_map.data_width))})
        self.bus.memory_map = memory_map

    def elaborate(self, platform):
        m = Module()
        dw = self._map.data_width
        fanin = 0
        for a, e, reg, name in self._map._resources:
            if reg.width > dw:
                raise NotImplementedError
            m.submodules["_".join(name)] = reg
            hit = self.bus.addr == a
            el = reg.element
            if reg.access.readable():
                data = Signal(dw, name=f"{name[0]}_r_shadow")
                m.d.comb += el.r_stb.eq(self.bus.r_stb & hit)
                m.d.sync += data.eq(0)
                with m.If(el.r_stb):
                    m.d.sync += data.eq(el.r_data)
                fanin = fanin | data
            if reg.access.writable():
                data = Signal(dw, name=f"{name[0]}_w_shadow")
                stb = Signal(name=f"{name[0]}_w_stb")
                m.d.sync += stb.eq(self.bus.w_stb & hit)
                with m.If(self.bus.w_stb & hit):
                    m.d.sync += data.eq(self.bus.w_data)
                m.d.comb += [el.w_stb.eq(stb), el.w_data.eq(data)]
        m.d.comb += self.bus.r_data.eq(fanin)
        return m


class Decoder(wiring.Component):
    def __init__(self, *, addr_width, data_width, alignment=0):
        super().__init__({"bus": In(Signature(addr_width=addr_width,
                                              data_width=data_width))})
        self.bus.memory_map = MemoryMap(addr_width=addr_width,
                                        data_width=data_width,
                                        alignment=alignment)
        self._subs = []

    def add(self, sub_bus, *, name=None, addr=None):
        if sub_bus.data_width != self.bus.data_width:
            raise ValueError("data widths differ")
        self._subs.append((sub_bus.memory_map, sub_bus))
        return self.bus.memory_map.add_window(sub_bus.memory_map, name=name,
                                              addr=addr)

    def elaborate(self, platform):
        m = Module()
        fanin = 0
        with m.Switch(self.bus.addr):
            for wmap, name, (pat, ratio) in \
                    self.bus.memory_map.window_patterns():
                sub = next(s for w, s in self._subs if w is wmap)
                m.d.comb += [sub.addr.eq(self.bus.addr[:sub.addr_width]),
                             sub.w_data.eq(self.bus.w_data)]
                fanin = fanin | sub.r_data
                with m.Case(pat):
                    m.d.comb += [sub.r_stb.eq(self.bus.r_stb),
                                 sub.w_stb.eq(self.bus.w_stb)]
        m.d.comb += self.bus.r_data.eq(fanin)
        return m
