"""Minimal stand-in for amaranth_soc.memory: address allocation as documented
there (first free address, aligned to the size and the map's alignment)."""
from collections import namedtuple

__all__ = ["MemoryMap"]

ResourceInfo = namedtuple("ResourceInfo", "resource path start end width")


def _log2(n):
    return max(0, (n - 1).bit_length())


class MemoryMap:
    def __init__(self, *, addr_width, data_width, alignment=0):
        self.addr_width, self.data_width = addr_width, data_width
        self.alignment = alignment
        self._next = 0
        self._resources = []    # (start, end, resource, name)
        self._windows = []      # (start, end, window, name, ratio)

    def _place(self, addr, size, alignment):
        step = 1 << max(self.alignment, alignment)
        if addr is None:
            addr = -(-self._next // step) * step
        elif addr % (1 << self.alignment):
            raise ValueError(f"address {addr:#x} is not aligned")
        end = addr + -(-size // (1 << self.alignment)) * (1 << self.alignment)
        if end > 1 << self.addr_width:
            raise ValueError(f"range {addr:#x}..{end:#x} out of bounds")
        for r in self._resources + self._windows:
            if addr < r[1] and r[0] < end:
                raise ValueError(f"range {addr:#x}..{end:#x} overlaps")
        self._next = end
        return addr, end

    def add_resource(self, resource, *, name, size, addr=None, alignment=0):
        a, e = self._place(addr, size, alignment)
        self._resources.append((a, e, resource, name))
        return a, e

    def add_window(self, window, *, name=None, addr=None, sparse=None):
        if window.data_width > self.data_width:
            raise ValueError("window is wider than the memory map")
        ratio = 1 if sparse else self.data_width // window.data_width
        size = (1 << window.addr_width) // ratio
        a, e = self._place(addr, size, _log2(size))
        self._windows.append((a, e, window, name, ratio))
        return a, e, ratio

    def windows(self):
        return [(w, n, (a, e, r)) for a, e, w, n, r in self._windows]

    def window_patterns(self):
        for a, e, w, n, r in self._windows:
            k = _log2((1 << w.addr_width) // r)
            hi = self.addr_width - k
            yield w, n, ((format(a >> k, f"0{hi}b") if hi else "") + "-" * k,
                         r)

    def all_resources(self):
        for a, e, r, n in sorted(self._resources, key=lambda x: x[:2]):
            yield ResourceInfo(r, (n,), a, e, self.data_width)
        for a, e, w, n, r in sorted(self._windows, key=lambda x: x[:2]):
            for i in w.all_resources():
                yield ResourceInfo(i.resource, ((n,) if n else ()) + i.path,
                                   a + i.start // r, a + i.end // r,
                                   i.width)
