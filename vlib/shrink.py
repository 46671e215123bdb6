"""Delta-debugging shrinker for engine cases.

`fails(case) -> bool` decides whether a candidate still shows the failure.
The result is 1-minimal with respect to the edits below (within the budget).
"""
import time

from .eng import CF_IDLEACK, CF_JUNK, ALLREGS, ALLCSRS
from .rv import NOP


class Budget(Exception):
    pass


def shrink(case, fails, budget=1500, seconds=100):
    best = case
    left = [budget]
    end = time.time() + seconds

    def attempt(c):
        nonlocal best
        if left[0] <= 0 or time.time() > end:
            raise Budget
        left[0] -= 1
        if fails(c):
            best = c
            return True
        return False

    def edit(**kw):
        c = best.copy()
        for k, v in kw.items():
            setattr(c, k, v)
        return attempt(c)

    def chunks(field):
        n = len(getattr(best, field))
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(getattr(best, field)):
                cur = getattr(best, field)
                if not edit(**{field: cur[:i] + cur[i + size:]}):
                    i += size
            if size == 1:
                break
            size //= 2

    def stepedit(i, **kw):
        names = ("insn", "ldata", "irq_wave", "fwait", "mwait", "rst_at",
                 "rst_len", "flags")
        s = list(best.steps[i])
        for k, v in kw.items():
            s[names.index(k)] = v
        s = tuple(s)
        if s == best.steps[i]:
            return False
        return edit(steps=best.steps[:i] + [s] + best.steps[i + 1:])

    try:
        for _ in range(4):
            before = best
            chunks("steps")
            if best.mem:
                chunks("mem")
            # whole-case simplifications
            z = [(s[0], s[1], 0, 0, 0, -1, 0, s[7]) for s in best.steps]
            if z != best.steps:
                edit(steps=z)
            if any(best.xinit):
                edit(xinit=[0] * 32)
            for f in (CF_JUNK, CF_IDLEACK):
                if best.flags & f:
                    edit(flags=best.flags & ~f)
            for k, v in (("pro_fwait", 0), ("epi_fwait", 0), ("rst0", 1),
                         ("pc", 0x1000),
                         ("csr", [0x1800, 0, 0x100, 0, 0, 0])):
                if getattr(best, k) != v:
                    edit(**{k: v})
            for i in range(6):
                d = [0x1800, 0, 0x100, 0, 0, 0][i]
                if best.csr[i] != d:
                    n = list(best.csr)
                    n[i] = d
                    edit(csr=n)
            for i in range(len(best.steps)):
                s = best.steps[i]
                if s[2]:
                    if not stepedit(i, irq_wave=0):
                        stepedit(i, irq_wave=(1 << 64) - 1)
                if s[3]:
                    if not stepedit(i, fwait=0) and s[3] > 1:
                        stepedit(i, fwait=s[3] // 2)
                if s[4]:
                    if not stepedit(i, mwait=0) and s[4] > 1:
                        stepedit(i, mwait=s[4] // 2)
                if s[6]:
                    if not stepedit(i, rst_at=-1, rst_len=0) and s[6] > 1:
                        stepedit(i, rst_len=1)
                if s[1]:
                    if not stepedit(i, ldata=0):
                        for v in (1, 0x80000000, 0xFFFFFFFF):
                            if s[1] != v and stepedit(i, ldata=v):
                                break
            for i in range(1, 32):
                v = best.xinit[i]
                if not v:
                    continue
                for w in (0, 1, 0xFFFFFFFF, 0x80000000, v & 0xFFFF,
                          v & 0xFF):
                    if w == v:
                        break
                    n = list(best.xinit)
                    n[i] = w
                    if edit(xinit=n):
                        break
            for i, (a, v) in enumerate(list(best.mem)):
                if v != NOP and i < len(best.mem):
                    n = list(best.mem)
                    n[i] = (a, NOP)
                    edit(mem=n)
            if best is before:
                break
        # smaller dumps last: they only shorten the reproduction
        if best.dump_csrs:
            edit(dump_csrs=0)
        if best.dump_regs == ALLREGS:
            if not edit(dump_regs=0):
                for i in range(32):
                    if edit(dump_regs=1 << i):
                        break
    except Budget:
        pass
    return best
