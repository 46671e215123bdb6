"""Random C programs, compiled for rv32i and, as the oracle, for the host.

Only fixed-width types, wrapping arithmetic, masked shifts and indices and
guarded divisions are generated, so a program has one meaning.  The host's
result is independent of the reference model.
"""
import pathlib
import re
import subprocess
import tempfile

from .eng import (Case, CF_IDLEACK, CF_JUNK, CF_LOG, CF_MORE, CF_NOEPI,
                  CF_NOPRO, CF_STOPPC, F_LDMEM, F_MEMFETCH)

HEAD = """
typedef unsigned char u8; typedef signed char i8;
typedef unsigned short u16; typedef short i16;
typedef unsigned int u32; typedef int i32; typedef unsigned long long u64;
#define NI __attribute__((noinline))
"""
RT = """
#define RT __attribute__((used, optnone, noinline))
RT u32 __mulsi3(u32 a, u32 b)
{ u32 r = 0; while (a) { if (a & 1) r += b; a >>= 1; b <<= 1; } return r; }
RT u64 __muldi3(u64 a, u64 b)
{ u64 r = 0; while (a) { if (a & 1) r += b; a >>= 1; b <<= 1; } return r; }
RT u64 __lshrdi3(u64 a, int n)
{ u32 l = a, h = a >> 32; if (!n) return a;
  if (n >= 32) { l = h >> (n - 32); h = 0; }
  else { l = l >> n | h << (32 - n); h >>= n; }
  union { struct { u32 l, h; } s; u64 v; } x = {{l, h}}; return x.v; }
RT u64 __ashldi3(u64 a, int n) { while (n--) a += a; return a; }
RT u32 __udivsi3(u32 n, u32 d)
{ u32 q = 0, r = 0; for (int i = 31; i >= 0; i--) {
    r = r << 1 | (n >> i & 1); if (r >= d) { r -= d; q |= 1u << i; } }
  return q; }
RT u32 __umodsi3(u32 n, u32 d)
{ u32 r = 0; for (int i = 31; i >= 0; i--) {
    r = r << 1 | (n >> i & 1); if (r >= d) r -= d; }
  return r; }
RT i32 __divsi3(i32 n, i32 d)
{ u32 q = __udivsi3(n < 0 ? -(u32)n : n, d < 0 ? -(u32)d : d);
  return (n < 0) != (d < 0) ? -q : q; }
RT i32 __modsi3(i32 n, i32 d)
{ u32 r = __umodsi3(n < 0 ? -(u32)n : n, d < 0 ? -(u32)d : d);
  return n < 0 ? -r : r; }
RT void *memset(void *p, int v, u32 n)
{ u8 *q = p; while (n--) *q++ = v; return p; }
RT void *memcpy(void *p, const void *s, u32 n)
{ u8 *q = p; const u8 *t = s; while (n--) *q++ = *t++; return p; }
"""
START = """
__asm__(".section .init,\\"ax\\"\\n.globl _start\\n_start:\\n"
 " j 1f\\n .balign 64\\n.globl trap\\ntrap:\\n"
 " csrrw sp,mscratch,sp\\n sw x1,4(sp)\\n csrr x1,mscratch\\n sw x1,8(sp)\\n"
 ".irp r,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,"
 "27,28,29,30,31\\n sw x\\\\r,\\\\r*4(sp)\\n.endr\\n sw x0,0(sp)\\n"
 " mv a0,sp\\n csrr a1,mcause\\n csrr a2,mepc\\n addi sp,sp,-1024\\n"
 " call handler\\n addi sp,sp,1024\\n csrw mepc,a0\\n"
 " lw x1,8(sp)\\n csrw mscratch,x1\\n lw x1,4(sp)\\n"
 ".irp r,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,"
 "27,28,29,30,31\\n lw x\\\\r,\\\\r*4(sp)\\n.endr\\n"
 " csrrw sp,mscratch,sp\\n mret\\n"
 "1: la x1,trap\\n csrw mtvec,x1\\n li x1,0x7f00\\n csrw mscratch,x1\\n"
 " li sp,0x7800\\n li x1,0x800\\n csrw mie,x1\\n csrsi mstatus,8\\n"
 ".irp r,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,"
 "27,28,29,30,31\\n li x\\\\r,0\\n.endr\\n"
 " call run\\n.globl _end_\\n_end_: j _end_\\n");
u32 irqs, emus;
NI u32 handler(u32 *f, u32 cause, u32 pc)
{
  u32 w, a, b, r;
  if (cause >> 31) { irqs++; return pc; }
  if (cause == 11) { f[10] = f[10] * 2 + 1; return pc + 4; }
  if (cause == 3) { f[11]++; return pc + 4; }
  if (cause == 4 || cause == 6) {       /* misaligned access */
    w = *(u32 *)pc;
    u32 f3 = w >> 12 & 7, n = (f3 & 3) == 1 ? 2 : 4;
    u32 off = cause == 4 ? (u32)((i32)w >> 20)
                         : (u32)((i32)w >> 25 << 5 | (w >> 7 & 31));
    u8 *p = (u8 *)(f[w >> 15 & 31] + off);
    if (cause == 6) {
      u32 v = f[w >> 20 & 31];
      while (n--) { *(volatile u8 *)p = v; p++; v >>= 8; }
    } else {
      r = 0;
      for (u32 i = 0; i < n; i++) r |= (u32)((volatile u8 *)p)[i] << 8 * i;
      if (f3 == 1) r = (i32)(i16)r;
      if (w >> 7 & 31) f[w >> 7 & 31] = r;
    }
    return pc + 4;
  }
  if (cause != 2) for (;;) ;
  w = *(u32 *)pc;                       /* M extension */
  if ((w & 0xfe00007f) != 0x02000033) for (;;) ;
  a = f[w >> 15 & 31]; b = f[w >> 20 & 31];
  emus++;
  switch (w >> 12 & 7) {
  case 0: r = __mulsi3(a, b); break;
  case 1: { u64 x = __muldi3(a, b); r = __lshrdi3(x, 32);
            if ((i32)a < 0) r -= b; if ((i32)b < 0) r -= a; break; }
  case 2: { u64 x = __muldi3(a, b); r = __lshrdi3(x, 32);
            if ((i32)a < 0) r -= b; break; }
  case 3: r = __lshrdi3(__muldi3(a, b), 32); break;
  case 4: r = b ? __divsi3(a, b) : -1u; break;
  case 5: r = b ? __udivsi3(a, b) : -1u; break;
  case 6: r = b ? __modsi3(a, b) : a; break;
  default: r = b ? __umodsi3(a, b) : a; break;
  }
  if (w >> 7 & 31) f[w >> 7 & 31] = r;
  return pc + 4;
}
"""
LINK = """
SECTIONS { . = 0; .text : { *(.init) *(.text*) } . = 0x5000;
 .data : { *(.out) *(.data*) *(.sdata*) *(.rodata*) *(.srodata*) }
 .bss : { *(.bss*) *(.sbss*) *(COMMON) }
 ASSERT(. < 0x7000, "too large") /DISCARD/ : { *(.comment) *(.note*)
 *(.eh_frame*) *(.riscv.attributes) } }
"""
TY = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32}
NOUT = 24


class Prog:
    def __init__(self, g):
        self.g = g
        self.arr = [(f"g{k}", g.ch(list(TY)), g.ch((4, 8, 16, 32)))
                    for k in range(g.rr(2, 5))]
        self.funs = []
        self.n = 0
        self.loop = 0
        self.unal = g.rr(3) == 0        # misaligned accesses via a handler
        self.sysc = g.rr(3) == 0        # environment calls
        self.wide = g.rr(3)             # share of divisions

    def const(self):
        v = self.g.val()
        return f"0x{v:x}u" if self.g.rr(2) else \
            f"((i32)0x{v:x}u)"

    def expr(self, d):
        g = self.g
        if d <= 0 or g.rr(6) == 0:
            k = g.rr(5)
            if k < 3 and self.vars:
                return g.ch(self.vars)
            if k < 4:
                n, t, sz = g.ch(self.arr)
                return f"{n}[{self.idx(d, sz)}]"
            return self.const()
        k = g.rr(22)
        a = self.expr(d - 1)
        if k < 9:
            return f"({a} {g.ch(('+', '-', '&', '|', '^', '+', '-'))} " \
                   f"{self.expr(d - 1)})"
        if k < 11:
            return f"({self.cast()}{a} {g.ch(('<<', '>>', '>>'))} " \
                   f"({self.expr(d - 2)} & 31))"
        if k < 14:
            return f"({self.cast()}{a} " \
                   f"{g.ch(('<', '<=', '>', '>=', '==', '!='))} " \
                   f"{self.cast()}{self.expr(d - 1)})"
        if k < 15:
            return f"({a} ? {self.expr(d - 1)} : {self.expr(d - 1)})"
        if k < 17:
            return f"(({g.ch(list(TY))}){a})"
        if k < 18:
            return f"({g.ch('~-!')}{a})"
        if k < 19 and g.rr(3) < self.wide:
            if g.rr(3):
                return f"((u32){a} * (u32){self.expr(d - 2)})"
            if g.rr(2):
                return f"((u32){a} {g.ch('/%')} ((u32){self.expr(d - 2)}|1u))"
            return f"((i32){a} {g.ch('/%')} " \
                   f"(((i32){self.expr(d - 2)} & 0x7fff)|1))"
        if k < 20 and self.funs and self.loop < 2:
            return f"{g.ch(self.funs)}({a}, {self.expr(d - 2)})"
        if k < 21 and self.unal:
            n, t, sz = g.ch(self.arr)
            by = sz * TY[t] // 8
            return f"ld{g.ch((16, 32))}((u8 *){n} + " \
                   f"({a} & {max(1, by - 4) - 1 if by > 4 else 0}))"
        return a

    def cast(self):
        return self.g.ch(("", "(u32)", "(i32)", "(i32)"))

    def idx(self, d, sz):
        return f"({self.expr(min(d - 2, 2))} & {sz - 1})"

    def lval(self, d):
        g = self.g
        if g.rr(2) and self.muts:
            return g.ch(self.muts)
        n, t, sz = g.ch(self.arr)
        return f"{n}[{self.idx(d, sz)}]"

    def block(self, d, n):
        return " ".join(self.stmt(d) for _ in range(n))

    def stmt(self, d):
        g = self.g
        k = g.rr(16)
        if k < 8 or d <= 0:
            op = g.ch(("=", "=", "=", "+=", "-=", "^=", "|=", "&="))
            return f"{self.lval(3)} {op} {self.expr(3)};"
        if k < 10:
            return f"if ({self.expr(3)}) {{ {self.block(d - 1, 2)} }} " \
                   f"else {{ {self.block(d - 1, 1)} }}"
        if k < 12 and self.loop < 2:
            v = f"k{self.n}"
            self.n += 1
            self.loop += 1
            self.vars.append(v)
            t = g.ch(("u32", "i32", "u8", "i16"))
            a = g.rr(1, 7)
            hdr = g.ch((f"for ({t} {v} = 0; {v} < {a}; {v}++)",
                        f"for ({t} {v} = {a}; {v} > 0; {v}--)",
                        f"for (i32 {v} = -{a}; {v} < 0; {v}++)"))
            b = self.block(d - 1, g.rr(1, 3))
            if g.rr(4) == 0:
                b += f" if ({self.expr(2)}) {g.ch(('break', 'continue'))};"
            self.vars.remove(v)
            self.loop -= 1
            return f"{hdr} {{ {b} }}"
        if k < 13:
            n = g.rr(2, 6)
            cs = " ".join(f"case {c}: {self.stmt(0)} "
                          f"{g.ch(('break;', 'break;', ''))}"
                          for c in range(n))
            return f"switch ({self.expr(2)} & 7) {{ {cs} default: " \
                   f"{self.stmt(0)} }}"
        if k < 14 and self.unal:
            n, t, sz = g.ch(self.arr)
            by = sz * TY[t] // 8
            if by > 4:
                return f"st{g.ch((16, 32))}((u8 *){n} + ({self.expr(2)} & " \
                       f"{by - 4 - 1 if by - 4 & by - 5 == 0 else 3}), " \
                       f"{self.expr(2)});"
        if k < 15 and self.sysc:
            return f"{self.lval(2)} = sys({self.expr(2)}, {self.expr(2)});"
        return f"{self.lval(2)} = {self.expr(4)};"

    def fun(self, k):
        g = self.g
        ta, tb, tr = (g.ch(list(TY)) for _ in range(3))
        self.vars = ["a", "b"]
        self.muts = []
        loc = ""
        for j in range(g.rr(0, 4)):
            t = g.ch(("u32", "i32", "i32", "u8", "i16"))
            loc += f"{t} v{j} = {self.expr(2)}; "
            self.vars.append(f"v{j}")
            self.muts.append(f"v{j}")
        body = self.block(2, g.rr(1, 5))
        ret = self.expr(3)
        s = f"static NI {tr} f{k}({ta} a, {tb} b) {{ {loc}{body} " \
            f"return {ret}; }}\n"
        self.funs.append(f"f{k}")
        return s

    def source(self):
        g = self.g
        s = ""
        for n, t, sz in self.arr:
            s += f"static {t} {n}[{sz}] __attribute__((aligned(4))) = {{ " + \
                ", ".join(f"({t})0x{g.val():x}u" for _ in range(sz)) + " };\n"
        nf = g.rr(2, 6)
        body = "".join(self.fun(k) for k in range(nf))
        self.vars, self.muts = [], []
        main = "void run(void) {\n"
        for k in range(NOUT - 4):
            f = g.rr(nf)
            main += f" out[{k}] = f{f}({self.const()}, {self.const()});\n"
        main += " u32 h = 1;\n"
        for n, t, sz in self.arr:
            main += f" for (u32 i = 0; i < {sz}; i++) " \
                    f"h = (h << 5 | h >> 27) ^ (u32){n}[i];\n"
        main += f" out[{NOUT - 4}] = h; out[{NOUT - 1}] = 0x600D;\n}}\n"
        return s + body + main


TARGET = """
u32 out[%d] __attribute__((section(".out")));
static NI u32 ld32(u8 *p) { return *(volatile u32 *)p; }
static NI i16 ld16(u8 *p) { return *(volatile i16 *)p; }
static NI void st32(u8 *p, u32 v) { *(volatile u32 *)p = v; }
static NI void st16(u8 *p, u32 v) { *(volatile u16 *)p = v; }
static NI u32 sys(u32 a, u32 b) {
  register u32 x __asm__("a0") = a; register u32 y __asm__("a1") = b;
  __asm__ volatile("ecall\\n ebreak" : "+r"(x), "+r"(y)); return x ^ y; }
""" % NOUT
HOSTC = """
u32 out[%d];
void *memcpy(void *, const void *, unsigned long);
static NI u32 ld32(u8 *p) { u32 v; memcpy(&v, p, 4); return v; }
static NI i16 ld16(u8 *p) { i16 v; memcpy(&v, p, 2); return v; }
static NI void st32(u8 *p, u32 v) { memcpy(p, &v, 4); }
static NI void st16(u8 *p, u32 v) { u16 w = v; memcpy(p, &w, 2); }
static NI u32 sys(u32 a, u32 b) { return (a * 2 + 1) ^ (b + 1); }
""" % NOUT
HOSTMAIN = """
int printf(const char *, ...);
int main(void) { run(); for (int i = 0; i < %d; i++) printf("%%08x\\n",
 out[i]); return 0; }
""" % NOUT
CLANG = "/usr/bin/clang"


def sh(cmd, cwd, **kw):
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                       timeout=60, **kw)
    return r.stdout if r.returncode == 0 else None


def compile_both(src, opt, march):
    """(memory words, end address, expected words) or None."""
    with tempfile.TemporaryDirectory(prefix="cprog") as d:
        p = pathlib.Path(d)
        (p / "t.c").write_text(HEAD + RT + START + TARGET + src)
        (p / "h.c").write_text(HEAD + HOSTC + src + HOSTMAIN)
        (p / "l.ld").write_text(LINK)
        warn = ["-w", "-fwrapv", "-fno-strict-aliasing"]
        if sh([CLANG, opt, *warn, "--target=riscv32", f"-march={march}",
               "-mabi=ilp32", "-mno-relax", "-ffreestanding", "-fno-pic",
               "-c", "t.c", "-o", "t.o"], d) is None:
            return None
        if sh(["/usr/bin/ld.lld", "-T", "l.ld", "t.o", "-o", "t.elf"],
              d) is None:
            return None
        sh(["/usr/bin/llvm-objcopy", "-O", "binary", "t.elf", "t.bin"], d)
        nm = sh(["/usr/bin/llvm-nm", "t.elf"], d)
        if sh([CLANG, "-O1", *warn, "-fno-builtin", "h.c", "-o", "h"],
              d) is None:
            return None
        exp = sh(["./h"], d)
        if exp is None or nm is None or not (p / "t.bin").exists():
            return None
        sym = {m[2]: int(m[0], 16) for m in
               re.findall(r"^(\w+) (\w) (\w+)$", nm, re.M)}
        raw = (p / "t.bin").read_bytes()
        raw += bytes(-len(raw) % 4)
        mem = [(a, int.from_bytes(raw[a:a + 4], "little"))
               for a in range(0, len(raw), 4)]
        return ([m for m in mem if m[1]], sym["_end_"],
                [int(x, 16) for x in exp.split()])


def gen(g):
    """A case running a compiled program, or None if it did not fit."""
    src = Prog(g).source()
    opt = g.ch(("-O0", "-O1", "-O2", "-Os", "-O3"))
    march = g.ch(("rv32i", "rv32i", "rv32im"))
    r = compile_both(src, opt, march)
    if r is None:
        return None
    c = Case()
    c.mem, c.pc, exp = r
    c.flags = CF_NOPRO | CF_NOEPI | CF_MORE | CF_STOPPC
    if g.rr(2):
        c.flags |= CF_JUNK
    if g.rr(4) == 0:
        c.flags |= CF_IDLEACK
    c.seed = g.bits(32) | 1
    irq = g.rr(3) == 0
    rate = g.ch((3, 20, 100))
    n = g.ch((0, 200, 4000))
    for _ in range(n):
        c.steps.append((0, 0, g.wave() if irq and not g.rr(rate) else 0,
                        g.wait(), g.wait(), -1, 0, F_MEMFETCH | F_LDMEM))
    c.max_cycles = 4000000
    c.meta = dict(source=src, opt=opt, march=march, expect=exp,
                  nmem=len(c.mem))
    return c


def result(E, case):
    return [E.lib.eng_memget(0x5000 + 4 * k) for k in range(NOUT)]
