From 7f9ba3869d3a6ea1faace795e9011447ee93b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 1/8] fix: clear mcause interrupt bit when latching a
 synchronous exception

---
 src/sentinel/exception.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sentinel/exception.py b/src/sentinel/exception.py
index a875ae6..4d21add 100644
--- a/src/sentinel/exception.py
+++ b/src/sentinel/exception.py
@@ -232,7 +232,10 @@ class ExceptionRouter(Component):
         with m.If(self.src.ctrl.except_ctl == ExceptCtl.LATCH_DECODER):
             with m.If(self.src.decode.valid):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(self.src.decode.e_type)
+                m.d.sync += [
+                    mcause_latch.cause.eq(self.src.decode.e_type),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
             with m.If(self.src.csr.mstatus.mie & self.src.csr.mip.meip &
                       self.src.csr.mie.meie):
@@ -248,8 +251,10 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(
-                    MCause.Cause.STORE_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.STORE_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_LOAD_ADR):
             with m.If((((self.src.ctrl.mem_sel == MemSel.HWORD) &
                         self.src.alu_lo[0] == 1)) |
@@ -257,10 +262,16 @@ class ExceptionRouter(Component):
                       ((self.src.alu_lo[0] == 1) |
                        (self.src.alu_lo[1] == 1)))):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.LOAD_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
         with m.Elif(self.src.ctrl.except_ctl == ExceptCtl.LATCH_JAL):
             with m.If(self.src.alu_lo[1] == 1):
                 m.d.comb += exception.eq(1)
-                m.d.sync += mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED)
+                m.d.sync += [
+                    mcause_latch.cause.eq(MCause.Cause.INSN_MISALIGNED),
+                    mcause_latch.interrupt.eq(0)
+                ]
 
         return m
-- 
2.43.0


From ecb13b724fb1413796ed7ca990aa9610c4c2f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 2/8] fix: don't report compressed encodings 0x70-0x72 as ECALL

---
 src/sentinel/decode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sentinel/decode.py b/src/sentinel/decode.py
index cec058c..b09efc5 100644
--- a/src/sentinel/decode.py
+++ b/src/sentinel/decode.py
@@ -368,9 +368,9 @@ class ExceptionControl(Component):
                         m.d.sync += self.exception.valid.eq(1)
                 with m.Case(OpcodeType.SYSTEM):
                     m.d.sync += self.exception.valid.eq(1)
-                    # Yes, stripping the lower bits inexplicably makes a
-                    # difference in resource usage...
-                    with m.If(insn.raw[7:] == (Insn.ECALL >> 7)):
+                    # Compare all bits; a 16-bit/compressed encoding whose
+                    # upper bits happen to match ECALL is an illegal insn.
+                    with m.If(insn.raw == Insn.ECALL):
                         m.d.sync += self.exception.e_type.eq(MCause.Cause.ECALL_MMODE)  # noqa: E501
                     with m.Elif(insn.raw == Insn.EBREAK):
                         m.d.sync += self.exception.e_type.eq(MCause.Cause.BREAKPOINT)  # noqa: E501
-- 
2.43.0


From 63001f2625e4328e0dd953db8779528107558cfd Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 3/8] fix: place microcode fields at their declared origins

Padding before the first field was dropped, a second gap overwrote the
first one's padding, and fields declared out of origin order made the
padding width negative.
---
 src/sentinel/ucoderom.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index fc133b3..314b68d 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -2,7 +2,6 @@
 
 from io import IOBase
 from pathlib import Path
-from itertools import tee, zip_longest
 
 from amaranth import Shape, unsigned, Module
 from amaranth.lib.data import StructLayout
@@ -254,12 +253,19 @@ class UCodeROM(Component):
     def _create_field_layout(self, space):
         layout = dict()
         padding_id = 0
+        next_bit = 0
+
+        # Fields need not be declared in order of their origins, nor be
+        # adjacent.
+        for curr_n, curr_f in sorted(space.fields.items(),
+                                     key=lambda nf: (nf[1].origin,
+                                                     nf[1].width)):
+            if curr_f.origin != next_bit:
+                layout[f"_padding_{padding_id}"] = \
+                    unsigned(curr_f.origin - next_bit)
+                padding_id += 1
+            next_bit = curr_f.origin + curr_f.width
 
-        c, n = tee(space.fields.items())
-        next(n, None)
-        curr_next_pairs = zip_longest(c, n, fillvalue=(None, None))
-
-        for (curr_n, curr_f), (_, next_f) in curr_next_pairs:
             # bools in m5meta are internally enums, but we'll do just fine with
             # unsigned(1).
             if curr_f.enum and curr_f.enum != {"false": 0, "true": 1}:
@@ -268,10 +274,6 @@ class UCodeROM(Component):
                 layout[curr_n] = \
                     self._check_and_convert_dynamic_shape(curr_f)
 
-            if next_f and curr_f.origin + curr_f.width != next_f.origin:
-                layout[f"_padding_{padding_id}"] = \
-                    unsigned(next_f.origin - (curr_f.origin + curr_f.width))
-
         self.field_layout = StructLayout(layout)
 
     def _check_and_convert_dynamic_shape(self, field):
-- 
2.43.0


From 1bf0c759cbc57c9546b7792ad084d1c81bdc947f Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 4/8] fix: raise ValueError when microcode enum names differ
 from field_map

Differing names escaped as KeyError (TypeError for a non-enum shape), and
an alias present only in the Amaranth enum was accepted.
---
 src/sentinel/ucoderom.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 314b68d..83fb728 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -299,10 +299,10 @@ class UCodeROM(Component):
         except KeyError as e:
             raise ValueError(f"{e.args[0]} was not in field_map") from e
 
-        if not (all(se_class[k.upper()].value == field.enum[k]
-                    for k in field.enum) and
-                all(field.enum[k.name.lower()] == k.value
-                    for k in se_class)):
+        # __members__ includes aliases; shapes which aren't enums have none.
+        members = getattr(se_class, "__members__", {})
+        if {k: v.value for k, v in members.items()} != \
+                {k.upper(): v for k, v in field.enum.items()}:
             raise ValueError(f"{se_class} in Amaranth source and field {field}"
                              " in microcode source do not have compatible "
                              "fields and values.\n"
-- 
2.43.0


From 6c7cd564a50c3e0a0ca69bfa298f2c021d8cb96a Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 22:34:22 +0000
Subject: [PATCH 5/8] fix: don't replace an empty field_map by the default one

---
 src/sentinel/ucoderom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/ucoderom.py b/src/sentinel/ucoderom.py
index 83fb728..d01571a 100644
--- a/src/sentinel/ucoderom.py
+++ b/src/sentinel/ucoderom.py
@@ -165,7 +165,7 @@ class UCodeROM(Component):
         self.field_defs = field_defs
         self.hex = hex
 
-        if field_map:
+        if field_map is not None:
             self.field_map = field_map
 
         self.assemble()
-- 
2.43.0


From 02f776942fb9e226655051899c1ea26a816f3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 6/8] fix: report MSTATUS as it was before traps and MRET in
 the RVFI trace

FormalTop holds csr.*.rdata when a CSR instruction writes the register, but
trap entry and MRET change MSTATUS without a CSR write, so the records of
trapped instructions and MRET carried the value afterwards.
---
 src/sentinel/formal.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sentinel/formal.py b/src/sentinel/formal.py
index f45ab2f..0973ef8 100644
--- a/src/sentinel/formal.py
+++ b/src/sentinel/formal.py
@@ -7,7 +7,7 @@ from amaranth_soc import wishbone
 
 from .top import Top
 from .datapath import CSRFile
-from .ucodefields import CSROp
+from .ucodefields import CSROp, ExceptCtl
 
 
 class FormalTop(Component):
@@ -478,6 +478,13 @@ class FormalTop(Component):
             m.d.sync += self.rvfi.csr.mstatus.rdata.eq(
                 self.cpu.datapath.csr.mstatus_r)
 
+        # Trap entry and MRET modify MSTATUS without a CSR write.
+        with m.If((self.cpu.control.csr.ctrl.exception ==
+                   ExceptCtl.ENTER_INT) |
+                  (self.cpu.control.csr.ctrl.exception ==
+                   ExceptCtl.LEAVE_INT)):
+            m.d.sync += mstatus_hold_rd.eq(1)
+
         with m.If(self.cpu.control.csr.ctrl.op == CSROp.WRITE_CSR):
             with m.Switch(self.cpu.datapath.csr.adr):
                 with m.Case(CSRFile.MSCRATCH):
-- 
2.43.0


From e86131fcc0eed5e9ba72cb686854fe8aa14f4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:24 +0000
Subject: [PATCH 7/8] fix: ALU CMP_LTU uses the borrow bit of the ALU's own
 width

The width parameter is documented, but the unsigned comparison always
looked at bit 32 of the difference: narrower ALUs could not be elaborated
and wider ones compared wrongly.
---
 src/sentinel/alu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/alu.py b/src/sentinel/alu.py
index 1783669..079285a 100644
--- a/src/sentinel/alu.py
+++ b/src/sentinel/alu.py
@@ -377,7 +377,7 @@ class ALU(Component):
             with m.Case(OpType.SRA):
                 m.d.comb += self.o_mux.eq(self.sar.o)
             with m.Case(OpType.CMP_LTU):
-                m.d.comb += self.o_mux.eq(self.sub.o[32])
+                m.d.comb += self.o_mux.eq(self.sub.o[self.width])
 
         m.d.sync += self.o.eq(self.o_mux)
         with m.If(self.ctrl.omod == ALUOMod.INV_LSB_O):
-- 
2.43.0


From ce969f119459ab6b5c60827946150df2dedd7ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:42 +0000
Subject: [PATCH 8/8] fix: allow_zero_wr no longer blocks register file writes
 to x1

'|' binds tighter than '!=', so asserting allow_zero_wr disabled writes to
address 1 instead of only lifting the restriction on address 0.
---
 src/sentinel/datapath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sentinel/datapath.py b/src/sentinel/datapath.py
index d7faf5e..b47fdce 100644
--- a/src/sentinel/datapath.py
+++ b/src/sentinel/datapath.py
@@ -409,7 +409,7 @@ class RegFile(Component):
                 m.d.comb += [
                     r_port.en.eq(self.pub.ctrl.reg_read),
                     w_port.en.eq(self.pub.ctrl.reg_write &
-                                 (self.pub.adr_w != 0 |
+                                 ((self.pub.adr_w != 0) |
                                   self.pub.ctrl.allow_zero_wr))
                 ]
             with m.Case(CSROp.READ_CSR):
-- 
2.43.0

