From 87e8da92f700916ddaa51a5d7f1e6fcd46fe4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:59 +0000
Subject: [PATCH 01/25] fix: float_arithmetic/floatmult: shift the product of
 the same operands in stage 4

Stage 4 shifted the stage 2 product (out_mult), which already belongs to the
next operands: back to back multiplications mixed two products. Use the
delayed product (out_mult3).
---
 litevideo/float_arithmetic/floatmult.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index edd118e..ccd2e5a 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -139,10 +139,10 @@ class FloatMultDatapath(Module):
             out_status4.eq(out_status3),
             If((out_exp3 - one_ptr) < 1,
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult >> (0 - out_exp3)) << 1))
+                out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
-                out_mult_shift.eq(out_mult << one_ptr + 1)
+                out_mult_shift.eq(out_mult3 << one_ptr + 1)
             )
         ]
 
-- 
2.43.0


From b2f06df961af34c02e1daceb27a497f76aed4a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 02/25] fix: float_arithmetic/floatmult: smallest normal and
 gradual underflow results

A result with exponent field 1 was packed as a subnormal (implicit one lost)
and subnormal results with a positive intermediate exponent were shifted by a
negative amount.
---
 litevideo/float_arithmetic/floatmult.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatmult.py b/litevideo/float_arithmetic/floatmult.py
index ccd2e5a..1b70fd6 100644
--- a/litevideo/float_arithmetic/floatmult.py
+++ b/litevideo/float_arithmetic/floatmult.py
@@ -137,9 +137,14 @@ class FloatMultDatapath(Module):
 
         self.sync += [
             out_status4.eq(out_status3),
-            If((out_exp3 - one_ptr) < 1,
+            If((out_exp3 - one_ptr) < 0,
+                # subnormal result
                 out_exp_adjust.eq(0),
-                out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                If(out_exp3 < 0,
+                    out_mult_shift.eq(((out_mult3 >> (0 - out_exp3)) << 1))
+                ).Else(
+                    out_mult_shift.eq(out_mult3 << (out_exp3 + 1))
+                )
             ).Else(
                 out_exp_adjust.eq(out_exp3 + 1 - one_ptr),
                 out_mult_shift.eq(out_mult3 << one_ptr + 1)
-- 
2.43.0


From c75112b77f2b7fed60a7b4c21bb8146947eaeb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:23 +0000
Subject: [PATCH 03/25] fix: float_arithmetic/floatadd: align a subnormal in2
 with its real exponent

---
 litevideo/float_arithmetic/floatadd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index f02ffdf..827742c 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -99,7 +99,7 @@ class FloatAddDatapath(Module):
         in2_exp_stage1 = Signal(5)
 
         self.sync += [
-            in1_minus_in2_exp.eq(in1_exp1 - in2_exp),
+            in1_minus_in2_exp.eq(in1_exp1 - in2_exp1),
             in1_frac_stage1.eq(in1_mant),
             in2_frac_stage1.eq(in2_mant),
             in1_exp_stage1.eq(in1_exp1),
-- 
2.43.0


From 3f3007d7c3a6ef1d98a4003067e8ec9688362ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 04/25] fix: float_arithmetic/floatadd: zero and subnormal sums

The exponent field of a zero or subnormal sum wrapped (0 + 0 gave 2**-13).
---
 litevideo/float_arithmetic/floatadd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/litevideo/float_arithmetic/floatadd.py b/litevideo/float_arithmetic/floatadd.py
index 827742c..9163d36 100644
--- a/litevideo/float_arithmetic/floatadd.py
+++ b/litevideo/float_arithmetic/floatadd.py
@@ -158,8 +158,14 @@ class FloatAddDatapath(Module):
         out_exp_stage4 = Signal(5)
         out_4 = Signal(16)
         self.sync += [
-            out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
-            out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1),
+            If((in1_plus_in2_frac == 0) | (leadone > in1_minus_in2_exp_stage3),
+                # zero or subnormal result
+                out_frac_stage4.eq(in1_plus_in2_frac << in1_minus_in2_exp_stage3),
+                out_exp_stage4.eq(0)
+            ).Else(
+                out_frac_stage4.eq(in1_plus_in2_frac << (leadone)),
+                out_exp_stage4.eq(in1_minus_in2_exp_stage3 - leadone + 1)
+            ),
             out_sign_stage4.eq(in1_plus_in2_sign),
             out_4.eq(out_frac_stage4)
         ]
-- 
2.43.0


From 8ddc4eac27eb7a68656079d58a5bee2911323c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:16 +0000
Subject: [PATCH 05/25] fix: csc/rgb2rgb16f: zero, narrow pixels and the sign
 bit

---
 litevideo/csc/rgb2rgb16f.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/litevideo/csc/rgb2rgb16f.py b/litevideo/csc/rgb2rgb16f.py
index f5c3a1c..ba514d5 100644
--- a/litevideo/csc/rgb2rgb16f.py
+++ b/litevideo/csc/rgb2rgb16f.py
@@ -106,10 +106,12 @@ class PIX2PIXFDatapath(Module):
         lshift = Signal(4)
         frac_val = Signal(10)
 
-        self.submodules.l1 = LeadOne(12)
+        zero = Signal()
+        self.submodules.l1 = LeadOne(pix_w)
         self.comb += self.l1.datai.eq(sink.pix)
 
         self.sync += [
+            zero.eq(sink.pix == 0),
             lshift.eq(self.l1.leadone),
             frac_val[3:].eq(sink.pix[:7]),
             frac_val[:3].eq(0)
@@ -120,9 +122,13 @@ class PIX2PIXFDatapath(Module):
         # Pack in 16bit float
 
         self.sync += [
-            source.pixf[:10].eq(frac_val << lshift),
-            source.pixf[10:15].eq(15 - 1 - lshift),
-            source.pixf[15].eq(1)
+            If(zero,
+                source.pixf.eq(0)
+            ).Else(
+                source.pixf[:10].eq(frac_val << lshift),
+                source.pixf[10:15].eq(15 - 1 - lshift),
+                source.pixf[15].eq(0)
+            )
         ]
 
 class RGB2RGB16f(PipelinedActor, Module):
-- 
2.43.0


From 92a30eba05a4f5a9652fda146e5a829a12612916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:50 +0000
Subject: [PATCH 06/25] fix: csc/rgb16f2rgb: 1.0 saturates to the largest pixel
 value

---
 litevideo/csc/rgb16f2rgb.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/litevideo/csc/rgb16f2rgb.py b/litevideo/csc/rgb16f2rgb.py
index 5bcf4a7..c59352e 100644
--- a/litevideo/csc/rgb16f2rgb.py
+++ b/litevideo/csc/rgb16f2rgb.py
@@ -37,8 +37,11 @@ class PIXF2PIXDatapath(Module):
         frac = Signal(11)
         exp = Signal(5)
         exp_offset = Signal(5)
+        one = Signal()
 
         self.sync += [
+            # 1.0, the top of the range, saturates
+            one.eq(sink.pixf[10:15] >= 15),
             exp_offset.eq(15 - sink.pixf[10:15] - 1),
             frac[:10].eq(sink.pixf[:10]),
             frac[10].eq(1)
@@ -47,7 +50,13 @@ class PIXF2PIXDatapath(Module):
         # Stage 2
         # Right shift frac by exp_offset
         # Most significant 8 bits of frac assigned to uint8 pix
-        self.sync += source.pix.eq( (frac >> exp_offset)[3:])
+        self.sync += [
+            If(one,
+                source.pix.eq(2**pix_w - 1)
+            ).Else(
+                source.pix.eq( (frac >> exp_offset)[3:])
+            )
+        ]
 
 
 class RGB16f2RGB(PipelinedActor, Module):
-- 
2.43.0


From b422b210ca98c60fd62e5c7816a99873e418f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:28 +0000
Subject: [PATCH 07/25] fix: output/core: TimingGenerator also resets the syncs
 and last when its parameters are removed

---
 litevideo/output/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 536bfb2..56bb3d6 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -156,7 +156,10 @@ class TimingGenerator(Module):
                     hactive.eq(0),
                     vactive.eq(0),
                     hcounter.eq(0),
-                    vcounter.eq(0)
+                    vcounter.eq(0),
+                    source.hsync.eq(0),
+                    source.vsync.eq(0),
+                    source.last.eq(0)
                 ).Elif(source.ready,  # otherwise, if the thing downstream from us is ready...
                     source.last.eq(0),  # self.sync is blocking, so this will get over-ridden later as needed
                     hcounter.eq(hcounter + 1),
-- 
2.43.0


From c99f43b271225793b5de1fcd24172e9a486f4118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:57 +0000
Subject: [PATCH 08/25] fix: output/core: raw mode needs a word on blanking
 clocks too

---
 litevideo/output/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 56bb3d6..a544c43 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -233,7 +233,7 @@ class VideoOutCore(Module, AutoCSR):
             initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
 
             # combine timing and dma
-            source.valid.eq(timing.source.valid & (~timing.source.de | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or de is low)
+            source.valid.eq(timing.source.valid & (~(timing.source.de | (mode == "raw")) | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or no data is needed: de is low, raw needs data on all clocks)
               # the "or de is low" thing seems like a hack to fix some edge case??
             # flush dma/timing when disabled
             If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
-- 
2.43.0


From 09ae3674e19212981c3505bc5121544489e79662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 09/25] fix: output/core: keep the DMA parameters for a whole
 frame

---
 litevideo/output/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index a544c43..7921900 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -57,9 +57,11 @@ class DMAReader(Module, AutoCSR):
         length = Signal(dram_port.aw)
         offset = Signal(dram_port.aw)
         self.delay_base = CSRStorage(32)
-        self.comb += [
-            base.eq(sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
-            length.eq(sink.length[shift:]), # need to noodle on what that expectation is, exactly...
+        start = [
+            # the parameters are kept for the whole frame: the timing generator can pull new ones (or see them
+            # disappear) at any point of our frame
+            NextValue(base, sink.base[shift:]),   # ignore the lower bits of the base + length to match the DMA's expectations
+            NextValue(length, sink.length[shift:]), # need to noodle on what that expectation is, exactly...
         ]
 
         if genlock_stream != None:
@@ -76,6 +78,7 @@ class DMAReader(Module, AutoCSR):
             fsm.act("IDLE",
                 NextValue(offset, 0),
                 If(sink.valid,  # if our parameters are valid, start reading
+                       *start,
                        NextState("READ")
                     ).Else(
                         dram_port.flush.eq(1),
@@ -95,6 +98,7 @@ class DMAReader(Module, AutoCSR):
             fsm.act("IDLE",
                 NextValue(offset, self.delay_base.storage),
                 If(sink.valid,  # if our parameters are valid, start reading
+                       *start,
                        NextState("READ")
                     ).Else(
                         dram_port.flush.eq(1),
-- 
2.43.0


From d36b65f712166de89245f111d4659065a3648cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:27 +0000
Subject: [PATCH 10/25] fix: output/core: finish flushing the DMA before a
 re-enabled picture starts

---
 litevideo/output/core.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index 7921900..dc3fe2b 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -120,7 +120,9 @@ class DMAReader(Module, AutoCSR):
                 )
             )
 
+        self.busy = Signal()  # words of a frame are being read or wait to be shown
         self.comb += [
+            self.busy.eq(fsm.ongoing("READ") | (self.dma.rsv_level != 0)),
             self.dma.sink.address.eq(base + offset),  # input to the DMA is an address of base + offset
             self.dma.source.connect(self.source)      # connect the DMA's output to the output of this module
         ]
@@ -229,18 +231,23 @@ class VideoOutCore(Module, AutoCSR):
         self.submodules.dma = dma = ClockDomainsRenamer(cd)(DMAReader(dram_port, fifo_depth, genlock_stream))
 
         # ctrl path
-        self.comb += timing.sink.valid.eq(initiator.source.valid) # if the CSR FIFO data is valid, timing may proceed
+        sync = getattr(self.sync, cd)
+        flush = Signal()  # disabled in the middle of the DMA's frame: the rest of it has to go before the next one starts
+        enable = Signal()
+        sync += flush.eq(dma.busy & (flush | ~initiator.source.valid))
+        self.comb += enable.eq(initiator.source.valid & ~flush)
+        self.comb += timing.sink.valid.eq(enable) # if the CSR FIFO data is valid, timing may proceed
 
         self.comb += [
             # dispatch initiator parameters to timing & dma
-            dma.sink.valid.eq(initiator.source.valid),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
-            initiator.source.ready.eq(timing.sink.ready), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
+            dma.sink.valid.eq(enable),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
+            initiator.source.ready.eq(timing.sink.ready & enable), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
 
             # combine timing and dma
             source.valid.eq(timing.source.valid & (~(timing.source.de | (mode == "raw")) | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or no data is needed: de is low, raw needs data on all clocks)
               # the "or de is low" thing seems like a hack to fix some edge case??
             # flush dma/timing when disabled
-            If(~initiator.source.valid,  # if the initiator's (e.g. CSR) outputs aren't valid
+            If(~enable,  # if the initiator's (e.g. CSR) outputs aren't valid
                 timing.source.ready.eq(1), # force the outputs to 1 to keep the DMA running
                 dma.source.ready.eq(1)
             ).Elif(source.valid & source.ready, # else if our DMA output stream has valid data, and is ready to accept addresses
@@ -273,7 +280,6 @@ class VideoOutCore(Module, AutoCSR):
             underflow_update_synchronizer.i.eq(self.underflow_update.re),
             underflow_update.eq(underflow_update_synchronizer.o)
         ]
-        sync = getattr(self.sync, cd)
         sync += [
             If(underflow_enable,
                 If(~source.valid,  # count whenever the source isn't valid...
-- 
2.43.0


From b6d579023a4c690578fb2f1ae7bf66a30d26416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:12 +0000
Subject: [PATCH 11/25] fix: output/pattern: pixels stay on offer until they
 are taken

---
 litevideo/output/pattern.py | 66 ++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/litevideo/output/pattern.py b/litevideo/output/pattern.py
index 63da58b..8ad66ad 100644
--- a/litevideo/output/pattern.py
+++ b/litevideo/output/pattern.py
@@ -17,16 +17,16 @@ class ColorBarsPattern(Module):
         # ctrl
         pix = Signal(hbits)
         bar = Signal(3)
+        ce = Signal()  # next pixel: the one on offer stays until it is taken
+        self.comb += ce.eq(sink.valid & (source.ready | ~source.valid))
         self.sync += [
-            If(sink.valid,
+            If(ce,
                 source.valid.eq(1),
-                If(source.ready,
-                    If(pix == (sink.hres[3:]-1),
-                        pix.eq(0),
-                        bar.eq(bar + 1)
-                    ).Else(
-                        pix.eq(pix + 1)
-                    )
+                If(pix == (sink.hres[3:]-1),
+                    pix.eq(0),
+                    bar.eq(bar + 1)
+                ).Else(
+                    pix.eq(pix + 1)
                 )
             )
         ]
@@ -50,7 +50,7 @@ class ColorBarsPattern(Module):
                 source.g.eq(color_bar[i][1]),
                 source.b.eq(color_bar[i][2])
             ]
-        self.sync += Case(bar, cases)
+        self.sync += If(ce, Case(bar, cases))
 
 
 class VerticalLinesPattern(Module):
@@ -63,12 +63,12 @@ class VerticalLinesPattern(Module):
         # # #
 
         parity = Signal()
+        ce = Signal()  # next pixel: the one on offer stays until it is taken
+        self.comb += ce.eq(sink.valid & (source.ready | ~source.valid))
         self.sync += [
-            If(sink.valid,
+            If(ce,
                 source.valid.eq(1),
-                If(source.ready,
-                    parity.eq(~parity)
-                ),
+                parity.eq(~parity),
                 If(parity,
                     source.r.eq(255),
                     source.g.eq(255),
@@ -93,28 +93,28 @@ class DotsPattern(Module):
 
         h = Signal(hbits)
         parity = Signal()
+        ce = Signal()  # next pixel: the one on offer stays until it is taken
+        self.comb += ce.eq(sink.valid & (source.ready | ~source.valid))
         self.sync += [
-            If(sink.valid,
+            If(ce,
                 source.valid.eq(1),
-                If(source.ready,
-                    If(h == (sink.hres-1),
-                        # don't change parity:
-                        # next line pixel will
-                        # be swapped.
-                        h.eq(0)
-                    ).Else(
-                        h.eq(h+1),
-                        parity.eq(~parity)
-                    )
+                If(h == (sink.hres-1),
+                    # don't change parity:
+                    # next line pixel will
+                    # be swapped.
+                    h.eq(0)
+                ).Else(
+                    h.eq(h+1),
+                    parity.eq(~parity)
+                ),
+                If(parity,
+                    source.r.eq(255),
+                    source.g.eq(255),
+                    source.b.eq(255)
+                ).Else(
+                    source.r.eq(0),
+                    source.g.eq(0),
+                    source.b.eq(0)
                 )
-            ),
-            If(parity,
-                source.r.eq(255),
-                source.g.eq(255),
-                source.b.eq(255)
-            ).Else(
-                source.r.eq(0),
-                source.g.eq(0),
-                source.b.eq(0)
             )
         ]
-- 
2.43.0


From f5f54b997ea3d9ac51ec305cd3c173a9a291b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:51 +0000
Subject: [PATCH 12/25] fix: input/dma: distinct event names, so that DMAs with
 several slots build

---
 litevideo/input/dma.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 1030e4a..e5ebc49 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -45,6 +45,7 @@ class _SlotArray(Module, AutoCSR):
         slots = [_Slot(addr_bits, alignment_bits) for i in range(nslots)]
         for n, slot in enumerate(slots):
             setattr(self.submodules, "slot"+str(n), slot)
+            slot.ev_source.name = "slot"+str(n)  # the event registers need distinct field names
             setattr(self.ev, "slot"+str(n), slot.ev_source)
         self.ev.finalize()
 
-- 
2.43.0


From 49d17d8ac4169dd59e4e9d8cbec6c07c48f72036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:51 +0000
Subject: [PATCH 13/25] fix: input/analysis: no word for an incomplete group of
 pixels when a frame starts

---
 litevideo/input/analysis.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 1bed19c..2d48987 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -198,7 +198,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(chroma_downsampler.source.valid & de,
                     [If(pack_counter == (pack_factor-i-1),
@@ -222,7 +221,6 @@ class FrameExtraction(Module, AutoCSR):
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
-                    cur_word_valid.eq(pack_counter == (pack_factor - 1)),
                     pack_counter.eq(0),
                 ).Elif(self.valid_i & de,
                     [If(pack_counter == (pack_factor-i-1),
-- 
2.43.0


From f958758f4f88e9f9cc3d36bdf7c84fe0b6019edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:01 +0000
Subject: [PATCH 14/25] fix: input: align the pixels with the data enable of
 the HDMI framing decoder

The framing decoder needs two clocks (channel decoding, FSM state), but the
pixels (and the data enable of DVI mode) were delayed by one only: with HDMI
framing each line lost its first pixel and ended with a blanking word.
---
 litevideo/input/__init__.py | 6 +++---
 litevideo/input/decoding.py | 5 ++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/__init__.py b/litevideo/input/__init__.py
index 5c566bd..1b8751c 100644
--- a/litevideo/input/__init__.py
+++ b/litevideo/input/__init__.py
@@ -105,9 +105,9 @@ class HDMIIn(Module, AutoCSR):
              #   timingdelay = ClockDomainsRenamer("pix")(timingdelay)
              #   setattr(self.submodules, name + "_timingdelay", timingdelay)
                 # self.comb += timingdelay.sink.eq(getattr(self, "self.chansync.data_out" + str(datan)))  # this code doesn't work. why???
-            self.submodules.data0_timingdelay = TimingDelayChannel(1)
-            self.submodules.data1_timingdelay = TimingDelayChannel(1)
-            self.submodules.data2_timingdelay = TimingDelayChannel(1)
+            self.submodules.data0_timingdelay = TimingDelayChannel(2)
+            self.submodules.data1_timingdelay = TimingDelayChannel(2)
+            self.submodules.data2_timingdelay = TimingDelayChannel(2)
 
             self.comb += [
                 self.data0_timingdelay.sink.eq(self.chansync.data_out0),
diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 6e607c3..62af846 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -197,8 +197,11 @@ class DecodeTERC4(Module, AutoCSR):
         dvimode_bit = Signal()
         self.specials += MultiReg(self.dvimode.storage, dvimode_bit)
         self.de_r = Signal()
+        de_r0 = Signal()
         self.sync.pix += [
-            self.de_r.eq(self.data_in0.de)  # delay one clock to match the HDMI pipe latency
+            # delay two clocks to match the HDMI pipe latency (channel decoding and FSM)
+            de_r0.eq(self.data_in0.de),
+            self.de_r.eq(de_r0)
         ]
         self.comb += [
             If(dvimode_bit,
-- 
2.43.0


From b86386816d3405ef9cec54c723df578ab9619c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:01 +0000
Subject: [PATCH 15/25] fix: input/decoding: a pixel that looks like a video
 guard band is a pixel

The video guard band has exactly two characters; a first pixel encoded as the
same three characters (R=0xab, G=0x55, B=0xab) was swallowed.
---
 litevideo/input/decoding.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/decoding.py b/litevideo/input/decoding.py
index 62af846..63fb109 100644
--- a/litevideo/input/decoding.py
+++ b/litevideo/input/decoding.py
@@ -317,7 +317,7 @@ class DecodeTERC4(Module, AutoCSR):
                 )
         fsm.act("GOING_VID",
                 If(all_vgb,
-                   NextState("GOING_VID")
+                   NextState("LEAVE_VGB")
                 ).Else(
                     NextState("VIDEO")
                 ),
@@ -326,6 +326,14 @@ class DecodeTERC4(Module, AutoCSR):
                 self.encrypting_video.eq(0),
                 self.de_hdmi.eq(0)
                 )
+        # a guard band has two characters: what follows is a pixel even if it looks like one of them
+        fsm.act("LEAVE_VGB",
+                NextState("VIDEO"),
+                self.encoding_terc4.eq(0),
+                self.encrypting_data.eq(0),
+                self.encrypting_video.eq(0),
+                self.de_hdmi.eq(0)
+                )
         fsm.act("VIDEO",
                 If(any_cvalid,
                     NextState("INIT")
-- 
2.43.0


From 0625e16642f44d933736506f2552447f296c36ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:09 +0000
Subject: [PATCH 16/25] fix: input/edid: do not take a byte written after the
 offset for an address

A data byte 0xa0/0xa1 following the offset was acknowledged, and the slave
then drove the bus, without any start condition.
---
 litevideo/input/edid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 04ccb15..83b60a9 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -227,7 +227,7 @@ class EDID(Module, AutoCSR):
         fsm.act("ACK_OFFSET2",
             zero_drv.eq(1),
             If(~scl_i,
-                NextState("RCV_ADDRESS")
+                NextState("WAIT_START")  # only a byte following a start is an address
             )
         )
 
-- 
2.43.0


From 4f206fee44d0fa48e474bc575c51cfab218866c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:26 +0000
Subject: [PATCH 17/25] fix: input/edid: release the bus when hot-plug is
 disabled during a read

The slave kept driving the data bit it was sending for ever, so that not even
the start of the next transaction could get through.
---
 litevideo/input/edid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/litevideo/input/edid.py b/litevideo/input/edid.py
index 83b60a9..6a2f7b2 100644
--- a/litevideo/input/edid.py
+++ b/litevideo/input/edid.py
@@ -178,7 +178,9 @@ class EDID(Module, AutoCSR):
 
         self.submodules.fsm = fsm = FSM()
 
-        fsm.act("WAIT_START")
+        fsm.act("WAIT_START",
+            data_drv_stop.eq(1)  # a read may have been interrupted by hpd_en
+        )
         fsm.act("RCV_ADDRESS",
             If(counter == 8,
                 If(din[1:] == 0x50,
-- 
2.43.0


From db4430a3fa0304a12bc4e9d31ae5ccd099ba282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:22 +0000
Subject: [PATCH 18/25] fix: terminal: a line has 800 clocks

The pixel counter ran from 0 to 800, one clock more than documented.
---
 litevideo/terminal/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index 8aac296..ab953cc 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -233,7 +233,7 @@ class Terminal(Module):
                 fx.eq(0),
                 text_addr.eq(text_addr_start)
             ),
-            If(pixel_counter == H_FRONT_PORCH,
+            If(pixel_counter == H_FRONT_PORCH - 1,
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
-- 
2.43.0


From 4024ce7ee7417817383bcbd3cd51c23636e83e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:37 +0000
Subject: [PATCH 19/25] fix: terminal: the vertical sync pulse lasts two whole
 lines

The line counter was cleared one clock after the end of the last line, so the
pulse was one clock shorter than the two documented lines.
---
 litevideo/terminal/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litevideo/terminal/core.py b/litevideo/terminal/core.py
index ab953cc..96eef53 100755
--- a/litevideo/terminal/core.py
+++ b/litevideo/terminal/core.py
@@ -237,6 +237,10 @@ class Terminal(Module):
                 # Initilize next line
                 pixel_counter.eq(0),
                 line_counter.eq(line_counter + 1),
+                If(line_counter == V_FRONT_PORCH - 1,
+                    # End of image
+                    line_counter.eq(0)
+                ),
 
                 # Font height is 16 pixels
                 fline.eq(fline + 1),
@@ -252,10 +256,6 @@ class Terminal(Module):
             ).Elif(line_counter < V_BACK_PORCH,
                 vsync.eq(1)
             ),
-            If(line_counter == V_FRONT_PORCH,
-                # End of image
-                line_counter.eq(0)
-            ),
             If(line_counter == V_BACK_PORCH - 1,
                 # Prepare generating next image data
                 fline.eq(0),
-- 
2.43.0


From d0c5306f79a982f9c8847d848f20cb848521ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:42 +0000
Subject: [PATCH 20/25] fix: output: delay the timings as much as the data in
 ycbcr422 mode

---
 litevideo/output/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/output/__init__.py b/litevideo/output/__init__.py
index 248efc4..3d694d5 100644
--- a/litevideo/output/__init__.py
+++ b/litevideo/output/__init__.py
@@ -58,7 +58,7 @@ class VideoOut(Module, AutoCSR):
         elif mode == "ycbcr422":
             ycbcr422to444 = ClockDomainsRenamer(cd)(YCbCr422to444())
             ycbcr2rgb = ClockDomainsRenamer(cd)(YCbCr2RGB())
-            timing_delay = TimingDelay(ycbcr422to444.latency + ycbcr2rgb.latency)
+            timing_delay = TimingDelay(1 + ycbcr422to444.latency + ycbcr2rgb.latency) # 1: core_source_data_d
             timing_delay = ClockDomainsRenamer(cd)(timing_delay)
             self.submodules += ycbcr422to444, ycbcr2rgb, timing_delay
 
-- 
2.43.0


From c58b0cca0532824f2f82e84d115ac85c8224d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:35 +0000
Subject: [PATCH 21/25] fix: output/hdmi/s6: VGA pads without a differential
 clock

---
 litevideo/output/hdmi/s6.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/hdmi/s6.py b/litevideo/output/hdmi/s6.py
index 10f9b3a..518922e 100644
--- a/litevideo/output/hdmi/s6.py
+++ b/litevideo/output/hdmi/s6.py
@@ -170,14 +170,15 @@ class S6HDMIOutClocking(Module, AutoCSR):
 
         # Drive HDMI clock pads
         hdmi_clk_se = Signal()
+        inverted = hasattr(pads, "clk_p") and hasattr(pads.clk_p, "inverted")
         self.specials += Instance("ODDR2",
                                   p_DDR_ALIGNMENT="NONE", p_INIT=0, p_SRTYPE="SYNC",
                                   o_Q=hdmi_clk_se,
                                   i_C0=ClockSignal("pix"),
                                   i_C1=~ClockSignal("pix"),
                                   i_CE=1,
-                                  i_D0=not hasattr(pads.clk_p, "inverted"),
-                                  i_D1=hasattr(pads.clk_p, "inverted"),
+                                  i_D0=not inverted,
+                                  i_D1=inverted,
                                   i_R=0, i_S=0)
         if hasattr(pads, "clk_p"):
             self.specials += Instance("OBUFDS", i_I=hdmi_clk_se,
-- 
2.43.0


From a48258ccf982d0e46571754e4c2a2d89b5e86c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 22/25] fix: output/core: with genlock, take the frame
 parameters once a frame

---
 litevideo/output/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/litevideo/output/core.py b/litevideo/output/core.py
index dc3fe2b..11d0cc9 100644
--- a/litevideo/output/core.py
+++ b/litevideo/output/core.py
@@ -109,13 +109,13 @@ class DMAReader(Module, AutoCSR):
                 If(self.dma.sink.ready, # if the LiteDRAMDMAReader shows it's ready for an address (e.g. taken the current address)
                     NextValue(offset, offset + 1), # increment the offset
                     If(offset == (length - 1),  # at the end...
-                        self.sink.ready.eq(1),  # indicate we're ready for more parameters
                         NextState("WAIT_SOF")
                     )
                 )
             )
             fsm.act("WAIT_SOF",  # wait till vsync/start of frame
                 If(self.sof,
+                   self.sink.ready.eq(1),  # indicate we're ready for more parameters
                    NextState("IDLE")
                 )
             )
@@ -241,7 +241,8 @@ class VideoOutCore(Module, AutoCSR):
         self.comb += [
             # dispatch initiator parameters to timing & dma
             dma.sink.valid.eq(enable),   # the DMA's parameter input "pushed" from the initiator, so connect the valids
-            initiator.source.ready.eq(timing.sink.ready & enable), # timing's parameters come from initiator, but this is "pulled" by timing so connect readys
+            # timing's parameters come from initiator, but this is "pulled" by timing so connect readys (with genlock, timing takes no parameters: the DMA pulls)
+            initiator.source.ready.eq((timing.sink.ready if genlock_stream is None else dma.sink.ready) & enable),
 
             # combine timing and dma
             source.valid.eq(timing.source.valid & (~(timing.source.de | (mode == "raw")) | dma.source.valid)), # our output is valid only when timing's outputs are valid and (when the dma's output is valid or no data is needed: de is low, raw needs data on all clocks)
-- 
2.43.0


From 7ce62fd2dbf95d14322cee2801ec5981a68d23d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 23/25] fix: DMA with a single slot did not build

---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index e5ebc49..5ec517d 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -50,7 +50,7 @@ class _SlotArray(Module, AutoCSR):
         self.ev.finalize()
 
         change_slot = Signal()
-        current_slot = Signal(max=nslots)
+        current_slot = Signal(max=max(nslots, 2))
         self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
-- 
2.43.0


From 775d07d8201fbe6613077c2a9c2f32b2d025a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:44 +0000
Subject: [PATCH 24/25] fix: FrameExtraction did not build when a word holds
 one pixel

---
 litevideo/input/analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/litevideo/input/analysis.py b/litevideo/input/analysis.py
index 2d48987..7ab078d 100644
--- a/litevideo/input/analysis.py
+++ b/litevideo/input/analysis.py
@@ -194,7 +194,7 @@ class FrameExtraction(Module, AutoCSR):
                                               chroma_downsampler.source.cb_cr)),
             pack_factor = word_width//16
             assert(pack_factor & (pack_factor - 1) == 0)  # only support powers of 2
-            self.pack_counter = pack_counter = Signal(max=pack_factor)
+            self.pack_counter = pack_counter = Signal(max=max(pack_factor, 2))
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
@@ -203,7 +203,7 @@ class FrameExtraction(Module, AutoCSR):
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[16*i:16*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
                     cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(pack_counter + 1)
+                    pack_counter.eq(pack_counter + 1) if pack_factor > 1 else []
                 )
             ]
         else: # rgb case...should probably rewrite to call out unsupported modes instead of defaulting to rgb
@@ -217,7 +217,7 @@ class FrameExtraction(Module, AutoCSR):
             self.comb += encoded_pixel.eq(Cat(self.b,self.g,self.r, dummy8)),
             pack_factor = word_width//32
             assert(pack_factor & (pack_factor - 1) == 0)  # only support powers of 2
-            self.pack_counter = pack_counter = Signal(max=pack_factor)
+            self.pack_counter = pack_counter = Signal(max=max(pack_factor, 2))
             self.sync.pix += [
                 cur_word_valid.eq(0),
                 If(new_frame,
@@ -226,7 +226,7 @@ class FrameExtraction(Module, AutoCSR):
                     [If(pack_counter == (pack_factor-i-1),
                         cur_word[32*i:32*(i+1)].eq(encoded_pixel)) for i in range(pack_factor)],
                     cur_word_valid.eq(pack_counter == (pack_factor - 1)),
-                    pack_counter.eq(pack_counter + 1)
+                    pack_counter.eq(pack_counter + 1) if pack_factor > 1 else []
                 )
             ]
 
-- 
2.43.0


From cc200228aeeb07af33823f1a54285bd22c14e6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 25/25] fix: DMA: the frame following a captured one could be
 dropped although a slot was loaded

---
 litevideo/input/dma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/litevideo/input/dma.py b/litevideo/input/dma.py
index 5ec517d..ca9a47c 100644
--- a/litevideo/input/dma.py
+++ b/litevideo/input/dma.py
@@ -51,7 +51,7 @@ class _SlotArray(Module, AutoCSR):
 
         change_slot = Signal()
         current_slot = Signal(max=max(nslots, 2))
-        self.sync += If(change_slot, [If(slot.address_valid, current_slot.eq(n))
+        self.sync += If(change_slot, [If(slot.address_valid & ~slot.address_done, current_slot.eq(n))
                          for n, slot in reversed(list(enumerate(slots)))])
         self.comb += change_slot.eq(~self.address_valid | self.address_done)
 
-- 
2.43.0

